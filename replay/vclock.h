// The clocks the code under test reads: real time plus an offset the program moves (replaces libstdc++'s definitions for this executable).
#pragma once
#include <atomic>
#include <chrono>
#include <time.h>
inline std::atomic<long long> g_clock_off{0};
inline void advance_clock(double s) { g_clock_off += (long long)(s * 1e9); }
namespace std { namespace chrono { inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(chrono::nanoseconds((long long)t.tv_sec * 1000000000ll + t.tv_nsec + g_clock_off.load()))); }
    steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration((long long)t.tv_sec * 1000000000ll + t.tv_nsec + g_clock_off.load())); }
} } }
