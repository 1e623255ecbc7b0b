// Schedule perturbation: random short delays around mutex operations (replaces the symbols for this executable). Not used with ThreadSanitizer.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
inline std::atomic<int> g_perturb{0};      // probability in 1/1000 of a delay
inline thread_local unsigned long g_px = 0;
inline void maybe_delay() { int p = g_perturb.load(std::memory_order_relaxed); if (!p) return; if (!g_px) g_px = (unsigned long)pthread_self() * 2654435761ul | 1; g_px ^= g_px << 13; g_px ^= g_px >> 7; g_px ^= g_px << 17;
    if ((int)(g_px % 1000) < p) { if (g_px & 0x10000) sched_yield(); else usleep((g_px >> 20) % 150); } }
#ifndef TSAN_RUN
#ifndef PERTURB_ONLY_DELAY
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); maybe_delay(); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); maybe_delay(); return r; }
}
#endif
#endif
