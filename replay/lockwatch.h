// Records the order in which each thread acquires mutexes (replaces the pthread symbols for this executable).
#pragma once
#define PERTURB_ONLY_DELAY
#include "perturb.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
struct LW { pthread_mutex_t* held[512]; int n = 0; bool in = false; };
inline thread_local LW t_lw;
inline std::atomic<bool> g_lw_on{false};
inline std::map<void*, std::set<void*>>* g_edges = nullptr; inline std::map<void*, std::string>* g_names = nullptr;
inline pthread_mutex_t g_lw_mx = PTHREAD_MUTEX_INITIALIZER;
inline std::string lw_name(void* m) { if (g_names && g_names->count(m)) return (*g_names)[m]; char b[40]; snprintf(b, sizeof b, "mutex %p", m); return b; }
void lw_fail(const char* what, void* a, void* b);
static int (*r_lock)(pthread_mutex_t*) = nullptr; static int (*r_unlock)(pthread_mutex_t*) = nullptr; static int (*r_try)(pthread_mutex_t*) = nullptr; static int (*r_wait)(pthread_cond_t*, pthread_mutex_t*) = nullptr;
static void lw_init() { if (r_lock) return; r_unlock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); r_try = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); r_wait = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); r_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { lw_init(); LW& w = t_lw; maybe_delay();
    if (g_lw_on && !w.in && m != &g_lw_mx) { w.in = true; for (int i = 0; i < w.n; i++) if (w.held[i] == m) lw_fail("a thread acquires a lock it already holds", m, m);
        if (w.n && g_edges) { r_lock(&g_lw_mx); if (g_edges) for (int i = 0; i < w.n; i++) (*g_edges)[w.held[i]].insert(m); r_unlock(&g_lw_mx); } w.in = false; }
    int r = r_lock(m); if (!w.in && w.n < 512) w.held[w.n++] = m; return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) { lw_init(); int r = r_try(m); LW& w = t_lw; if (r == 0 && !w.in && w.n < 512) w.held[w.n++] = m; return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { lw_init(); LW& w = t_lw; for (int i = w.n - 1; i >= 0 && !w.in; i--) if (w.held[i] == m) { for (int j = i; j + 1 < w.n; j++) w.held[j] = w.held[j + 1]; w.n--; break; } int r = r_unlock(m); maybe_delay(); return r; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { lw_init(); LW& w = t_lw; if (g_lw_on && !w.in) for (int i = 0; i < w.n; i++) if (w.held[i] != m) lw_fail("a thread waits on a condition variable while holding another lock", w.held[i], m); return r_wait(c, m); }
}
