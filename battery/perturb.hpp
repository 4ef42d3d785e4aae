// schedule perturbation: random delays around every mutex operation (only the test program's own process)
#pragma once
#ifdef PERTURB
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
namespace perturb {
inline unsigned seed() { static unsigned s = 12345; return __atomic_add_fetch(&s, 2654435769u, __ATOMIC_RELAXED); }
inline void delay() {
    static thread_local unsigned r = seed(); r = r * 1664525u + 1013904223u; unsigned k = (r >> 20) & 15;
    if (k == 0) { timespec t{0, long((r >> 8) % 60000)}; nanosleep(&t, nullptr); } else if (k < 5) sched_yield();
}
using fn = int (*)(pthread_mutex_t*);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { static perturb::fn f = (perturb::fn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); perturb::delay(); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { static perturb::fn f = (perturb::fn)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); perturb::delay(); return r; }
#endif
