// Schedule perturbation.
//
// 1. Link-time wrappers around the pthread mutex and condition-variable entry points that the
//    library's code calls: they yield or sleep with a chosen probability around every call.
// 2. A storm: a thread that interrupts random threads of the process with a signal whose handler
//    sleeps, i.e. preempts them at an arbitrary instruction (lock-free code has no other hook).
#pragma once
#include "pbt.h"

#include <condition_variable>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>

namespace perturb {

struct Config {
    std::atomic<uint32_t> per_mille{0};     // chance of a delay at each wrapped call
    std::atomic<uint32_t> max_us{200};
    std::atomic<uint64_t> seed{1};
    std::atomic<uint32_t> epoch{0};
};
inline Config& cfg() {
    static Config c;
    return c;
}
inline std::atomic<uint32_t>& thread_no() {
    static std::atomic<uint32_t> n{0};
    return n;
}
inline uint64_t rnd() {
    static thread_local uint64_t s = 0;
    static thread_local uint32_t epoch = ~0u;
    uint32_t e = cfg().epoch.load(std::memory_order_relaxed);
    if (epoch != e) {
        epoch = e;
        s = pbt::mix(cfg().seed.load(std::memory_order_relaxed), thread_no().fetch_add(1, std::memory_order_relaxed));
    }
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline void raw_sleep_us(uint64_t us) {
    struct timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
    int e = errno;
    syscall(SYS_nanosleep, &ts, nullptr);
    errno = e;
}
inline void point() {
    uint32_t p = cfg().per_mille.load(std::memory_order_relaxed);
    if (!p) return;
    uint64_t r = rnd();
    if (r % 1000 >= p) return;
    r >>= 20;
    switch (r % 4) {
        case 0: raw_sleep_us((r >> 4) % (cfg().max_us.load(std::memory_order_relaxed) + 1)); break;
        case 1: for (volatile int i = 0; i < int((r >> 4) % 3000); ++i) {} break;
        default: sched_yield(); break;
    }
}

// For one case: delays on, off again at the end.
struct Scope {
    Scope(uint64_t seed, unsigned per_mille, unsigned max_us = 200) {
        thread_no() = 0;
        cfg().seed = seed;
        cfg().max_us = max_us;
        cfg().epoch.fetch_add(1);
        cfg().per_mille = per_mille;
    }
    ~Scope() { cfg().per_mille = 0; }
};

inline std::atomic<uint64_t>& storm_rng() {
    static std::atomic<uint64_t> s{1};
    return s;
}
inline void storm_handler(int) {
    uint64_t r = storm_rng().fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed);
    r ^= r >> 29;
    r *= 0xbf58476d1ce4e5b9ull;
    r ^= r >> 32;
    if (r & 1) { int e = errno; sched_yield(); errno = e; }
    else raw_sleep_us((r >> 8) % 400);
}

struct Storm {
    std::atomic<bool> stop{false};
    std::thread t;
    // without restart, calls that a signal interrupts fail with EINTR
    explicit Storm(uint64_t seed, bool on = true, bool restart = true) {
        if (!on) return;
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = storm_handler;
        sa.sa_flags = restart ? SA_RESTART : 0;
        sigaction(SIGUSR2, &sa, nullptr);
        storm_rng() = seed | 1;
        t = std::thread([this, seed] {
            sigset_t all;
            sigfillset(&all);
            pthread_sigmask(SIG_BLOCK, &all, nullptr);
            pbt::Rng rng(seed);
            pid_t pid = getpid(), self = pid_t(syscall(SYS_gettid));
            std::vector<pid_t> tids;
            unsigned n = 0;
            while (!stop.load(std::memory_order_relaxed)) {
                if (n++ % 16 == 0) {
                    tids.clear();
                    if (DIR* d = opendir("/proc/self/task")) {
                        while (dirent* e = readdir(d)) {
                            pid_t x = pid_t(atoi(e->d_name));
                            if (x > 0 && x != self) tids.push_back(x);
                        }
                        closedir(d);
                    }
                }
                if (!tids.empty()) syscall(SYS_tgkill, pid, tids[rng.below(tids.size())], SIGUSR2);
                raw_sleep_us(5 + rng.below(60));
            }
        });
    }
    ~Storm() {
        if (t.joinable()) {
            stop = true;
            t.join();
        }
    }
};

// Confines the process to n CPUs, so that threads preempt each other; 0 lifts it.
inline void confine(unsigned n) {
    static cpu_set_t orig;
    static bool have = false;
    if (!have) { sched_getaffinity(0, sizeof orig, &orig); have = true; }
    cpu_set_t s = orig;
    if (n) {
        CPU_ZERO(&s);
        unsigned k = 0;
        unsigned skip = unsigned(getpid()) % 8;     // spread the worker processes
        for (int round = 0; round < 2 && k < n; ++round)
            for (int c = 0; c < CPU_SETSIZE && k < n; ++c)
                if (CPU_ISSET(c, &orig) && !CPU_ISSET(c, &s)) {
                    if (round == 0 && skip) { --skip; continue; }
                    CPU_SET(c, &s);
                    ++k;
                }
    }
    sched_setaffinity(0, sizeof s, &s);     // new threads inherit it
}

}   // namespace perturb

#ifdef PERTURB_WRAP
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    perturb::point();
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    perturb::point();
    return r;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    perturb::point();
    int r = __real_pthread_cond_clockwait(c, m, k, t);
    perturb::point();
    return r;
}
int __wrap_sem_wait(sem_t* s) {
    int r = __real_sem_wait(s);
    perturb::point();
    return r;
}
int __wrap_sem_post(sem_t* s) {
    perturb::point();
    int r = __real_sem_post(s);
    perturb::point();
    return r;
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
    perturb::point();
    __real__ZNSt18condition_variable10notify_oneEv(c);
    perturb::point();
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) {
    perturb::point();
    __real__ZNSt18condition_variable10notify_allEv(c);
    perturb::point();
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* l) {
    perturb::point();
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
    perturb::point();
}
}
#endif
