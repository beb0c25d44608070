// Real threads that make the library's calls one at a time, as the explorer says.
#pragma once
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <exception>
struct Threads {
    struct T { pthread_t id; sem_t go, done; bool up, quit; mc::Term (*fn)(void *); void *arg; mc::Term res; std::exception_ptr ex; char alt[32768]; };
    static const int MAX = 4;
    T t[MAX];
    int cur = 0;             // who makes the next call; 0: the main thread
    bool fleeting = false;   // every call is made by a thread of its own
    static Threads *self;
    static void *loop(void *p)
    {
        T &x = *(T *)p;
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = x.alt; ss.ss_size = sizeof x.alt; sigaltstack(&ss, NULL);
        for (;;) {
            while (sem_wait(&x.go)) {}
            if (x.quit) break;
            x.ex = nullptr;
            try { x.res = x.fn(x.arg); } catch (...) { x.ex = std::current_exception(); }
            sem_post(&x.done);
        }
        memset(&ss, 0, sizeof ss); ss.ss_flags = SS_DISABLE; sigaltstack(&ss, NULL);
        return NULL;
    }
    void start(int i)
    {
        T &x = t[i]; x.up = true; x.quit = false;
        sem_init(&x.go, 0, 0); sem_init(&x.done, 0, 0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
        if (pthread_create(&x.id, &a, loop, &x)) mc::fail("harness: no thread");
        pthread_attr_destroy(&a);
    }
    void stop(int i) { T &x = t[i]; if (!x.up) return; x.quit = true; sem_post(&x.go); pthread_join(x.id, NULL); sem_destroy(&x.go); sem_destroy(&x.done); x.up = false; }
    static mc::Term there(mc::Term (*fn)(void *), void *arg)
    {
        Threads &s = *self; int i = s.fleeting ? 1 : s.cur;
        if (i == 0 && !s.fleeting) return fn(arg);
        if (!s.t[i].up) s.start(i);
        T &x = s.t[i]; x.fn = fn; x.arg = arg;
        sem_post(&x.go);
        while (sem_wait(&x.done)) {}
        mc::Term r = x.res; std::exception_ptr ex = x.ex; x.ex = nullptr;
        if (s.fleeting) s.stop(i);
        if (ex) std::rethrow_exception(ex);
        return r;
    }
    Threads() { for (auto &x : t) x.up = false; self = this; mc::remote = there; }
    ~Threads() { for (int i = 0; i < MAX; i++) stop(i); mc::remote = nullptr; }
};
Threads *Threads::self;
