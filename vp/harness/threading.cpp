// Contracts of Thread, Mutex and LockGuard (C28) over the contracts of pthread, which the functions below state:
// each may fail where the real one may, and counts what it was asked to do.
#include <pystd2026_threading.hpp>
#include <errno.h>
#include "vp.hpp"
namespace P = pystd2026;
struct World {
    uint64_t created, joined, detached, attr_init, attr_destroy;
    pthread_t handle, joined_handle;
    void *(*fn)(void *);
    void *ctx;
    bool refuses;
    // the one mutex of these contracts
    const void *mutex;
    uint64_t inits, destroys, locks, unlocks;
    bool held, other_holds;
};
static World w;
extern "C" {
char *strerror(int) noexcept {
    static char t[2];
    return t;
}
int pthread_attr_init(pthread_attr_t *) noexcept {
    if(vp_bool())
        return ENOMEM;
    ++w.attr_init;
    return 0;
}
int pthread_attr_destroy(pthread_attr_t *) noexcept {
    vp_assert(w.attr_init == w.attr_destroy + 1, "only initialised attributes are destroyed");
    ++w.attr_destroy;
    return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *c) noexcept {
    vp_assert(w.attr_init == w.attr_destroy + 1, "the attributes are valid");
    if(w.refuses)
        return EAGAIN;
    ++w.created;
    w.handle = vp_u64();
    *t = w.handle;
    w.fn = f;
    w.ctx = c;
    return 0;
}
int pthread_join(pthread_t t, void **) {
    vp_assert(w.created == 1 && t == w.handle, "the thread that was started is joined");
    vp_assert(w.joined == 0 && w.detached == 0, "a thread is joined or detached once");
    ++w.joined;
    return 0;
}
int pthread_detach(pthread_t t) noexcept {
    vp_assert(w.created == 1 && t == w.handle, "the thread that was started is detached");
    vp_assert(w.joined == 0 && w.detached == 0, "a thread is joined or detached once");
    ++w.detached;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept {
    w.mutex = m;
    ++w.inits;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
    vp_assert(w.mutex == m && w.inits == w.destroys + 1, "an initialised mutex is destroyed once");
    if(w.held || w.other_holds)
        return EBUSY;
    ++w.destroys;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    vp_assert(w.mutex == m && w.inits == w.destroys + 1, "the mutex is valid");
    if(w.held)
        return EDEADLK;
    if(vp_bool())
        return EINVAL;
    w.other_holds = false; // waits until it is free
    w.held = true;
    ++w.locks;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    vp_assert(w.mutex == m && w.inits == w.destroys + 1, "the mutex is valid");
    if(w.held || w.other_holds)
        return EBUSY;
    if(vp_bool())
        return EINVAL;
    w.held = true;
    ++w.locks;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    vp_assert(w.mutex == m && w.inits == w.destroys + 1, "the mutex is valid");
    if(!w.held)
        return EPERM;
    w.held = false;
    ++w.unlocks;
    return 0;
}
}
static void reset() {
    w.created = w.joined = w.detached = w.attr_init = w.attr_destroy = 0;
    w.inits = w.destroys = w.locks = w.unlocks = 0;
    w.held = w.other_holds = w.refuses = false;
}
static void *body(void *p) { return p; }
// every sequence of joins and detaches up to the destructor
void spec_thread_life() {
    reset();
    char c;
    w.refuses = vp_bool();
    uint64_t done = 0;
    try {
        P::Thread t(body, &c);
        vp_assert(w.created == 1 && w.fn == body && w.ctx == &c, "one thread runs the given function on the given context");
        vp_assert(!w.refuses && w.attr_init == w.attr_destroy, "attributes are released");
        for(int i = 0; i < 3; ++i) {
            uint64_t k = vp_split(vp_u64() % 3, 3);
            bool thrown = false;
            try {
                if(k == 1)
                    t.join();
                else if(k == 2)
                    t.detach();
            } catch(...) {
                thrown = true;
            }
            if(k) {
                vp_assert(thrown == (done != 0), "exactly a second join or detach is reported");
                if(!done)
                    vp_assert(w.joined == (k == 1) && w.detached == (k == 2), "joined as asked");
                done = 1;
            }
        }
    } catch(...) {
        vp_assert(w.created == 0, "a thread that could not be started is reported");
        vp_assert(w.attr_init == w.attr_destroy, "attributes are released");
        return;
    }
    vp_assert(w.joined + w.detached == 1, "a thread is joined or detached exactly once");
    if(!done)
        vp_assert(w.joined == 1, "the destructor waits for the thread");
}
void spec_thread_invariant() {
    // the destructor from both reachable states
    reset();
    w.created = 1;
    w.handle = vp_u64();
    bool fin = vp_bool();
    {
        alignas(P::Thread) char mem[sizeof(P::Thread)];
        P::Thread *t = (P::Thread *)mem;
        t->thread = w.handle;
        t->thread_is_finalized = fin;
        t->~Thread();
    }
    vp_assert(w.joined == (fin ? 0u : 1u) && w.detached == 0, "the destructor joins exactly a thread that nobody accounted for");
}
// one operation from every reachable state
void spec_thread_step() {
    reset();
    w.created = 1;
    w.handle = vp_u64();
    bool fin = vp_bool(), thrown = false, join = vp_bool();
    if(fin) {
        w.joined = vp_bool();
        w.detached = 1 - w.joined;
    }
    uint64_t before = w.joined;
    alignas(P::Thread) char mem[sizeof(P::Thread)];
    P::Thread *t = (P::Thread *)mem;
    t->thread = w.handle;
    t->thread_is_finalized = fin;
    try {
        if(join)
            t->join();
        else
            t->detach();
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == fin, "exactly a second join or detach is reported");
    vp_assert(w.joined + w.detached == 1 && t->thread_is_finalized, "accounted for exactly once");
    vp_assert(w.joined == (fin ? before : (uint64_t)join), "as asked");
}
void spec_mutex_life() {
    reset();
    {
        P::Mutex m;
        vp_assert(w.inits == 1 && w.mutex == &m.m, "initialised");
        w.other_holds = vp_bool();
        bool held = false;
        for(int i = 0; i < 3; ++i) {
            uint64_t k = vp_split(vp_u64() % 4, 4);
            uint64_t locks = w.locks, unlocks = w.unlocks;
            bool busy = w.held || w.other_holds, thrown = false, r = false;
            try {
                if(k == 1)
                    m.lock();
                else if(k == 2)
                    r = m.try_lock();
                else if(k == 3)
                    m.unlock();
            } catch(...) {
                thrown = true;
            }
            if(k == 1)
                vp_assert(w.held && w.locks == locks + !thrown && (thrown || !held) || thrown && w.held == held, "lock returns with the mutex held or reports");
            if(k == 2) {
                vp_assert(r == (w.locks == locks + 1), "try_lock is true exactly when it locked");
                vp_assert(!busy || !thrown && !r, "a mutex that is taken is not an error for try_lock");
            }
            if(k == 3)
                vp_assert(thrown == !held && w.unlocks == unlocks + held, "unlock releases what is held or reports");
            if(k != 1 && k != 2)
                vp_assert(w.locks == locks, "nothing else locks");
            if(k != 3)
                vp_assert(w.unlocks == unlocks, "nothing else unlocks");
            held = w.held;
        }
        if(w.held)
            m.unlock();
        w.other_holds = false;
    }
    vp_assert(w.destroys == 1, "destroyed once");
}
struct Any { // any lockable
    bool fails = false;
    uint64_t locks = 0, unlocks = 0;
    void lock() {
        if(fails)
            throw 1;
        ++locks;
    }
    void unlock() {
        vp_assert(locks == unlocks + 1, "only what is locked is unlocked");
        ++unlocks;
    }
};
void spec_lockguard() {
    Any a;
    a.fails = vp_bool();
    bool leaves = vp_bool(), inside = false, caught = false;
    try {
        P::LockGuard<Any> g(a);
        inside = true;
        vp_assert(a.locks == 1 && a.unlocks == 0, "locked inside the guard");
        if(leaves)
            throw 2;
        vp_assert(a.unlocks == 0, "still locked");
    } catch(...) {
        caught = true;
    }
    vp_assert(inside == !a.fails && caught == (a.fails || leaves), "exceptions pass through");
    vp_assert(a.locks == a.unlocks && a.locks == (a.fails ? 0u : 1u), "unlocked exactly as often as locked, on every exit path");
}
void spec_lockguard_mutex() {
    reset();
    bool leaves = vp_bool(), inside = false;
    {
        P::Mutex m;
        w.other_holds = vp_bool();
        try {
            P::LockGuard<P::Mutex> g(m);
            inside = true;
            vp_assert(w.held, "locked inside the guard");
            if(leaves)
                throw 2;
        } catch(...) {
        }
        vp_assert(!w.held && w.locks == w.unlocks && w.locks == (inside ? 1u : 0u), "unlocked exactly as often as locked, on every exit path");
        w.other_holds = false;
    }
    vp_assert(w.destroys == 1, "destroyed once");
}
