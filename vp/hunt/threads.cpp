// Executable oracle for C28: the pthread calls of the library are counted, checked and sometimes made to fail (--wrap).
#include <pystd2026_threading.hpp>
#include <errno.h>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
struct W {
    long created = 0, joined = 0, detached = 0, attrs = 0, inits = 0, destroys = 0, locks = 0, unlocks = 0;
    bool held = false;
    pthread_t handle{};
    void *(*fn)(void *) = nullptr;
    void *ctx = nullptr;
    int fail_create = 0, fail_lock = 0, fail_attr = 0;
} w;
static volatile long ran;
static thread_local bool inside; // the sanitizer runtime's own calls (on other threads) are not counted
#define REAL(r, f, ...) extern "C" r __real_##f(__VA_ARGS__)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_attr_init, pthread_attr_t *);
REAL(int, pthread_attr_destroy, pthread_attr_t *);
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *);
REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
extern "C" {
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c) {
    if(w.fail_create)
        return EAGAIN;
    int r = __real_pthread_create(t, a, f, c);
    if(r == 0)
        ++w.created, w.handle = *t, w.fn = f, w.ctx = c;
    return r;
}
int __wrap_pthread_join(pthread_t t, void **p) {
    if(w.created != 1 || t != w.handle || w.joined + w.detached)
        fail("joins a thread that is not there");
    ++w.joined;
    return __real_pthread_join(t, p);
}
int __wrap_pthread_detach(pthread_t t) {
    if(w.created != 1 || t != w.handle || w.joined + w.detached)
        fail("detaches a thread that is not there");
    ++w.detached;
    return __real_pthread_detach(t);
}
int __wrap_pthread_attr_init(pthread_attr_t *a) {
    if(!inside)
        return __real_pthread_attr_init(a);
    if(w.fail_attr)
        return ENOMEM;
    ++w.attrs;
    return __real_pthread_attr_init(a);
}
int __wrap_pthread_attr_destroy(pthread_attr_t *a) {
    if(inside && --w.attrs < 0)
        fail("destroys attributes twice");
    return __real_pthread_attr_destroy(a);
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    ++w.inits;
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if(++w.destroys > w.inits)
        fail("destroys a mutex twice");
    if(w.held)
        fail("destroys a locked mutex");
    return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if(w.fail_lock)
        return EINVAL;
    if(w.held)
        return EDEADLK; // the oracle's mutexes check
    int r = __real_pthread_mutex_lock(m);
    if(r == 0)
        w.held = true, ++w.locks;
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if(w.fail_lock)
        return EINVAL;
    if(w.held)
        return EBUSY;
    int r = __real_pthread_mutex_trylock(m);
    if(r == 0)
        w.held = true, ++w.locks;
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if(!w.held)
        return EPERM;
    w.held = false;
    ++w.unlocks;
    return __real_pthread_mutex_unlock(m);
}
}
static void *body(void *p) {
    __atomic_add_fetch(&ran, 1, __ATOMIC_SEQ_CST);
    return p;
}
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
template<typename F> static bool throws(F f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}
static void threads() {
    w = W();
    char h[200] = "";
    int x;
    w.fail_create = below(8) == 0;
    w.fail_attr = below(12) == 0;
    bool refused = w.fail_create || w.fail_attr;
    long before = __atomic_load_n(&ran, __ATOMIC_SEQ_CST);
    int ops[4], n = below(4);
    for(int i = 0; i < n; ++i)
        ops[i] = below(2), strcat(h, ops[i] ? " join" : " detach");
    setcase("Thread,%s%s", refused ? " refused" : "", h);
    bool thrown = throws([&] {
        inside = true;
        struct Leave {
            ~Leave() { inside = false; }
        } leave;
        P::Thread t(body, &x);
        CHECK(!refused && w.created == 1 && w.fn == body && w.ctx == &x, "thread started wrongly");
        for(int i = 0; i < n; ++i) {
            bool r = throws([&] { ops[i] ? t.join() : t.detach(); });
            CHECK(r == (i > 0), "operation %d was %s", i, r ? "reported" : "not reported");
            CHECK(w.joined == (ops[0] == 1) && w.detached == (ops[0] == 0), "operation %d did something else", i);
        }
    });
    CHECK(thrown == refused, "start %s", thrown ? "reported" : "not reported");
    CHECK(w.attrs == 0, "attributes not released");
    CHECK(w.joined + w.detached == (refused ? 0 : 1), "joined %ld, detached %ld", w.joined, w.detached);
    if(!refused && w.detached == 0)
        CHECK(__atomic_load_n(&ran, __ATOMIC_SEQ_CST) > before || n > 0, "not waited for the thread");
    for(int k = 0; w.detached && k < 10000 && __atomic_load_n(&ran, __ATOMIC_SEQ_CST) == before; ++k)
        usleep(100);
}
struct Any {
    bool fails = false;
    long locks = 0, unlocks = 0;
    void lock() {
        if(fails)
            throw 1;
        ++locks;
    }
    void unlock() {
        CHECK(locks == unlocks + 1, "unlocks what is not locked");
        ++unlocks;
    }
};
static void mutexes() {
    w = W();
    char h[400] = "";
    {
        P::Mutex m;
        CHECK(w.inits == 1, "not initialised");
        for(int i = range(1, 8); i > 0; --i) {
            int op = below(4);
            w.fail_lock = below(6) == 0;
            static const char *nm[] = {"lock", "try_lock", "unlock", "guard"};
            strcat(strcat(h, " "), nm[op]);
            if(w.fail_lock)
                strcat(h, "(fails)");
            setcase("Mutex,%s", h);
            bool held = w.held, r = false, t;
            long l = w.locks, u = w.unlocks;
            switch(op) {
            case 0:
                t = throws([&] { m.lock(); });
                CHECK(t == (held || w.fail_lock) && w.held == (held || !w.fail_lock) && w.locks == l + !t && w.unlocks == u, "lock");
                break;
            case 1:
                t = throws([&] { r = m.try_lock(); });
                CHECK(t == (bool)w.fail_lock && r == (!w.fail_lock && !held) && w.held == (held || r) && w.locks == l + r && w.unlocks == u, "try_lock: %d", r);
                break;
            case 2:
                t = throws([&] { m.unlock(); });
                CHECK(t == !held && !w.held && w.unlocks == u + held && w.locks == l, "unlock");
                break;
            default: {
                int how = below(3);
                bool in = false;
                t = throws([&] {
                    P::LockGuard<P::Mutex> g(m);
                    in = true;
                    CHECK(w.held, "not locked inside");
                    if(how == 0)
                        throw 5;
                    if(how == 1)
                        return;
                    CHECK(w.unlocks == u, "unlocked inside");
                });
                bool ok = !held && !w.fail_lock;
                CHECK(in == ok && t == (!ok || how == 0), "guard entry");
                CHECK(w.held == held && w.locks == l + ok && w.unlocks == u + ok, "guard exit");
            }
            }
        }
        w.fail_lock = 0;
        if(w.held)
            m.unlock();
    }
    CHECK(w.destroys == 1, "destroyed %ld times", w.destroys);
    Any a;
    a.fails = below(2);
    int how = below(3);
    setcase("LockGuard of any lockable, %s, leaves %d", a.fails ? "lock throws" : "lock works", how);
    throws([&] {
        P::LockGuard<Any> g(a);
        if(how == 0)
            throw 5;
        if(how == 1)
            return;
        CHECK(a.locks == 1 && a.unlocks == 0, "inside");
    });
    CHECK(a.locks == (a.fails ? 0 : 1) && a.unlocks == a.locks, "locked %ld, unlocked %ld", a.locks, a.unlocks);
}
int main() {
    HUNT_MAIN_INIT();
    while(more()) {
        for(int i = 0; i < 20; ++i)
            threads();
        for(int i = 0; i < 200; ++i)
            mutexes();
    }
    sample("%s", cur);
    finish();
}
