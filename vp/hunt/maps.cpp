// Executable oracle for C10: random histories of HashMap and HashSet against a plain table.
#include <pystd2026.hpp>
#include <pystd2026_hashtable.hpp>
#include "elem.hpp"
#include <signal.h>
namespace P = pystd2026;
using namespace hunt;
static char t_[3500];
static size_t tn;
static void tr(const char *op, long a = -1, long b = -1) {
    if(!op) {
        tn = 0;
        t_[0] = 0;
    } else if(tn < sizeof t_ - 80)
        tn += b >= 0 ? sprintf(t_ + tn, "%s(%ld,%ld) ", op, a, b) : a >= 0 ? sprintf(t_ + tn, "%s(%ld) ", op, a) : sprintf(t_ + tn, "%s ", op);
    ++cases;
    strncpy(cur, t_, sizeof cur - 1);
}
static void stuck(int) { fail("does not terminate"); }
// a hash algorithm under the control of the test: colliding, wrapping around, arbitrary (the salt is left out)
static int mode;
struct Ctl {
    size_t v = 0;
    void feed_bytes(const char *b, size_t n) noexcept {
        if(n == 8)
            return;
        unsigned k = 0;
        for(size_t i = 0; i < n; ++i)
            k = k * 31 + (unsigned char)b[i];
        if(n == 4)
            memcpy(&k, b, 4);
        switch(mode) {
        case 0: v = 0; break;
        case 1: v = ~0ull ^ (k % 3); break;
        case 2: v = k; break;
        case 3: v = k % 2 ? 15 : 14; break;
        case 4: v = (uint64_t)(k % 5) << 60 | (k % 3); break;
        case 5: v = k * 0x9E3779B97F4A7C15ull; break;
        default: v = (k & 3) * 64 + 1; // differs only beyond the stored bits
        }
    }
    size_t get_hash_value() const noexcept { return v; }
    void reset() noexcept { v = 0; }
};
template<typename H> struct P::HashFeeder<H, Elem> {
    void operator()(H &h, const Elem &e) noexcept {
        e.need("hash");
        h.feed_hash((uint32_t)e.key);
    }
};
static const int NK = 400;
static int keyof(const Elem &e) {
    e.need("read");
    return e.key;
}
static int keyof(int v) { return v; }
static int keyof(const P::CString &s) { return atoi(s.c_str()); }
template<typename T> static T mk(int v) { return T(v); }
template<> P::CString mk<P::CString>(int v) {
    char b[64];
    snprintf(b, sizeof b, "%d and more", v);
    return P::CString(b);
}
struct Model {
    int v[NK]; // 0: absent
    size_t n() const {
        size_t r = 0;
        for(int x : v)
            r += x != 0;
        return r;
    }
};
static Model M[3];
template<typename Map, typename K> static void check(Map &m, const Model &x, const char *op, int keys) {
    if(m.size() != x.n() || m.is_empty() != (x.n() == 0))
        fail("%s: size is %zu, expected %zu", op, m.size(), x.n());
    for(int t = 0; t < 6; ++t) {
        int k = (int)below(keys);
        K key = mk<K>(k + 1);
        auto *p = m.lookup(key);
        if((p != nullptr) != (x.v[k] != 0) || m.contains(key) != (x.v[k] != 0))
            fail("%s: key %d is %s", op, k, p ? "present but was removed or never inserted" : "lost");
        if(p && keyof(*p) != x.v[k])
            fail("%s: key %d has value %d, expected %d", op, k, keyof(*p), x.v[k]);
        bool thrown = false;
        try {
            if(keyof(m.at(key)) != x.v[k])
                fail("%s: at() gives another value", op);
        } catch(...) {
            thrown = true;
        }
        if(thrown != (x.v[k] == 0))
            fail("%s: at() of %s key %s", op, x.v[k] ? "a present" : "an absent", thrown ? "throws" : "does not throw");
    }
}
template<typename It, typename E, typename F> static void walk(It b, E e, F f, const Model &x, const char *op) {
    static bool seen[NK];
    memset(seen, 0, sizeof seen);
    size_t n = 0;
    for(; b != e; ++b) {
        int k = f(b);
        if(k < 0 || k >= NK || !x.v[k])
            fail("%s: iteration yields key %d, which is not there", op, k);
        if(seen[k])
            fail("%s: iteration yields key %d twice", op, k);
        seen[k] = true;
        ++n;
    }
    if(n != x.n())
        fail("%s: iteration yields %zu of %zu entries", op, n, x.n());
}
template<typename K, typename V, typename H> static void maps() {
    tr(nullptr);
    {
        using Map = P::HashMap<K, V, H>;
        Map m[3];
        memset(M, 0, sizeof M);
        mode = (int)below(7);
        unsigned steps = below(5) == 0 ? range(100, 600) : range(1, 60);
        int keys = below(3) == 0 ? NK : (int)range(1, 30);
        if(mode == 0 && keys > 60)
            keys = 60;
        unsigned bias = below(4);
        bool filling = true; // bias 3: fill, then drain, then fill again
        if(bias == 3 && mode != 0) {
            keys = (int)range(20, NK);
            steps = range(keys, 3 * keys);
        }
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = bias == 3 || below(4) ? 0 : below(3), b = below(3);
            int k = (int)below(keys), v = (int)range(1, 9999);
            Model &x = M[a];
            Map &w = m[a];
            const char *op = "?";
            K key = mk<K>(k + 1);
            unsigned o = below(24);
            if(o >= 16)
                o = bias == 0 ? 0 : bias == 1 ? 4 : o % 2 ? 0 : 4;
            if(bias == 3 && below(40)) {
                o = filling ? 0 : 4;
                for(int t = 0; t < keys && (x.v[k] != 0) == filling; ++t)
                    k = (k + 7) % keys;
                filling = filling ? x.n() < (unsigned)keys * 9 / 10 : x.n() < (unsigned)keys / 10;
                key = mk<K>(k + 1);
            }
            switch(o) {
            case 0:
            case 1:
            case 2: {
                tr(op = "insert", k, v);
                V &r = w.insert(key, mk<V>(v));
                x.v[k] = v;
                if(keyof(r) != v || &r != w.lookup(key))
                    fail("insert does not return the new value");
                break;
            }
            case 3:
            case 4:
            case 5:
                tr(op = "remove", k);
                w.remove(key);
                x.v[k] = 0;
                break;
            case 6: {
                tr(op = "index", k);
                V &r = w[key];
                if(x.v[k]) {
                    if(keyof(r) != x.v[k])
                        fail("operator[] gives %d, expected %d", keyof(r), x.v[k]);
                } else if(keyof(r) != keyof(V{}))
                    fail("operator[] of an absent key is not a default value");
                r = mk<V>(v);
                x.v[k] = v;
                break;
            }
            case 7: // through a reference to a key of the table itself
                for(auto it = w.begin(); it != w.end(); ++it) {
                    int j = keyof(*(*it).key) - 1;
                    if(below(3))
                        continue;
                    if(below(2)) {
                        tr(op = "insert own key", j, v);
                        w.insert(*(*it).key, mk<V>(v));
                        x.v[j] = v;
                    } else {
                        tr(op = "remove own key", j);
                        w.remove(*(*it).key);
                        x.v[j] = 0;
                    }
                    break;
                }
                break;
            case 8:
                if(below(4) == 0) {
                    tr(op = "clear", a);
                    w.clear();
                    memset(&x, 0, sizeof x);
                }
                break;
            case 9:
                if(a != b) {
                    tr(op = "move", a, b);
                    w = P::move(m[b]);
                    x = M[b];
                    memset(&M[b], 0, sizeof x);
                    m[b].clear();
                    check<Map, K>(m[b], M[b], "moved from, then cleared", keys);
                }
                break;
            case 10: {
                tr(op = "move construct", a);
                Map t(P::move(w));
                check<Map, K>(t, x, op, keys);
                w = P::move(t);
                break;
            }
            case 11: {
                tr(op = "reuse after move", a);
                {
                    Map t(P::move(w));
                    memset(&x, 0, sizeof x);
                    w.clear();
                }
                w.insert(key, mk<V>(v));
                x.v[k] = v;
                break;
            }
            case 12: // many at once
                if(mode != 0) {
                    unsigned n = below(40);
                    tr(op = "many", n);
                    for(unsigned i = 0; i < n; ++i) {
                        int j = (k + i) % keys;
                        w.insert(mk<K>(j + 1), mk<V>(v + i));
                        x.v[j] = v + i;
                    }
                }
                break;
            case 13: {
                unsigned n = below(40);
                tr(op = "churn", k, n);
                for(unsigned i = 0; i < n; ++i) {
                    int j = (k + i) % keys;
                    w.insert(mk<K>(j + 1), mk<V>(v));
                    w.remove(mk<K>(j + 1));
                    x.v[j] = 0;
                }
                break;
            }
            default:
                tr(op = "iterate", a);
                walk(w.begin(), w.end(), [](auto &it) { return keyof(*(*it).key) - 1; }, x, op);
                for(auto it = w.begin(); it != w.end(); ++it)
                    if(keyof(*(*it).value) != x.v[keyof(*(*it).key) - 1])
                        fail("iteration yields a wrong value");
            }
            check<Map, K>(w, x, op, keys);
        }
        for(int i = 0; i < 3; ++i)
            for(int k = 0; k < keys; ++k) {
                auto *p = m[i].lookup(mk<K>(k + 1));
                if((p ? keyof(*p) : 0) != M[i].v[k])
                    fail("at the end: key %d has value %d, expected %d (0: absent)", k, p ? keyof(*p) : 0, M[i].v[k]);
            }
    }
    if(Elem::live)
        fail("%ld elements are never destroyed", Elem::live);
}
template<typename K, typename H> static void sets() {
    tr(nullptr);
    {
        P::HashSet<K, H> w;
        Model &x = M[0];
        memset(&x, 0, sizeof x);
        mode = (int)below(7);
        int keys = mode == 0 || below(2) ? (int)range(1, 40) : NK;
        unsigned steps = range(1, 150);
        for(unsigned s = 0; s < steps; ++s) {
            int k = (int)below(keys);
            K key = mk<K>(k + 1);
            switch(below(8)) {
            case 0:
            case 1:
            case 2: {
                tr("insert", k);
                if(w.insert(key).second != (x.v[k] == 0))
                    fail("insert tells the wrong thing");
                x.v[k] = 1;
                break;
            }
            case 3:
            case 4:
            case 5:
                tr("remove", k);
                w.remove(key);
                x.v[k] = 0;
                break;
            case 6:
                if(below(6) == 0) {
                    tr("clear");
                    w.clear();
                    memset(&x, 0, sizeof x);
                }
                break;
            default: {
                tr("move");
                P::HashSet<K, H> t(P::move(w));
                w = P::move(t);
            }
            }
            if(w.contains(key) != (x.v[k] != 0))
                fail("key %d is %s", k, x.v[k] ? "lost" : "still there");
            if(w.size() != x.n() || w.is_empty() != (x.n() == 0))
                fail("size is %zu, expected %zu", w.size(), x.n());
#ifndef NOSETITER
            if(below(4) == 0)
                walk(w.begin(), w.end(), [](auto &it) { return keyof(*it) - 1; }, x, "set");
#endif
        }
        for(int k = 0; k < keys; ++k)
            if(w.contains(mk<K>(k + 1)) != (x.v[k] != 0))
                fail("at the end: key %d is %s", k, x.v[k] ? "lost" : "still there");
    }
    if(Elem::live)
        fail("%ld elements are never destroyed", Elem::live);
}
int main() {
    init();
    signal(SIGALRM, stuck);
    do {
        alarm(20);
        switch(below(8)) {
        case 0: maps<Elem, Elem, Ctl>(); break;
        case 1: maps<int, Elem, Ctl>(); break;
        case 2: maps<int, int, P::SimpleHash>(); break;
        case 3: maps<P::CString, int, Ctl>(); break;
        case 4: maps<Elem, P::CString, P::SimpleHash>(); break;
        case 5: sets<Elem, Ctl>(); break;
        case 6: sets<int, P::SimpleHash>(); break;
        default: sets<P::CString, Ctl>(); break;
        }
    } while(more());
    finish();
}
