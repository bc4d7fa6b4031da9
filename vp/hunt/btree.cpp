// Executable oracle for C11: random histories of BTree, BTreeSet and BTreeMap against a plain table.
#include <pystd2026_btree.hpp>
#include "elem.hpp"
#include <signal.h>
namespace P = pystd2026;
using namespace hunt;
static char t_[3500];
static size_t tn;
static void tr(const char *op, long a = -1, long b = -1) {
    if(!op) {
        tn = 0;
        t_[0] = 0;
    } else if(tn < sizeof t_ - 80)
        tn += b >= 0 ? sprintf(t_ + tn, "%s(%ld,%ld) ", op, a, b) : a >= 0 ? sprintf(t_ + tn, "%s(%ld) ", op, a) : sprintf(t_ + tn, "%s ", op);
    ++cases;
    strncpy(cur, t_, sizeof cur - 1);
}
static void stuck(int) { fail("does not terminate"); }
static const int NK = 600;
static int keyof(const Elem &e) {
    e.need("read");
    return e.key;
}
static int keyof(int v) { return v; }
static int keyof(const P::CString &s) { return atoi(s.c_str()); }
template<typename T> static T mk(int v) { return T(v); }
template<> P::CString mk<P::CString>(int v) {
    char b[64];
    snprintf(b, sizeof b, "%06d and more", v);
    return P::CString(b);
}
struct Model {
    int v[NK]; // 0: absent
    size_t n() const {
        size_t r = 0;
        for(int x : v)
            r += x != 0;
        return r;
    }
};
static Model M[2];
// the keys of a history: random, ascending, descending, or around one place
struct Keys {
    unsigned mode = below(5);
    int keys = below(3) == 0 ? NK : (int)range(1, 40), at = (int)below(keys);
    int next() {
        switch(mode) {
        case 0: at = (at + 1) % keys; break;
        case 1: at = (at + keys - 1) % keys; break;
        case 2: at = (at + (int)below(5) + keys - 2) % keys; break;
        default: at = (int)below(keys);
        }
        if(below(8) == 0)
            at = (int)below(keys);
        return at;
    }
};
static unsigned bias;
static unsigned steps_() { return below(4) == 0 ? (unsigned)range(100, 1500) : (unsigned)range(1, 80); }
static bool adding(unsigned s, unsigned steps) {
    switch(bias) {
    case 0: return s < steps / 2 ? below(8) != 0 : below(8) == 0; // fill, then drain
    case 1: return (s / 40) % 2 ? below(6) == 0 : below(6) != 0;
    default: return below(2);
    }
}
template<typename T, typename K> static void look(T &t, const Model &x, int keys, const char *op) {
    if(t.size() != x.n() || t.is_empty() != (x.n() == 0))
        fail("%s: size is %zu, expected %zu", op, (size_t)t.size(), x.n());
    for(int i = 0; i < 4; ++i) {
        int k = (int)below(keys + 2) - 1;
        bool want = k >= 0 && k < NK && x.v[k];
        if(t.contains(mk<K>(k + 1)) != want)
            fail("%s: key %d is %s", op, k, want ? "lost" : "there but was removed or never inserted");
    }
}
template<typename T, typename K> static void walk(T &t, const Model &x, const char *op) {
    int k = 0;
    for(auto b = t.begin(); !(b == t.end()); ++b) {
        while(k < NK && !x.v[k])
            ++k;
        if(k >= NK)
            fail("%s: iteration goes on after the last element", op);
        if(keyof(*b) != k + 1)
            fail("%s: iteration yields %d, expected %d", op, keyof(*b) - 1, k);
        ++k;
    }
    while(k < NK && !x.v[k])
        ++k;
    if(k < NK)
        fail("%s: iteration ends before %d", op, k);
}
template<typename K, size_t N> static void trees() {
    tr(nullptr);
    {
        using T = P::BTree<K, N>;
        T t[2];
        memset(M, 0, sizeof M);
        Keys ks;
        bias = below(3);
        unsigned steps = steps_();
        if(below(3) == 0)
            t[0].reserve(below(50));
        for(unsigned s = 0; s < steps; ++s) {
            int k = ks.next();
            unsigned a = below(30) == 0;
            T &w = t[a];
            Model &x = M[a];
            const char *op = "?";
            unsigned o = below(24);
            if(o == 0) {
                tr(op = "move construct", a);
                T u(P::move(w));
                look<T, K>(u, x, ks.keys, op);
                walk<T, K>(u, x, op);
                w = P::move(u);
            } else if(o == 1) {
                if(below(4) == 0) {
                    tr(op = "move", a, !a);
                    w = P::move(t[!a]);
                    x = M[!a];
                    memset(&M[!a], 0, sizeof x);
                    if(below(2)) { // what was moved from is assigned to, then used
                        t[!a] = T();
                        look<T, K>(t[!a], M[!a], ks.keys, "after move");
                    } else {
                        look<T, K>(t[!a], M[!a], ks.keys, "moved from");
                        walk<T, K>(t[!a], M[!a], "moved from");
                    }
                }
            } else if(o == 2) {
                tr(op = "iterate", a);
                walk<T, K>(w, x, op);
            } else if(o == 3) { // through a reference to an element of the tree itself
                size_t n = x.n();
                if(n) {
                    size_t i = below(n);
                    auto b = w.begin();
                    while(i--)
                        ++b;
                    int j = keyof(*b) - 1;
                    if(below(2)) {
                        tr(op = "remove own", j);
                        w.remove(*b);
                        x.v[j] = 0;
                    } else {
                        tr(op = "insert own", j);
                        w.insert(*b);
                    }
                }
            } else if(adding(s, steps)) {
                tr(op = "insert", k);
                K key = mk<K>(k + 1);
                if(below(2))
                    w.insert(key);
                else
                    w.insert(P::move(key));
                x.v[k] = 1;
            } else {
                tr(op = "remove", k);
                w.remove(mk<K>(k + 1));
                x.v[k] = 0;
            }
            look<T, K>(w, x, ks.keys, op);
            if(below(50) == 0)
                walk<T, K>(w, x, op);
            const auto *p = w.lookup(mk<K>(k + 1));
            if(p && keyof(*p) != k + 1)
                fail("lookup yields another element");
        }
        for(int i = 0; i < 2; ++i) {
            walk<T, K>(t[i], M[i], "at the end");
            for(int k = 0; k < ks.keys; ++k)
                if(t[i].contains(mk<K>(k + 1)) != (M[i].v[k] != 0))
                    fail("at the end: key %d is %s", k, M[i].v[k] ? "lost" : "still there");
        }
    }
    if(Elem::live)
        fail("%ld elements are never destroyed", Elem::live);
}
template<typename K, size_t N> static void sets() {
    tr(nullptr);
    {
        using T = P::BTreeSet<K, N>;
        T w;
        Model &x = M[0];
        memset(&x, 0, sizeof x);
        Keys ks;
        bias = below(3);
        unsigned steps = steps_();
        for(unsigned s = 0; s < steps; ++s) {
            int k = ks.next();
            if(adding(s, steps)) {
                tr("insert", k);
                w.insert(mk<K>(k + 1));
                x.v[k] = 1;
            } else {
                tr("remove", k);
                w.remove(mk<K>(k + 1));
                x.v[k] = 0;
            }
            look<T, K>(w, x, ks.keys, "set");
        }
        T u(P::move(w));
        look<T, K>(u, x, ks.keys, "moved set");
    }
    if(Elem::live)
        fail("%ld elements are never destroyed", Elem::live);
}
template<typename K, typename V, size_t N> static void maps() {
    tr(nullptr);
    {
        using T = P::BTreeMap<K, V, N>;
        T w;
        Model &x = M[0];
        memset(&x, 0, sizeof x);
        Keys ks;
        bias = below(3);
        unsigned steps = steps_();
        for(unsigned s = 0; s < steps; ++s) {
            int k = ks.next(), v = (int)range(1, 9999);
            if(adding(s, steps)) {
                tr("insert", k, v);
                w.insert(mk<K>(k + 1), mk<V>(v));
                x.v[k] = v;
            } else {
                tr("remove", k);
                w.remove(mk<K>(k + 1));
                x.v[k] = 0;
            }
            for(int i = 0; i < 4; ++i) {
                int j = i ? (int)below(ks.keys) : k;
                auto *p = w.lookup(mk<K>(j + 1));
                if((p != nullptr) != (x.v[j] != 0))
                    fail("map: key %d is %s", j, p ? "there but was removed or never inserted" : "lost");
                if(p && keyof(*p) != x.v[j])
                    fail("map: key %d has value %d, expected %d", j, keyof(*p), x.v[j]);
                if(p && below(8) == 0) {
                    *p = mk<V>(v);
                    x.v[j] = v;
                }
            }
        }
        for(int k = 0; k < ks.keys; ++k) {
            auto *p = w.lookup(mk<K>(k + 1));
            if((p ? keyof(*p) : 0) != x.v[k])
                fail("at the end: key %d has value %d, expected %d (0: absent)", k, p ? keyof(*p) : 0, x.v[k]);
        }
    }
    if(Elem::live)
        fail("%ld elements are never destroyed", Elem::live);
}
int main() {
    init();
    signal(SIGALRM, stuck);
    Elem::strict = false; // nodes are exchanged while their elements are moved from
    do {
        alarm(20);
        try {
        switch(below(12)) {
        case 0: trees<int, 3>(); break;
        case 1: trees<int, 5>(); break;
        case 2: trees<int, 7>(); break;
        case 3: trees<Elem, 3>(); break;
        case 4: trees<Elem, 5>(); break;
        case 5: trees<Elem, 9>(); break;
        case 6: trees<P::CString, 3>(); break;
        case 7: sets<Elem, 3>(); break;
        case 8: sets<int, 11>(); break;
        case 9: maps<Elem, Elem, 3>(); break;
        case 10: maps<int, P::CString, 5>(); break;
        default: maps<P::CString, Elem, 7>(); break;
        }
        } catch(const P::PyException &e) {
            fail("throws: %s", e.what().c_str());
        }
    } while(more());
    finish();
}
