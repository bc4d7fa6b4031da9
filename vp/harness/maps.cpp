// Contracts of HashMap and HashSet (C10) from an arbitrary table of any size that satisfies the class invariant:
//  bloom      an occupied slot carries the low bits of its key's hash
//  path       every slot between the home slot of a key and the slot the key is in is in use (occupied or tombstone)
//  distinct   no key is in two slots
//  live       exactly the occupied slots hold live keys and values
//  room       some slot is empty
// The hash of a key and the home slot of a hash are used by contract (a function of the key; a slot of the table).
#include <pystd2026.hpp>
#include <pystd2026_hashtable.hpp>
#include "vp.hpp"
namespace P = pystd2026;
struct Ctl {
    size_t v = 0;
    void feed_bytes(const char *, size_t) noexcept {}
    size_t get_hash_value() const noexcept { return v; }
    void reset() noexcept { v = 0; }
};
template<typename H> struct P::HashFeeder<H, Elem> {
    void operator()(H &h, const Elem &e) noexcept {}
};
using Map = P::HashMap<Elem, Other, Ctl>;
extern "C" {
char *vp_mapmd(uint64_t n);
Elem *vp_mapkeys(uint64_t n, const char *md);
Other *vp_mapvals(uint64_t n, const char *md);
bool vp_inv_bloom(const char *md, const Elem *k, uint64_t n);
bool vp_inv_path(const char *md, const Elem *k, uint64_t n);
bool vp_inv_distinct(const char *md, const Elem *k, uint64_t n);
bool vp_inv_live(const char *md, const void *p, uint64_t n);
bool vp_absent_key(const char *md, const Elem *k, uint64_t n, uint64_t key);
bool vp_all_empty(const char *md, uint64_t n);
uint64_t vp_bv64();
uint64_t vp_hash(uint64_t key);
uint64_t vp_home(uint64_t hash, uint64_t n);
uint8_t vp_slot(const char *md, uint64_t i);      // 0 empty, 1 occupied, 2 tombstone
uint64_t vp_key(const Elem *k, uint64_t i);       // the value of the key / value there
uint64_t vp_value(const Other *v, uint64_t i);
void vp_target(uint64_t t);                       // (ghost) a slot where the search ends at the latest
uint64_t vp_keyof(const Elem &);                  // what == compares
}
static uint64_t N;
static char *md;
static Elem *keys;
static Other *vals;
alignas(Map) static char storage[sizeof(Map)];
static Map *world() {
    N = vp_u64();
    vp_assume((N >= 16) & (N < (1ull << 40)));
    md = vp_mapmd(N);
    keys = vp_mapkeys(N, md);
    vals = vp_mapvals(N, md);
    Map *m = (Map *)storage;
    *(char **)&m->data.md.ptr = md;
    m->data.md.array_size = N;
    *(Elem **)&m->data.keydata.buf.ptr = keys;
    m->data.keydata.buf.array_size = N * sizeof(Elem);
    m->data.keydata.bufsize = 0;
    *(Other **)&m->data.valuedata.buf.ptr = vals;
    m->data.valuedata.buf.array_size = N * sizeof(Other);
    m->data.valuedata.bufsize = 0;
    m->num_entries = vp_u64();
    m->num_tombstones = vp_u64();
    vp_assume((m->num_entries < N) & (m->num_tombstones < N));
    m->salt = vp_u64();
    m->size_in_powers_of_two = vp_u32();
    return m;
}
extern "C" uint64_t stub_hash(const Map *, const Elem &k) noexcept { return vp_hash(vp_keyof(k)); }
extern "C" uint64_t stub_home(const Map *, uint64_t h) noexcept { return vp_home(h, N); }
extern "C" uint64_t stub_mask(const Map *) noexcept { return N - 1; }
static void inv_holds() {
    vp_assert(vp_inv_bloom(md, keys, N), "occupied slots carry the low bits of the hash");
    vp_assert(vp_inv_path(md, keys, N), "every key can be found from its home slot");
    vp_assert(vp_inv_distinct(md, keys, N), "no key is in two slots");
    vp_assert(vp_inv_live(md, keys, N), "exactly the occupied slots hold live keys");
    vp_assert(vp_inv_live(md, vals, N), "exactly the occupied slots hold live values");
}

void spec_map_lookup_present() {
    Map *m = world();
    uint64_t i = vp_u64();
    vp_assume(i < N);
    vp_assume(vp_slot(md, i) == 1);
    Elem k = vp_elem();
    vp_assume(vp_keyof(k) == vp_key(keys, i));
    vp_target(i);
    Other *v = m->lookup(k);
    vp_assert(v == vals + i, "the value of the key is found");
}

void spec_map_lookup_absent() {
    Map *m = world();
    uint64_t e = vp_u64();
    vp_assume(e < N);
    vp_assume(vp_slot(md, e) == 0);
    Elem k = vp_elem();
    vp_assume(vp_absent_key(md, keys, N, vp_keyof(k)));
    vp_target(e);
    Other *v = m->lookup(k);
    vp_assert(v == nullptr, "a key that is not there is not found");
}

void spec_map_insert_internal() {
    Map *m = world();
    uint64_t e = vp_u64(), q = vp_u64();
    vp_assume((e < N) & (q < N));
    vp_assume(vp_slot(md, e) == 0);
    Elem k = vp_elem();
    Other v = vp_other();
    uint64_t val = vp_val(v);
    vp_assume(vp_absent_key(md, keys, N, vp_keyof(k)));
    vp_target(e);
    uint64_t n = m->num_entries, t = m->num_tombstones;
    vp_assume(t >= 1);
    uint8_t sq = vp_slot(md, q);
    uint64_t kq = vp_key(keys, q), vq = vp_value(vals, q);
    Other &r = m->insert_internal(vp_hash(vp_keyof(k)), k, P::move(v));
    uint64_t s = &r - vals;
    vp_assert(s < N, "the new entry is in the table");
    vp_assert(vp_slot(md, s) == 1, "its slot is occupied");
    vp_assert(vp_key(keys, s) == vp_keyof(k), "it has the key");
    vp_assert(vp_value(vals, s) == val, "and the value");
    inv_holds();
    vp_assert(m->num_entries == n + 1, "there is one entry more");
    vp_assert(vp_absent_key(md, keys, N, vp_keyof(k)) == false, "the key is there");
    if(q == s) {
        vp_assert(sq != 1, "no entry is overwritten");
        vp_assert(m->num_tombstones == (sq == 2 ? t - 1 : t), "tombstones are counted");
    } else {
        vp_assert(vp_slot(md, q) == sq, "other slots keep their state");
        vp_assert(vp_key(keys, q) == kq, "other keys stay");
        vp_assert(vp_value(vals, q) == vq, "other values stay");
    }
}

void spec_map_remove_present() {
    Map *m = world();
    uint64_t i = vp_u64(), q = vp_u64();
    vp_assume((i < N) & (q < N));
    vp_assume(vp_slot(md, i) == 1);
    Elem k = vp_elem();
    vp_assume(vp_keyof(k) == vp_key(keys, i));
    vp_target(i);
    uint64_t n = m->num_entries, t = m->num_tombstones;
    vp_assume(n >= 1);
    uint8_t sq = vp_slot(md, q);
    uint64_t kq = vp_key(keys, q), vq = vp_value(vals, q);
    m->remove(k);
    vp_assert(vp_slot(md, i) != 1, "the entry is gone");
    vp_assert(m->num_entries == n - 1, "there is one entry less");
    vp_assert(m->num_tombstones == (vp_slot(md, i) == 2 ? t + 1 : t), "tombstones are counted");
    inv_holds();
    if(q != i) {
        vp_assert(vp_slot(md, q) == sq, "other slots keep their state");
        if(sq == 1) {
            vp_assert(vp_key(keys, q) == kq, "other keys stay");
            vp_assert(vp_value(vals, q) == vq, "other values stay");
        }
    }
}

void spec_map_remove_absent() {
    Map *m = world();
    uint64_t e = vp_u64(), q = vp_u64();
    vp_assume((e < N) & (q < N));
    vp_assume(vp_slot(md, e) == 0);
    Elem k = vp_elem();
    vp_assume(vp_absent_key(md, keys, N, vp_keyof(k)));
    vp_target(e);
    uint64_t n = m->num_entries, t = m->num_tombstones;
    uint8_t sq = vp_slot(md, q);
    uint64_t kq = vp_key(keys, q), vq = vp_value(vals, q);
    m->remove(k);
    vp_assert((m->num_entries == n) & (m->num_tombstones == t), "nothing is counted");
    vp_assert(vp_slot(md, q) == sq, "no slot changes");
    vp_assert(vp_key(keys, q) == kq, "keys stay");
    vp_assert(vp_value(vals, q) == vq, "values stay");
    inv_holds();
}

void spec_map_clear() {
    Map *m = world();
    m->clear();
    vp_assert(vp_all_empty(md, N), "no entry and no tombstone is left");
    vp_assert((m->num_entries == 0) & (m->num_tombstones == 0), "nothing is counted any more");
    inv_holds();
}

void spec_map_begin() {
    Map *m = world();
    uint64_t q = vp_u64();
    vp_target(0);
    auto it = m->begin();
    uint64_t o = it.offset;
    vp_assert(o <= N, "an entry of the table or the end");
    if(o < N)
        vp_assert(vp_slot(md, o) == 1, "begin is at an entry");
    if(q < o)
        vp_assert(vp_slot(md, q) != 1, "no entry is left out before it");
    auto e = m->end();
    vp_assert(e.offset == N, "the end is behind the table");
    vp_assert((it != e) == (o != N), "begin differs from the end if there is an entry");
}

void spec_map_next() {
    Map *m = world();
    uint64_t q = vp_u64(), o = vp_u64();
    vp_assume(o < N);
    vp_assume(vp_slot(md, o) == 1);
    vp_target(o);
    P::HashMapIterator<Elem, Other, Ctl> it(m, N);
    it.offset = o;
    auto kv = *it;
    vp_assert((kv.key == keys + o) & (kv.value == vals + o), "an iterator yields the entry it is at");
    ++it;
    uint64_t o2 = it.offset;
    vp_assert((o2 > o) & (o2 <= N), "goes forward, to the end at most");
    if(o2 < N)
        vp_assert(vp_slot(md, o2) == 1, "is at an entry again");
    if((q > o) & (q < o2))
        vp_assert(vp_slot(md, q) != 1, "and leaves out none");
}

// ---- insert, operator[], at, contains: lookup, grow and insert_internal by contract
static uint64_t found;   // slot of the key asked for; N: it is not in the table
static const Elem *asked;
static bool grown, inserted;
static uint64_t new_val;
static Map *map_;
extern "C" Other *stub_lookup(const Map *m, const Elem &k) noexcept {
    vp_assert((m == map_) & (&k == asked), "the key is looked up in the map");
    if(found < N)
        return vals + found;
    return nullptr;
}
extern "C" void stub_grow(Map *m) noexcept {
    vp_assert(found == N, "the table only grows for a new key");
    grown = true;
    m->num_entries = vp_u64();
    m->num_tombstones = vp_u64();
    vp_assume((m->num_entries < N) & (m->num_tombstones < N) & (m->num_entries + m->num_tombstones + 2 <= N));
}
extern "C" Other &stub_insert_internal(Map *m, uint64_t h, const Elem &k, Other &&v) noexcept {
    vp_assert(found == N, "a key that is there is not inserted again");
    vp_assert(!inserted, "it is inserted once");
    vp_assert(h == vp_hash(vp_keyof(*asked)), "with the hash of the key");
    vp_assert(&k == asked, "and the key itself");
    vp_assert(m->num_entries + m->num_tombstones + 2 <= N, "an empty slot is left afterwards");
    inserted = true;
    new_val = vp_val(v);
    uint64_t s = vp_u64();
    vp_assume(s < N);
    vp_assume(vp_slot(md, s) == 1);
    found = s;
    return vals[s];
}
static Map *ask(const Elem &k) {
    Map *m = map_ = world();
    asked = &k;
    grown = inserted = false;
    found = vp_u64();
    vp_assume(found <= N);
    if(found < N)
        vp_assume(vp_slot(md, found) == 1);
    return m;
}
void spec_map_top_insert() {
    Elem k = vp_elem();
    Other v = vp_other();
    uint64_t val = vp_val(v);
    Map *m = ask(k);
    uint64_t f = found, n = m->num_entries;
    Other &r = m->insert(k, v);
    if(f < N) {
        vp_assert(!inserted & !grown, "the entry stays where it is");
        vp_assert((&r == vals + f) & (vp_value(vals, f) == val), "and has the new value");
        vp_assert(m->num_entries == n, "the number of entries stays");
    } else {
        vp_assert(inserted, "the key is inserted");
        vp_assert(new_val == val, "with the value");
        vp_assert(&r == vals + found, "and the new entry is returned");
    }
}
void spec_map_top_index() {
    Elem k = vp_elem();
    Map *m = ask(k);
    uint64_t f = found;
    Other &r = (*m)[k];
    Other d;
    if(f < N)
        vp_assert(!inserted & (&r == vals + f), "the value of the key");
    else
        vp_assert(inserted & (new_val == vp_val(d)) & (&r == vals + found), "a default value is inserted");
}
void spec_map_top_at() {
    Elem k = vp_elem();
    Map *m = ask(k);
    vp_may_throw(found == N);
    Other &r = m->at(k);
    vp_assert(found < N, "an absent key is reported");
    vp_assert(&r == vals + found, "the value of the key");
}
void spec_map_top_contains() {
    Elem k = vp_elem();
    Map *m = ask(k);
    vp_assert(m->contains(k) == (found < N), "contains tells whether the key is there");
    vp_assert(m->size() == m->num_entries, "size is the number of entries");
    vp_assert(m->is_empty() == (m->num_entries == 0), "empty means no entries");
}
void spec_map_slot() {
    Map *m = (Map *)storage;
    uint64_t x = vp_u64();
    vp_assume(x < 36);
    uint64_t p = vp_split(x, 36) + 4;
    m->size_in_powers_of_two = p;
    vp_assert(m->mod_mask() == (1ull << p) - 1, "the mask of the table size");
    uint64_t s = m->hash_to_slot(vp_bv64());
    vp_assert(s < (1ull << p), "every hash has a home slot in the table");
}

// ---- growing, destroying, moving
static uint64_t q_, calls, last_;
static bool seen, in_order;
static uint64_t vq_;
extern "C" void vp_owned();   // the table must be released
extern "C" Other &stub_reinsert(Map *m, uint64_t h, const Elem &k, Other &&v) noexcept {
    uint64_t s = &k - keys;
    vp_assert(s < N, "an entry of the old table");
    vp_assert(vp_slot(md, s) == 1, "an occupied one");
    vp_assert(&v == vals + s, "with its own value");
    vp_assert(h == vp_hash(vp_key(keys, s)), "and the hash of its key");
    uint64_t n2 = m->data.md.size();
    vp_assert(vp_all_empty((const char *)m->data.md.get(), n2), "into a table that was empty before");
    if(s == q_) {
        vp_assert(!seen, "once");
        vp_assert(vp_val(v) == vq_, "with the value it had");
        seen = true;
    }
    calls = calls + 1;
    Other taken(P::move(v));
    m->num_entries = m->num_entries + 1;
    return vals[s];
}
void spec_map_grow() {
    Map *m = world();
    uint64_t q = vp_u64(), n = m->num_entries, t = m->num_tombstones;
    uint32_t p = m->size_in_powers_of_two;
    uint64_t salt = m->salt;
    vp_assume((q < N) & (p < 64) & (n + t < N));
    q_ = q;
    vq_ = vp_value(vals, q);
    uint8_t sq = vp_slot(md, q);
    seen = false;
    calls = 0;
    m->grow();
    uint64_t n2 = m->data.md.size();
    vp_assert((n2 == 2 * N) | ((n2 == N) & (n < N - n)), "the table is doubled, or no smaller while at most half of it is occupied");
    vp_assert(m->size_in_powers_of_two == (n2 == N ? p : p + 1), "the size is a power of two");
    vp_assert(seen == (sq == 1), "exactly the occupied slots are taken over");
    vp_assert(m->num_entries == calls, "entries are counted");
    vp_assert(m->num_tombstones == 0, "no tombstones are left");
    vp_assert(m->salt == salt, "hashes stay the same");
    vp_assert(m->data.keydata.capacity() == n2 * sizeof(Elem), "room for the keys");
    vp_assert(m->data.valuedata.capacity() == n2 * sizeof(Other), "and for the values");
    delete[] m->data.md.get();
    delete[] m->data.keydata.data();
    delete[] m->data.valuedata.data();
}
void spec_map_destroy() {
    Map *m = world();
    vp_owned();
    m->~Map();
}
static void is_new(Map &m) {
    vp_assert(m.data.md.size() == 16, "the initial table");
    vp_assert(m.size_in_powers_of_two == 4, "has sixteen slots");
    vp_assert(vp_all_empty((const char *)m.data.md.get(), 16), "all empty");
    vp_assert((m.num_entries == 0) & (m.num_tombstones == 0), "nothing is counted");
    vp_assert(m.data.keydata.capacity() == 16 * sizeof(Elem), "room for the keys");
    vp_assert(m.data.valuedata.capacity() == 16 * sizeof(Other), "and for the values");
}
void spec_map_new() {
    Map m;
    is_new(m);
}
void spec_map_move_construct() {
    Map *m = world();
    vp_owned();
    uint64_t n = m->num_entries, t = m->num_tombstones, salt = m->salt;
    uint32_t p = m->size_in_powers_of_two;
    {
        Map w(P::move(*m));
        vp_assert((w.data.md.get() == (void *)md) & (w.data.md.size() == N), "the table moves");
        vp_assert((w.data.keydata.data() == (char *)keys) & (w.data.valuedata.data() == (char *)vals), "with its entries");
        vp_assert((w.num_entries == n) & (w.num_tombstones == t), "and their number");
        vp_assert((w.salt == salt) & (w.size_in_powers_of_two == p), "and their hashes");
        is_new(*m);
    }
    m->~Map();
}
void spec_map_move_assign() {
    Map *m = world();
    vp_owned();
    uint64_t n = m->num_entries, t = m->num_tombstones, salt = m->salt;
    uint32_t p = m->size_in_powers_of_two;
    {
        Map w;
        w = P::move(*m);
        vp_assert((w.data.md.get() == (void *)md) & (w.data.md.size() == N), "the table moves");
        vp_assert((w.data.keydata.data() == (char *)keys) & (w.data.valuedata.data() == (char *)vals), "with its entries");
        vp_assert((w.num_entries == n) & (w.num_tombstones == t), "and their number");
        vp_assert((w.salt == salt) & (w.size_in_powers_of_two == p), "and their hashes");
        is_new(*m);
    }
    m->~Map();
}
void spec_map_overwrite() {
    Map *m = world();
    vp_owned();
    Map w;
    *m = P::move(w);
    is_new(*m);
    m->~Map();
}
void spec_map_move_self() {
    Map *m = world();
    uint64_t n = m->num_entries;
    *m = P::move(*m);
    vp_assert((m->data.md.get() == (void *)md) & (m->num_entries == n), "assigning a map to itself changes nothing");
    inv_holds();
}

// ---- sets: the operations of the map by contract
using Set = P::HashSet<Elem, Ctl>;
alignas(Set) static char set_storage[sizeof(Set)];
static const Elem *set_key;
static bool in_set;
static uint64_t set_size, set_inserts, set_removes, set_clears;
static uint8_t set_value;
extern "C" bool stub_set_contains(const void *m, const Elem &k) noexcept {
    vp_assert((m == set_storage) & (&k == set_key), "the key is looked up in the set");
    return in_set;
}
extern "C" uint8_t &stub_set_insert(void *m, const Elem &k, uint8_t v) noexcept {
    vp_assert((m == set_storage) & (&k == set_key), "the key is inserted in the set");
    set_inserts = set_inserts + 1;
    in_set = true;
    return set_value;
}
extern "C" void stub_set_remove(void *m, const Elem &k) noexcept {
    vp_assert((m == set_storage) & (&k == set_key), "the key is removed from the set");
    set_removes = set_removes + 1;
    in_set = false;
}
extern "C" uint64_t stub_set_size(const void *m) noexcept {
    vp_assert(m == set_storage, "the size of the set");
    return set_size;
}
extern "C" void stub_set_clear(void *m) noexcept {
    vp_assert(m == set_storage, "the set is cleared");
    set_clears = set_clears + 1;
}
void spec_set_operations() {
    Set *s = (Set *)set_storage;
    Elem k = vp_elem();
    set_key = &k;
    in_set = vp_bool();
    bool was = in_set;
    set_size = vp_u64();
    set_inserts = set_removes = set_clears = 0;
    vp_assert(s->contains(k) == was, "contains tells whether the key is there");
    vp_assert(s->size() == set_size, "the size is the number of keys");
    vp_assert(s->is_empty() == (set_size == 0), "empty means no keys");
    s->insert(k);
    vp_assert(set_inserts == 1, "the key is in the set afterwards");
    vp_assert(set_removes + set_clears == 0, "nothing is taken out");
    s->remove(k);
    vp_assert((set_removes == 1) & (set_inserts == 1) & (set_clears == 0), "one key is removed");
    s->clear();
    vp_assert(set_clears == 1, "all keys are removed");
}
