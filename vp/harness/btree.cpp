// Contracts of the node operations of BTree (C11) for nodes of VP_N entries and trees of any number of nodes.
// The nodes an operation works on are separate objects with arbitrary contents; the functions that find a node by its
// reference and the vectors of nodes are used by contract (the node with that reference; the vectors are C07).
#include <pystd2026.hpp>
#include "vp.hpp"
inline int operator<=>(const Elem &a, const Elem &b) noexcept { return a < b ? -1 : b < a ? 1 : 0; }
#include <pystd2026_btree.hpp>
namespace P = pystd2026;
static constexpr uint64_t N = VP_N, MIN = N / 2;
using Tree = P::BTree<Elem, N>;
using Ref = Tree::NodeReference;
using Leaf = Tree::LeafNode;
using Inner = Tree::InternalNode;
using Common = Tree::NodeCommon;
extern "C" uint64_t vp_keyof(const Elem &); // what < and == compare
static void same(Ref a, Ref b, const char *what) { vp_assert((a.id == b.id) & (a.to_leaf == b.to_leaf), what); }
static Ref some_ref(bool leaf) {
    uint32_t i = vp_u32();
    vp_assume(i < Tree::NULL_REF);
    Ref r;
    r.id = i;
    r.to_leaf = leaf;
    return r;
}
static uint64_t some(uint64_t lo, uint64_t hi) {
    uint64_t x = vp_u64();
    vp_assume((x >= lo) & (x <= hi));
    return lo + vp_split(x - lo, hi - lo + 1);
}
static void fill(Common &n, uint64_t k) {
    for(uint64_t i = 0; i < k; ++i)
        n.values.push_back(vp_elem());
}
static void order(const Common &n) {
    for(uint64_t i = 0; i + 1 < n.values.size(); ++i)
        vp_assume(vp_keyof(n.values.unsafe_at(i)) < vp_keyof(n.values.unsafe_at(i + 1)));
}
// the nodes of the tree that an operation may ask for
static Common *node[4];
static Ref id[4];
static uint64_t nodes;
static Common *kid[2 * N + 2];
static Ref kid_id[2 * N + 2];
static uint64_t kids;
static void know(Common &n, Ref r) {
    for(uint64_t i = 0; i < nodes; ++i)
        vp_assume((r.id != id[i].id) | (r.to_leaf != id[i].to_leaf));
    node[nodes] = &n;
    id[nodes] = r;
    nodes = nodes + 1;
}
static Ref know_kid(Common &n, bool leaf) {
    Ref r = some_ref(leaf);
    for(uint64_t i = 0; i < kids; ++i)
        vp_assume((r.id != kid_id[i].id) | (r.to_leaf != kid_id[i].to_leaf));
    for(uint64_t i = 0; i < nodes; ++i)
        vp_assume((r.id != id[i].id) | (r.to_leaf != id[i].to_leaf));
    kid[kids] = &n;
    kid_id[kids] = r;
    kids = kids + 1;
    return r;
}
extern "C" Common &stub_node(const Tree *, Ref r) {
    for(uint64_t i = 0; i < nodes; ++i)
        if(r.id == id[i].id)
            if(r.to_leaf == id[i].to_leaf)
                return *node[i];
    for(uint64_t i = 0; i < kids; ++i)
        if(r.id == kid_id[i].id)
            if(r.to_leaf == kid_id[i].to_leaf)
                return *kid[i];
    vp_assert(false, "only the nodes concerned are looked at");
    return *node[0];
}
extern "C" Leaf &stub_leaf(const Tree *t, Ref r) {
    vp_assert(r.to_leaf, "a leaf is asked for");
    return static_cast<Leaf &>(stub_node(t, r));
}
extern "C" Inner &stub_inner(const Tree *t, Ref r) {
    vp_assert(!r.to_leaf, "an internal node is asked for");
    return static_cast<Inner &>(stub_node(t, r));
}

void spec_btree_find() {
    Tree t;
    Leaf n;
    fill(n, some(0, N));
    order(n);
    Elem v = vp_elem();
    uint32_t r = t.find_insertion_point(n, v);
    vp_assert(r <= n.values.size(), "a position of the node");
    for(uint64_t i = 0; i < n.values.size(); ++i)
        vp_assert((i < r) == (vp_keyof(n.values.unsafe_at(i)) < vp_keyof(v)), "exactly the smaller values are before it");
}

// ---- moving a value between siblings
static uint64_t before[2 * N + 2], nbefore;
static void note(const Elem &e) {
    before[nbefore] = vp_val(e);
    nbefore = nbefore + 1;
}
static uint64_t at_;
static void expect(const Elem &e) {
    vp_assert(vp_val(e) == before[at_], "the values of both siblings and the one between them keep their order");
    at_ = at_ + 1;
}
template<bool leaf> struct Pick { using type = Leaf; };
template<> struct Pick<false> { using type = Inner; };
template<bool right, bool leaf> static void shift() {
    Tree t;
    Inner p;
    using Node = typename Pick<leaf>::type;
    Node l, r;
    nodes = kids = nbefore = at_ = 0;
    Ref pid = some_ref(false), lid = some_ref(leaf), rid = some_ref(leaf);
    know(p, pid);
    know(l, lid);
    know(r, rid);
    uint64_t k = some(1, N), loc = some(0, k - 1);
    fill(p, k);
    Ref c[N + 1];
    for(uint64_t i = 0; i <= k; ++i) {
        c[i] = i == loc ? lid : i == loc + 1 ? rid : some_ref(leaf);
        p.children.push_back(c[i]);
    }
    uint64_t nl = right ? some(MIN + 1, N) : MIN, nr = right ? MIN : some(MIN + 1, N);
    fill(l, nl);
    fill(r, nr);
    Leaf moved;
    Ref cc[2 * N + 2], mid;
    if constexpr(!leaf) {
        bool kl = vp_bool();
        mid = know_kid(moved, kl);
        moved.parent = right ? lid : rid;
        for(uint64_t i = 0; i <= nl + nr + 1; ++i) {
            cc[i] = right ? (i == nl ? mid : some_ref(kl)) : (i == nl + 1 ? mid : some_ref(kl));
            if(i <= nl)
                l.children.push_back(cc[i]);
            else
                r.children.push_back(cc[i]);
        }
    }
    uint64_t other[N];
    for(uint64_t i = 0; i < k; ++i)
        other[i] = vp_val(p.values.unsafe_at(i));
    for(uint64_t i = 0; i < nl; ++i)
        note(l.values.unsafe_at(i));
    note(p.values.unsafe_at(loc));
    for(uint64_t i = 0; i < nr; ++i)
        note(r.values.unsafe_at(i));
    if(right)
        t.shift_node_to_right(pid, loc);
    else
        t.shift_node_to_left(pid, loc);
    vp_assert(l.values.size() == (right ? nl - 1 : nl + 1), "one value more or less on the left");
    vp_assert(r.values.size() == (right ? nr + 1 : nr - 1), "one value less or more on the right");
    vp_assert((p.values.size() == k) & (p.children.size() == k + 1), "as many in between");
    nl = right ? nl - 1 : nl + 1;
    nr = right ? nr + 1 : nr - 1;
    for(uint64_t i = 0; i < nl; ++i)
        expect(l.values.unsafe_at(i));
    expect(p.values.unsafe_at(loc));
    for(uint64_t i = 0; i < nr; ++i)
        expect(r.values.unsafe_at(i));
    for(uint64_t i = 0; i < k; ++i)
        if(i != loc)
            vp_assert(vp_val(p.values.unsafe_at(i)) == other[i], "the other values of the parent stay");
    for(uint64_t i = 0; i <= k; ++i)
        same(p.children.unsafe_at(i), c[i], "its children stay");
    if constexpr(!leaf) {
        vp_assert((l.children.size() == nl + 1) & (r.children.size() == nr + 1), "one child more than values");
        for(uint64_t i = 0; i <= nl + nr + 1; ++i)
            same(i <= nl ? l.children.unsafe_at(i) : r.children.unsafe_at(i - nl - 1), cc[i], "the children of both siblings keep their order");
        same(moved.parent, right ? rid : lid, "the child that moved has its new parent");
    }
}
void spec_btree_shift_right_leaf() { shift<true, true>(); }
void spec_btree_shift_left_leaf() { shift<false, true>(); }
void spec_btree_shift_right_inner() { shift<true, false>(); }
void spec_btree_shift_left_inner() { shift<false, false>(); }

// ---- merging two siblings
static uint64_t popped;
static Ref popped_id;
extern "C" void stub_pop(Tree *, Ref r) {
    popped = popped + 1;
    popped_id = r;
}
template<bool leaf> static void merge() {
    Tree t;
    Inner p;
    typename Pick<leaf>::type l, r;
    nodes = kids = nbefore = at_ = popped = 0;
    Ref pid = some_ref(false), lid = some_ref(leaf), rid = some_ref(leaf);
    know(p, pid);
    know(l, lid);
    know(r, rid);
    t.leaves.num_entries = vp_u64();
    t.internals.num_entries = vp_u64();
    uint64_t count = leaf ? t.leaves.num_entries : t.internals.num_entries;
    vp_assume((count > lid.id) & (count > rid.id) & (count < Tree::NULL_REF));
    uint64_t k = leaf ? some(1, N) : vp_split(vp_bool(), 2) ? 1 : N, loc = some(0, k - 1);
    fill(p, k);
    Ref c[N + 1];
    for(uint64_t i = 0; i <= k; ++i) {
        c[i] = i == loc ? lid : i == loc + 1 ? rid : some_ref(leaf);
        p.children.push_back(c[i]);
    }
    uint64_t nl = leaf ? some(0, MIN) : MIN, nr = leaf ? some(0, N - 1 - nl) : MIN;
    fill(l, nl);
    fill(r, nr);
    Leaf moved[N + 1];
    Ref cc[N + 1];
    if constexpr(!leaf) {
        bool kl = vp_bool();
        for(uint64_t i = 0; i <= nl + nr + 1; ++i) {
            cc[i] = know_kid(moved[i], kl);
            moved[i].parent = i <= nl ? lid : rid;
            if(i <= nl)
                l.children.push_back(cc[i]);
            else
                r.children.push_back(cc[i]);
        }
    }
    uint64_t other[N];
    for(uint64_t i = 0; i < k; ++i)
        other[i] = vp_val(p.values.unsafe_at(i));
    for(uint64_t i = 0; i < nl; ++i)
        note(l.values.unsafe_at(i));
    note(p.values.unsafe_at(loc));
    for(uint64_t i = 0; i < nr; ++i)
        note(r.values.unsafe_at(i));
    Ref m = t.merge_siblings_of_entry(pid, loc);
    vp_assert(l.values.size() == nl + nr + 1, "all values are in the left node");
    for(uint64_t i = 0; i < nl + nr + 1; ++i)
        expect(l.values.unsafe_at(i));
    vp_assert((p.values.size() == k - 1) & (p.children.size() == k), "one value and one child less in the parent");
    for(uint64_t i = 0; i < k - 1; ++i)
        vp_assert(vp_val(p.values.unsafe_at(i)) == other[i < loc ? i : i + 1], "the other values of the parent stay");
    for(uint64_t i = 0; i < k; ++i)
        same(p.children.unsafe_at(i), c[i <= loc ? i : i + 1], "its other children stay");
    if constexpr(!leaf) {
        vp_assert(l.children.size() == nl + nr + 2, "one child more than values");
        for(uint64_t i = 0; i <= nl + nr + 1; ++i) {
            same(l.children.unsafe_at(i), cc[i], "the children of both siblings keep their order");
            same(moved[i].parent, lid, "and have the merged node for parent");
        }
    }
    vp_assert(popped == 1, "one node is released");
    same(popped_id, rid, "the right one");
    same(m, lid.id == count - 1 ? rid : lid, "the merged node is returned, which takes the place of the right one if it was the last");
    t.leaves.num_entries = t.internals.num_entries = 0;
}
void spec_btree_merge_leaf() { merge<true>(); }
void spec_btree_merge_inner() { merge<false>(); }

// ---- releasing a node: the last one takes its place
static uint64_t vec_pops;
static void *vec_popped;
template<typename T> static P::Optional<T> vec_pop(void *v) {
    vec_pops = vec_pops + 1;
    vec_popped = v;
    return P::Optional<T>{};
}
extern "C" P::Optional<Leaf> stub_pop_leaf(void *v) { return vec_pop<Leaf>(v); }
extern "C" P::Optional<Inner> stub_pop_inner(void *v) { return vec_pop<Inner>(v); }
template<bool leaf> static void release() {
    Tree t;
    Inner gp;
    typename Pick<leaf>::type a, b;
    nodes = kids = vec_pops = 0;
    Ref gid = some_ref(false), aid = some_ref(leaf), bid = some_ref(leaf);
    know(gp, gid);
    know(b, bid);
    t.leaves.num_entries = t.internals.num_entries = bid.id + 1ull;
    bool last = vp_bool();
    if(last)
        aid = bid;
    else
        know(a, aid);
    vp_assume((aid.id <= bid.id) & (gid.id <= bid.id));
    bool is_root = vp_bool();
    Ref rt = some_ref(vp_bool());
    vp_assume((rt.id != bid.id) | (rt.to_leaf != bid.to_leaf));
    vp_assume((rt.id != aid.id) | (rt.to_leaf != aid.to_leaf));
    t.root = is_root ? bid : rt;
    b.parent = is_root ? Tree::NodeReference::null_ref() : gid;
    a.parent = some_ref(false);
    uint64_t k = leaf ? some(1, N) : N, loc = some(0, k), nb = leaf ? some(1, N) : some(MIN, MIN + 1), na = MIN;
    Ref c[N + 1];
    for(uint64_t i = 0; i <= k; ++i) {
        c[i] = some_ref(leaf);
        if((i == loc) & !is_root)
            c[i] = bid;
        else
            vp_assume(c[i].id != bid.id);
        gp.children.push_back(c[i]);
    }
    fill(b, nb);
    fill(a, na);
    Leaf moved[N + 1];
    Ref cc[N + 1];
    if constexpr(!leaf) {
        bool kl = vp_bool();
        for(uint64_t i = 0; i <= nb; ++i) {
            cc[i] = know_kid(moved[i], kl);
            moved[i].parent = bid;
            b.children.push_back(cc[i]);
        }
    }
    uint64_t other[N];
    for(uint64_t i = 0; i < nb; ++i)
        other[i] = vp_val(b.values.unsafe_at(i));
    t.swap_to_end_and_pop(aid);
    vp_assert(vec_pops == 1, "one node is released");
    vp_assert(vec_popped == (leaf ? (void *)&t.leaves : (void *)&t.internals), "the last one of its kind");
    if(!last) {
        vp_assert(a.values.size() == nb, "the last node has moved");
        for(uint64_t i = 0; i < nb; ++i)
            vp_assert(vp_val(a.values.unsafe_at(i)) == other[i], "with its values");
        same(a.parent, is_root ? Tree::NodeReference::null_ref() : gid, "and its parent");
        same(t.root, is_root ? aid : rt, "the root is known by its new place");
        for(uint64_t i = 0; i <= k; ++i)
            same(gp.children.unsafe_at(i), (i == loc) & !is_root ? aid : c[i], "the parent knows the new place");
        if constexpr(!leaf) {
            vp_assert(a.children.size() == nb + 1, "with its children");
            for(uint64_t i = 0; i <= nb; ++i) {
                same(a.children.unsafe_at(i), cc[i], "in order");
                same(moved[i].parent, aid, "which know the new place");
            }
        }
    } else {
        for(uint64_t i = 0; i <= k; ++i)
            same(gp.children.unsafe_at(i), c[i], "nothing else changes");
        vp_assert(b.values.size() == nb, "nothing else changes");
    }
    t.leaves.num_entries = t.internals.num_entries = 0;
}
void spec_btree_release_leaf() { release<true>(); }
void spec_btree_release_inner() { release<false>(); }

// ---- adding a separator and the node right of it
void spec_btree_insert_nonfull() {
    Tree t;
    Inner p;
    nodes = kids = 0;
    bool leaf = vp_bool();
    Ref pid = some_ref(false), nid = some_ref(leaf);
    know(p, pid);
    uint64_t k = some(0, N - 1);
    fill(p, k);
    order(p);
    Ref c[N + 1];
    for(uint64_t i = 0; i <= k; ++i) {
        c[i] = some_ref(leaf);
        p.children.push_back(c[i]);
    }
    uint64_t other[N], keys[N];
    for(uint64_t i = 0; i < k; ++i) {
        other[i] = vp_val(p.values.unsafe_at(i));
        keys[i] = vp_keyof(p.values.unsafe_at(i));
    }
    Elem v = vp_elem();
    uint64_t key = vp_keyof(v), val = vp_val(v);
    for(uint64_t i = 0; i < k; ++i)
        vp_assume(key != keys[i]);
    t.insert_nonfull(P::move(v), pid, nid);
    vp_assert((p.values.size() == k + 1) & (p.children.size() == k + 2), "one value and one child more");
    for(uint64_t i = 0; i + 1 < p.values.size(); ++i)
        vp_assert(vp_keyof(p.values.unsafe_at(i)) < vp_keyof(p.values.unsafe_at(i + 1)), "the values are in order");
    uint64_t loc = 0;
    for(uint64_t i = 0; i < k; ++i)
        if(keys[i] < key)
            loc = i + 1;
    vp_assert(vp_val(p.values.unsafe_at(loc)) == val, "the value is in its place");
    same(p.children.unsafe_at(loc + 1), nid, "the new child right of it");
    for(uint64_t i = 0; i < k; ++i)
        vp_assert(vp_val(p.values.unsafe_at(i < loc ? i : i + 1)) == other[i], "the other values stay");
    for(uint64_t i = 0; i <= k; ++i)
        same(p.children.unsafe_at(i <= loc ? i : i + 1), c[i], "the other children stay");
}

// ---- splitting a full node
static Leaf *new_leaf;
static Inner *new_inner[2];
static uint64_t leaf_pushes, inner_pushes;
extern "C" void stub_push_leaf(P::Vector<Leaf> *v, Leaf &&n) {
    vp_assert(leaf_pushes == 0, "one leaf is added");
    *new_leaf = P::move(n);
    Ref r;
    r.id = v->num_entries;
    r.to_leaf = true;
    know(*new_leaf, r);
    v->num_entries = v->num_entries + 1;
    leaf_pushes = leaf_pushes + 1;
}
extern "C" void stub_push_inner(P::Vector<Inner> *v, Inner &&n) {
    vp_assert(inner_pushes < 2, "two internal nodes are added at most");
    Inner &to = *new_inner[inner_pushes];
    to = P::move(n);
    Ref r;
    r.id = v->num_entries;
    r.to_leaf = false;
    know(to, r);
    v->num_entries = v->num_entries + 1;
    inner_pushes = inner_pushes + 1;
}
template<bool root, bool leaf> static void split() {
    Tree t;
    Inner p, in0, in1;
    Leaf nl;
    typename Pick<leaf>::type n;
    nodes = kids = leaf_pushes = inner_pushes = 0;
    new_leaf = &nl;
    new_inner[0] = &in0;
    new_inner[1] = &in1;
    Ref pid = some_ref(false), nid = some_ref(leaf);
    t.leaves.num_entries = vp_u64();
    t.internals.num_entries = vp_u64();
    uint64_t nleaves = t.leaves.num_entries, ninner = t.internals.num_entries;
    vp_assume((nleaves < (1ull << 30)) & (ninner < (1ull << 30)) & (pid.id < ninner) & (nid.id < (leaf ? nleaves : ninner)));
    if(root & leaf) {
        vp_assume(nleaves == 1);
        t.internals.num_entries = ninner = 0;
    }
    know(n, nid);
    uint64_t k = 0, loc = 0;
    Ref c[N + 1];
    uint64_t other[N];
    fill(n, N);
    order(n);
    if(root) {
        t.root = nid;
        n.parent = Tree::NodeReference::null_ref();
    } else {
        know(p, pid);
        t.root = some_ref(false);
        vp_assume(t.root.id != nid.id);
        n.parent = pid;
        k = some(MIN, N - 1);
        loc = some(0, k);
        fill(p, k);
        order(p);
        for(uint64_t i = 0; i <= k; ++i) {
            c[i] = some_ref(leaf);
            if(i == loc)
                c[i] = nid;
            else
                vp_assume(c[i].id != nid.id);
            vp_assume(c[i].id < (leaf ? nleaves : ninner));
            p.children.push_back(c[i]);
        }
        if(loc > 0)
            vp_assume(vp_keyof(p.values.unsafe_at(loc - 1)) < vp_keyof(n.values.unsafe_at(0)));
        if(loc < k)
            vp_assume(vp_keyof(n.values.unsafe_at(N - 1)) < vp_keyof(p.values.unsafe_at(loc)));
        for(uint64_t i = 0; i < k; ++i)
            other[i] = vp_val(p.values.unsafe_at(i));
    }
    Ref rt = t.root;
    uint64_t was[N];
    for(uint64_t i = 0; i < N; ++i)
        was[i] = vp_val(n.values.unsafe_at(i));
    Leaf child[N + 1];
    Ref cc[N + 1];
    if constexpr(!leaf) {
        bool kl = vp_bool();
        for(uint64_t i = 0; i <= N; ++i) {
            cc[i] = know_kid(child[i], kl);
            vp_assume(cc[i].id < (kl ? nleaves : ninner));
            child[i].parent = nid;
            n.children.push_back(cc[i]);
        }
    }
    Ref up = t.split_node(nid);
    auto &right = static_cast<typename Pick<leaf>::type &>(leaf ? (Common &)nl : (Common &)in0);
    Inner &q = root ? (leaf ? in0 : in1) : p;
    vp_assert(leaf_pushes == (leaf ? 1 : 0), "one leaf more if a leaf is split");
    vp_assert(inner_pushes == (leaf ? 0 : 1) + (root ? 1 : 0), "one internal node more if one is split, and a new root if the root is");
    Ref rid;
    rid.id = leaf ? nleaves : ninner;
    rid.to_leaf = leaf;
    if(root) {
        pid.id = leaf ? 0 : ninner + 1;
        pid.to_leaf = false;
        same(t.root, pid, "the new root");
    } else
        same(t.root, rt, "the root stays");
    same(up, pid, "the parent is returned");
    same(n.parent, pid, "the left half has it for parent");
    same(right.parent, pid, "and the right half");
    if(root)
        same(q.parent, Tree::NodeReference::null_ref(), "the root has no parent");
    vp_assert(n.values.size() == N / 2, "half of the values stay");
    vp_assert(right.values.size() == N / 2, "half of them move");
    for(uint64_t i = 0; i < N / 2; ++i) {
        vp_assert(vp_val(n.values.unsafe_at(i)) == was[i], "the smaller half stays");
        vp_assert(vp_val(right.values.unsafe_at(i)) == was[N / 2 + 1 + i], "the larger half moves");
    }
    vp_assert((q.values.size() == k + 1) & (q.children.size() == k + 2), "the parent has one value and one child more");
    vp_assert(vp_val(q.values.unsafe_at(loc)) == was[N / 2], "the middle value separates the halves");
    same(q.children.unsafe_at(loc), nid, "the left half");
    same(q.children.unsafe_at(loc + 1), rid, "the right half");
    if(!root) {
        for(uint64_t i = 0; i < k; ++i)
            vp_assert(vp_val(p.values.unsafe_at(i < loc ? i : i + 1)) == other[i], "the other values of the parent stay");
        for(uint64_t i = 0; i <= k; ++i)
            if(i != loc)
                same(p.children.unsafe_at(i < loc ? i : i + 1), c[i], "and its other children");
    }
    if constexpr(!leaf) {
        vp_assert((n.children.size() == N / 2 + 1) & (right.children.size() == N / 2 + 1), "the children are divided");
        for(uint64_t i = 0; i <= N; ++i) {
            same(i <= N / 2 ? n.children.unsafe_at(i) : right.children.unsafe_at(i - N / 2 - 1), cc[i], "in order");
            same(child[i].parent, i <= N / 2 ? nid : rid, "and know their parent");
        }
    }
    t.leaves.num_entries = t.internals.num_entries = 0;
}
void spec_btree_split_leaf() { split<false, true>(); }
void spec_btree_split_inner() { split<false, false>(); }
void spec_btree_split_root_leaf() { split<true, true>(); }
void spec_btree_split_root_inner() { split<true, false>(); }

// ---- taking a value out of a leaf
void spec_btree_extract_from_leaf() {
    Tree t;
    Leaf n;
    nodes = kids = 0;
    Ref nid = some_ref(true);
    know(n, nid);
    uint64_t k = some(1, N);
    bool root = vp_split(vp_bool(), 2);
    t.root = some_ref(true);
    if(root)
        t.root = nid;
    else
        vp_assume((t.root.id != nid.id) & (k > MIN));
    fill(n, k);
    order(n);
    Elem v = vp_elem();
    uint64_t loc = some(0, k), key = vp_keyof(v);
    for(uint64_t i = 0; i < k; ++i)
        vp_assume((i < loc) == (vp_keyof(n.values.unsafe_at(i)) < key));
    bool there = loc < k ? vp_keyof(n.values.unsafe_at(loc)) == key : false;
    uint64_t was[N];
    for(uint64_t i = 0; i < k; ++i)
        was[i] = vp_val(n.values.unsafe_at(i));
    auto r = t.extract_value_from_leaf(v, nid, loc);
    vp_assert((bool)r == there, "a value is taken out exactly if it is there");
    if(there) {
        vp_assert(vp_val(*r) == was[loc], "the value itself");
        vp_assert(n.values.size() == k - 1, "and no other");
        for(uint64_t i = 0; i < k - 1; ++i)
            vp_assert(vp_val(n.values.unsafe_at(i)) == was[i < loc ? i : i + 1], "the others keep their order");
    } else {
        vp_assert(n.values.size() == k, "the node stays as it is");
        for(uint64_t i = 0; i < k; ++i)
            vp_assert(vp_val(n.values.unsafe_at(i)) == was[i], "the node stays as it is");
    }
}

// ---- one step of an insertion: the node, and the recursive call by contract
static uint64_t steps_, splits_;
static Ref step_id, split_id, split_to;
static const Elem *step_value;
static uint64_t step_val;
extern "C" void stub_step(Tree *, Elem &v, Ref r) {
    steps_ = steps_ + 1;
    step_id = r;
    step_val = vp_val(v);
}
extern "C" Ref stub_split(Tree *, Ref r) {
    splits_ = splits_ + 1;
    split_id = r;
    return split_to;
}
template<bool leaf> static void insert_step() {
    Tree t;
    typename Pick<leaf>::type n;
    Leaf full;
    nodes = kids = steps_ = splits_ = 0;
    Ref nid = some_ref(leaf), fid = some_ref(vp_bool());
    know(n, nid);
    know(full, fid);
    uint64_t k = leaf ? some(0, N - 1) : some(1, N);
    fill(n, k);
    order(n);
    // a full node is split first, and the search goes on in its parent
    bool first = vp_split(vp_bool(), 2);
    if(leaf)
        first = false; // (the parent is an internal node)
    if(k == N)
        first = true;
    fill(full, N);
    split_to = nid;
    Ref c[N + 1];
    if constexpr(!leaf) {
        bool kl = vp_bool();
        for(uint64_t i = 0; i <= k; ++i) {
            c[i] = some_ref(kl);
            n.children.push_back(c[i]);
        }
    }
    Elem v = vp_elem();
    uint64_t key = vp_keyof(v), val = vp_val(v), loc = some(0, k), num = vp_u64();
    vp_assume(num < (1ull << 40));
    t.num_values = num;
    uint64_t was[N];
    for(uint64_t i = 0; i < k; ++i) {
        vp_assume((i < loc) == (vp_keyof(n.values.unsafe_at(i)) < key));
        was[i] = vp_val(n.values.unsafe_at(i));
    }
    bool there = loc < k ? vp_keyof(n.values.unsafe_at(loc)) == key : false;
    t.insert_recursive(v, first ? fid : nid);
    vp_assert(splits_ == (first ? 1 : 0), "a full node is split first, and only that");
    if(first)
        same(split_id, fid, "the full one");
    vp_assert(t.num_values == (leaf & !there ? num + 1 : num), "a value that was not there is counted");
    vp_assert(n.values.size() == (leaf & !there ? k + 1 : k), "it is added to the leaf");
    vp_assert(steps_ == (leaf | there ? 0 : 1), "the insertion goes on below, exactly once, unless the value is here");
    if(steps_ == 1) {
        same(step_id, c[loc], "in the child between the neighbours of the value");
        vp_assert(step_val == val, "with the value");
    }
    for(uint64_t i = 0; i < k; ++i)
        vp_assert(vp_val(n.values.unsafe_at((leaf & !there) & (i >= loc) ? i + 1 : i)) == (there & (i == loc) ? val : was[i]), "the other values stay");
    if(leaf | there)
        vp_assert(vp_val(n.values.unsafe_at(loc)) == val, "the value is in its place");
}
void spec_btree_insert_step_leaf() { insert_step<true>(); }
void spec_btree_insert_step_inner() { insert_step<false>(); }

// ---- one step of a removal
static uint64_t here_, here_loc, shifts, shift_loc, merges, merge_loc;
static bool shifted_right;
static Ref here_id, merge_at, merge_to, shift_at;
static bool here_inner;
extern "C" P::Optional<Elem> stub_extract(Tree *, const Elem &v, Ref r) {
    vp_assert(vp_val(v) == step_val, "the same value is looked for");
    steps_ = steps_ + 1;
    step_id = r;
    return P::Optional<Elem>(v);
}
extern "C" P::Optional<Elem> stub_here_leaf(Tree *, const Elem &v, Ref r, uint32_t loc) {
    vp_assert(vp_val(v) == step_val, "the same value is looked for");
    here_ = here_ + 1;
    here_id = r;
    here_loc = loc;
    here_inner = false;
    return P::Optional<Elem>();
}
extern "C" Elem stub_here_inner(Tree *, const Elem &v, Ref r, uint32_t loc) {
    vp_assert(vp_val(v) == step_val, "the same value is looked for");
    here_ = here_ + 1;
    here_id = r;
    here_loc = loc;
    here_inner = true;
    return Elem(v);
}
extern "C" void stub_shift_right(Tree *, Ref r, uint32_t loc) {
    shifts = shifts + 1;
    shift_at = r;
    shift_loc = loc;
    shifted_right = true;
}
extern "C" void stub_shift_left(Tree *, Ref r, uint32_t loc) {
    shifts = shifts + 1;
    shift_at = r;
    shift_loc = loc;
    shifted_right = false;
}
extern "C" Ref stub_merge(Tree *, Ref r, uint32_t loc) {
    merges = merges + 1;
    merge_at = r;
    merge_loc = loc;
    return merge_to;
}
template<bool leaf> static void extract_step() {
    Tree t;
    typename Pick<leaf>::type n;
    Leaf child[N + 1];
    nodes = kids = steps_ = here_ = shifts = merges = 0;
    Ref nid = some_ref(leaf);
    know(n, nid);
    merge_to = some_ref(vp_bool());
    uint64_t k = some(1, N);
    fill(n, k);
    order(n);
    Elem v = vp_elem();
    step_val = vp_val(v);
    uint64_t key = vp_keyof(v), loc = some(0, k);
    for(uint64_t i = 0; i < k; ++i)
        vp_assume((i < loc) == (vp_keyof(n.values.unsafe_at(i)) < key));
    bool there = loc < k ? vp_keyof(n.values.unsafe_at(loc)) == key : false;
    Ref c[N + 1];
    uint64_t size[N + 1];
    if constexpr(!leaf) {
        for(uint64_t i = 0; i <= k; ++i) {
            c[i] = know_kid(child[i], true);
            n.children.push_back(c[i]);
            size[i] = MIN;
            if((i + 1 == loc) | (i == loc) | (i == loc + 1))
                size[i] = some(MIN, MIN + 1);
            fill(child[i], size[i]);
        }
    }
    t.extract_value(v, nid);
    if(leaf | there) {
        vp_assert((here_ == 1) & (steps_ == 0) & (shifts == 0) & (merges == 0), "the value is taken out here");
        vp_assert((here_loc == loc) & (here_inner != leaf), "from its place");
        same(here_id, nid, "in this node");
        return;
    }
    vp_assert((here_ == 0) & (steps_ == 1), "the removal goes on below, exactly once");
    if constexpr(!leaf) {
        bool few = size[loc] <= MIN, l = loc > 0 ? size[loc - 1] > MIN : false, r = loc < k ? size[loc + 1] > MIN : false;
        vp_assert(shifts + merges == (few ? 1 : 0), "a child with few values gets more first");
        if(!few)
            same(step_id, c[loc], "in the child between the neighbours of the value");
        else if(l | r) {
            vp_assert(shifts == 1, "from a sibling that has enough");
            same(shift_at, nid, "of this node");
            if(shifted_right)
                vp_assert(l & (shift_loc == loc - 1), "the left one");
            else
                vp_assert(r & (shift_loc == loc), "or the right one");
            same(step_id, c[loc], "then in the child");
        } else {
            vp_assert(merges == 1, "by merging it with a sibling");
            same(merge_at, nid, "of this node");
            vp_assert((merge_loc == loc) | (merge_loc + 1 == loc), "a neighbour");
            vp_assert(merge_loc < k, "that exists");
            same(step_id, merge_to, "then in the merged node");
        }
    }
}
void spec_btree_extract_step_leaf() { extract_step<true>(); }
void spec_btree_extract_step_inner() { extract_step<false>(); }

// ---- taking a value out of an internal node
static Ref pred_from, succ_from;
static Leaf *pred, *succ;
static Ref pred_id, succ_id;
static Inner *where;
static uint64_t where_loc, wanted_key, taken, result_val, replaced;
extern "C" Ref stub_pred(const Tree *, Ref r) {
    pred_from = r;
    return pred_id;
}
extern "C" Ref stub_succ(const Tree *, Ref r) {
    succ_from = r;
    return succ_id;
}
extern "C" P::Optional<Elem> stub_take(Tree *, const Elem &v, Ref r) {
    vp_assert(taken == 0, "one value is taken out below");
    taken = taken + 1;
    step_val = vp_val(v);
    step_id = r;
    Elem e = vp_elem();
    vp_assume(vp_keyof(e) == vp_keyof(v));
    result_val = vp_val(e);
    return P::Optional<Elem>(P::move(e));
}
extern "C" const Elem *stub_find(const Tree *, const Elem &v) {
    vp_assert(taken == 1, "the value is looked up after the tree was restructured");
    vp_assert(vp_keyof(v) == wanted_key, "the value that is to be replaced");
    replaced = replaced + 1;
    return &where->values.unsafe_at(where_loc);
}
void spec_btree_extract_from_inner() {
    Tree t;
    Inner n;
    Leaf a, b, l, r;
    nodes = kids = merges = taken = replaced = 0;
    Ref nid = some_ref(false), lid = some_ref(true), rid = some_ref(true);
    pred_id = some_ref(true);
    succ_id = some_ref(true);
    know(n, nid);
    know(a, lid);
    know(b, rid);
    kids = 0;
    pred_id = know_kid(l, true);
    succ_id = know_kid(r, true);
    merge_to = some_ref(vp_bool());
    uint64_t k = some(1, N), loc = some(0, k - 1);
    fill(n, k);
    order(n);
    for(uint64_t i = 0; i <= k; ++i)
        n.children.push_back(i == loc ? lid : i == loc + 1 ? rid : some_ref(true));
    uint64_t sa = some(MIN, MIN + 1), sb = some(MIN, MIN + 1);
    fill(a, sa);
    fill(b, sb);
    fill(l, MIN);
    fill(r, MIN);
    Elem v = vp_elem();
    wanted_key = vp_keyof(v);
    vp_assume(vp_keyof(n.values.unsafe_at(loc)) == wanted_key);
    where = &n;
    where_loc = loc;
    uint64_t was[N];
    for(uint64_t i = 0; i < k; ++i)
        was[i] = vp_val(n.values.unsafe_at(i));
    uint64_t last = vp_val(l.values.unsafe_at(MIN - 1)), first = vp_val(r.values.unsafe_at(0)), val = vp_val(v);
    Elem e = t.extract_value_from_internal(v, nid, loc);
    vp_assert(taken == 1, "one value is taken out of a leaf");
    if(sa > MIN) {
        same(pred_from, lid, "below the left child");
        vp_assert(step_val == last, "the largest value there");
        same(step_id, lid, "from there");
    } else if(sb > MIN) {
        same(succ_from, rid, "below the right child");
        vp_assert(step_val == first, "the smallest value there");
        same(step_id, rid, "from there");
    } else {
        vp_assert((merges == 1) & (merge_loc == loc), "both children are merged");
        same(merge_at, nid, "below this value");
        vp_assert(step_val == val, "and the value itself is taken out");
        same(step_id, merge_to, "of the merged node");
        vp_assert((vp_val(e) == result_val) & (replaced == 0), "and is the result");
        return;
    }
    vp_assert((merges == 0) & (replaced == 1), "it replaces the value");
    for(uint64_t i = 0; i < k; ++i)
        vp_assert(vp_val(n.values.unsafe_at(i)) == (i == loc ? result_val : was[i]), "in its place");
    vp_assert(vp_val(e) == was[loc], "and the value is the result");
}

// ---- the operations themselves
static uint64_t clears_leaf, clears_inner, fixups;
extern "C" void stub_clear_leaf(P::Vector<Leaf> *) { clears_leaf = clears_leaf + 1; }
extern "C" void stub_clear_inner(P::Vector<Inner> *) { clears_inner = clears_inner + 1; }
extern "C" void stub_pop_root(Tree *t, Ref r) {
    popped = popped + 1;
    popped_id = r;
    Ref back;
    back.id = t->internals.num_entries - 1;
    back.to_leaf = false;
    if(back.id != r.id)
        for(uint64_t i = 0; i < nodes; ++i)
            if((id[i].id == back.id) & (id[i].to_leaf == back.to_leaf))
                id[i] = r;
    t->internals.num_entries = t->internals.num_entries - 1;
}
template<bool leaf> static void fixup() {
    Tree t;
    typename Pick<leaf>::type n;
    Leaf child;
    nodes = kids = popped = clears_leaf = clears_inner = 0;
    Ref nid = some_ref(leaf), cid = some_ref(vp_bool());
    t.leaves.num_entries = vp_u64();
    t.internals.num_entries = vp_u64();
    uint64_t ninner = t.internals.num_entries;
    vp_assume((t.leaves.num_entries < (1ull << 30)) & (ninner < (1ull << 30)));
    vp_assume(nid.id < (leaf ? t.leaves.num_entries : ninner));
    vp_assume(cid.id < (cid.to_leaf ? t.leaves.num_entries : ninner));
    t.root = nid;
    t.num_values = vp_u64();
    uint64_t num = t.num_values;
    uint64_t k = some(0, N);
    if(leaf)
        vp_assume((k > 0) | (num == 0));
    fill(n, k);
    know(child, cid);
    know(n, nid);
    n.parent = Tree::NodeReference::null_ref();
    child.parent = nid;
    if constexpr(!leaf) {
        n.children.push_back(cid);
        for(uint64_t i = 0; i < k; ++i)
            n.children.push_back(some_ref(cid.to_leaf));
    }
    t.root_fixup();
    vp_assert(t.num_values == num, "the number of values stays");
    if(num == 0) {
        vp_assert((clears_leaf == 1) & (clears_inner == 1), "an empty tree has no nodes");
        vp_assert(t.root.is_null(), "and no root");
    } else if(leaf | (k > 0)) {
        same(t.root, nid, "a root with values stays");
        vp_assert((popped == 0) & (clears_leaf + clears_inner == 0), "no node is released");
    } else {
        vp_assert(popped == 1, "a root without values is released");
        same(popped_id, nid, "itself");
        vp_assert(clears_leaf + clears_inner == 0, "nothing else");
        same(t.root, (!cid.to_leaf) & (cid.id == ninner - 1) ? nid : cid, "its only child is the root, wherever it is now");
        same(child.parent, Tree::NodeReference::null_ref(), "and has no parent");
    }
    t.leaves.num_entries = t.internals.num_entries = 0;
}
void spec_btree_fixup_leaf() { fixup<true>(); }
void spec_btree_fixup_inner() { fixup<false>(); }

extern "C" void stub_fixup(Tree *t) {
    vp_assert(steps_ == 1, "the root is looked at after the removal");
    fixups = fixups + 1;
    step_val = t->num_values;
}
static bool was_there;
static const Elem *own;
extern "C" P::Optional<Elem> stub_remove(Tree *, const Elem &v, Ref r) {
    vp_assert(&v != own, "not by a reference into the tree, which is going to be restructured");
    steps_ = steps_ + 1;
    step_id = r;
    step_val = vp_val(v);
    result_val = step_val;
    if(was_there)
        return P::Optional<Elem>(v);
    return P::Optional<Elem>();
}
void spec_btree_insert() {
    Tree t;
    Leaf nl;
    new_leaf = &nl;
    nodes = kids = steps_ = leaf_pushes = 0;
    Ref rt = t.root = some_ref(vp_bool());
    uint64_t num = t.num_values = vp_u64();
    Elem v = vp_elem();
    uint64_t val = vp_val(v);
    bool by_copy = vp_split(vp_bool(), 2);
    if(by_copy)
        t.insert((const Elem &)v);
    else
        t.insert(P::move(v));
    if(num == 0) {
        vp_assert((t.num_values == 1) & (leaf_pushes == 1) & (steps_ == 0), "the first value gets a leaf");
        vp_assert((nl.values.size() == 1) & t.root.to_leaf & (t.root.id == 0), "which is the root");
        vp_assert(vp_val(nl.values.unsafe_at(0)) == val, "with the value");
        same(nl.parent, Tree::NodeReference::null_ref(), "and no parent");
    } else {
        vp_assert((steps_ == 1) & (leaf_pushes == 0) & (step_val == val), "the value is inserted");
        same(step_id, rt, "from the root");
        same(t.root, rt, "from the root");
        vp_assert(t.num_values == num, "and counted there");
    }
    if(by_copy)
        vp_assert(vp_val(v) == val, "the argument stays");
    t.leaves.num_entries = 0;
}
void spec_btree_remove() {
    Tree t;
    nodes = kids = steps_ = fixups = 0;
    Ref rt = t.root = some_ref(vp_bool());
    uint64_t num = t.num_values = vp_u64();
    Elem v = vp_elem();
    own = &v;
    was_there = vp_split(vp_bool(), 2);
    uint64_t val = vp_val(v);
    t.remove(v);
    if(num == 0)
        vp_assert((steps_ == 0) & (t.num_values == 0), "an empty tree stays as it is");
    else {
        vp_assert((steps_ == 1) & (result_val == val), "the value is removed");
        same(step_id, rt, "from the root");
        vp_assert(fixups == 1, "and the root is looked at afterwards");
        vp_assert(t.num_values == (was_there ? num - 1 : num), "a value that was there is not counted any more");
        vp_assert(step_val == t.num_values, "before the root is looked at");
    }
    vp_assert(vp_val(v) == val, "the argument stays");
    vp_assert((t.size() == t.num_values) & ((t.is_empty() != 0) == (t.num_values == 0)), "size and emptiness are those of the values");
}

// ---- lookup: every node on the way
static uint32_t cur_;         // where the search has to be
static uint64_t height_;
static bool present, went;
static Inner *look_inner;
static Leaf *look_leaf;
static uint64_t look_loc;
static uint32_t raw(Ref r) { return r.id + (r.to_leaf ? 1u << 31 : 0); }
extern "C" Common &stub_look(const Tree *, Ref r) {
    vp_assert(raw(r) == cur_, "the search is where the value must be");
    if(r.to_leaf)
        return *look_leaf;
    uint64_t h = vp_u64();
    vp_assume(h < height_);
    height_ = h;
    cur_ = raw(look_inner->children.unsafe_at(look_loc));
    went = true;
    return *look_inner;
}
extern "C" Inner &stub_look_inner(const Tree *, Ref r) {
    vp_assert(went & !r.to_leaf, "the same node");
    return *look_inner;
}
void spec_btree_lookup() {
    Tree t;
    Inner n;
    Leaf l;
    look_inner = &n;
    look_leaf = &l;
    went = false;
    t.num_values = vp_u64();
    vp_assume(t.num_values > 0);
    t.root = some_ref(vp_bool());
    cur_ = raw(t.root);
    height_ = vp_u64();
    Elem v = vp_elem();
    uint64_t key = vp_keyof(v);
    present = vp_bool();
    uint64_t k = some(1, N), kl = some(0, N);
    fill(n, k);
    order(n);
    fill(l, kl);
    order(l);
    bool leafs = vp_bool();
    for(uint64_t i = 0; i <= k; ++i)
        n.children.push_back(some_ref(leafs));
    look_loc = some(0, k);
    for(uint64_t i = 0; i < k; ++i)
        vp_assume((i < look_loc) == (vp_keyof(n.values.unsafe_at(i)) < key));
    bool in_n = look_loc < k ? vp_keyof(n.values.unsafe_at(look_loc)) == key : false, in_l = false;
    for(uint64_t i = 0; i < kl; ++i)
        if(vp_keyof(l.values.unsafe_at(i)) == key)
            in_l = true;
    vp_assume(present ? in_l : !in_l & !in_n); // a node on the way has it, or some node below
    const Elem *r = t.lookup(v);
    vp_assert((r != nullptr) == present, "a value is found exactly if it is there");
    if(r)
        vp_assert(vp_keyof(*r) == key, "and no other");
}
void spec_btree_lookup_empty() {
    Tree t;
    Elem v = vp_elem();
    vp_assert(t.lookup(v) == nullptr, "an empty tree has no values");
    vp_assert(!t.contains(v), "an empty tree has no values");
}
