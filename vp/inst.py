"""Instantiation-based proof search: quantified facts are instantiated at the index terms of the problem (as in the array
property fragment) and the ground problem is decided by z3."""
import time
import z3

ISORT = z3.IntSort()
_nnf = None


def nnf(e, sks=None):
    """negation normal form with skolem constants/functions; quantifier-free parts stay as they are"""
    memo = {}
    n = [0]

    def flat(x):
        return [y for c in x.children() for y in flat(c)] if z3.is_and(x) else [x]

    def go(x, pos, univ):
        if not hasq(x, memo):
            return x if pos else z3.Not(x)
        if z3.is_quantifier(x):
            if x.is_lambda():
                raise ValueError("lambda")
            m = x.num_vars()
            if x.is_forall() == pos:
                vs = [z3.FreshConst(x.var_sort(i), "u") for i in range(m)]
                sub = list(reversed(vs))
                body = go(z3.substitute_vars(x.body(), *sub), pos, univ + vs)
                pats = [z3.substitute_vars(x.pattern(i), *sub) for i in range(x.num_patterns())]
                pats = [z3.MultiPattern(*p.children()) if not z3.is_app(p) or p.decl().name() == "pattern" else p for p in pats]
                return z3.ForAll(vs, body, patterns=pats)
            if univ:
                sk = [z3.FreshFunction(*([u.sort() for u in univ] + [x.var_sort(i)]))(*univ) for i in range(m)]
            else:
                sk = [z3.FreshConst(x.var_sort(i), "sk") for i in range(m)]
                if sks is not None:
                    sks.extend(sk)
            return go(z3.substitute_vars(x.body(), *reversed(sk)), pos, univ)
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_NOT:
            return go(ch[0], not pos, univ)
        if k == z3.Z3_OP_IMPLIES:
            a, b = go(ch[0], not pos, univ), go(ch[1], pos, univ)
            return z3.Or(a, b) if pos else z3.And(a, b)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = [go(c, pos, univ) for c in ch]
            return z3.And(*r) if (k == z3.Z3_OP_AND) == pos else z3.Or(*r)
        if k == z3.Z3_OP_ITE:
            return z3.And(z3.Or(go(ch[0], False, univ), go(ch[1], pos, univ)), z3.Or(go(ch[0], True, univ), go(ch[2], pos, univ)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR) and len(ch) == 2 and z3.is_bool(ch[0]):
            same = (k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF)) == pos
            if same:
                return z3.And(z3.Or(go(ch[0], False, univ), go(ch[1], True, univ)), z3.Or(go(ch[0], True, univ), go(ch[1], False, univ)))
            return z3.And(z3.Or(go(ch[0], True, univ), go(ch[1], True, univ)), z3.Or(go(ch[0], False, univ), go(ch[1], False, univ)))
        raise ValueError("quantifier below %s" % x.decl())
    return flat(go(e, True, []))


def hasq(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = z3.is_quantifier(e) or any(hasq(c, memo) for c in e.children())
    memo[k] = (r, e)
    return r


def hasvar(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


class Q:
    __slots__ = ("proxy", "q", "n", "kinds", "done")


class Inst:
    def __init__(s, facts, goal, budget=8.0, maxterms=60, rounds=3, recent=None):
        s.t0 = time.time()
        s.budget = budget
        s.memo = {}
        s.ground = []
        s.qs = []
        s.seen_ground = set()
        s.index = {}
        s.vals = {}
        s.nodes = set()
        s.keep = []
        s.maxterms = maxterms
        s.rounds = rounds
        s.harvest = True
        if recent is not None:
            g = [f for f in facts if not hasq(f, s.memo)]
            q = [f for f in facts if hasq(f, s.memo)]
            s.harvest = False
            for f in g[:-recent[0]]:
                s.addg(f)
            s.harvest = True
            facts = g[-recent[0]:] + q[-recent[1]:]
        for f in facts:
            if hasq(f, s.memo):
                for x in nnf(f):
                    s.add(x)
            else:
                s.addg(f)
        sks = []
        for x in nnf(z3.Not(goal), sks):
            s.add(x)
        first = {k.get_id(): k for k in sks if k.sort() == ISORT}
        if hasq(goal, s.memo):
            todo, seen = [goal], set()
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_quantifier(e):
                    todo.append(e.body())
                    continue
                if z3.is_const(e) and e.sort() == ISORT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    first.setdefault(e.get_id(), e)
                todo.extend(e.children())
        for k, t in s.index.items():
            first.setdefault(k, t)
        s.index = first

    def add(s, f):
        if not hasq(f, s.memo):
            s.addg(f)
            return
        if z3.is_quantifier(f) and f.is_forall():
            s.newq(f, None)
            return
        g = s.abstract(f)
        s.addg(g)

    def abstract(s, f):
        if not hasq(f, s.memo):
            return f
        if z3.is_quantifier(f):
            if not f.is_forall():
                raise ValueError("existential left after nnf")
            b = z3.FreshBool("q")
            s.newq(f, b)
            return b
        return f.decl()(*[s.abstract(c) for c in f.children()])

    def addg(s, f):
        k = f.get_id()
        if k in s.seen_ground or z3.is_true(f):
            return
        s.seen_ground.add(k)
        s.keep.append(f)
        s.ground.append(f)
        if s.harvest:
            s.collect(f)

    def collect(s, f):
        st = [f]
        while st:
            e = st.pop()
            k = e.get_id()
            if k in s.nodes:
                continue
            s.nodes.add(k)
            s.keep.append(e)
            if z3.is_app(e):
                n = e.num_args()
                if n:
                    if z3.is_select(e):
                        s.addidx(e.arg(1))
                        a = e.arg(0)
                    elif z3.is_store(e):
                        s.addidx(e.arg(1))
                    elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for j in range(n):
                            a = e.arg(j)
                            if a.sort() == ISORT:
                                s.vals.setdefault((e.decl().name(), j), {})[a.get_id()] = a
                st.extend(e.children())

    def addidx(s, t):
        if t.sort() != ISORT:
            return
        t = z3.simplify(t)
        if t.get_id() not in s.index:
            s.index[t.get_id()] = t
            s.keep.append(t)

    def newq(s, q, proxy):
        r = Q()
        r.proxy, r.q, r.n = proxy, q, q.num_vars()
        r.kinds = s.varkinds(q)
        s.groundterms(q)
        r.done = set()
        s.qs.append(r)

    def groundterms(s, q):
        """ground index terms inside a quantifier"""
        st = [q.body()]
        seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen or z3.is_var(e):
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                continue
            if z3.is_select(e) and not hasvar(e):
                s.collect(e)
            st.extend(e.children())

    def varkinds(s, q):
        n = q.num_vars()
        kinds = [None] * n
        src = [q.pattern(i) for i in range(q.num_patterns())] or [q.body()]
        for p in src:
            st = list(p.children()) if not z3.is_quantifier(p) else [p.body()]
            if p is q.body():
                st = [p]
            seen = set()
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_quantifier(e):
                    continue
                if z3.is_app(e) and e.num_args():
                    if z3.is_select(e):
                        x = e.arg(1)
                        if z3.is_var(x):
                            i = s.vi(n, x)
                            kinds[i] = ('idx', (kinds[i][1] if kinds[i] and kinds[i][0] == 'idx' else []) + [None])
                        elif z3.is_add(x) and sum(1 for c in x.children() if z3.is_var(c)) == 1 and not any(hasvar(c) for c in x.children() if not z3.is_var(c)):
                            v = [c for c in x.children() if z3.is_var(c)][0]
                            i = s.vi(n, v)
                            off = [c for c in x.children() if not z3.is_var(c)]
                            kinds[i] = ('idx', (kinds[i][1] if kinds[i] and kinds[i][0] == 'idx' else []) + [z3.Sum(off) if len(off) > 1 else off[0]])
                    elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.decl().name().startswith('f!'):
                        for j in range(e.num_args()):
                            if z3.is_var(e.arg(j)):
                                i = s.vi(n, e.arg(j))
                                if kinds[i] is None:
                                    kinds[i] = ('uf', e.decl().name(), j)
                    st.extend(e.children())
        return kinds

    def vi(s, n, v):
        return n - 1 - z3.get_var_index(v)

    def cands(s, k):
        if k is None:
            return list(s.index.values())
        if k[0] == 'idx':
            out = {}
            offs = {(None if o is None else o.get_id()): o for o in k[1]}
            for t in s.index.values():
                for o in offs.values():
                    x = t if o is None else z3.simplify(t - o)
                    out.setdefault(x.get_id(), x)
            s.keep += out.values()
            return list(out.values())
        return list(s.vals.get((k[1], k[2]), {}).values())

    def prove(s):
        for r in range(s.rounds):
            news = []
            for q in list(s.qs):
                cs = [s.cands(k)[:s.maxterms] for k in q.kinds]
                tot = 1
                for c in cs:
                    tot *= max(1, len(c))
                if tot > 20000:
                    continue
                if q.n == 1:
                    tups = [(t,) for t in cs[0]]
                elif q.n == 2:
                    tups = [(a, b) for a in cs[0] for b in cs[1] if a is not b]
                else:
                    continue
                body = q.q.body()
                for tp in tups:
                    key = tuple(t.get_id() for t in tp)
                    if key in q.done:
                        continue
                    q.done.add(key)
                    e = z3.substitute_vars(body, *reversed(tp))
                    e = z3.simplify(e)
                    if z3.is_true(e):
                        continue
                    if q.proxy is not None:
                        e = z3.Implies(q.proxy, e)
                    news.append(e)
                if time.time() - s.t0 > s.budget:
                    return 'budget', r
            for e in news:
                if hasq(e, s.memo):
                    for x in nnf(e):
                        s.add(x)
                else:
                    s.addg(e)
            sol = z3.Solver()
            left = s.budget - (time.time() - s.t0)
            if left < 0.2:
                return 'budget', r
            sol.set("timeout", int(1000 * left))
            sol.add(*s.ground)
            res = str(sol.check())
            if res == 'unsat':
                return 'unsat', r
            if not news:
                return res, r
        return 'sat?', s.rounds
