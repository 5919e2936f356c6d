"""Ground instantiation of quantified facts (array-property style), giving a quantifier-free query.

Sound for proving: every instance is a consequence of its quantified fact, existentials of the
negated goal are skolemised, anything not understood is dropped (a dropped fact only weakens the
hypotheses)."""
import itertools

import z3
from ids import tid

_sk = itertools.count()
_info = {}
_keep = []


class Bail(Exception):
    pass


def _hasq(f, memo):
    i = tid(f)
    if i in memo:
        return memo[i]
    if z3.is_quantifier(f):
        r = True
    elif z3.is_var(f):
        r = False
    else:
        r = any(_hasq(c, memo) for c in f.children())
    memo[i] = r
    return r


_hq = {}


def hasq(f):
    i = tid(f)
    if i not in _hq:
        _hq[i] = (_hasq(f, {}), f)
    return _hq[i][0]


def nnf(f, pos, qout):
    """formula equivalent (for satisfiability) to f (pos) or Not f, existentials skolemised,
    positive universals replaced by proxies collected in qout as (proxy|None, quantifier)"""
    if not hasq(f):
        return f if pos else z3.Not(f)
    if z3.is_quantifier(f):
        if f.is_lambda():
            raise Bail()
        if f.is_forall() == pos:
            if f.is_forall():
                q = f
            else:  # not exists x. b  ==  forall x. not b
                n = f.num_vars()
                vs = [z3.Const(f"nx!{next(_sk)}", f.var_sort(j)) for j in range(n)]
                b = z3.substitute_vars(f.body(), *reversed(vs))
                q = z3.ForAll(vs, z3.Not(b))
            p = z3.Bool(f"qp!{next(_sk)}")
            qout.append((p, q))
            return p
        n = f.num_vars()
        vs = [z3.Const(f"sk!{next(_sk)}", f.var_sort(j)) for j in range(n)]
        b = z3.substitute_vars(f.body(), *reversed(vs))
        return nnf(b, pos, qout)
    k = f.decl().kind()
    ch = f.children()
    if k == z3.Z3_OP_NOT:
        return nnf(ch[0], not pos, qout)
    if k == z3.Z3_OP_AND:
        xs = [nnf(c, pos, qout) for c in ch]
        return z3.And(*xs) if pos else z3.Or(*xs)
    if k == z3.Z3_OP_OR:
        xs = [nnf(c, pos, qout) for c in ch]
        return z3.Or(*xs) if pos else z3.And(*xs)
    if k == z3.Z3_OP_IMPLIES:
        a, b = nnf(ch[0], not pos, qout), nnf(ch[1], pos, qout)
        return z3.Or(a, b) if pos else z3.And(a, b)
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        if hasq(c):
            raise Bail()
        return z3.And(z3.Or(z3.Not(c), nnf(a, pos, qout)), z3.Or(c, nnf(b, pos, qout)))
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
        a, b = ch
        if pos:
            return z3.And(z3.Or(nnf(a, False, qout), nnf(b, True, qout)), z3.Or(nnf(a, True, qout), nnf(b, False, qout)))
        return z3.And(z3.Or(nnf(a, True, qout), nnf(b, True, qout)), z3.Or(nnf(a, False, qout), nnf(b, False, qout)))
    raise Bail()


def vars_of(t, memo):
    i = tid(t)
    if i in memo:
        return memo[i]
    if z3.is_var(t):
        r = frozenset([z3.get_var_index(t)])
    elif z3.is_quantifier(t):
        r = frozenset([-1])
    else:
        r = frozenset()
        for c in t.children():
            r |= vars_of(c, memo)
    memo[i] = r
    return r


def family(a):
    while True:
        if z3.is_const(a):
            n = a.decl().name()
            return n.split("!")[0]
        if z3.is_app(a):
            k = a.decl().kind()
            if k in (z3.Z3_OP_STORE, z3.Z3_OP_SELECT):
                a = a.arg(0)
                continue
            if k == z3.Z3_OP_ITE:
                a = a.arg(1)
                continue
        return "?"


NODES = {}  # identifier -> (uses at this node, identifiers of the children); tid() keeps the terms alive


def node(x):
    i = tid(x)
    r = NODES.get(i)
    if r is not None:
        return i
    out, ch = [], ()
    if z3.is_app(x) and not z3.is_quantifier(x):
        k = x.decl().kind()
        cs = x.children()
        if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
            out.append((family(cs[0]), cs[1]))
        elif k == z3.Z3_OP_UNINTERPRETED and cs:
            nm = x.decl().name()
            for j, a in enumerate(cs):
                if z3.is_int(a):
                    out.append((f"{nm}/{j}", a))
        ch = tuple(cs)
    NODES[i] = (out, [tid(c) for c in ch], ch)
    return i


def uses(t, out, memo, seen):
    """collect (family, index term) of selects and uninterpreted applications"""
    stack = [node(t)]
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        o, ids, ch = NODES[i]
        if o:
            out.extend(o)
        for j, c in zip(ids, ch):
            if j not in seen:
                if j not in NODES:
                    node(c)
                stack.append(j)
    return out


def linear_in_var(t, memo):
    """t = +-var + rest with ground rest -> (varindex, sign, rest)"""
    vs = vars_of(t, memo)
    if len(vs) != 1 or -1 in vs:
        return None
    v = next(iter(vs))

    def go(x):
        # -> (coef, rest list of (sign, term))
        if z3.is_var(x):
            return 1, []
        if not vars_of(x, memo):
            return 0, [(1, x)]
        if z3.is_add(x):
            c, r = 0, []
            for y in x.children():
                c2, r2 = go(y)
                c += c2
                r += r2
            return c, r
        if z3.is_sub(x):
            ch = x.children()
            c, r = go(ch[0])
            for y in ch[1:]:
                c2, r2 = go(y)
                c -= c2
                r += [(-s, z) for s, z in r2]
            return c, r
        if z3.is_mul(x):
            ch = x.children()
            if len(ch) == 2 and z3.is_int_value(ch[0]):
                k = ch[0].as_long()
                c, r = go(ch[1])
                return c * k, [(s * k, z) for s, z in r]
        raise Bail()

    try:
        c, r = go(t)
    except Bail:
        return None
    if c not in (1, -1):
        return None
    return v, c, r


class QInfo:
    def __init__(self, q):
        self.q = q
        self.n = q.num_vars()
        self.sorts = [q.var_sort(j) for j in range(self.n)]
        self.ok = all(s == z3.IntSort() for s in self.sorts) and not hasq(q.body())
        self.trig = {}  # de Bruijn index -> set of (family, sign, rest)
        if not self.ok:
            return
        us = uses(q.body(), [], {}, set())
        memo = {}
        for fam, t in us:
            r = linear_in_var(t, memo)
            if r is not None:
                v, c, rest = r
                key = (fam, c, tuple((s, tid(z)) for s, z in rest))
                self.trig.setdefault(v, {})[key] = (fam, c, rest)
        self.ok = all(v in self.trig for v in range(self.n))


def qinfo(q):
    i = tid(q)
    if i not in _info:
        _info[i] = QInfo(q)
        _keep.append(q)
    return _info[i]


INST, SIMP = {}, {}  # keyed by identifiers; tid() keeps the terms alive


def instantiate(facts, qfacts, goal, rounds=3, cap=2500, pair_cap=900):
    """-> list of quantifier-free formulas whose unsatisfiability proves the goal, or None"""
    ground = list(facts)
    quants = []
    try:
        ng = nnf(goal, False, quants)
    except Bail:
        return None
    ground.append(ng)
    for q in qfacts:
        if z3.is_quantifier(q) and q.is_forall():
            quants.append((None, q))
        else:
            qo = []
            try:
                g = nnf(q, True, qo)
            except Bail:
                continue
            ground.append(g)
            quants += qo
    # nested: universals whose body still has quantifiers
    flat = []
    for p, q in quants:
        if hasq(q.body()):
            continue
        qi = qinfo(q)
        if qi.ok:
            flat.append((p, q, qi))
    done = {}
    seen = set()
    terms = {}  # family -> {id: term}
    allterms = {}

    def collect(f):
        for fam, t in uses(f, [], {}, seen):
            i = tid(t)
            u = SIMP.get(i)
            if u is None:
                u = SIMP[i] = z3.simplify(t)
                tid(u)
            t = u
            _keep.append(t) if len(_keep) < 200000 else None
            terms.setdefault(fam, {})[tid(t)] = t
            allterms[tid(t)] = t

    for g in ground:
        collect(g)
    total = 0
    for rnd in range(rounds):
        new = []
        snap = {f: list(ts.values()) for f, ts in terms.items()}
        for p, q, qi in flat:
            cands = []
            for v in range(qi.n):
                c = {}
                for fam, sgn, rest in qi.trig[v].values():
                    for t in snap.get(fam, ()):
                        if not z3.is_int(t):
                            continue
                        x = t
                        for s, z in rest:
                            x = x - s * z if s != 1 else x - z
                        if sgn == -1:
                            x = -x
                        if rest or sgn == -1:
                            x = z3.simplify(x)
                        c[tid(x)] = x
                cands.append(list(c.values()))
            n = 1
            for c in cands:
                n *= len(c)
            if qi.n > 1 and n > pair_cap:
                lim = int(pair_cap ** (1.0 / qi.n))
                cands = [c[:lim] for c in cands]
            for tup in itertools.product(*cands):
                key = (tid(q),) + tuple(tid(t) for t in tup)
                if key in done:
                    continue
                done[key] = tup
                # substitute_vars: argument j replaces de Bruijn index j
                b = INST.get(key)
                if b is None:
                    b = INST[key] = z3.substitute_vars(q.body(), *tup)
                    tid(b)
                if p is not None:
                    b = z3.Implies(p, b)
                new.append(b)
                total += 1
                if total > cap:
                    break
            if total > cap:
                break
        if not new:
            break
        ground += new
        for b in new:
            collect(b)
        if total > cap:
            break
    return ground
