"""Exhaustive search (index/flat): batching of the data, the patch kernel, and the k-best inserters."""
import z3
from driver import *

NOINLINE = ["::search_subset", "BulkInserter<", "std::__adjust_heap", "std::__push_heap", "std::pop_heap<", "std::push_heap<", "std::sort_heap<", r"threads.*3runI", "^vp_(?!search|patch|heap|prep|lin|bulk)"]
DQ = z3.Function("DQ", z3.IntSort(), z3.IntSort(), z3.RealSort())
PERM = {n: tuple(z3.Function("%s_%s" % (n, d), z3.IntSort(), z3.IntSort()) for d in ("from", "to")) for n in ("pop", "push")}
PRED = z3.Function("PRED", z3.IntSort(), z3.BoolSort())


def K(e, n):
    return e.ir["consts"][n]


def urange(st, name, a, b):
    r = Region(name, "obj", size=16, readonly=True)
    st.mem[r.id] = {(0, "i64"): a, (8, "i64"): b}
    return r


class Patch(Unit):
    fn = "vp_patch"
    props = {"C07"}

    def __init__(self, dims):
        self.dims = dims
        self.name = "FlatIndex::search_patch (%d dimensions)" % dims

    def setup(self, e, st):
        n, qn, d0, d1, q0, q1, m = (fresh_int(x) for x in ("datasize", "queries", "dbegin", "dend", "qbegin", "qend", "functors"))
        st.assume(n >= 0, n < 1 << 40, qn >= 0, qn < 1 << 40, 0 <= d0, d0 <= d1, d1 <= n, 0 <= q0, q0 <= q1, q1 <= qn, q1 - q0 <= m, m < 1 << 40)
        data = Region("dataset", "obj", size=8, readonly=True)
        st.mem[data.id] = {(0, "i64"): n}
        ix = Region("index", "obj", size=K(e, "ix_sizeof"), readonly=True)
        ix.bind = {K(e, "ix_data"): Ptr(data)}
        qd = Region("querydata", "arr", stride=4, length=qn * self.dims, fields={0: "f32"}, readonly=True)
        q = Region("queryview", "obj", size=32, readonly=True)
        q.bind = {0: Ptr(qd, 0)}
        st.mem[q.id] = {(8, "i64"): self.dims, (16, "i64"): qn, (24, "i64"): qn}
        fn = Region("functors", "arr", stride=8, length=m, fields={0: "i64"})
        bd = Region("broadcast", "obj", size=24, readonly=True)
        bd.bind = {0: Ptr(fn, 0), 8: Ptr(fn, norm(8 * m)), 16: Ptr(fn, norm(8 * m))}
        sc = Region("scratch", "obj", size=24)
        fixed = Region("fixedto", "arr", stride=8, length=m, fields={0: "i64"})
        e.arr_get(st, fixed, 0, "i64")
        si, sq = fresh_int("anydatum"), fresh_int("anyquery")
        st.assume(d0 <= si, si < d1, q0 <= sq, sq < q1)
        g = Ghost(st, "count", "cur")
        cx = dict(self.__dict__, d0=d0, d1=d1, q0=q0, q1=q1, fixed=fixed, g=g, si=si, sq=sq)
        self.cx = cx

        def fidx(p, st):
            assert p.reg is fn
            return zI(lin_divisible(norm(p.off), 8)[0])

        def fix(e, st, av, I):
            f, p = av
            e.oblige(st, p.reg is qd, "functors are prepared for a query vector", "pre", I.get("loc", ""))
            e.store(st, Ptr(fixed, norm(8 * fidx(f, st))), "i64", norm(zI(lin_divisible(norm(p.off), 4)[0])), I)
            return None

        def dist(e, st, av, I):
            f, p, i = av
            i = zI(e.as_int(i, st))
            k = zI(lin_divisible(norm(p.off), 4)[0])
            e.oblige(st, zI(e.as_int(e.load(st, Ptr(fixed, norm(8 * fidx(f, st))), "i64", I), st)) == k, "the functor was prepared for this query", "pre", I.get("loc", ""))
            return DQ(k, i)

        def pred(e, st, av, I):
            i = zI(e.as_int(av[0], st))
            e.oblige(st, z3.And(d0 <= i, i < d1), "the predicate is asked about the data range only", "pre", I.get("loc", ""))
            g.set(e, st, "cur", i)
            return PRED(i)

        def insert(e, st, av, I):
            loc = I.get("loc", "")
            qi = zI(e.as_int(av[1], st))
            rest = av[2:]
            if len(rest) == 1 and isinstance(rest[0], Ptr):
                i, d = e.load(st, rest[0], "i64", I), e.load(st, Ptr(rest[0].reg, norm(zI(rest[0].off) + K(e, "n_dist"))), "f32", I)
            else:
                i, d = rest[0], rest[1]
            i, d = zI(e.as_int(i, st)), zR(e.as_real(d, st))
            e.oblige(st, z3.And(q0 <= qi, qi < q1), "results are recorded for a query of the patch", "pre", loc)
            e.oblige(st, z3.And(d0 <= i, i < d1, PRED(i)), "only data points of the range that satisfy the predicate are recorded", "pre", loc)
            e.oblige(st, d == DQ(self.dims * qi, i), "the recorded distance is the distance of this query to this data point", "pre", loc)
            c = zI(g.get(e, st, "count"))
            g.set(e, st, "count", norm(c + z3.If(z3.And(i == si, qi == sq), z3.IntVal(1), z3.IntVal(0))))
            return None

        e.contracts.update({"vp_fix": fix, "vp_dist": dist, "vp_pred": pred, "~::insert(unsigned long": insert})
        return [Ptr(ix), Ptr(q), Ptr(urange(st, "drange", d0, d1)), Ptr(urange(st, "qrange", q0, q1)), Ptr(sc), Ptr(bd)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        g, si, sq, q0 = cx["g"], cx["si"], cx["sq"], cx["q0"]
        j = z3.Int("tj")
        out = []
        cnt = lambda v: zI(g.get(e, v.state, "count"))
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        for n in names:
            out.append(("prepared below " + n, lambda v, n=n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zI(cget(v, n))), e.arr_get(v.state, cx["fixed"], 0, "i64")[j] == self.dims * (q0 + j)), patterns=[e.arr_get(v.state, cx["fixed"], 0, "i64")[j]])))
            out.append(("recorded below " + n, lambda v, n=n: cnt(v) == one(z3.And(PRED(si), si < zI(cget(v, n))))))
            out.append(("recorded for the queries below " + n, lambda v, n=n: cnt(v) == one(z3.And(PRED(si), z3.Or(si < zI(g.get(e, v.state, "cur")), z3.And(si == zI(g.get(e, v.state, "cur")), sq - q0 < zI(cget(v, n))))))))
        return out

    def post(self, e, st, ret, cx):
        c = zI(cx["g"].get(e, st, "count"))
        return [("every (query, data point) pair that satisfies the predicate is recorded exactly once, others never", c == z3.If(PRED(cx["si"]), z3.IntVal(1), z3.IntVal(0)))]


class Search(Unit):
    fn = "vp_search"
    name = "FlatIndex::search (data batches)"
    props = {"C07"}

    def setup(self, e, st):
        n, qn, k, bs, qb = (fresh_int(x) for x in ("datasize", "queries", "neighbors", "databatch", "querybatch"))
        st.assume(n >= 0, n < 1 << 40, qn >= 0, qn < 1 << 40, k >= 0, k < 1 << 40, bs >= 0, bs < 1 << 64, qb >= 0, qb < 1 << 64)
        data = Region("dataset", "obj", size=8, readonly=True)
        st.mem[data.id] = {(0, "i64"): n}
        tp = Region("threadpool", "obj", size=64)
        ix = Region("index", "obj", size=K(e, "ix_sizeof"), readonly=True)
        ix.bind = {K(e, "ix_data"): Ptr(data), K(e, "ix_pool"): Ptr(tp)}
        q = Region("queryview", "obj", size=32, readonly=True)
        qd = Region("querydata", "arr", stride=4, length=None, fields={0: "f32"}, readonly=True)
        q.bind = {0: Ptr(qd, 0)}
        st.mem[q.id] = {(8, "i64"): fresh_int("dims"), (16, "i64"): qn, (24, "i64"): qn}
        p = Region("params", "obj", size=16, readonly=True)
        st.mem[p.id] = {(0, "i64"): bs, (8, "i64"): qb}
        res = Region("resultview", "obj", size=48, readonly=True)
        ri = Region("resids", "arr", stride=8, length=None, fields={0: "i64"})
        rd = Region("resdist", "arr", stride=4, length=None, fields={0: "f32"})
        res.bind = {0: Ptr(ri, 0), 24: Ptr(rd, 0)}
        st.mem[res.id] = {(8, "i64"): k, (16, "i64"): qn, (32, "i64"): k, (40, "i64"): qn}
        g = Ghost(st, "upto", "phase", "copied")
        cx = self.cx = dict(g=g, n=n)
        phase = lambda st: zI(g.get(e, st, "phase"))

        def ctor(e, st, av, I):
            e.oblige(st, z3.And(zI(e.as_int(av[1], st)) == qn, zI(e.as_int(av[2], st)) == k), "scratch space has one row of the requested number of neighbors per query", "pre", I.get("loc", ""))
            return None

        def step(a, b, txt):
            def f(e, st, av, I):
                e.oblige(st, phase(st) == a, txt, "pre", I.get("loc", ""))
                g.set(e, st, "phase", b)
                return None
            return f

        def subset(e, st, av, I):
            loc = I.get("loc", "")
            r = av[2]
            e.oblige(st, And(isinstance(r, Ptr), phase(st) == 1), "the scratch space is prepared before and cleaned up after the search", "pre", loc)
            a, b = (zI(e.as_int(e.load(st, Ptr(r.reg, norm(zI(r.off) + o)), "i64", I), st)) for o in (0, 8))
            e.oblige(st, a == zI(g.get(e, st, "upto")), "data batches are adjacent", "pre", loc)
            e.oblige(st, z3.And(a < b, b <= n), "data batches are non-empty and stay inside the dataset", "pre", loc)
            g.set(e, st, "upto", b)
            return None

        def run(e, st, av, I):
            e.oblige(st, phase(st) == 2, "results are copied after the final cleanup", "pre", I.get("loc", ""))
            g.set(e, st, "copied", 1)
            return None

        e.contracts.update({"~::BulkInserter(unsigned long": ctor, "~::prepare()": step(0, 1, "prepared once"), "~::cleanup()": step(1, 2, "cleaned up once"),
                            "~::search_subset": subset, "~7threads3run": run, "~threads::run": run, "~::~BulkInserter": lambda e, st, av, I: None})
        return [Ptr(ix), Ptr(res), Ptr(q), Ptr(p)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        g = self.cx["g"]
        return [("batched below " + n, lambda v, n=n: z3.And(zI(g.get(e, v.state, "upto")) == zI(cget(v, n)), zI(cget(v, n)) <= self.cx["n"])) for n in names]

    def post(self, e, st, ret, cx):
        return [("every data point belongs to exactly one batch", zI(cx["g"].get(e, st, "upto")) == cx["n"]), ("the results are copied out", zI(cx["g"].get(e, st, "copied")) == 1)]


class Rows(Unit):
    """common part of the inserters: a row of k neighbors"""
    props = {"C07"}

    def worse(self, a, b):  # compare_(a, b): a strictly better than b
        return a < b if self.less else a > b

    def row(self, e, st):
        k = fresh_int("k")
        st.assume(k >= 1, k < 1 << 40)
        r = Region("row", "arr", stride=K(e, "n_sizeof"), length=k, fields={K(e, "n_id"): "i64", K(e, "n_dist"): "f32"})
        I, D = e.arr_get(st, r, K(e, "n_id"), "i64"), e.arr_get(st, r, K(e, "n_dist"), "f32")
        x = Region("x", "obj", size=K(e, "n_sizeof"), readonly=True)
        xi, xd = fresh_int("xid"), fresh_real("xdist")
        st.assume(xi >= 0, xi < 1 << 64)
        st.mem[x.id] = {(K(e, "n_id"), "i64"): xi, (K(e, "n_dist"), "f32"): xd}
        return dict(k=k, r=r, I=I, D=D, x=x, xi=xi, xd=xd)

    def arrays(self, e, st, r):
        return e.arr_get(st, r, K(e, "n_id"), "i64"), e.arr_get(st, r, K(e, "n_dist"), "f32")


class Heap(Rows):
    def __init__(self, less):
        self.less = less
        self.fn = "vp_heap_lt" if less else "vp_heap_gt"
        self.name = "HeapInserter::insert (%s)" % ("less" if less else "greater")

    def setup(self, e, st):
        cx = self.row(e, st)
        k, r, I, D = cx["k"], cx["r"], cx["I"], cx["D"]
        j = z3.Int("j")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(self.worse(D[0], D[j]))), patterns=[D[j]]))
        S = K(e, "n_sizeof")
        g = cx["g"] = Ghost(st, "stage")

        def bounds(e, st, av, I, what):
            b, en = av[0], av[1]
            e.oblige(st, And(b.reg is r, Eq(b.off, 0), en.reg is r, zI(en.off) == S * k), what + " works on the whole row", "pre", I.get("loc", ""))

        def permute(e, st, name):
            A, B = self.arrays(e, st, r)
            A2, B2 = z3.FreshConst(A.sort(), name + "id"), z3.FreshConst(B.sort(), name + "dist")
            P, Q = PERM[name]
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(0 <= P(j), P(j) < k, Q(P(j)) == j, A2[j] == A[P(j)], B2[j] == B[P(j)])), patterns=[A2[j]]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(0 <= P(j), P(j) < k, Q(P(j)) == j, A2[j] == A[P(j)], B2[j] == B[P(j)])), patterns=[B2[j]]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(0 <= Q(j), Q(j) < k, P(Q(j)) == j, A2[Q(j)] == A[j], B2[Q(j)] == B[j])), patterns=[Q(j)]))
            st.mem[r.id][(K(e, "n_id"), "i64")], st.mem[r.id][(K(e, "n_dist"), "f32")] = A2, B2
            for f in ((K(e, "n_id"), "i64"), (K(e, "n_dist"), "f32")):
                e.note_write(r, f)
            return A, B, A2, B2

        def pop(e, st, av, I):
            bounds(e, st, av, I, "pop_heap")
            A, B, A2, B2 = permute(e, st, "pop")
            st.assume(A2[k - 1] == A[0], B2[k - 1] == B[0], PERM["pop"][0](k - 1) == 0)
            g.set(e, st, "stage", 1)
            return None

        def push(e, st, av, I):
            bounds(e, st, av, I, "push_heap")
            e.oblige(st, zI(g.get(e, st, "stage")) == 1, "push_heap follows pop_heap (the first k-1 entries are a heap)", "pre", I.get("loc", ""))
            A, B, A2, B2 = permute(e, st, "push")
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(self.worse(B2[0], B2[j]))), patterns=[B2[j]]))
            g.set(e, st, "stage", 2)
            return None

        e.contracts.update({"~std::pop_heap": pop, "~std::push_heap": push, "~pop_heapI": pop, "~push_heapI": push})
        return [Ptr(r, 0), Ptr(r, norm(S * k)), Ptr(cx["x"])], cx

    def post(self, e, st, ret, cx):
        k, I, D, xi, xd = (cx[n] for n in ("k", "I", "D", "xi", "xd"))
        A, B = self.arrays(e, st, cx["r"])
        j = z3.Int("j")
        o = fresh_int("anyold")
        st.assume(0 <= o, o < k)
        out = [("the worst neighbor stays at the front", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(self.worse(B[0], B[j]))), patterns=[B[j]]))]
        full = self.worse(D[0], xd)
        stage = zI(cx["g"].get(e, st, "stage"))
        if z3.is_true(z3.simplify(stage == 0)):
            return out + [("a neighbor is skipped only if it is strictly worse than everything kept", full),
                          ("a skipped neighbor leaves the row unchanged", z3.ForAll([j], z3.And(A[j] == I[j], B[j] == D[j]), patterns=[A[j]]))]
        out.append(("the new neighbor replaces the worst one in one step", stage == 2))
        (P1, Q1), (P2, Q2) = PERM["pop"], PERM["push"]
        # every new entry is x or an old entry other than the front, each used at most once
        src = lambda t: P1(P2(t))
        out += [("a neighbor that is not worse than the worst one kept is inserted", z3.Not(full)),
                ("every entry is the new neighbor or an old entry other than the worst one",
                 z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.If(P2(j) == k - 1, z3.And(A[j] == xi, B[j] == xd), z3.And(A[j] == I[src(j)], B[j] == D[src(j)], src(j) != 0))), patterns=[A[j]])),
                ("every old entry but the worst one is kept", z3.Implies(o != 0, z3.And(Q1(o) >= 0, A[Q2(Q1(o))] == I[o], B[Q2(Q1(o))] == D[o], Q2(Q1(o)) >= 0, Q2(Q1(o)) < k, Q1(o) != k - 1))),
                ("the new neighbor is in the row", z3.And(A[Q2(k - 1)] == xi, B[Q2(k - 1)] == xd, Q2(k - 1) >= 0, Q2(k - 1) < k)),
                ("the dropped entry is not better than anything kept", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(self.worse(D[0], B[j]))), patterns=[B[j]]))]
        return out


class Prep(Rows):
    def __init__(self, less):
        self.less = less
        self.fn = "vp_prep_lt" if less else "vp_prep_gt"
        self.name = "HeapInserter::prepare (%s)" % ("less" if less else "greater")

    def setup(self, e, st):
        cx = self.cx = self.row(e, st)
        return [Ptr(cx["r"], 0), Ptr(cx["r"], norm(K(e, "n_sizeof") * cx["k"]))], cx

    def sentinels(self, e, st, hi):
        A, B = self.arrays(e, st, self.cx["r"])
        j = z3.Int("j")
        FM = z3.RealVal(2**128 - 2**104)
        bad = (lambda d: d >= FM) if self.less else (lambda d: d <= -FM)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hi), bad(B[j])), patterns=[B[j]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        S = K(e, "n_sizeof")
        out = []
        for n in names:
            out.append(("sentinels below " + n, lambda v, n=n: self.sentinels(e, v.state, zI(cget(v, n)))))
            out.append(("sentinels up to t", lambda v: self.sentinels(e, v.state, zI(v.t))))
        out.append(("sentinels up to t", lambda v: self.sentinels(e, v.state, zI(v.t))))
        return out

    def post(self, e, st, ret, cx):
        return [("every entry starts as a sentinel worse than any distance", self.sentinels(e, st, cx["k"]))]


UNITS = [Patch(1), Patch(3), Patch(128), Search(), Heap(True), Heap(False), Prep(True), Prep(False)]
