"""heuristic_prune_neighbors (index/vamana/prune.h), all three strategies, both distance orders."""
import z3
from driver import *

NOINLINE = [r"::reserve\(unsigned long\)", r"::_M_realloc_", r"std::_Bit_reference::", r"std::vector<bool", r"std::_Bvector_base<", r"^vp_"]
DF = z3.Function("D", z3.IntSort(), z3.IntSort(), z3.RealSort())
POS = z3.Function("POS", z3.IntSort(), z3.IntSort())
FMAX = z3.RealVal(2**128 - 2**104)


def K(e, n):
    return e.ir["consts"][n]


class Prune(Unit):
    props = {"C05"}
    cost = 5
    budget = 500

    def __init__(self, kind, less):
        self.kind, self.less = kind, less
        self.fn = "vp_%s_%s" % (kind, "lt" if less else "gt")
        self.name = "heuristic_prune_neighbors<%s, %s>" % (dict(legacy="Legacy", iter="Iterative", prog="Progressive")[kind], "less" if less else "greater")

    def cmp(self, a, b):
        return a < b if self.less else a > b

    def configure(self, e):
        e.name_stores = True

    def setup(self, e, st):
        self.e = e
        n, mx, self_ = fresh_int("poolsize"), fresh_int("max_result"), fresh_int("self")
        alpha = fresh_real("alpha")
        st.assume(n >= 0, n < 1 << 40, mx >= 0, mx < 1 << 40, self_ >= 0, self_ < 1 << 62, alpha < FMAX, alpha > -FMAX)
        pool = Region("pool", "arr", stride=K(e, "p_sizeof"), length=n, fields={K(e, "p_id"): "i32", K(e, "p_dist"): "f32"}, readonly=True)
        ID, DS = e.arr_get(st, pool, K(e, "p_id"), "i32"), e.arr_get(st, pool, K(e, "p_dist"), "f32")
        i, j = z3.Ints("pi pj")
        le = (lambda a, b: a <= b) if self.less else (lambda a, b: a >= b)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le(DS[i], DS[j])), patterns=[z3.MultiPattern(DS[i], DS[j])]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(POS(ID[i]) == i, ID[i] >= 0, ID[i] < 1 << 32)), patterns=[ID[i]]))
        e.assumptions.add("the ids of the candidate pool are distinct and the pool is sorted (precondition; the code asserts the latter)")
        res = Region("result", "obj", size=24)
        c0, s0 = fresh_int("oldcap"), fresh_int("oldsize")
        st.assume(0 <= s0, s0 <= c0, c0 < 1 << 40)
        old = Region("oldresult", "arr", stride=4, length=c0, fields={0: "i32"})
        L = fresh_int("newcap")
        st.assume(L < 1 << 41)
        new = Region("newresult", "arr", stride=4, length=L, fields={0: "i32"})
        e.arr_get(st, new, 0, "i32")
        res.bind = {0: Ptr(old, 0), 8: Ptr(old, 4 * s0), 16: Ptr(old, 4 * c0)}
        data = Region("dataset", "obj", size=8, readonly=True)
        g = Region("ghost", "obj", size=8)
        st.mem[g.id] = {(0, "i64"): (1 << 64) - 1}
        bits = Region("pruned", "arr", stride=1, length=n, fields={0: "i8"})
        e.arr_get(st, bits, 0, "i8")
        cx = dict(n=n, mx=mx, self=self_, alpha=alpha, pool=pool, ID=ID, DS=DS, res=res, new=new, old=old, g=g, bits=bits, state=None)
        self.cx = cx

        def reserve(e, st, av, I):
            b, f = e.load(st, Ptr(res, 0), "ptr", I), e.load(st, Ptr(res, 8), "ptr", I)
            e.oblige(st, And(b.reg is f.reg, Eq(b.off, f.off)), "the result is cleared first", "pre", I.get("loc", ""))
            st.assume(L >= zI(e.as_int(av[1], st)))
            for o, v in ((0, Ptr(new, 0)), (8, Ptr(new, 0)), (16, Ptr(new, norm(4 * L)))):
                e.store(st, Ptr(res, o), "ptr", v, I)
            return None

        def grow(e, st, av, I):
            e.oblige(st, False, "the result never grows beyond the reserved maximum", "pre", I.get("loc", ""))
            raise DeadPath()

        def dist(e, st, av, I):
            a, b = (zI(e.as_int(x, st)) for x in av)
            e.oblige(st, zI(e.as_int(e.load(st, Ptr(g, 0), "i64", I), st)) == a, "the distance functor was prepared for its left argument", "pre", I.get("loc", ""))
            return DF(a, b)

        def fix(e, st, av, I):
            e.store(st, Ptr(g, 0), "i64", av[0], I)
            return None

        def hook(e, st, r, nb, I):
            # the bookkeeping vector of the Iterative (one byte) and Progressive (one float) strategies
            t, w = ("i8", 1) if self.kind == "iter" else ("f32", 4)
            r.kind, r.stride, r.length, r.fields, r.size = "arr", w, n, {0: t}, None
            e.oblige(st, zI(nb) == w * n, "one bookkeeping entry per candidate", "pre", I.get("loc", ""))
            e.arr_get(st, r, 0, t)
            cx["state"] = r
            r.name = "pruned"

        e.heap_hook = hook
        # vector<bool>
        def bctor(e, st, av, I):
            e.oblige(st, zI(e.as_int(av[1], st)) == n, "one bookkeeping bit per candidate", "pre", I.get("loc", ""))
            v = av[2]
            x = e.load(st, v, "i8", I) if isinstance(v, Ptr) else v
            st.mem[bits.id][(0, "i8")] = z3.K(z3.IntSort(), zI(e.as_int(x, st, 8)))
            e.note_write(bits, (0, "i8"))
            cx["state"] = bits
            return None

        def bindex(e, st, av, I):
            return ("agg", [Ptr(bits, av[1] if isinstance(av[1], int) else norm(e.as_int(av[1], st))), 1])

        def bread(e, st, av, I):
            p = e.load(st, av[0], "ptr", I)
            return zI(e.as_int(e.load(st, p, "i8", I), st, 8)) == 1

        def bwrite(e, st, av, I):
            p = e.load(st, av[0], "ptr", I)
            v = e.as_bool(av[1], st)
            e.store(st, p, "i8", z3.If(zB(v), z3.IntVal(1), z3.IntVal(0)), I)
            return av[0]

        e.contracts.update({"~::reserve(unsigned long)": reserve, "~::_M_realloc_": grow, "vp_dist": dist, "vp_fix": fix,
                            "~std::vector<bool, std::allocator<bool>>::vector(unsigned long": bctor, "~std::vector<bool, std::allocator<bool>>::operator[]": bindex,
                            "~std::_Bit_reference::operator bool": bread, "~std::_Bit_reference::operator=": bwrite,
                            "~std::vector<bool, std::allocator<bool>>::~vector": lambda e, st, av, I: None, "~std::_Bvector_base<std::allocator<bool>>::~": lambda e, st, av, I: None})
        return [mx, alpha, Ptr(data), self_, Ptr(pool, 0), n, Ptr(res)], cx

    def count(self, e, st):
        p = e.load(st, Ptr(self.cx["res"], 8), "ptr", {})
        d = lin_divisible(norm(p.off), 4)
        if d is not None:
            return zI(d[0])
        q = z3.ToInt(z3.RealVal(0))
        return zI(p.off) / 4

    def R(self, e, st):
        p = e.load(st, Ptr(self.cx["res"], 0), "ptr", {})
        return e.arr_get(st, p.reg, 0, "i32")

    def kept(self, S, p):
        return S[p] == 1 if self.kind == "iter" else S[p] == 1 if self.kind == "legacy" else S[p] == (FMAX if self.less else -FMAX)

    def S(self, e, st):
        r = self.cx["state"]
        return e.arr_get(st, r, 0, r.fields[0])

    def wellformed(self, e, st):
        cx = self.cx
        c, R, ID = self.count(e, st), self.R(e, st), cx["ID"]
        k, l = z3.Ints("wk wl")
        f = [("every result is a candidate of the pool other than the vertex itself", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), z3.And(0 <= POS(R[k]), POS(R[k]) < cx["n"], ID[POS(R[k])] == R[k], R[k] != cx["self"])), patterns=[R[k]])),
             ("no candidate is selected twice", z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < c), R[k] != R[l]), patterns=[z3.MultiPattern(R[k], R[l])]))]
        if self.kind == "legacy":
            f.append(("selected candidates are ordered best distance first", z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < c), POS(R[k]) < POS(R[l])), patterns=[z3.MultiPattern(R[k], R[l])])))
        return f

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        k, p = z3.Ints("tk tp")
        out = []
        cnt = lambda v: self.count(e, v.state)
        out.append(("result size", lambda v: z3.And(cnt(v) >= 0, cnt(v) <= cx["mx"], zI(e.load(v.state, Ptr(cx["res"], 8), "ptr", {}).off) == 4 * cnt(v))))
        for i in range(4):
            out.append(("wf%d" % i, lambda v, i=i: self.wellformed(e, v.state)[i][1] if i < len(self.wellformed(e, v.state)) else None))

        def isk(v):
            R, S, c = self.R(e, v.state), self.S(e, v.state), cnt(v)
            return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), self.kept(S, POS(R[k]))), patterns=[R[k]])

        out.append(("results are marked", isk))
        out.append(("same count", lambda v: cnt(v) == self.count(e, S0)))
        out.append(("states in range", (lambda v: z3.ForAll([p], z3.And(0 <= self.S(e, v.state)[p], self.S(e, v.state)[p] <= 2), patterns=[self.S(e, v.state)[p]])) if self.kind == "iter" else lambda v: None))

        def keepmark(v):
            A, B = self.S(e, S0), self.S(e, v.state)
            return z3.ForAll([p], z3.Implies(self.kept(A, p), self.kept(B, p)), patterns=[B[p]])

        out.append(("marks are kept", keepmark))
        # the nearest candidate comes first
        ID = cx["ID"]

        def first(ex):
            def f(v):
                R = self.R(e, v.state)
                return z3.And(z3.Implies(cnt(v) > 0, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < POS(R[0])), ID[p] == cx["self"]), patterns=[ID[p]])),
                              z3.Implies(cnt(v) == 0, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ex(v), p < cx["n"]), ID[p] == cx["self"]), patterns=[ID[p]])))
            return f

        def live(v):
            S = self.S(e, v.state)
            a = (S[p] == 0 if self.kind != "prog" else z3.Not(self.cmp(z3.RealVal(1), S[p])))
            return z3.Implies(cnt(v) == 0, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < cx["n"]), a), patterns=[S[p]]))

        if True:
            tomb = z3.IntVal(0) if self.kind != "prog" else (-FMAX if self.less else FMAX)

            def blank(v, hi=None):
                S = self.S(e, v.state)
                return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < (cx["n"] if hi is None else hi)), S[p] == tomb), patterns=[S[p]])

            out.append(("nothing is marked before the first selection", lambda v: z3.Implies(cnt(v) == 0, blank(v))))
            for n in names:
                out.append(("blank below " + n, lambda v, n=n: blank(v, zI(cget(v, n)))))
            out.append(("a round without selection has seen only the vertex itself", lambda v: z3.Implies(z3.And(cnt(v) == 0, zI(v.t) >= 1), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < cx["n"]), ID[p] == cx["self"]), patterns=[ID[p]]))))
            out.append(("first (selected)", lambda v: z3.Implies(cnt(v) > 0, first(lambda v: z3.IntVal(0))(v))))
            out.append(("nothing is pruned before the first selection", live))
        for n in names:
            out.append(("first " + n, first(lambda v, n=n: zI(cget(v, n)))))
        out.append(("first all", first(lambda v: cx["n"])))
        if self.kind == "legacy":
            for n in names:
                out.append(("before " + n, lambda v, n=n: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt(v)), POS(self.R(e, v.state)[k]) < zI(cget(v, n))), patterns=[self.R(e, v.state)[k]])))
        return out

    def post(self, e, st, ret, cx):
        b, f = e.load(st, Ptr(cx["res"], 0), "ptr", {}), e.load(st, Ptr(cx["res"], 8), "ptr", {})
        c = self.count(e, st)
        p = z3.Int("qp")
        ID = cx["ID"]
        R = self.R(e, st)
        out = [("the result is one vector", And(b.reg is f.reg, Eq(b.off, 0))), ("at most the maximum number of neighbors is selected", z3.And(c >= 0, c <= cx["mx"])),
               ("an empty pool selects nothing", z3.Implies(cx["n"] == 0, c == 0))]
        out += self.wellformed(e, st)
        one = z3.BoolVal(True) if self.kind == "legacy" else z3.Not(self.cmp(cx["alpha"], z3.RealVal(1)))
        out.append(("the nearest other candidate is selected first", z3.Implies(z3.And(cx["mx"] > 0, one),
                    z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < cx["n"], ID[p] != cx["self"]), z3.And(c > 0, POS(R[0]) <= p)), patterns=[ID[p]]))))
        return out


UNITS = [Prune(k, l) for k in ("legacy", "iter", "prog") for l in (True, False)]