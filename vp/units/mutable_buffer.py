"""MutableBuffer (include/svs/index/vamana/dynamic_search_buffer.h): the search buffer with predicated candidates."""
import z3
from driver import *
from search_buffer import le, lt, filter_templates

NOINLINE = ["^std::vector<.*>::insert\\(", "^std::vector<.*>::resize\\(", "^std::vector<.*>::push_back\\(", "_M_realloc", "_M_default_append", "_M_insert_aux", "^void std::sort<", "^std::sort<"]
I_ = z3.IntSort()
CNT = z3.Function("VALIDBELOW", I_, I_)  # number of valid candidates among the first k, before the call
CNT2 = z3.Function("VALIDBELOWSORTED", I_, I_)


def K(e, n):
    return e.ir["consts"][n]


def ok(v):
    return v >= 2


def seen(v):
    return z3.Or(v == 1, v == 3)


def count_axioms(st, C, V):
    k, a, b = z3.Ints("ck ca cb")
    st.assume(z3.ForAll([k], z3.Implies(k <= 0, C(k) == 0), patterns=[C(k)]))
    st.assume(z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + z3.If(ok(V[k]), 1, 0)), patterns=[V[k]]))
    st.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), z3.And(C(a) <= C(b), C(b) - C(a) <= b - a)), patterns=[z3.MultiPattern(C(a), C(b))]))
    st.assume(z3.ForAll([k], C(k) >= 0, patterns=[C(k)]))


class MB(Unit):
    props = {"C02"}
    op = "?"
    sorted0 = True
    inv0 = True

    def __init__(self, less):
        self.less = less
        self.fn = "vp_%s_%s" % (self.op, "lt" if less else "gt")
        self.name = "MutableBuffer::%s<%s>" % (self.op, "less" if less else "greater")

    def f(self, st, n):
        return zI(self.e.as_int(self.e.obj_load(st, self.cx["obj"], K(self.e, "mb_" + n), "i16", {}), st))

    def size(self, st):
        e = self.e
        p = e.load(st, Ptr(self.cx["obj"], K(e, "mb_cand") + 8), "ptr", {})
        d = lin_divisible(norm(p.off), K(e, "n_sizeof"))
        return zI(d[0]) if d is not None else zI(p.off) / K(e, "n_sizeof")

    def setsize(self, e, st, n, I):
        e.store(st, Ptr(self.cx["obj"], K(e, "mb_cand") + 8), "ptr", Ptr(self.cx["cand"], norm(K(e, "n_sizeof") * n)), I)

    def arrs(self, st):
        e, c = self.e, self.cx["cand"]
        return e.arr_get(st, c, K(e, "n_dist"), "f32"), e.arr_get(st, c, K(e, "n_id"), "i32"), e.arr_get(st, c, K(e, "n_val"), "i8")

    def setarrs(self, e, st, D, A, V):
        c = self.cx["cand"]
        m = st.mem[c.id]
        for n, t, x in (("n_dist", "f32", D), ("n_id", "i32", A), ("n_val", "i8", V)):
            m[(K(e, n), t)] = x
            e.note_write(c, (K(e, n), t))

    def mk(self, e, st):
        self.e = e
        ns, s = K(e, "n_sizeof"), fresh_int("storage")
        n, target, cap, best, roi, valid = (fresh_int(x) for x in ("size", "target", "capacity", "best", "roi", "valid"))
        cand = Region("candidates", "arr", stride=ns, length=s, fields={K(e, "n_id"): "i32", K(e, "n_dist"): "f32", K(e, "n_val"): "i8"})
        obj = Region("buffer", "obj", size=K(e, "mb_sizeof"))
        filt = Region("filter", "arr", stride=2, length=K(e, "f_capacity"), fields={0: "i16"})
        enabled = fresh_int("visited_enabled")
        vo, fo = K(e, "mb_cand"), K(e, "mb_visited")
        fv = fo + K(e, "f_values")
        obj.bind = {vo: Ptr(cand, 0), vo + 8: Ptr(cand, norm(ns * n)), vo + 16: Ptr(cand, norm(ns * s)), fv: Ptr(filt, 0), fv + 8: Ptr(filt, 2 * K(e, "f_capacity")), fv + 16: Ptr(filt, 2 * K(e, "f_capacity"))}
        st.mem[obj.id] = {(K(e, "mb_" + x), "i16"): v for x, v in (("target", target), ("cap", cap), ("best", best), ("roi", roi), ("valid", valid))}
        st.mem[obj.id][(fo + K(e, "f_sizeof"), "i8")] = enabled
        # the storage always has room for one candidate more than are stored: growth is std::vector's
        st.assume(enabled >= 0, enabled <= 1, 0 <= n, n < 65535, n + 2 <= s, s < 1 << 40, 1 <= target, target <= cap, cap < 65535, 0 <= best, best < 65536, 0 <= roi, roi < 65536, 0 <= valid, valid < 65536)
        self.cx = cx = dict(cand=cand, obj=obj, filt=filt, enabled=enabled, n=n, target=target, cap=cap, best=best, roi=roi, valid=valid, C=CNT)
        D, A, V = self.arrs(st)
        k = z3.Int("vr")
        st.assume(z3.ForAll([k], z3.And(0 <= V[k], V[k] <= 3), patterns=[V[k]]))
        cx.update(D=D, A=A, V=V)
        count_axioms(st, CNT, V)
        if self.inv0:
            for nm, g in self.invariant(e, st, CNT):
                st.assume(g)
        else:
            for nm, g in self.loose(e, st, CNT):
                st.assume(g)
        return cx

    def sorted_(self, D, n):
        i, j = z3.Ints("si sj")
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le(self.less, D[i], D[j])), patterns=[z3.MultiPattern(D[i], D[j])])

    def seenbelow(self, V, b):
        i = z3.Int("vi")
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b), seen(V[i])), patterns=[V[i]])

    def loose(self, e, st, C):
        cx, n, valid = self.cx, self.size(st), self.f(st, "valid")
        D, A, V = self.arrs(st)
        return [("the valid count is the number of valid candidates", valid == C(n)), ("at most capacity valid candidates are stored", valid <= cx["cap"]),
                ("configuration (target, capacity) unchanged", And(self.f(st, "target") == cx["target"], self.f(st, "cap") == cx["cap"])),
                ("the frontier stays within the region of interest", And(self.f(st, "best") <= self.f(st, "roi"), self.f(st, "roi") <= n)),
                ("everything before the frontier is visited", self.seenbelow(V, self.f(st, "best")))]

    def invariant(self, e, st, C):
        cx, n = self.cx, self.size(st)
        valid, roi, t, cap = (self.f(st, x) for x in ("valid", "roi", "target", "cap"))
        D, A, V = self.arrs(st)
        return self.loose(e, st, C) + [
            ("until the target is reached the region of interest is the whole buffer", z3.Implies(valid < t, roi == n)),
            ("the region of interest ends with the target's last valid candidate", z3.Implies(valid >= t, And(C(roi) == t, roi >= 1, ok(V[roi - 1])))),
            ("a full buffer ends with a valid candidate", z3.Implies(valid == cap, And(n >= 1, ok(V[n - 1])))),
            ("candidates stay sorted best first", self.sorted_(D, n))]

    def same(self, st):
        D, A, V = self.arrs(st)
        cx = self.cx
        k = z3.Int("sk")
        return And(self.size(st) == cx["n"], self.f(st, "best") == cx["best"], self.f(st, "roi") == cx["roi"], self.f(st, "valid") == cx["valid"],
                   z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cx["n"]), z3.And(D[k] == cx["D"][k], A[k] == cx["A"][k], V[k] == cx["V"][k]))))

    def fresh(self):
        return fresh_array("D", z3.RealSort()), fresh_array("I", I_), fresh_array("V", I_)

    def resize(self, e, st, av, I):
        e.oblige(st, zI(e.as_int(av[1], st)) <= self.size(st), "the buffer is only shrunk", "pre", I.get("loc", ""))
        self.setsize(e, st, zI(e.as_int(av[1], st)), I)
        return None

    def rd(self, e, st, p, I):
        return tuple(f(e.load(st, Ptr(p.reg, norm(zI(p.off) + K(e, n))), t, I)) for n, t, f in (("n_dist", "f32", lambda x: zR(e.as_real(x, st))), ("n_id", "i32", lambda x: zI(e.as_int(x, st))), ("n_val", "i8", lambda x: zI(e.as_int(x, st, 8)))))

    def vinsert(self, e, st, av, I):
        """std::vector::insert(pos, value): shifts the elements from pos on by one"""
        cx = self.cx
        p = av[1]
        if p.reg is not cx["cand"]:
            raise Unsupported("insert into another vector")
        d = lin_divisible(norm(p.off), K(e, "n_sizeof"))
        i = zI(d[0]) if d is not None else zI(p.off) / K(e, "n_sizeof")
        i2 = z3.FreshConst(I_, "inspos")
        st.assume(i2 == i)
        i = i2
        n = self.size(st)
        e.oblige(st, And(0 <= i, i <= n), "insertion inside the buffer", "pre", I.get("loc", ""))
        x = self.rd(e, st, av[2], I)
        old, new = self.arrs(st), self.fresh()
        k = z3.Int("nk")
        for a, b, v in zip(old, new, x):
            st.assume(z3.ForAll([k], b[k] == z3.If(k < i, a[k], z3.If(k == i, v, a[k - 1])), patterns=[b[k]]))
        self.setarrs(e, st, *new)
        self.setsize(e, st, n + 1, I)
        e.oblige(st, And(x[0] == cx["d"], x[1] == cx["id"], x[2] == 2 * cx["v"]), "the candidate given is the one stored, unvisited", "pre", I.get("loc", ""))
        cx["gh"].set(e, st, "at", i)
        cx["gh"].set(e, st, "done", 1)
        return Ptr(cx["cand"], norm(p.off))

    def vpush(self, e, st, av, I):
        """std::vector::push_back(value): appends"""
        n = self.size(st)
        x = self.rd(e, st, av[1], I)
        D, A, V = self.arrs(st)
        self.setarrs(e, st, z3.Store(D, n, x[0]), z3.Store(A, n, x[1]), z3.Store(V, n, x[2]))
        self.setsize(e, st, n + 1, I)
        return None

    def common(self, e):
        def nogrow(e, st, av, I):
            raise Unsupported("vector growth outside insert/push_back/resize")
        e.contracts.update({"~^std::vector<.*>::insert\\(": self.vinsert, "~::insert(": self.vinsert, "~::resize(": self.resize, "~::push_back(": self.vpush, "~_M_realloc": nogrow, "~_M_default_append": nogrow, "~_M_insert_aux": nogrow})

    def C1(self, st):
        """the number of valid candidates among the first k after an insertion"""
        if not self.inserted(st):
            return CNT
        i = zI(self.cx["gh"].get(self.e, st, "at"))
        return lambda k: z3.If(k <= i, CNT(k), CNT(k - 1) + self.cx["v"])

    def inserted(self, st):
        return "gh" in self.cx and z3.simplify(zI(self.cx["gh"].get(self.e, st, "done"))).eq(z3.IntVal(1))


class Insert(MB):
    budget, cost = 600, 9
    op = "insert"

    def setup(self, e, st):
        cx = self.mk(e, st)
        id_, d, v = fresh_int("id"), fresh_real("d"), fresh_int("isvalid")
        st.assume(id_ >= 0, id_ < 1 << 32, v >= 0, v <= 1)
        cx.update(id=id_, d=d, v=v, gh=Ghost(st, "at", "done"))
        self.common(e)
        return [Ptr(cx["obj"]), id_, d, v == 1], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        D, A, d, idn, n = cx["D"], cx["A"], cx["d"], cx["id"], cx["n"]
        k = z3.Int("tk")
        out = []
        if self.inserted(S0):
            for nm in names:
                for off in (0, 1):
                    out.append(("no valid skipped by %s%+d" % (nm, off), lambda v, nm=nm, off=off: self.C1(v.state)(zI(cget(v, nm)) + off) == self.C1(v.state)(zI(cur0[nm]) + off)))
                for b in range(-1, 3):
                    out.append(("%s bounded by the buffer%+d" % (nm, b), lambda v, nm=nm, b=b: zI(cget(v, nm)) <= n + b))
                out.append(("%s not negative" % nm, lambda v, nm=nm: zI(cget(v, nm)) >= 0))
                out.append(("%s moves down" % nm, lambda v, nm=nm: zI(cget(v, nm)) <= zI(cur0[nm])))
            return out

        def P(lo, hi, pred, arr):
            return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), pred), patterns=[arr[k]])

        exprs = [(nm, (lambda v, nm=nm: cget(v, nm))) for nm in names]
        for a in range(len(names)):
            for b in range(a + 1, len(names)):
                exprs.append((names[a] + "+" + names[b], lambda v, x=names[a], y=names[b]: cget(v, x) + cget(v, y)))
        for nm, ex in exprs:
            out.append((f"le-below {nm}", lambda v, ex=ex: P(0, ex(v), le(self.less, D[k], d), D)))
            out.append((f"gt-above {nm}", lambda v, ex=ex: P(ex(v), n, lt(self.less, d, D[k]), D)))
            out.append((f"noid-above {nm}", lambda v, ex=ex: P(ex(v), n, z3.Or(A[k] != idn, D[k] != d), A)))
            out.append((f"noid-from {nm}+1", lambda v, ex=ex: P(ex(v) + 1, n, z3.Or(A[k] != idn, D[k] != d), A)))
            out.append((f"{nm}<=size", lambda v, ex=ex: ex(v) <= n))
        return out

    def post(self, e, st, ret, cx):
        D, A, V = self.arrs(st)
        D0, A0, V0, n0, cap, d, idn = (cx[x] for x in ("D", "A", "V", "n", "cap", "d", "id"))
        r, n = zI(e.as_int(ret, st)), self.size(st)
        k, k2 = z3.Ints("pk pk2")
        un = self.same(st)
        C = self.C1(st)
        out = self.invariant(e, st, C)
        if not self.inserted(st):
            dup = z3.Exists([k], z3.And(0 <= k, k < n0, A0[k] == idn, D0[k] == d))
            skip = z3.And(cx["valid"] == cap, lt(self.less, D0[n0 - 1], d))
            return out + [("a candidate is refused only when it is a duplicate or the buffer is full of better ones", z3.Or(And(skip, r == n0, un), And(dup, r == n0 + 1, un)))]
        v2 = 2 * cx["v"]
        eff = [
            ("the new candidate is not stored already", z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < n0), z3.Not(z3.And(A0[k2] == idn, D0[k2] == d))))),
            ("the returned position splits better from worse", And(0 <= r, r <= n0, z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < r), le(self.less, D0[k2], d))), z3.ForAll([k2], z3.Implies(z3.And(r <= k2, k2 < n0), lt(self.less, d, D0[k2]))))),
            ("better candidates stay", z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < r, k2 < n), z3.And(D[k2] == D0[k2], A[k2] == A0[k2], V[k2] == V0[k2])))),
            ("the new candidate is stored unvisited", z3.Implies(r < n, And(D[r] == d, A[r] == idn, V[r] == v2))),
            ("worse candidates move up", z3.ForAll([k2], z3.Implies(z3.And(r < k2, k2 < n), z3.And(D[k2] == D0[k2 - 1], A[k2] == A0[k2 - 1], V[k2] == V0[k2 - 1])))),
            ("only candidates beyond the capacity's valid ones are dropped", And(n <= n0 + 1, C(n) == z3.If(C(n0 + 1) <= cap, C(n0 + 1), cap), z3.Or(n == n0 + 1, C(n) == cap))),
            ("the new candidate is counted", C(n0 + 1) == cx["valid"] + cx["v"]),
            ("the frontier moves back to the new candidate", self.f(st, "best") == z3.If(r < cx["best"], r, cx["best"])),
            ("counting is consistent after the insertion", z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 <= n0), C(k2 + 1) == C(k2) + z3.If(ok(V[k2]), 1, 0)), patterns=[V[k2]])),
        ]
        return out + eff


class Next(MB):
    op = "next"

    def setup(self, e, st):
        cx = self.mk(e, st)
        st.assume(cx["best"] != z3.If(cx["valid"] < cx["target"], cx["n"], cx["roi"]))
        return [Ptr(cx["obj"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        out = []
        for n in names:
            for o in (0, 1):
                out.append(("visited below %s%+d" % (n, o), lambda v, n=n, o=o: self.seenbelow(self.arrs(v.state)[2], zI(cget(v, n)) + o)))
            out.append(("%s below the region's end" % n, lambda v, n=n: zI(cget(v, n)) < self.cx["roi"]))
        return out

    def post(self, e, st, ret, cx):
        D, A, V = self.arrs(st)
        k = z3.Int("pk")
        b0, b, roi = cx["best"], self.f(st, "best"), cx["roi"]
        isp = isinstance(ret, Ptr) and ret.reg is cx["cand"]
        return self.invariant(e, st, CNT) + [
            ("next returns the stored candidate at the frontier", zI(ret.off) == b0 * K(e, "n_sizeof") if isp else False),
            ("next marks it visited", seen(V[b0])),
            ("next changes nothing but that mark", And(self.size(st) == cx["n"], roi == self.f(st, "roi"), cx["valid"] == self.f(st, "valid"), z3.ForAll([k], z3.And(D[k] == cx["D"][k], A[k] == cx["A"][k], z3.Implies(k != b0, V[k] == cx["V"][k]), ok(V[k]) == ok(cx["V"][k]))))),
            ("next moves the frontier forward to the next unvisited candidate or the end of the region", z3.And(b > b0, b <= roi, z3.Implies(b < roi, z3.Not(seen(V[b]))))),
        ]


class Done(MB):
    op = "done"

    def setup(self, e, st):
        cx = self.mk(e, st)
        return [Ptr(cx["obj"])], cx

    def post(self, e, st, ret, cx):
        r = zB(e.as_bool(ret, st))
        up = z3.If(cx["valid"] < cx["target"], cx["n"], cx["roi"])
        return self.invariant(e, st, CNT) + [
            ("done() only when every candidate of the region of interest is visited", z3.Implies(r, self.seenbelow(cx["V"], up))),
            ("the visited region holds the target's number of valid candidates, or all of them", z3.Implies(r, z3.Or(CNT(up) == cx["target"], And(up == cx["n"], CNT(up) < cx["target"])))),
            ("not done() means there is a candidate to expand", z3.Implies(z3.Not(r), cx["best"] < up))]


class PushBack(MB):
    op = "push_back"
    inv0 = False

    def setup(self, e, st):
        cx = self.mk(e, st)
        id_, d, v = fresh_int("id"), fresh_real("d"), fresh_int("isvalid")
        st.assume(id_ >= 0, id_ < 1 << 32, v >= 0, v <= 1)
        cx.update(id=id_, d=d, v=v)
        self.common(e)
        return [Ptr(cx["obj"]), id_, d, v == 1], cx

    def post(self, e, st, ret, cx):
        D, A, V = self.arrs(st)
        n0, n = cx["n"], self.size(st)
        k = z3.Int("pk")
        drop = And(cx["valid"] == cx["cap"], cx["v"] == 1)
        C = lambda j: z3.If(j <= n0, CNT(j), CNT(n0) + cx["v"])
        return self.loose(e, st, C) + [
            ("push_back appends one unvisited candidate unless it is valid and the buffer is full of valid ones",
             And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.And(D[k] == cx["D"][k], A[k] == cx["A"][k], V[k] == cx["V"][k]))), self.f(st, "best") == cx["best"],
                 z3.If(drop, n == n0, And(n == n0 + 1, self.f(st, "roi") == n, D[n0] == cx["d"], A[n0] == cx["id"], V[n0] == 2 * cx["v"]))))]


class CanSkip(MB):
    op = "can_skip"

    def setup(self, e, st):
        cx = self.mk(e, st)
        d = fresh_real("d")
        cx.update(d=d)
        return [Ptr(cx["obj"]), d], cx

    def post(self, e, st, ret, cx):
        return self.invariant(e, st, CNT) + [("can_skip() exactly when the buffer holds its capacity of valid candidates and the last one is strictly better",
            zB(e.as_bool(ret, st)) == z3.And(cx["valid"] == cx["cap"], lt(self.less, cx["D"][cx["n"] - 1], cx["d"])))]


class Full(MB):
    op = "full"

    def setup(self, e, st):
        cx = self.mk(e, st)
        return [Ptr(cx["obj"])], cx

    def post(self, e, st, ret, cx):
        return [("full() exactly when the capacity's number of valid candidates is stored", zB(e.as_bool(ret, st)) == (cx["valid"] == cx["cap"]))]


class Clear(MB):
    op = "clear"
    inv0 = False

    def setup(self, e, st):
        cx = self.mk(e, st)
        self.common(e)
        return [Ptr(cx["obj"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        return filter_templates(e, self.cx["filt"], 0xFFFF, names, cget)

    def post(self, e, st, ret, cx):
        F = e.arr_get(st, cx["filt"], 0, "i16")
        k = z3.Int("fk")
        return self.invariant(e, st, CNT) + [
            ("clear empties the buffer", And(self.size(st) == 0, self.f(st, "best") == 0, self.f(st, "roi") == 0, self.f(st, "valid") == 0)),
            ("clear forgets every visited id", z3.Implies(cx["enabled"] == 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 65536), F[k] == 0xFFFF))))]


class Sort(MB):
    op = "sort"
    inv0 = False

    def setup(self, e, st):
        cx = self.mk(e, st)
        st.assume(cx["best"] == 0)  # sort() is only used before the search starts
        e.assumptions.add("std::sort yields a sorted permutation of its range (libstdc++; the comparator's contract is proved separately), which keeps the number of valid candidates")
        self.common(e)
        cx["C"] = CNT2

        def sort(e, st, av, I):
            s, n = K(e, "n_sizeof"), cx["n"]
            dem = I.get("dem", "")
            if not all(isinstance(p, Ptr) and p.reg is cx["cand"] for p in av[:2]):
                raise Unsupported("std::sort of an unexpected range")
            e.oblige(st, And(Eq(av[0].off, 0), zI(av[1].off) == s * n), "sort() sorts exactly the stored candidates", "pre", I.get("loc", ""))
            e.oblige(st, ("std::less<" in dem) if self.less else ("std::greater<" in dem), "sort() uses the buffer's own ordering", "pre", I.get("loc", ""))
            old, new = self.arrs(st), self.fresh()
            P, Q = z3.Array("perm", I_, I_), z3.Array("permi", I_, I_)
            k = z3.Int("pk")
            inr = z3.And(0 <= k, k < n)
            st.assume(z3.ForAll([k], z3.Implies(inr, z3.And(0 <= P[k], P[k] < n, Q[P[k]] == k, *[b[k] == a[P[k]] for a, b in zip(old, new)])), patterns=list(b[k] for b in new)))
            st.assume(z3.ForAll([k], z3.Implies(inr, z3.And(0 <= Q[k], Q[k] < n, P[Q[k]] == k)), patterns=[Q[k]]))
            st.assume(z3.ForAll([k], z3.And(0 <= new[2][k], new[2][k] <= 3), patterns=[new[2][k]]))
            st.assume(self.sorted_(new[0], n))
            count_axioms(st, CNT2, new[2])
            st.assume(CNT2(n) == CNT(n))
            self.setarrs(e, st, *new)
            cx["new"] = new
            return None

        e.contracts["~std::sort<"] = sort
        return [Ptr(cx["obj"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        t = cx["target"]
        out = [("no valid candidate is dropped", lambda v: CNT2(self.size(v.state)) == CNT2(cx["n"])), ("something is left", lambda v: self.size(v.state) >= 0), ("nothing is added", lambda v: self.size(v.state) <= cx["n"])]
        for a in names:
            for b in names:
                if a != b:
                    out.append(("%s counts the valid among the first %s" % (a, b), lambda v, a=a, b=b: zI(cget(v, a)) == CNT2(zI(cget(v, b)))))
            out.append(("%s below the target" % a, lambda v, a=a: zI(cget(v, a)) < t))
            out.append(("%s a position" % a, lambda v, a=a: z3.And(0 <= zI(cget(v, a)), zI(cget(v, a)) <= cx["n"])))
            out.append(("%s no valid dropped" % a, lambda v, a=a: CNT2(zI(cget(v, a))) == CNT2(cx["n"])))
        return out

    def post(self, e, st, ret, cx):
        n, n0 = self.size(st), cx["n"]
        return self.invariant(e, st, CNT2) + [("sort() was reached", "new" in cx), ("sort() drops only candidates after the last of capacity valid ones", And(n <= n0, CNT2(n) == CNT2(n0), z3.Or(n == n0, CNT2(n) == cx["cap"]))), ("valid candidates are not lost", self.f(st, "valid") == cx["valid"])]


class Cleanup(MB):
    budget, cost = 600, 9
    op = "cleanup"

    def setup(self, e, st):
        cx = self.mk(e, st)
        self.common(e)
        return [Ptr(cx["obj"])], cx

    def kept(self, st, t):
        cx = self.cx
        D, A, V = self.arrs(st)
        k = z3.Int("kk")
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t, ok(cx["V"][k])), z3.And(D[CNT(k)] == cx["D"][k], A[CNT(k)] == cx["A"][k], V[CNT(k)] == cx["V"][k])), patterns=[cx["V"][k]])

    def untouched(self, st, t):
        cx = self.cx
        k = z3.Int("uk")
        return z3.And(*[z3.ForAll([k], z3.Implies(z3.And(t <= k, k < cx["n"]), a[k] == b[k]), patterns=[a[k]]) for a, b in zip(self.arrs(st), (cx["D"], cx["A"], cx["V"]))])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        out = []
        ns = K(e, "n_sizeof")
        g = [(a, lambda v, a=a: zI(cget(v, a))) for a in names]
        for a, f in g:
            for o in (0, 1):
                out.append(("kept below %s%+d" % (a, o), lambda v, f=f, o=o: self.kept(v.state, f(v) + o)))
                out.append(("untouched from %s%+d" % (a, o), lambda v, f=f, o=o: self.untouched(v.state, f(v) + o)))
                for b, h in g:
                    if a != b:
                        out.append(("%s counts the valid below %s%+d" % (b, a, o), lambda v, f=f, h=h, o=o: h(v) == CNT(f(v) + o)))
            out.append(("all valid below %s" % a, lambda v, f=f: CNT(f(v)) == f(v)))
            out.append(("%s is a position" % a, lambda v, f=f: z3.And(0 <= f(v), f(v) <= cx["n"])))
            for b, h in g:
                if a != b:
                    out.append(("%s and 4 %s" % (a, b), lambda v, f=f, h=h: f(v) + 4 * h(v) == 4 * (cx["n"] / 4)))
                    out.append(("%s <= %s" % (a, b), lambda v, f=f, h=h: f(v) <= h(v)))
        return out

    def post(self, e, st, ret, cx):
        D, A, V = self.arrs(st)
        n = self.size(st)
        return [("cleanup keeps exactly the valid candidates", n == cx["valid"]), ("cleanup keeps every valid candidate in order", self.kept(st, cx["n"])),
                ("the counts are unchanged", And(self.f(st, "valid") == cx["valid"], self.f(st, "target") == cx["target"], self.f(st, "cap") == cx["cap"]))]


UNITS = [c(l) for c in (Insert, Next, Done, PushBack, CanSkip, Full, Clear, Sort, Cleanup) for l in (True, False)]
