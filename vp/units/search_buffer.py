"""SearchBuffer and VisitedFilter (include/svs/index/vamana/{search_buffer,filter}.h, lib/neighbor.h)."""
import z3
from driver import *

NOINLINE = ["^void std::sort<", "^std::sort<"]


def K(e, n):
    return e.ir["consts"][n]


MAXLEN = 1 << 40


class SB:
    """Abstract view of a SearchBuffer in one memory state."""

    def __init__(self, e, cand, obj):
        self.e, self.c, self.o = e, cand, obj

    def f(self, st, n):
        return self.e.as_int(self.e.obj_load(st, self.o, K(self.e, "sb_" + n), "i64", {}), st)

    def dist(self, st):
        return self.e.arr_get(st, self.c, K(self.e, "n_dist"), "f32")

    def id(self, st):
        return self.e.arr_get(st, self.c, K(self.e, "n_id"), "i32")

    def vis(self, st):
        return self.e.arr_get(st, self.c, K(self.e, "n_vis"), "i8")


def le(less, a, b):
    return a <= b if less else a >= b


def lt(less, a, b):
    return a < b if less else a > b


def forall(vs, body, pats=None):
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


class SBUnit(Unit):
    less = True
    props = {"C01"}
    op = "?"
    assume_sorted = True

    def __init__(self, less):
        self.less = less
        self.fn = "vp_%s_%s" % (self.op, "lt" if less else "gt")
        self.name = "SearchBuffer::%s<%s>" % (self.op, "less" if less else "greater")

    def mk(self, e, st):
        ns = K(e, "n_sizeof")
        cap, size, best, win = (fresh_int(n) for n in ("capacity", "size", "best", "window"))
        cand = Region("candidates", "arr", stride=ns, length=cap + 1, fields={K(e, "n_id"): "i32", K(e, "n_dist"): "f32", K(e, "n_vis"): "i8"})
        obj = Region("buffer", "obj", size=K(e, "sb_sizeof"))
        filt = Region("filter", "arr", stride=2, length=K(e, "f_capacity"), fields={0: "i16"})
        enabled = fresh_int("visited_enabled")
        vo, fo = K(e, "sb_cand"), K(e, "sb_visited")
        fv = fo + K(e, "f_values")
        obj.bind = {vo: Ptr(cand, 0), vo + 8: Ptr(cand, ns * (cap + 1)), vo + 16: Ptr(cand, ns * (cap + 1)),
                    fv: Ptr(filt, 0), fv + 8: Ptr(filt, 2 * K(e, "f_capacity")), fv + 16: Ptr(filt, 2 * K(e, "f_capacity"))}
        st.mem[obj.id] = {(K(e, "sb_size"), "i64"): size, (K(e, "sb_best"), "i64"): best, (K(e, "sb_window"), "i64"): win, (K(e, "sb_capacity"), "i64"): cap,
                          (fo + K(e, "f_sizeof"), "i8"): enabled}
        st.assume(enabled >= 0, enabled <= 1)
        # invariant of the class (capacity >= 1: a buffer with room for at least one result)
        st.assume(0 <= size, size <= cap, 1 <= cap, cap < MAXLEN, 1 <= win, win <= cap, 0 <= best, best <= size, best <= win)
        v = SB(e, cand, obj)
        D, I, V = v.dist(st), v.id(st), v.vis(st)
        i = z3.Int("vr")
        st.assume(z3.ForAll([i], z3.And(0 <= V[i], V[i] <= 1), patterns=[V[i]]))
        S = z3.Array("S!visited", z3.IntSort(), z3.BoolSort())
        cx = dict(v=v, size=size, best=best, win=win, cap=cap, D=D, I=I, V=V, obj=obj, cand=cand, filt=filt, enabled=enabled, S=S)
        st.assume(self.visited_prefix(V, best, size))
        if self.assume_sorted:
            st.assume(self.sorted_(D, size))
        self.cx = cx
        return v, cx

    def sorted_(self, D, n, nm="k"):
        i, j = z3.Ints(f"{nm}i {nm}j")
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le(self.less, D[i], D[j])), patterns=[z3.MultiPattern(D[i], D[j])])

    def visited_prefix(self, V, best, n):
        i = z3.Int("vi")
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < best, i < n), V[i] == 1), patterns=[V[i]])

    def invariant(self, e, st, cx, sorted_=True):
        v = cx["v"]
        D, V = v.dist(st), v.vis(st)
        n, best, win, cap = (v.f(st, x) for x in ("size", "best", "window", "capacity"))
        out = [
            ("size stays within the capacity", z3.And(0 <= n, n <= cap)),
            ("the search frontier stays within the region of interest", z3.And(0 <= best, best <= n, best <= win)),
            ("configuration (window, capacity) unchanged", z3.And(win == cx["win"], cap == cx["cap"])),
            ("everything before the frontier is visited", self.visited_prefix(V, best, n)),
        ]
        if sorted_:
            out.append(("candidates stay sorted best first", self.sorted_(D, n)))
        return out


class Insert(SBUnit):
    op = "insert"

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        id_, d = fresh_int("id"), fresh_real("d")
        st.assume(id_ >= 0, id_ < 1 << 32)
        cx.update(id=id_, d=d)
        return [Ptr(cx["obj"]), id_, d], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        D, I, d, idn = cx["D"], cx["I"], cx["d"], cx["id"]
        k = z3.Int("tk")
        out = []

        def P(lo, hi, pred, arr):
            return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), pred), patterns=[arr[k]])

        exprs = [(n, (lambda v, n=n: cget(v, n))) for n in names]
        for a in range(len(names)):
            for b in range(a + 1, len(names)):
                exprs.append((names[a] + "+" + names[b], lambda v, n=names[a], m=names[b]: cget(v, n) + cget(v, m)))
        n = cx["size"]
        for nme, ex in exprs:
            out.append((f"le-below {nme}", lambda v, ex=ex: P(0, ex(v), le(self.less, D[k], d), D)))
            out.append((f"gt-above {nme}", lambda v, ex=ex: P(ex(v), n, lt(self.less, d, D[k]), D)))
            out.append((f"noid-above {nme}", lambda v, ex=ex: P(ex(v), n, z3.Or(I[k] != idn, D[k] != d), I)))
            out.append((f"noid-from {nme}+1", lambda v, ex=ex: P(ex(v) + 1, n, z3.Or(I[k] != idn, D[k] != d), I)))
            out.append((f"{nme}<=size", lambda v, ex=ex: ex(v) <= n))
        return out

    def post(self, e, st, ret, cx):
        v = cx["v"]
        D, I, V = v.dist(st), v.id(st), v.vis(st)
        D0, I0, V0 = cx["D"], cx["I"], cx["V"]
        n0, cap = cx["size"], cx["cap"]
        n, best = v.f(st, "size"), v.f(st, "best")
        r = e.as_int(ret, st)
        d, idn = cx["d"], cx["id"]
        k = z3.Int("pk")
        k2 = z3.Int("pk2")
        dup = z3.Exists([k], z3.And(0 <= k, k < n0, I0[k] == idn, D0[k] == d))
        skip = z3.And(n0 == cap, lt(self.less, D0[n0 - 1], d))
        un = z3.And(n == n0, best == cx["best"])
        same = z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < n0), z3.And(D[k2] == D0[k2], I[k2] == I0[k2], V[k2] == V0[k2])))
        inserted = z3.And(
            0 <= r, r <= n0,
            n == z3.If(n0 + 1 <= cap, n0 + 1, cap),
            z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < r), z3.And(D[k2] == D0[k2], I[k2] == I0[k2], V[k2] == V0[k2], le(self.less, D0[k2], d)))),
            z3.Implies(r < n, z3.And(D[r] == d, I[r] == idn, V[r] == 0)),
            z3.ForAll([k2], z3.Implies(z3.And(r < k2, k2 < n), z3.And(D[k2] == D0[k2 - 1], I[k2] == I0[k2 - 1], V[k2] == V0[k2 - 1]))),
            z3.ForAll([k2], z3.Implies(z3.And(r <= k2, k2 < n0), lt(self.less, d, D0[k2]))),
            best == z3.If(r < cx["best"], r, cx["best"]),
        )
        notdup = z3.ForAll([k2], z3.Implies(z3.And(0 <= k2, k2 < n0), z3.Not(z3.And(I0[k2] == idn, D0[k2] == d))))
        return self.invariant(e, st, cx) + [
            ("insert effect: skipped, duplicate, or inserted at the returned position", z3.Or(z3.And(skip, r == n0, un, same), z3.And(r == n0 + 1, un, same, dup), z3.And(notdup, inserted))),
        ]


class Next(SBUnit):
    op = "next"

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        st.assume(z3.Not(cx["best"] == z3.If(cx["size"] <= cx["win"], cx["size"], cx["win"])))
        return [Ptr(cx["obj"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        out = []
        for n in names:
            out.append((f"visited-below {n}", lambda v, n=n: self.visited_prefix(cx["v"].vis(v.state), cget(v, n), cx["size"])))
            out.append((f"visited-upto {n}", lambda v, n=n: self.visited_prefix(cx["v"].vis(v.state), cget(v, n) + 1, cx["size"])))
        return out

    def post(self, e, st, ret, cx):
        v = cx["v"]
        D, I, V = v.dist(st), v.id(st), v.vis(st)
        k = z3.Int("pk")
        b0, n, b, win = cx["best"], v.f(st, "size"), v.f(st, "best"), cx["win"]
        up = z3.If(n <= win, n, win)
        ok = isinstance(ret, Ptr) and ret.reg is cx["cand"]
        return self.invariant(e, st, cx) + [
            ("next returns the stored candidate at the frontier", z3.And(ret.off == b0 * K(e, "n_sizeof")) if ok else False),
            ("next marks it visited", V[b0] == 1),
            ("next changes nothing but that mark", z3.And(n == cx["size"], z3.ForAll([k], z3.And(D[k] == cx["D"][k], I[k] == cx["I"][k], z3.Implies(k != b0, V[k] == cx["V"][k]))))),
            ("next moves the frontier forward to the next unvisited candidate or the end of the region", z3.And(b > b0, b <= up, z3.Implies(b < up, V[b] == 0))),
        ]


class Done(SBUnit):
    op = "done"

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        return [Ptr(cx["obj"])], cx

    def post(self, e, st, ret, cx):
        n, win, b = cx["size"], cx["win"], cx["best"]
        up = z3.If(n <= win, n, win)
        r = e.as_bool(ret, st)
        return self.invariant(e, st, cx) + [
            ("done() only when every candidate of the region of interest is visited", z3.Implies(zB(r), self.visited_prefix(cx["V"], up, n))),
            ("not done() means there is a candidate to expand", z3.Implies(z3.Not(zB(r)), b < up)),
        ]


class PushBack(SBUnit):
    op = "push_back"
    assume_sorted = False

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        id_, d = fresh_int("id"), fresh_real("d")
        st.assume(id_ >= 0, id_ < 1 << 32)
        cx.update(id=id_, d=d)
        return [Ptr(cx["obj"]), id_, d], cx

    def post(self, e, st, ret, cx):
        v = cx["v"]
        D, I, V = v.dist(st), v.id(st), v.vis(st)
        n0, n, cap = cx["size"], v.f(st, "size"), cx["cap"]
        k = z3.Int("pk")
        same = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.And(D[k] == cx["D"][k], I[k] == cx["I"][k], V[k] == cx["V"][k])))
        return self.invariant(e, st, cx, sorted_=False) + [
            ("push_back appends one unvisited candidate unless the buffer is full", z3.And(v.f(st, "best") == cx["best"], same, z3.If(n0 < cap, z3.And(n == n0 + 1, D[n0] == cx["d"], I[n0] == cx["id"], V[n0] == 0), n == n0))),
        ]


class CanSkip(SBUnit):
    op = "can_skip"

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        d = fresh_real("d")
        cx.update(d=d)
        return [Ptr(cx["obj"]), d], cx

    def post(self, e, st, ret, cx):
        n, cap = cx["size"], cx["cap"]
        r = zB(e.as_bool(ret, st))
        return self.invariant(e, st, cx) + [("can_skip() exactly when the buffer is full and its last candidate is strictly better", r == z3.And(n == cap, lt(self.less, cx["D"][n - 1], cx["d"])))]


class Full(SBUnit):
    op = "full"

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        return [Ptr(cx["obj"])], cx

    def post(self, e, st, ret, cx):
        return [("full() exactly when size reaches capacity", zB(e.as_bool(ret, st)) == (cx["size"] == cx["cap"]))]


class Clear(SBUnit):
    op = "clear"
    props = {"C01", "C03"}
    assume_sorted = False

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        return [Ptr(cx["obj"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        return filter_templates(e, self.cx["filt"], 0xFFFF, names, cget)

    def post(self, e, st, ret, cx):
        v = cx["v"]
        F = e.arr_get(st, cx["filt"], 0, "i16")
        k = z3.Int("fk")
        return self.invariant(e, st, cx) + [
            ("clear empties the buffer", z3.And(v.f(st, "size") == 0, v.f(st, "best") == 0)),
            ("clear forgets every visited id", z3.Implies(cx["enabled"] == 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 65536), F[k] == 0xFFFF)))),
        ]


class Sort(SBUnit):
    op = "sort"
    assume_sorted = False

    def configure(self, e):
        e.contracts["~std::sort<"] = self.sort_contract

    def sort_contract(self, e, st, av, I):
        """std::sort(first, last, cmp): requires a range of the candidate array; ensures it is a
        sorted permutation (trusted: libstdc++)"""
        cx = self.cx
        dem = I.get("dem", "")
        first, last = av[0], av[1]
        s = K(e, "n_sizeof")
        ok = isinstance(first, Ptr) and isinstance(last, Ptr) and first.reg is cx["cand"] and last.reg is cx["cand"]
        if not ok:
            raise Unsupported("std::sort of an unexpected range")
        n0 = cx["v"].f(st, "size")
        e.oblige(st, z3.And(zI(first.off) == 0, zI(last.off) == s * n0), "sort() sorts exactly the valid range", "pre", I.get("loc", ""))
        e.oblige(st, ("std::less<" in dem) if self.less else ("std::greater<" in dem), "sort() uses the buffer's own ordering", "pre", I.get("loc", ""))
        v = cx["v"]
        D0, I0, V0 = v.dist(st), v.id(st), v.vis(st)
        P = z3.Array("perm", z3.IntSort(), z3.IntSort())
        Q = z3.Array("permi", z3.IntSort(), z3.IntSort())
        D, Ia, V = fresh_array("D", z3.RealSort()), fresh_array("I", z3.IntSort()), fresh_array("V", z3.IntSort())
        k = z3.Int("pk")
        inr = z3.And(0 <= k, k < n0)
        st.assume(z3.ForAll([k], z3.If(inr, z3.And(0 <= P[k], P[k] < n0, Q[P[k]] == k, D[k] == D0[P[k]], Ia[k] == I0[P[k]], V[k] == V0[P[k]]), z3.And(D[k] == D0[k], Ia[k] == I0[k], V[k] == V0[k])), patterns=[D[k], Ia[k], V[k]]))
        st.assume(z3.ForAll([k], z3.Implies(inr, z3.And(0 <= Q[k], Q[k] < n0, P[Q[k]] == k)), patterns=[Q[k]]))
        st.assume(self.sorted_(D, n0, "s"))
        m = st.mem[cx["cand"].id]
        m[(K(e, "n_dist"), "f32")] = D
        m[(K(e, "n_id"), "i32")] = Ia
        m[(K(e, "n_vis"), "i8")] = V
        for key in list(m):
            e.note_write(cx["cand"], key)
        cx["P"] = P
        return None

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        st.assume(cx["best"] == 0)  # sort() is only used before the search starts
        e.assumptions.add("std::sort yields a sorted permutation of its range (libstdc++; the comparator's contract is proved separately)")
        return [Ptr(cx["obj"])], cx

    def post(self, e, st, ret, cx):
        return self.invariant(e, st, cx) + [("sort() was reached", "P" in cx)]


class Cmp(Unit):
    """the ordering of candidates is by distance (and then by id for the total order)"""
    props = {"C01", "C05", "C07"}

    def __init__(self, fn, less, total=False, fields="n"):
        self.fn, self.less, self.total = fn, less, total
        self.name = "ordering " + fn[3:]

    def setup(self, e, st):
        rs = []
        vals = []
        for n in "ab":
            r = Region(n, "obj", size=64)
            r.readonly = True
            i, d = fresh_int("id" + n), fresh_real("d" + n)
            st.assume(i >= 0, i < 1 << 32)
            off = (0, 4) if self.total else (K(e, "n_id"), K(e, "n_dist"))
            st.mem[r.id] = {(off[0], "i32"): i, (off[1], "f32"): d}
            rs.append(Ptr(r, 0))
            vals.append((i, d))
        return rs, dict(vals=vals)

    def post(self, e, st, ret, cx):
        (ia, da), (ib, db) = cx["vals"]
        r = zB(e.as_bool(ret, st))
        if self.total:
            return [("total order: distance first, then id", r == z3.Or(lt(self.less, da, db), z3.And(da == db, ia < ib)))]
        return [("candidates are ordered by distance alone", r == lt(self.less, da, db))]


# ------------------------------------------------------------------ visited filter
def filter_templates(e, reg, sentinel, names, cget):
    out = []
    k = z3.Int("fk")
    ty = reg.fields[0]
    for n in names:
        out.append((f"filled below {n}", lambda v, n=n: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cget(v, n)), e.arr_get(v.state, reg, 0, ty)[k] == sentinel), patterns=[e.arr_get(v.state, reg, 0, ty)[k]])))
    return out


class Filter(Unit):
    props = {"C03"}

    def __init__(self, n, op):
        self.n = n
        self.op = op
        self.fn = "vp_filter%s_%s" % ("" if n == 16 else "8", op)
        self.name = "VisitedFilter<%d>::%s" % (n, op)

    def setup(self, e, st):
        sfx = "" if self.n == 16 else "8"
        cap = K(e, f"f{sfx}_capacity")
        self.cap = cap
        es, ty = (2, "i16") if self.n == 16 else (4, "i32")
        self.ty = ty
        self.sent = (1 << (8 * es)) - 1
        filt = Region("filter", "arr", stride=es, length=cap, fields={0: ty})
        obj = Region("filterobj", "obj", size=K(e, f"f{sfx}_sizeof"))
        fv = K(e, "f_values")
        obj.bind = {fv: Ptr(filt, 0), fv + 8: Ptr(filt, es * cap), fv + 16: Ptr(filt, es * cap)}
        S = z3.Array("S!visited", z3.IntSort(), z3.BoolSort())
        F = e.arr_get(st, filt, 0, ty)
        self.cx = cx = dict(filt=filt, obj=obj, S=S, F=F)
        k = z3.Int("fr")
        st.assume(z3.ForAll([k], z3.And(F[k] >= 0, F[k] <= self.sent), patterns=[F[k]]))
        args = [Ptr(obj)]
        if self.op != "reset":
            key = fresh_int("key")
            # ids the filter can represent: the top slot of the id space is its empty marker
            st.assume(key >= 0, key < (0xFFFF0000 if self.n == 16 else 0xFFFFFFFF))
            st.assume(self.inv(F, S))
            cx["key"] = key
            args.append(key)
        return args, cx

    def keyof(self, v, lo):
        return v * 65536 + lo if self.n == 16 else v

    def inv(self, F, S):
        """every non-empty slot holds the tag of an id that was recorded"""
        k = z3.Int("fi")
        extra = True if self.n == 16 else z3.Implies(F[k] != self.sent, F[k] % self.cap == k)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.cap), z3.Implies(F[k] != self.sent, z3.And(S[self.keyof(F[k], k)], extra))), patterns=[F[k]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        return filter_templates(e, self.cx["filt"], self.sent, names, cget)

    def post(self, e, st, ret, cx):
        F = e.arr_get(st, cx["filt"], 0, self.ty)
        F0, S = cx["F"], cx["S"]
        k = z3.Int("pk")
        if self.op == "reset":
            empty = z3.K(z3.IntSort(), z3.BoolVal(False))
            return [("after reset no id is reported as visited", self.inv(F, empty)), ("reset empties every slot", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.cap), F[k] == self.sent)))]
        key = cx["key"]
        r = zB(e.as_bool(ret, st))
        slot = key % self.cap
        tag = key / 65536 if self.n == 16 else key
        if self.op == "contains":
            return [("an id is reported as visited only if it was recorded", z3.Implies(r, S[key])), ("contains changes nothing", z3.ForAll([k], F[k] == F0[k])),
                    ("a slot still holding the id is reported", r == (F0[slot] == tag))]
        S2 = z3.Store(S, key, True)
        return [
            ("emplace reports an id as already visited only if it was recorded", z3.Implies(r, S[key])),
            ("emplace records exactly this id", z3.And(self.inv(F, S2), F[slot] == tag)),
            ("emplace leaves the other slots alone", z3.ForAll([k], z3.Implies(k != slot, F[k] == F0[k]))),
        ]


class BufVisited(SBUnit):
    """emplace_visited / is_visited go through the filter only when it is enabled"""
    props = {"C03"}

    def __init__(self, less, op):
        self.op = op
        super().__init__(less)

    def setup(self, e, st):
        v, cx = self.mk(e, st)
        key = fresh_int("key")
        st.assume(key >= 0, key < 0xFFFF0000)
        F = e.arr_get(st, cx["filt"], 0, "i16")
        k = z3.Int("fi")
        S = cx["S"]
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 65536), z3.Implies(F[k] != 0xFFFF, S[F[k] * 65536 + k])), patterns=[F[k]]))
        st.assume(z3.ForAll([k], z3.And(F[k] >= 0, F[k] <= 0xFFFF), patterns=[F[k]]))
        cx.update(key=key, F=F)
        return [Ptr(cx["obj"]), key], cx

    def post(self, e, st, ret, cx):
        r = zB(e.as_bool(ret, st))
        F = e.arr_get(st, cx["filt"], 0, "i16")
        k = z3.Int("pk")
        out = [("an id is reported as visited only if the filter is on and it was recorded", z3.Implies(r, z3.And(cx["enabled"] == 1, cx["S"][cx["key"]])))]
        if self.op == "emplace":
            out.append(("the id is recorded when the filter is on", z3.Implies(cx["enabled"] == 1, F[cx["key"] % 65536] == cx["key"] / 65536)))
            out.append(("only this id is recorded", z3.ForAll([k], z3.Implies(k != cx["key"] % 65536, F[k] == cx["F"][k]))))
        else:
            out.append(("nothing is recorded by asking", z3.ForAll([k], F[k] == cx["F"][k])))
        return out


UNITS = [c(l) for c in (Insert, Next, Done, PushBack, CanSkip, Full, Clear, Sort) for l in (True, False)]
UNITS += [Cmp("vp_less", True), Cmp("vp_greater", False), Cmp("vp_less_p", True), Cmp("vp_total_less", True, True), Cmp("vp_total_greater", False, True)]
UNITS += [Filter(n, op) for n in (16, 8) for op in ("emplace", "contains", "reset")]
UNITS += [BufVisited(l, op) for l in (True, False) for op in ("emplace", "is_visited")]
