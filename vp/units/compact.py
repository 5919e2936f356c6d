"""Compaction of a dataset (core/compact.h)."""
import z3
from driver import *

NOINLINE = []


class Compact(Unit):
    props = {"C12"}

    def __init__(self, bits):
        self.bits = bits
        self.fn = "vp_compact" if bits == 32 else "vp_compact64"
        self.name = "compact_data (%d-bit ids)" % bits

    def setup(self, e, st):
        K = e.ir["consts"]
        n, m, b, dims, bdims = (fresh_int(x) for x in ("datasize", "kept", "buffersize", "dims", "bufferdims"))
        st.assume(n >= 0, n < 1 << (32 if self.bits == 32 else 40), m >= 0, m <= n, b >= 1, b < 1 << 40, dims >= 0, dims < 1 << 40, bdims >= 0, bdims < 1 << 40)
        D = Region("data", "arr", stride=8, length=n, fields={0: "i64"})
        B = Region("buffer", "arr", stride=8, length=b, fields={0: "i64"})
        M = Region("map", "arr", stride=self.bits // 8, length=m, fields={0: "i%d" % self.bits}, readonly=True)
        D0, M0 = e.arr_get(st, D, 0, "i64"), e.arr_get(st, M, 0, "i%d" % self.bits)
        e.arr_get(st, B, 0, "i64")
        j, k = z3.Ints("j k")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(M0[j] >= j, M0[j] < n)), patterns=[M0[j]]))
        st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), M0[j] < M0[k]), patterns=[z3.MultiPattern(M0[j], M0[k])]))

        def vecs(name, reg, size, d):
            r = Region(name, "obj", size=K["v_sizeof"])
            r.bind = {K["v_p"]: Ptr(reg, 0)}
            st.mem[r.id] = {(K["v_n"], "i64"): size, (K["v_dims"], "i64"): d}
            return r
        dr, br = vecs("dataset", D, n, dims), vecs("bufferset", B, b, bdims)
        cx = self.cx = dict(n=n, m=m, b=b, D=D, B=B, D0=D0, M0=M0, dims=dims, bdims=bdims)
        return [Ptr(dr), Ptr(br), Ptr(M, 0), m], cx

    def state(self, e, st, lo, hi, txt=None):
        """new positions below lo hold their vectors, from hi on everything is as it was"""
        cx, j = self.cx, z3.Int("tj")
        A = e.arr_get(st, cx["D"], 0, "i64")
        return z3.ForAll([j], z3.And(z3.Implies(z3.And(0 <= j, j < lo), A[j] == cx["D0"][cx["M0"][j]]), z3.Implies(j >= hi, A[j] == cx["D0"][j])), patterns=[A[j]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx, j = self.cx, z3.Int("tj")
        D0, M0, n, m = cx["D0"], cx["M0"], cx["n"], cx["m"]
        buf = lambda st: e.arr_get(st, cx["B"], 0, "i64")
        data = lambda st: e.arr_get(st, cx["D"], 0, "i64")
        start0 = self.start
        out = []
        for nm in names:
            c = lambda v, nm=nm: zI(cget(v, nm))
            out.append(("compacted below " + nm, lambda v, c=c: z3.And(0 <= c(v), c(v) <= m, self.state(e, v.state, c(v), c(v)))))
            for x, s in enumerate(start0(S0)):
                out.append(("buffered below %s (%d)" % (nm, x), lambda v, c=c, s=s: z3.And(0 <= c(v), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c(v)), buf(v.state)[j] == D0[M0[j + s]]), patterns=[buf(v.state)[j]]))))
                out.append(("copied back below %s (%d)" % (nm, x), lambda v, c=c, s=s: z3.And(0 <= c(v), self.state(e, v.state, s + c(v), s + c(v)))))
        return out

    def start(self, S0):
        """values held by local variables when the loop starts: one of them is the batch's first position"""
        seen, out = set(), []
        for cells in S0.mem.values():
            if isinstance(cells, dict):
                for k, v in cells.items():
                    if isinstance(k, tuple) and k[1] == "i64" and not isinstance(v, int) and z3.is_int(v) and not z3.is_int_value(v) and not any(v.eq(self.cx[x]) for x in ("n", "m", "b", "dims", "bdims")):
                        if str(v) not in seen and len(out) < 12:
                            seen.add(str(v))
                            out.append(zI(v))
        return out

    def post(self, e, st, ret, cx):
        A = e.arr_get(st, cx["D"], 0, "i64")
        j = z3.Int("j")
        return [("every kept vector is at its new position", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx["m"]), A[j] == cx["D0"][cx["M0"][j]]), patterns=[A[j]])),
                ("vectors beyond the kept ones are untouched", z3.ForAll([j], z3.Implies(j >= cx["m"], A[j] == cx["D0"][j]), patterns=[A[j]])),
                ("compaction goes ahead only if the dimensions agree", cx["dims"] == cx["bdims"])]

    def on_throw(self, e, st, cx):
        return [("compaction is refused only if the dimensions differ", cx["dims"] != cx["bdims"])]


UNITS = [Compact(32), Compact(64)]
