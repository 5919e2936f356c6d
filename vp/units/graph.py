"""Adjacency lists (core/graph/graph.h) and vector storage (core/data/simple.h, lib/array.h)."""
import z3
from driver import *

NOINLINE = ["::add_block\\(\\)", "::drop_block\\(\\)", "DenseArray<.*>::slice<.*const$"]
MAX = 1 << 32


def K(e, n):
    return e.ir["consts"][n]


def forall(v, b, p):
    return z3.ForAll(v if isinstance(v, list) else [v], b, patterns=p)


class GU(Unit):
    props = {"C06"}
    fn = "?"
    distinct = True

    def graph(self, e, st):
        n, m = fresh_int("nodes"), fresh_int("maxdeg")
        st.assume(n >= 0, n < MAX, m >= 0, m < MAX - 1)
        row = Region("row", "arr", stride=4, length=m + 1, fields={0: "i32"})
        g = Region("graph", "obj", size=K(e, "g_sizeof"))
        st.mem[g.id] = {(K(e, "g_n"), "i64"): n, (K(e, "g_d"), "i64"): m + 1, (K(e, "g_max"), "i32"): m}
        s, t = fresh_int("src"), fresh_int("dst")
        st.assume(s >= 0, s < n, t >= 0, t < MAX)
        R = e.arr_get(st, row, 0, "i32")
        st.assume(R[0] >= 0, R[0] <= m)
        i, j = z3.Ints("ri rj")
        st.assume(forall(i, z3.And(R[i] >= 0, R[i] < MAX), [R[i]]))
        cx = dict(n=n, m=m, row=row, g=g, s=s, t=t, R=R, len=R[0])

        def getrow(e, st, av, I):
            e.oblige(st, zI(e.as_int(av[0], st)) == s, "only the adjacency list of the given vertex is accessed", "frame", I.get("loc", ""))
            return Ptr(row, 0)

        e.contracts["vp_row"] = getrow
        self.cx = cx
        return cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        R, t = self.cx["R"], self.cx["t"]
        k = z3.Int("tk")
        cx = self.cx
        L, row = cx["len"], lambda v: self.R1(e, v.state)
        c = z3.If(cx["k"] < cx["m"], cx["k"], cx["m"]) if "k" in cx else None
        out = [("not found before " + n, lambda v, n=n: z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < zI(cget(v, n))), R[k] != t), patterns=[R[k]])) for n in names]
        for n in names:
            f = lambda v, n=n: zI(cget(v, n))
            out += [("in the list: " + n, lambda v, f=f: z3.And(f(v) >= 1, f(v) <= L + 1)), ("in the list, from zero: " + n, lambda v, f=f: z3.And(f(v) >= 0, f(v) <= L)),
                    ("not found before, from zero: " + n, lambda v, f=f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < f(v)), R[k + 1] != t), patterns=[R[k + 1]]))]
            if c is not None:
                out += [("in the new list: " + n, lambda v, f=f: z3.And(f(v) >= 0, f(v) <= c)), ("in the row: " + n, lambda v, f=f: z3.And(f(v) >= 1, f(v) <= c + 1)),
                        ("copied below " + n, lambda v, f=f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < f(v)), row(v)[k + 1] == cx["N"][k]), patterns=[cx["N"][k]])),
                        ("copied to the row below " + n, lambda v, f=f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k + 1 < f(v)), row(v)[k + 1] == cx["N"][k]), patterns=[cx["N"][k]]))]
        if c is not None:
            out.append(("degree stored", lambda v: row(v)[0] == c))
        return out

    def R1(self, e, st):
        return e.arr_get(st, self.cx["row"], 0, "i32")

    def unchanged(self, e, st, cx):
        i = z3.Int("ui")
        R1, R = self.R1(e, st), cx["R"]
        return ("the adjacency list is unchanged", forall(i, z3.Implies(z3.And(0 <= i, i <= cx["len"]), R1[i] == R[i]), [R1[i]]))

    def meta_same(self, e, st, cx):
        f = lambda o, t: zI(e.as_int(e.obj_load(st, cx["g"], K(e, o), t, {}), st))
        return ("the graph's size and maximum degree are unchanged", z3.And(f("g_n", "i64") == cx["n"], f("g_max", "i32") == cx["m"], f("g_d", "i64") == cx["m"] + 1))


class AddEdge(GU):
    name, fn = "add_edge", "vp_add_edge"

    def setup(self, e, st):
        cx = self.graph(e, st)
        return [Ptr(cx["g"]), cx["s"], cx["t"]], cx

    def post(self, e, st, ret, cx):
        R, R1, L, t, m = cx["R"], self.R1(e, st), cx["len"], cx["t"], cx["m"]
        i = z3.Int("pi")
        present = z3.Exists([i], z3.And(1 <= i, i <= L, R[i] == t))
        skip = z3.Or(cx["s"] == t, L == m, present)
        r = zI(e.as_int(ret, st))
        return [
            ("the degree grows by one unless the edge is a loop, present, or the list is full", R1[0] == z3.If(skip, L, L + 1)),
            ("the new degree is returned", r == R1[0]),
            ("existing neighbors stay in place", forall(i, z3.Implies(z3.And(1 <= i, i <= L), R1[i] == R[i]), [R1[i]])),
            ("the new neighbor is appended", z3.Implies(z3.Not(skip), R1[L + 1] == t)),
            ("the degree never exceeds the maximum", R1[0] <= m),
            self.meta_same(e, st, cx),
        ]


class Replace(GU):
    name, fn = "replace_node", "vp_replace"

    def setup(self, e, st):
        cx = self.graph(e, st)
        k = fresh_int("count")
        st.assume(k >= 0, k < MAX)
        src = Region("new_neighbors", "arr", stride=4, length=k, fields={0: "i32"}, readonly=True)
        cx.update(k=k, N=e.arr_get(st, src, 0, "i32"))
        return [Ptr(cx["g"]), cx["s"], Ptr(src, 0), k], cx

    def post(self, e, st, ret, cx):
        R1, N = self.R1(e, st), cx["N"]
        c = z3.If(cx["k"] < cx["m"], cx["k"], cx["m"])
        i = z3.Int("pi")
        return [("the degree is the number of new neighbors, cut at the maximum", R1[0] == c),
                ("the list is the first new neighbors in order", forall(i, z3.Implies(z3.And(0 <= i, i < c), R1[i + 1] == N[i]), [N[i]])), self.meta_same(e, st, cx)]


class GetNode(GU):
    name, fn = "get_node", "vp_get_node"

    def setup(self, e, st):
        cx = self.graph(e, st)
        o = Region("out", "obj", size=8)
        cx["o"] = o
        return [Ptr(cx["g"]), cx["s"], Ptr(o)], cx

    def post(self, e, st, ret, cx):
        n = zI(e.as_int(e.obj_load(st, cx["o"], 0, "i64", {}), st))
        return [("the list has as many neighbors as its degree", n == cx["len"]), ("the list starts after the degree", z3.And(ret.reg is cx["row"], zI(ret.off) == 4)), self.unchanged(e, st, cx)]


class Query(GU):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def setup(self, e, st):
        cx = self.graph(e, st)
        a = [Ptr(cx["g"])] + ([cx["s"]] if self.name != "sizes" else [])
        if self.name == "has_edge":
            a.append(cx["t"])
        if self.fn in ("vp_nodes", "vp_maxdeg"):
            a = a[:1]
        return a, cx

    def post(self, e, st, ret, cx):
        R, L = cx["R"], cx["len"]
        i = z3.Int("pi")
        if self.name == "get_node_degree":
            return [("degree", zI(e.as_int(ret, st)) == L), self.unchanged(e, st, cx)]
        if self.name == "n_nodes":
            return [("nodes", zI(e.as_int(ret, st)) == cx["n"])]
        if self.name == "max_degree":
            return [("max degree", zI(e.as_int(ret, st)) == cx["m"])]
        if self.name == "has_edge":
            return [("true iff the target is in the list", zB(e.as_bool(ret, st)) == z3.Exists([i], z3.And(1 <= i, i <= L, R[i] == cx["t"]))), self.unchanged(e, st, cx)]
        R1 = self.R1(e, st)
        return [("the list is empty", R1[0] == 0), self.meta_same(e, st, cx)]


class Reset(Unit):
    """reset and the constructor: every row is cleared"""
    props = {"C06"}

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def setup(self, e, st):
        n, m = fresh_int("nodes"), fresh_int("maxdeg")
        st.assume(n >= 0, n < MAX, m >= 0, m < 1 << 62)
        rows = Region("rows", "rows", stride=4, length=lambda r: m + 1, fields={0: "i32"})
        cx = dict(n=n, m=m, rows=rows)

        def getrow(e, st, av, I):
            i = zI(e.as_int(av[0], st))
            e.oblige(st, z3.And(i >= 0, i < n), "only existing rows are accessed", "safety", I.get("loc", ""))
            return Ptr(rows, 0, i)

        e.contracts["vp_row"] = getrow
        self.cx = cx
        if self.fn == "vp_reset":
            g = Region("graph", "obj", size=K(e, "g_sizeof"))
            st.mem[g.id] = {(K(e, "g_n"), "i64"): n, (K(e, "g_d"), "i64"): m + 1, (K(e, "g_max"), "i32"): m}
            st.assume(m < MAX)
            return [Ptr(g)], cx
        cx["o"] = Region("out", "obj", size=24)
        return [n, m, Ptr(cx["o"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        rows = self.cx["rows"]
        i = z3.Int("ti")

        def mk(nm):
            def f(v):
                A = e.arr_get(v.state, rows, 0, "i32")
                x = zI(cget(v, nm))
                return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x), A[i][0] == 0), patterns=[A[i]])

            return f

        return [("rows before %s are empty" % nm, mk(nm)) for nm in names]

    def post(self, e, st, ret, cx):
        i = z3.Int("pi")
        A = e.arr_get(st, cx["rows"], 0, "i32")
        out = [("every vertex has no neighbors", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cx["n"]), A[i][0] == 0), patterns=[A[i]]))]
        if "o" in cx:
            o = lambda k: zI(e.as_int(e.obj_load(st, cx["o"], 8 * k, "i64", {}), st))
            out.append(("dimensions of the new graph", z3.And(o(0) == cx["n"], o(1) == cx["m"] + 1, o(2) == cx["m"])))
        return out

    def on_throw(self, e, st, cx):
        return [("an error is raised only if the degree does not fit the index type", cx["m"] >= MAX)]


# ---------------------------------------------------------------- dense storage
class DU_(Unit):
    props = {"C10"}

    def data(self, e, st, static=None):
        n, cap = fresh_int("size"), fresh_int("capacity")
        d = fresh_int("dims") if static is None else z3.IntVal(static)
        N = z3.IntVal if False else None
        st.assume(n >= 0, n <= cap, cap < 1 << 31, d >= 0, d < 1 << 20)
        tot = fresh_int("total")
        st.assume(tot == cap * d, tot >= 0, tot < 1 << 52)
        arr = Region("vectors", "arr", stride=4, length=tot, fields={0: "f32"})
        p = "d" if static is None else "ds"
        o = Region("dataset", "obj", size=K(e, p + "_sizeof"))
        dm = K(e, p + "_dims")
        o.bind = {K(e, p + "_ptr"): Ptr(arr, 0)}
        # libstdc++ lays tuples out in reverse; units vp_dim0/vp_dim1 check the accessors against this
        st.mem[o.id] = {(K(e, p + "_size"), "i64"): n, (dm + (8 if static is None else 0), "i64"): cap}
        if static is None:
            st.mem[o.id][(dm, "i64")] = d
        i = fresh_int("i")
        st.assume(i >= 0, i < n)
        lo = fresh_int("rowstart")
        st.assume(lo == i * d, lo >= 0, lo + d <= tot)
        cx = dict(n=n, cap=cap, d=d, arr=arr, o=o, i=i, lo=lo, tot=tot, V=e.arr_get(st, arr, 0, "f32"))
        self.cx = cx
        return cx


class Dim(DU_):
    def __init__(self, fn):
        self.fn = fn
        self.name = "capacity()" if fn.endswith("0") else "dimensions()"

    def setup(self, e, st):
        cx = self.data(e, st)
        return [Ptr(cx["o"])], cx

    def post(self, e, st, ret, cx):
        return [("accessor", zI(e.as_int(ret, st)) == (cx["cap"] if self.fn.endswith("0") else cx["d"]))]


class GetDatum(DU_):
    def __init__(self, fn, static=None):
        self.fn, self.static = fn, static
        self.name = "SimpleData::get_datum (%s)" % fn

    def setup(self, e, st):
        cx = self.data(e, st, self.static)
        cx["out"] = Region("out", "obj", size=8)
        return [Ptr(cx["o"]), cx["i"], Ptr(cx["out"])], cx

    def post(self, e, st, ret, cx):
        j = fresh_int("j")
        st.assume(j >= 0, j < cx["n"], j < cx["i"])
        return [("vector i starts at i * dimensions", z3.And(ret.reg is cx["arr"], zI(ret.off) == 4 * (cx["i"] * cx["d"]))),
                ("vector i has `dimensions` components", zI(e.as_int(e.obj_load(st, cx["out"], 0, "i64", {}), st)) == cx["d"]),
                ("vector i lies inside the storage", z3.And(cx["lo"] >= 0, cx["lo"] + cx["d"] <= cx["cap"] * cx["d"])),
                ("vectors do not overlap", j * cx["d"] + cx["d"] <= cx["i"] * cx["d"])]


class SetDatum(DU_):
    name, fn = "SimpleData::set_datum", "vp_set"

    def setup(self, e, st):
        cx = self.data(e, st)
        k = fresh_int("len")
        st.assume(k >= 0, k < 1 << 40)
        src = Region("datum", "arr", stride=4, length=k, fields={0: "f32"}, readonly=True)
        cx.update(k=k, S=e.arr_get(st, src, 0, "f32"))
        return [Ptr(cx["o"]), cx["i"], Ptr(src, 0), k], cx

    def post(self, e, st, ret, cx):
        V1, V = e.arr_get(st, cx["arr"], 0, "f32"), cx["V"]
        q = z3.Int("q")
        return [("only vectors of the right length are accepted", cx["k"] == cx["d"]),
                ("vector i holds the new components", forall(q, z3.Implies(z3.And(0 <= q, q < cx["d"]), V1[cx["lo"] + q] == cx["S"][q]), [cx["S"][q]])),
                ("every other vector is unchanged", forall(q, z3.Implies(z3.Or(q < cx["lo"], q >= cx["lo"] + cx["d"]), V1[q] == V[q]), [V1[q]]))]

    def on_throw(self, e, st, cx):
        return [("an error is raised only for a wrong length", cx["k"] != cx["d"])]


class Resolve(Unit):
    props = {"C10"}
    name, fn = "BlockedData::resolve", "vp_resolve"
    cases = range(0, 41)

    def setup(self, e, st):
        i = fresh_int("i")
        st.assume(i >= 0, i < 1 << 62)
        b = Region("blocked", "obj", size=K(e, "b_sizeof"), readonly=True)
        st.mem[b.id] = {(K(e, "b_bs"), "i64"): self.case}
        o = Region("out", "obj", size=16)
        return [Ptr(b), i, Ptr(o)], dict(i=i, o=o, bs=1 << self.case)

    def post(self, e, st, ret, cx):
        blk, off = (zI(e.as_int(e.obj_load(st, cx["o"], 8 * k, "i64", {}), st)) for k in (0, 1))
        return [("block and position determine the index", z3.And(blk * cx["bs"] + off == cx["i"], off >= 0, off < cx["bs"], blk >= 0))]


class BResize(Unit):
    props = {"C10"}
    name, fn = "BlockedData::resize", "vp_bresize"
    cases = [0, 1, 3, 10, 20]

    def setup(self, e, st):
        A = K(e, "b_array")
        nb, n, new = fresh_int("blocks"), fresh_int("size"), fresh_int("new_size")
        bs = 1 << self.case
        st.assume(nb >= 0, nb < 1 << 31, n >= 0, n <= nb * bs, new >= 0, new < 1 << 40)
        blocks = Region("blocks", "arr", stride=A, length=None, fields={})
        b = Region("blocked", "obj", size=K(e, "b_sizeof"))
        vo = K(e, "b_blocks")
        b.bind = {vo: Ptr(blocks, 0), vo + 8: Ptr(blocks, A * nb)}
        st.mem[b.id] = {(K(e, "b_bs"), "i64"): self.case, (K(e, "b_size"), "i64"): n}
        cx = dict(b=b, bs=bs, nb=nb, n=n, new=new, vo=vo, A=A, blocks=blocks)

        def step(d):
            def h(e, st, av, I):
                p = e.load(st, Ptr(b, vo + 8), "ptr", I)
                if d < 0:
                    e.oblige(st, zI(p.off) >= A, "a block is dropped only if there is one", "pre", I.get("loc", ""))
                    e.store(st, Ptr(b, vo + 8), "ptr", Ptr(blocks, norm(p.off - A)), I)
                else:
                    e.store(st, Ptr(b, vo + 8), "ptr", Ptr(blocks, norm(p.off + A)), I)
                return None

            return h

        self.cx = cx
        e.contracts["~::add_block()"] = step(1)
        e.contracts["~::drop_block()"] = step(-1)
        e.assumptions.add("add_block appends one block to the vector of blocks, drop_block removes the last one")
        return [Ptr(b), new], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        off = lambda v: zI(e.load(v.state, Ptr(cx["b"], cx["vo"] + 8), "ptr", {}).off)
        return [("whole blocks", lambda v: off(v) % cx["A"] == 0), ("some block", lambda v: off(v) >= 0),
                ("capacity covers the new size", lambda v: off(v) * cx["bs"] >= cx["new"] * cx["A"]),
                ("capacity exceeds the new size", lambda v: off(v) * cx["bs"] > cx["new"] * cx["A"])]

    def post(self, e, st, ret, cx):
        size = zI(e.as_int(e.obj_load(st, cx["b"], K(e, "b_size"), "i64", {}), st))
        p = e.load(st, Ptr(cx["b"], cx["vo"] + 8), "ptr", {})
        k = zI(p.off)
        return [("the size is the requested one", size == cx["new"]), ("there are enough blocks for every vector", cx["new"] * cx["A"] <= k * cx["bs"])]


UNITS = [AddEdge(), Replace(), GetNode(), Query("get_node_degree", "vp_degree"), Query("has_edge", "vp_has_edge"), Query("clear_node", "vp_clear_node"), Query("n_nodes", "vp_nodes"), Query("max_degree", "vp_maxdeg"),
         Reset("reset", "vp_reset"), Reset("SimpleGraphBase(n, degree)", "vp_ctor"),
         Dim("vp_dim0"), Dim("vp_dim1"), GetDatum("vp_get"), GetDatum("vp_getm"), GetDatum("vp_get5", 5), SetDatum(), Resolve(), BResize()]
