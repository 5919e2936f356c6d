"""Work partitioning (include/svs/lib/threads/{types,thunks}.h): every index is handed to exactly
one call of the body, in chunks of the requested size."""
import z3
from driver import *

PROPS = {"C09"}


def K(e, n):
    return e.ir["consts"][n]


class TUnit(Unit):
    pass


def bounds(e, st, n, nt, tid):
    """the specified share of thread tid"""
    q, r = e.divmod_terms(st, n, nt)
    start = tid * q + z3.If(tid < r, tid, r)
    stop = start + q + z3.If(tid < r, z3.IntVal(1), z3.IntVal(0))
    return q, r, start, stop


class Balance(TUnit):
    name = "balance"
    fn = "vp_balance"

    def setup(self, e, st):
        n, nt, tid = fresh_int("n"), fresh_int("threads"), fresh_int("tid")
        st.assume(n >= 0, n < 1 << 62, nt >= 1, nt < 1 << 31, tid >= 0, tid < nt)
        o = Region("out", "obj", size=32)
        return [n, nt, tid, Ptr(o)], dict(n=n, nt=nt, tid=tid, o=o)

    def post(self, e, st, ret, cx):
        n, nt, tid = cx["n"], cx["nt"], cx["tid"]
        a, b, s, em = (e.as_int(e.obj_load(st, cx["o"], 8 * k, "i64", {}), st) for k in range(4))
        q, r, start, stop = bounds(e, st, n, nt, tid)
        t1 = tid + 1
        return [
            ("the share of a thread starts where it should", zI(a) == start),
            ("the share of a thread ends where it should", zI(b) == stop),
            ("size() is the length of the share", zI(s) == stop - start),
            ("empty() iff the share has no index", (zI(em) == 1) == (stop == start)),
            ("shares are adjacent", stop == t1 * q + z3.If(t1 < r, t1, r)),
            ("the last share ends at n", z3.Implies(tid == nt - 1, stop == n)),
            ("shares stay inside the index space", z3.And(start >= 0, start <= stop, stop <= n)),
        ]


class Static(TUnit):
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind
        self.name = "StaticPartition thunk (%s)" % kind

    def setup(self, e, st):
        n, nt, tid, s = fresh_int("n"), fresh_int("threads"), fresh_int("tid"), fresh_int("start")
        st.assume(n >= 0, n < (1 << 62 if self.kind != "u32" else 1 << 31), nt >= 1, nt < 1 << 31, tid >= 0, tid < nt, s >= 0, s < 1 << 62)
        cx = dict(n=n, nt=nt, tid=tid, s=s if self.kind not in ("count", "u32") else 0)
        if self.kind in ("count", "u32"):
            args = [n, nt, tid]
        elif self.kind == "bounds":
            args = [s, s + n, nt, tid]
        else:
            u = Region("range", "obj", size=K(e, "ur_sizeof"), readonly=True)
            st.mem[u.id] = {(K(e, "ur_start"), "i64"): s, (K(e, "ur_stop"), "i64"): s + n}
            args = [Ptr(u), nt, tid]
        g = cx["g"] = Ghost(st, "calls")

        def body(e, st, av, I):
            a, b, first, size, t = (zI(e.as_int(x, st)) for x in av)
            q, r, start, stop = bounds(e, st, n, nt, tid)
            loc = I.get("loc", "")
            e.oblige(st, zI(g.get(e, st, "calls")) == 0, "the body runs at most once per thread", "pre", loc)
            e.oblige(st, z3.And(a == cx["s"] + start, b == cx["s"] + stop), "the body gets exactly the thread's share", "pre", loc)
            e.oblige(st, z3.And(first == a, size == b - a, size > 0, t == tid), "the range handed out is non-empty and labelled with the thread", "pre", loc)
            g.set(e, st, "calls", 1)
            return None

        e.contracts["vp_body"] = body
        return args, cx

    def post(self, e, st, ret, cx):
        q, r, start, stop = bounds(e, st, cx["n"], cx["nt"], cx["tid"])
        return [("the body ran unless the thread's share is empty", z3.Or(zI(cx["g"].get(e, st, "calls")) == 1, start == stop))]


class Dynamic(TUnit):
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind
        self.name = "DynamicPartition thunk (%s)" % kind

    def setup(self, e, st):
        n, nt, tid, s, gr = fresh_int("n"), fresh_int("threads"), fresh_int("tid"), fresh_int("start"), fresh_int("grain")
        st.assume(n >= 0, n < 1 << 62, nt >= 1, nt < 1 << 31, tid >= 0, tid < nt, s >= 0, s < 1 << 62, gr >= 1, gr < 1 << 62)
        if self.kind == "count":
            s = 0
        args = [n, gr, nt, tid] if self.kind == "count" else [s, s + n, gr, nt, tid]
        g = Ghost(st, "pending", "over")
        cx = dict(g=g)

        def draw(e, st, av, I):
            p, v = av
            loc = I.get("loc", "")
            e.oblige(st, zI(e.as_int(e.load(st, p, "i64", I), st)) == 0, "tickets are drawn starting from zero", "pre", loc)
            e.oblige(st, zI(e.as_int(v, st)) == 1, "tickets are drawn one at a time", "pre", loc)
            e.oblige(st, I["aop"] == "add", "tickets are drawn with an atomic increment", "pre", loc)
            e.oblige(st, zI(g.get(e, st, "pending")) == 0, "a chunk is executed before the next one is drawn", "pre", loc)
            e.oblige(st, zI(g.get(e, st, "over")) == 0, "no ticket is drawn after the end was seen", "pre", loc)
            i = fresh_int("ticket")
            c = fresh_int("chunk")  # grain * ticket
            st.assume(i >= 0, c == gr * i, c >= 0, c + gr < 1 << 63, i <= c)
            g.set(e, st, "pending", 1)
            g.i, g.c = i, c
            g.set(e, st, "over", z3.If(c >= n, z3.IntVal(1), z3.IntVal(0)))
            st.meta["ticket"] = (i, c)
            return i

        def body(e, st, av, I):
            a, b, first, size, t = (zI(e.as_int(x, st)) for x in av)
            loc = I.get("loc", "")
            i, c = st.meta["ticket"]
            e.oblige(st, zI(g.get(e, st, "pending")) == 1, "the body runs once per ticket", "pre", loc)
            e.oblige(st, c < n, "the body runs only for chunks inside the index space", "pre", loc)
            e.oblige(st, z3.And(a == s + c, b == s + z3.If(c + gr < n, c + gr, n)), "the body gets exactly the chunk of its ticket", "pre", loc)
            e.oblige(st, z3.And(first == a, size == b - a, t == tid), "the range handed out is labelled with the thread", "pre", loc)
            g.set(e, st, "pending", 0)
            return None

        e.contracts["atomicrmw"] = draw
        e.contracts["vp_body"] = body
        e.assumptions.add("atomic fetch_add hands every ticket value to exactly one thread; tickets times the grain size do not overflow 63 bits")
        return args, cx

    def post(self, e, st, ret, cx):
        return [("a thread stops only at a ticket beyond the index space", zI(cx["g"].get(e, st, "over")) == 1)]


class RunSeq(TUnit):
    name = "run(SequentialThreadPool, StaticPartition)"
    fn = "vp_run_seq_static"

    def setup(self, e, st):
        n = fresh_int("n")
        st.assume(n >= 0, n < 1 << 62)
        g = Ghost(st, "calls")

        def body(e, st, av, I):
            a, b, first, size, t = (zI(e.as_int(x, st)) for x in av)
            e.oblige(st, z3.And(a == 0, b == n, size == n, t == 0, zI(g.get(e, st, "calls")) == 0), "the single thread gets the whole index space, once", "pre", I.get("loc", ""))
            g.set(e, st, "calls", 1)
            return None

        e.contracts["vp_body"] = body
        return [n], dict(g=g, n=n)

    def post(self, e, st, ret, cx):
        return [("the body ran unless the index space is empty", z3.Or(zI(cx["g"].get(e, st, "calls")) == 1, cx["n"] == 0))]


class RunPlain(TUnit):
    name = "run(SequentialThreadPool, f)"
    fn = "vp_run_seq_plain"

    def setup(self, e, st):
        g = Ghost(st, "calls")

        def body(e, st, av, I):
            e.oblige(st, z3.And(zI(e.as_int(av[0], st)) == 0, zI(g.get(e, st, "calls")) == 0), "the task runs once, as thread 0", "pre", I.get("loc", ""))
            g.set(e, st, "calls", 1)
            return None

        e.contracts["vp_task"] = body
        return [], dict(g=g)

    def post(self, e, st, ret, cx):
        return [("the task ran", zI(cx["g"].get(e, st, "calls")) == 1)]


class UnitR(TUnit):
    def __init__(self, op, w=64):
        self.op, self.w = op, w
        self.fn = "vp_unit_" + op + ("_u32" if w == 32 else "")
        self.name = "UnitRange::" + op + ("<uint32_t>" if w == 32 else "")

    def setup(self, e, st):
        a, b, i = fresh_int("start"), fresh_int("stop"), fresh_int("i")
        M = 1 << self.w
        st.assume(a >= 0, b >= a, b < M, i >= 0, i < M)
        u = Region("range", "obj", size=2 * self.w // 8, readonly=True)
        p = "ur" if self.w == 64 else "ur4"
        st.mem[u.id] = {(K(e, p + "_start"), f"i{self.w}"): a, (K(e, p + "_stop"), f"i{self.w}"): b}
        o = Region("out", "obj", size=32)
        cx = dict(a=a, b=b, i=i, o=o)
        if self.op == "make":
            x, y = fresh_int("x"), fresh_int("y")
            st.assume(x >= 0, x < M, y >= 0, y < M)
            cx.update(x=x, y=y)
            return [x, y, Ptr(o)], cx
        if self.op == "eachindex":
            return [Ptr(u), Ptr(o)], cx
        if self.op == "at":
            st.assume(i < b - a)
        return [Ptr(u), i], cx

    def post(self, e, st, ret, cx):
        a, b, i = cx["a"], cx["b"], cx["i"]
        o = lambda k: zI(e.as_int(e.obj_load(st, cx["o"], 8 * k, "i64", {}), st))
        if self.op == "at":
            return [("element i is start + i", zI(e.as_int(ret, st)) == a + i)]
        if self.op == "contains":
            return [("contains(i) iff start <= i < stop", zB(e.as_bool(ret, st)) == z3.And(a <= i, i < b))]
        if self.op == "eachindex":
            return [("eachindex() is [0, size)", z3.And(o(0) == 0, o(1) == b - a))]
        x, y = cx["x"], cx["y"]
        m = z3.If(y > x, y, x)
        return [("a range never ends before it starts", z3.And(o(0) == x, o(1) == m, o(2) == m - x, (o(3) == 1) == (m == x)))]


UNITS = [Balance(), Static("vp_static", "count"), Static("vp_static_range", "bounds"), Static("vp_static_u32", "u32"), Static("vp_static_unit", "range"),
         Dynamic("vp_dynamic", "count"), Dynamic("vp_dynamic_range", "bounds"), RunSeq(), RunPlain(),
         UnitR("at"), UnitR("contains"), UnitR("contains", 32), UnitR("make"), UnitR("eachindex")]
