"""Distance kernels (include/svs/core/distance/*.h): the result of every kernel is the exact sum
over all components, for every length, element type pair and instruction set."""
import fractions
import itertools

import z3
from driver import *
from kernel import S8, SQRT, FDIV, KernelExecutor, SInt

HARNESS = "distance"
PROPS = {"C08"}
MAXDIM8 = 1 << 15  # 8-bit integer kernels accumulate in 32 bits


def K(e, n):
    return e.ir["consts"][n]


ELEM = {"f32": ("f32", 4), "f16": ("f16", 2), "i8": ("i8", 1), "u8": ("i8", 1)}


def elem(e, A, ty):
    """value of one element as a real/int term, as a function of the index"""
    if ty in ("f32", "f16"):
        return lambda k: A[zI(k)]

    def f(k):
        x = A[zI(k)]
        e.set_bound(x, 0, 255)
        if ty == "i8":
            s = S8(x)
            e.set_bound(s, -128, 127)
            x = s
        return z3.ToReal(x)

    return f


class KUnit(Unit):
    executor = KernelExecutor
    cost = 3
    budget = 300
    cap = None

    def declare(self, e, name, T):
        F = z3.Function(name, z3.IntSort(), z3.RealSort())
        e.prefix[name] = (F, T)
        return F

    def region(self, e, st, name, ty, n):
        t, s = ELEM[ty]
        r = Region(name, "arr", stride=s, length=n, fields={0: t}, readonly=True)
        return r, e.arr_get(st, r, 0, t)

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        out = []
        vals0 = e.__dict__.get("_loop_init", None)
        acc = self.accs(S0, loop, e)
        offs = {0: 0}
        for r, v in S0.env.items():
            c = e.cursor(v)
            if isinstance(c, z3.ExprRef) and len(offs) < 6:
                offs.setdefault(c.get_id(), c)
        for n in names:
            d = e.step_of(loop, S0, n)
            if d and self.cap is not None and not isinstance(self.cap, int):
                out.append((f"cursor {n} below {self.cap}+{d}", lambda v, n=n, d=d: zI(cget(v, n)) < self.cap + d))
        for N, B in ((names, self.lanebound),):
            for r in acc["int"]:
                for n in N:
                    d = e.step_of(loop, S0, n)
                    for W in (d,) if d in (16, 32, 64, 128) else (16, 32, 64, 128):
                        out.append((f"lanes {r} bounded by {n}/{W}", lambda v, r=r, n=n, W=W, B=B: self.lanes(e, v, r, cget(v, n), W, B)))

        def total(v, sub):
            s = z3.RealVal(0)
            for r in sub:
                x = v.vals[r]
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, Undef):
                        raise NotImplementedError("undef lane")
                    if isinstance(y, (SInt, int)) and r in acc["int"]:
                        t = e.sv(v.state, y, 32)
                        s = s + (z3.RealVal(t) if isinstance(t, int) else z3.ToReal(t))
                    else:
                        s = s + zR(e.as_real(y, v.state))
            return s

        every = acc["int"] + acc["real"]
        subs = []
        for k in range(1, min(4, len(every)) + 1):
            subs += itertools.combinations(every, k)
        if len(every) > 4:
            subs.append(tuple(every))
        for fn, (F, T) in e.prefix.items():
            for sub in subs:
                for n in names:
                    for on, o in offs.items():
                        cap = False
                        try:
                            if not e.plausible(loop, S0, total, sub, n, o, fn):
                                if self.cap is None or o is None or not e.plausible(loop, S0, total, sub, n, o, fn, some=True):
                                    continue
                                cap = True
                        except (NotImplementedError, z3.Z3Exception, TypeError):
                            continue
                        if o is None:
                            continue

                        def inv(v, sub=sub, n=n, F=F, o=o, cap=cap):
                            g = total(v, sub) - total(self.v0(v), sub)
                            c, z = norm(cget(v, n) + o), F(norm(cur0[n] + o))
                            if not cap:
                                return g == F(c) - z
                            c, m = zI(c), zI(self.cap)
                            return z3.And(z3.Implies(c <= m, g == F(c) - z), z3.Implies(c >= m, g == F(m) - z))

                        out.append((f"sum {'+'.join(sub)} = {fn}({n}+{on}{' capped' if cap else ''})", inv))
        return out

    def lanes(self, e, v, r, c, W, B):
        out = []
        for x in v.vals[r]:
            b, lo, hi = e.rng(v.state, x, 32)
            out += [W * zI(b + hi) <= B * zI(c), W * zI(b + lo) >= -B * zI(c)]
        return z3.And(out)

    def v0(self, v):
        class W:
            pass

        w = W()
        w.vals = v.init
        w.state = v.entry
        return w

    def accs(self, S0, loop, e):
        out = {"int": [], "real": []}
        for i in e.blockmap[loop.fn][loop.header]:
            if i["op"] != "phi":
                break
            t = i["t"]
            if isinstance(t, dict) and t.get("e") == "i32" or t == "i32":
                if isinstance(t, dict):
                    out["int"].append(i["r"])
            elif t == "f32" or isinstance(t, dict) and t.get("e") == "f32":
                out["real"].append(i["r"])
        return out


class Kernel(KUnit):
    def __init__(self, metric, a, b, static=None):
        self.metric, self.a, self.b, self.static = metric, a, b, static
        self.fn = f"vp_{metric}{'s%d' % static if static else ''}_{a}_{b}"
        self.name = f"{metric}({a},{b}){'[%d]' % static if static else ''}"
        both8 = a in ("i8", "u8") and b in ("i8", "u8")
        self.maxn = MAXDIM8 if both8 else 1 << 40
        self.lanebound = 2 * 65025
        self.cost = 1 if static else 3
        if both8 and a == b and not static:
            self.cost = 20 if metric == "cos" else 10

    def setup(self, e, st):
        n = fresh_int("n") if not self.static else self.static
        if not self.static:
            st.assume(n >= 0, n <= self.maxn)
        self.cap = n
        ra, A = self.region(e, st, "a", self.a, n)
        rb, B = self.region(e, st, "b", self.b, n)
        fa, fb = elem(e, A, self.a), elem(e, B, self.b)
        if self.metric == "l2":
            F = self.declare(e, "sum_l2", lambda k: (fa(k) - fb(k)) * (fa(k) - fb(k)))
        else:
            F = self.declare(e, "sum_ip", lambda k: fa(k) * fb(k))
        cx = dict(n=n, F=F)
        args = [Ptr(ra, 0), Ptr(rb, 0)] + ([] if self.static else [n])
        if self.metric == "cos":
            cx["G"] = self.declare(e, "sum_bb", lambda k: fb(k) * fb(k))
            an = z3.Real("a_norm")
            cx["an"] = an
            args.append(an)
        return args, cx

    def post(self, e, st, ret, cx):
        n = zI(cx["n"])
        r = zR(e.as_real(ret, st))
        if self.metric == "cos":
            g = r == FDIV(cx["F"](n), cx["an"] * SQRT(cx["G"](n)))
            return [("the result is the inner product over the product of the norms", g)]
        return [("the result is the sum over all components" if self.metric == "l2" else "the result is the inner product over all components", r == cx["F"](n))]


PAIRS = [("f32", "f32"), ("f32", "u8"), ("f32", "i8"), ("f32", "f16"), ("f16", "f32"), ("f16", "f16"), ("i8", "i8"), ("u8", "u8"), ("i8", "f32"), ("u8", "i8")]
UNITS = [Kernel(m, a, b) for m in ("l2", "ip", "cos") for a, b in PAIRS]
UNITS += [Kernel(m, a, b, s) for m in ("l2", "ip", "cos") for a, b in PAIRS for s in (5, 37, 100, 128)]


class NormSquare(KUnit):
    cost = 1
    lanebound = 65025

    def __init__(self, a):
        self.a = a
        self.fn = f"vp_norm2_{a}"
        self.name = f"norm_square({a})"

    def setup(self, e, st):
        n = fresh_int("n")
        st.assume(n >= 0, n < 1 << 40)
        ra, A = self.region(e, st, "a", self.a, n)
        f = elem(e, A, self.a)
        self.cap = n
        F = self.declare(e, "sum_aa", lambda k: f(k) * f(k))
        return [Ptr(ra, 0), n], dict(F=F, n=n)

    def post(self, e, st, ret, cx):
        return [("the squared norm sums the squares of all components", zR(e.as_real(ret, st)) == cx["F"](cx["n"]))]


class FixArgument(NormSquare):
    def __init__(self, a):
        self.a = a
        self.fn = f"vp_fix_{a}"
        self.name = f"DistanceCosineSimilarity::fix_argument({a})"

    def setup(self, e, st):
        args, cx = super().setup(e, st)
        o = Region("distance", "obj", size=K(e, "cos_sizeof"))
        cx["o"] = o
        return [Ptr(o)] + args, cx

    def post(self, e, st, ret, cx):
        v = e.obj_load(st, cx["o"], K(e, "cos_norm"), "f32", {})
        return [("the stored query norm is the square root of the sum of squares", zR(e.as_real(v, st)) == SQRT(cx["F"](cx["n"])))]


UNITS += [C(a) for a in ("f32", "i8", "u8", "f16") for C in (NormSquare, FixArgument)]
