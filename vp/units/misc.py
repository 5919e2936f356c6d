"""lib/narrow.h and the integer helpers of lib/misc.h."""
import z3
from driver import *

PROPS = {"C16"}
# undefined behaviour of the source becomes an obligation (clang inserts the checks before any optimisation)
DEFS = ("-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable", "-fsanitize-trap=all")


def rng(t):
    w = int(t[1:])
    return (0, (1 << w) - 1) if t[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


class Narrow(Unit):
    def __init__(self, T, U):
        self.T, self.U = T, U
        self.fn = f"vp_narrow_{T}_{U}"
        self.name = f"narrow<{T}>({U})"

    def val(self, e, st, x, t):
        w = int(t[1:])
        x = e.as_int(x, st, w)
        return zI(e.signed(st, x, w)) if t[0] == "i" else zI(x)

    def setup(self, e, st):
        lo, hi = rng(self.U)
        w = int(self.U[1:])
        v = fresh_int("x")
        st.assume(v >= lo, v <= hi)
        bits = v if self.U[0] == "u" else fresh_int("xb")
        if self.U[0] == "i":
            st.assume(bits == z3.If(v >= 0, v, v + (1 << w)))
        return [bits], dict(v=v)

    def post(self, e, st, ret, cx):
        return [("a value that is returned equals the argument", self.val(e, st, ret, self.T) == cx["v"])]

    def on_throw(self, e, st, cx):
        lo, hi = rng(self.T)
        return [("an error is raised only for a value the target type cannot represent", z3.Or(cx["v"] < lo, cx["v"] > hi))]


class Simple(Unit):
    def __init__(self, name, fn, setup, post, cases=None, thr=None):
        self.name, self.fn, self._s, self._p, self._t = name, fn, setup, post, thr
        self.cases = cases

    def setup(self, e, st):
        return self._s(self, e, st)

    def post(self, e, st, ret, cx):
        return self._p(self, zI(e.as_int(ret, st, 64)), cx)

    def on_throw(self, e, st, cx):
        return self._t(self, cx) if self._t else super().on_throw(e, st, cx)


def xy(lim):
    def f(u, e, st):
        x, y = fresh_int("x"), fresh_int("y")
        st.assume(x >= 0, x < 1 << 64, y >= 1, y < 1 << 64)
        if lim:
            st.assume(x + y <= 1 << 64)
        return [x, y], dict(x=x, y=y)

    return f


def ceil_post(u, r, cx):
    return [("the quotient rounded up", z3.And(r * cx["y"] >= cx["x"], (r - 1) * cx["y"] < cx["x"], r >= 0))]


def up_post(u, r, cx):
    return [("the smallest multiple that is not below", z3.And(r >= cx["x"], r - cx["y"] < cx["x"], r % cx["y"] == 0))]


def xk(u, e, st):
    x = fresh_int("x")
    st.assume(x >= 0, x < 1 << 64)
    k = u.case
    return [x, k], dict(x=x, k=k)


def xk_small(u, e, st):
    a, cx = xk(u, e, st)
    st.assume(cx["x"] < 1 << (64 - u.case))
    return a, cx


def x1(u, e, st):
    x = fresh_int("x")
    st.assume(x >= 0, x < 1 << 64)
    return [x], dict(x=x)


def mask_unit(t):
    w = int(t[1:])

    def s(u, e, st):
        return list(u.case), {}

    def p(u, r, cx):
        lo, hi = u.case
        want = sum(1 << k for k in range(lo, hi + 1))
        return [(f"bits lo..hi and no others (lo={lo} hi={hi})", r == want)]

    return Simple(f"bitmask<{t}>", f"vp_bitmask_{t}", s, p, cases=[(a, b) for a in range(w) for b in range(a, w)])


UNITS = [Narrow(*p) for p in [("u32", "u64"), ("u64", "i64"), ("i64", "u64"), ("i32", "i64"), ("u16", "u64"), ("u8", "u32"), ("u32", "i64"), ("i8", "i64"),
                              ("u16", "i32"), ("i32", "u32"), ("u32", "i32"), ("u64", "u32"), ("i64", "i32"), ("i32", "u64"), ("u8", "i8"), ("i16", "i64")]]
UNITS += [
    Simple("div_round_up", "vp_div_round_up", xy(False), ceil_post),
    Simple("round_up_to_multiple_of", "vp_round_up", xy(True), up_post),
    Simple("x / PowerOfTwo", "vp_p2_div", xk, lambda u, r, cx: [("quotient", z3.And(r * 2 ** cx["k"] <= cx["x"], (r + 1) * 2 ** cx["k"] > cx["x"]))], cases=range(64)),
    Simple("x % PowerOfTwo", "vp_p2_mod", xk, lambda u, r, cx: [("remainder", z3.And(r == cx["x"] % 2 ** cx["k"]))], cases=range(64)),
    Simple("x * PowerOfTwo", "vp_p2_mul", xk_small, lambda u, r, cx: [("product", r == cx["x"] * 2 ** cx["k"])], cases=range(64)),
    Simple("PowerOfTwo * x", "vp_p2_mulr", xk_small, lambda u, r, cx: [("product", r == cx["x"] * 2 ** cx["k"])], cases=range(64)),
    Simple("PowerOfTwo::value", "vp_p2_value", lambda u, e, st: ([u.case], {}), lambda u, r, cx: [("value", r == 2 ** u.case)], cases=range(64)),
    Simple("prevpow2", "vp_prevpow2", x1, lambda u, r, cx: [("the largest power of two not above", z3.And(cx["x"] > 0, z3.Or(*[z3.And(r == k, cx["x"] >= 2**k, cx["x"] < 2 ** (k + 1)) for k in range(64)])))],
           thr=lambda u, cx: [("an error is raised only for zero", cx["x"] == 0)]),
    mask_unit("u8"), mask_unit("u16"), mask_unit("u32"), mask_unit("u64"), mask_unit("i32"),
]
