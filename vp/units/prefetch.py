"""The loop prefetcher (lib/prefetch.h): its operations see every index below the limit at most once, in order."""
import z3
from driver import *

NOINLINE = []


def K(e, n):
    return e.ir["consts"][n]


class Pf(Unit):
    props = {"C04"}

    def get(self, e, st, k):
        return zI(e.as_int(e.obj_load(st, self.cx["p"], K(e, "p_" + k), "i64", {}), st))

    def setup(self, e, st):
        i, m, sl, sp, a = (fresh_int(x) for x in ("i", "limit", "slack", "step", "calls"))
        for x in (i, m, sl, sp):
            st.assume(x >= 0, x < 1 << 63)
        st.assume(i <= m, z3.Implies(m > 0, sp > 0), sl <= m)
        p = Region("prefetcher", "obj", size=K(e, "p_sizeof"))
        st.mem[p.id] = {(K(e, "p_i"), "i64"): i, (K(e, "p_max"), "i64"): m, (K(e, "p_slack"), "i64"): sl, (K(e, "p_step"), "i64"): sp}
        gh = Ghost(st, "last", "ok")
        gh.set(e, st, "last", i)
        cx = self.cx = dict(p=p, i=i, m=m, sl=sl, sp=sp, gh=gh)

        def pred(e, st, av, I):
            x = zI(e.as_int(av[0], st))
            e.oblige(st, z3.And(x >= i, x < m, x >= zI(gh.get(e, st, "last"))), "the predicate is asked only for indices not yet handled, below the limit", "pre", I.get("loc", ""))
            b = z3.FreshConst(z3.BoolSort(), "wanted")
            gh.set(e, st, "ok", z3.If(b, x + 1, z3.IntVal(0)))
            return b

        def op(e, st, av, I):
            x = zI(e.as_int(av[0], st))
            e.oblige(st, z3.And(x >= i, x < m, x >= zI(gh.get(e, st, "last")), zI(gh.get(e, st, "ok")) == x + 1), "the operation runs at most once per index, below the limit, where the predicate holds", "pre", I.get("loc", ""))
            gh.set(e, st, "last", norm(x + 1))

        e.contracts.update({"vp_pred": pred, "vp_op": op})
        return [Ptr(p)], cx

    def post(self, e, st, ret, cx):
        return [("the position stays within the limit and never goes back", z3.And(self.get(e, st, "i") >= cx["i"], self.get(e, st, "i") <= cx["m"], zI(cx["gh"].get(e, st, "last")) <= self.get(e, st, "i"))),
                ("limit and step are kept", z3.And(self.get(e, st, "max") == cx["m"], self.get(e, st, "step") == cx["sp"])),
                ("the slack never grows", z3.And(self.get(e, st, "slack") >= 0, self.get(e, st, "slack") <= cx["sl"]))]


class Call(Pf):
    fn = "vp_call"
    name = "Prefetcher::operator()"

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        L = lambda v: zI(cx["gh"].get(e, v.state, "last"))
        I = lambda v: self.get(e, v.state, "i")
        out = [("position in range", lambda v: z3.And(I(v) >= cx["i"], I(v) <= cx["m"])), ("strictly in range", lambda v: z3.And(I(v) >= cx["i"], I(v) < cx["m"])),
               ("handled so far", lambda v: z3.And(L(v) <= I(v), L(v) >= cx["i"]))]
        for n in names:
            f = lambda v, n=n: zI(cget(v, n))
            out.append((n + " in range", lambda v, f=f: z3.And(f(v) >= cx["i"], f(v) <= cx["m"])))
            out.append((n + " strictly in range", lambda v, f=f: z3.And(f(v) >= cx["i"], f(v) < cx["m"])))
            out.append((n + " handled so far", lambda v, f=f: L(v) <= f(v)))
            out.append((n + " at most the slack", lambda v, f=f: z3.And(f(v) >= 0, f(v) <= cx["sl"])))
            out.append((n + " counts", lambda v, f=f: z3.And(f(v) >= 1, f(v) <= cx["sl"] + 1)))
        return out


class DoneP(Pf):
    fn = "vp_done"
    name = "Prefetcher::done"

    def post(self, e, st, ret, cx):
        return [("done exactly at the limit", e.as_bool(ret, st) == (cx["i"] == cx["m"]))]


class Make(Pf):
    fn = "vp_make"
    name = "make_prefetcher"

    def setup(self, e, st):
        la, sp, n = (fresh_int(x) for x in ("lookahead", "step", "n"))
        for x in (la, sp, n):
            st.assume(x >= 0, x < 1 << 63)
        p = Region("prefetcher", "obj", size=K(e, "p_sizeof"))
        self.cx = dict(p=p, n=n, la=la, sp=sp)
        return [Ptr(p), la, sp, n], self.cx

    def post(self, e, st, ret, cx):
        g = lambda k: self.get(e, st, k)
        return [("a prefetcher starts at zero, within its limit", z3.And(g("i") == 0, g("max") <= cx["n"], g("max") >= 0, g("slack") <= g("max"), g("slack") >= 0)),
                ("a prefetcher that does anything has a positive step", z3.Implies(g("max") > 0, z3.And(g("step") > 0, g("step") == cx["sp"]))),
                ("no lookahead or step disables it", z3.Implies(z3.Or(cx["la"] == 0, cx["sp"] == 0), g("max") == 0))]


UNITS = [Call(), DoneP(), Make()]
