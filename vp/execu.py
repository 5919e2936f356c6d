"""Instruction semantics, loops and the per-function driver (see engine.py)."""
import fractions
import math

import os

import z3
from ids import tid

from engine import *  # noqa: F401,F403
from engine import _fresh


MULR = z3.Function("MULR", z3.RealSort(), z3.RealSort(), z3.RealSort())


class Exit:
    def __init__(self, kind, state, val=None, loc=""):
        self.kind, self.state, self.val, self.loc = kind, state, val, loc


class LoopInfo:
    def __init__(self, fn, header, blocks, depth):
        self.fn, self.header, self.blocks, self.depth = fn, header, set(blocks), depth


DBG = bool(os.environ.get("VP_DBG"))


class Executor(Engine):
    discovering = 0  # inside the search for the memory a loop modifies (no invariant is known there)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.lazy_init = {}
        self.write_watch = []
        self.loopmap = {}
        self.blockmap = {}
        self.ctx_stack = []
        self.regions = []
        self.max_inv_report = []

    # ------------------------------------------------------------------ functions
    def fn(self, name):
        if name not in self.blockmap:
            f = self.ir["functions"][name]
            self.blockmap[name] = {b["n"]: b["i"] for b in f["blocks"]}
            self.loopmap[name] = {l["header"]: LoopInfo(name, l["header"], l["blocks"], l["depth"]) for l in f["loops"]}
        return self.ir["functions"][name]

    def run_function(self, st, name, args):
        """symbolically execute; returns list of Exit (kinds: ret, throw)"""
        f = self.fn(name)
        saved = st.env
        st.env = {}
        if len(args) != len(f["params"]):
            raise Unsupported(f"{name}: {len(f['params'])} parameters, contract gives {len(args)}")
        for p, a in zip(f["params"], args):
            st.env[p["n"]] = a
        self.ctx_stack.append(name)
        try:
            exits, backs, outs = self.run_blocks(st, name, f["blocks"][0]["n"], None, None)
        finally:
            self.ctx_stack.pop()
        assert not backs and not outs
        for e in exits:
            e.state.env = saved
        return exits

    # ------------------------------------------------------------------ blocks
    def run_blocks(self, st, fn, block, pred, loop, first=True):
        """Execute from `block` until function exits / back edge to loop.header / loop exits.
        `loop`: innermost loop being cut (blocks outside of it end the run)."""
        exits, backs, outs = [], [], []
        work = [(st, block, pred, first)]
        blocks = self.blockmap[fn]
        loops = self.loopmap[fn]
        while work:
            st, b, pred, isfirst = work.pop()
            if loop is not None and not isfirst:
                if b == loop.header:
                    backs.append((st, pred))
                    continue
                if b not in loop.blocks:
                    outs.append((st, pred, b))
                    continue
            if b in loops and not (loop is not None and isfirst and b == loop.header):
                e2, o2 = self.run_loop(st, fn, loops[b], pred)
                exits += e2
                for (s2, p2, b2) in o2:
                    work.append((s2, b2, p2, False))
                continue
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the unit exhausted")
            try:
                # phis
                insts = blocks[b]
                i = 0
                newv = {}
                while i < len(insts) and insts[i]["op"] == "phi":
                    if not (isfirst and loop is not None and b == loop.header):
                        for v, p in insts[i]["in"]:
                            if p == pred:
                                newv[insts[i]["r"]] = self.val(st, v)
                                break
                        else:
                            raise Unsupported("phi without incoming edge")
                    i += 1
                st.env.update(newv)
                self.exec_insts(st, fn, b, insts, i, work, exits)
            except DeadPath:
                continue
        return exits, backs, outs

    def goto(self, work, st, frm, to):
        work.append((st, to, frm, False))

    def exec_insts(self, st, fn, b, insts, i, work, exits):
        n = len(insts)
        while i < n:
            I = insts[i]
            op = I["op"]
            if op == "br":
                if "cond" not in I:
                    self.goto(work, st, b, I["succ"][0])
                    return
                c = self.as_bool(self.val(st, I["cond"]), st)
                t, f = I["succ"]
                if is_true(c):
                    return self.goto(work, st, b, t)
                if is_false(c):
                    return self.goto(work, st, b, f)
                s2 = st.copy()
                st.assume(c)
                s2.assume(z3.Not(c))
                loc = I.get("loc", "")
                st.trace = st.trace + (f"{loc} {b}->{t}",)
                s2.trace = s2.trace + (f"{loc} {b}->{f}",)
                if self.feasible(s2):
                    self.goto(work, s2, b, f)
                if self.feasible(st):
                    self.goto(work, st, b, t)
                return
            if op == "switch":
                v = self.ival(st, I["cond"], I["w"])
                rest = []
                for c, dst in I["cases"]:
                    cv = int(c["v"])
                    e = Eq(v, cv)
                    rest.append(Not(e))
                    if is_false(e):
                        continue
                    s2 = st.copy()
                    s2.assume(e)
                    if is_true(e) or self.feasible(s2):
                        self.goto(work, s2, b, dst)
                    if is_true(e):
                        return
                st.assume(*rest)
                if self.feasible(st):
                    self.goto(work, st, b, I["default"])
                return
            if op == "ret":
                v = self.val(st, I["ops"][0]) if I["ops"] else None
                exits.append(Exit("ret", st, v, I.get("loc", "")))
                return
            if op == "unreachable":
                self.oblige(st, False, "unreachable code not reached", "safety", I.get("loc", ""))
                return
            if op in ("call", "invoke"):
                r = self.exec_call(st, fn, b, I, exits)
                if r is None:
                    return
                # list of (state, value)
                if op == "invoke":
                    for s2, v in r:
                        s2.env[I["r"]] = v
                        self.goto(work, s2, b, I["normal"])
                    return
                for s2, v in r[1:]:
                    s2.env[I["r"]] = v
                    self.exec_insts(s2, fn, b, insts, i + 1, work, exits)
                if not r:
                    return
                st, v = r[0]
                st.env[I["r"]] = v
                i += 1
                continue
            if op == "select":
                c = self.val(st, I["ops"][0])
                x, y = self.val(st, I["ops"][1]), self.val(st, I["ops"][2])
                if isinstance(c, list):
                    x = x if isinstance(x, list) else [x] * len(c)
                    y = y if isinstance(y, list) else [y] * len(c)
                    st.env[I["r"]] = [self.sel(st, cc, a, bb, I) for cc, a, bb in zip(c, x, y)]
                    i += 1
                    continue
                c = self.as_bool(c, st)
                v = self.try_select(st, c, x, y, I)
                if v is not NotImplemented:
                    st.env[I["r"]] = v
                    i += 1
                    continue
                s2 = st.copy()
                st.assume(c)
                s2.assume(z3.Not(c))
                st.env[I["r"]] = x
                s2.env[I["r"]] = y
                if self.feasible(s2):
                    self.exec_insts(s2, fn, b, insts, i + 1, work, exits)
                if not self.feasible(st):
                    return
                i += 1
                continue
            self.exec_simple(st, I)
            i += 1

    def sel(self, st, c, x, y, I):
        c = self.as_bool(c, st)
        v = self.try_select(st, c, x, y, I)
        if v is NotImplemented:
            raise Unsupported("vector select of pointers")
        return v

    def try_select(self, st, c, x, y, I=None):
        if is_true(c):
            return x
        if is_false(c):
            return y
        if isinstance(x, Undef):
            return y
        if isinstance(y, Undef):
            return x
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and x.row is None and y.row is None:
                xo, yo = norm(x.off), norm(y.off)
                S = x.reg.stride
                if S:
                    # keep the offset of the form S*index + const
                    m = norm(xo - yo)
                    dx = lin_divisible(m, S)
                    if dx is not None and dx[1] == 0:
                        base = lin_divisible(yo, S)
                        if base is not None:
                            e = fresh_int("sel")
                            st.assume(e == z3.If(c, zI(dx[0]), z3.IntVal(0)))
                            return Ptr(x.reg, norm(yo + S * e))
                return Ptr(x.reg, Ite(c, xo, yo))
            return NotImplemented
        if isinstance(x, list) and isinstance(y, list):
            return [self.sel(st, c, a, b, I) for a, b in zip(x, y)]
        if isinstance(x, FloatBits) and isinstance(y, FloatBits):
            return FloatBits(Ite(c, x.val, y.val), x.ty)
        if isinstance(x, (Parts, FloatBits)) or isinstance(y, (Parts, FloatBits)):
            x, y = self.as_int(x, st), self.as_int(y, st)
        return Ite(c, x, y)

    # ------------------------------------------------------------------ simple instructions
    FLOPS = {"fadd", "fsub", "fmul", "fdiv"}
    IOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}

    def lanes(self, ty):
        return ty["v"] if isinstance(ty, dict) and "v" in ty else None

    def exec_simple(self, st, I):
        op = I["op"]
        t = I["t"]
        if op in self.IOPS:
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            L = self.lanes(t)
            if L:
                w = int(t["e"][1:])
                st.env[I["r"]] = [self.scalar_iop(st, op, x, y, w, I) for x, y in zip(a, b)]
            else:
                st.env[I["r"]] = self.scalar_iop(st, op, a, b, int(t[1:]), I)
            return
        if op in self.FLOPS:
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            if self.lanes(t):
                st.env[I["r"]] = [self.fop(st, op, x, y) for x, y in zip(a, b)]
            else:
                st.env[I["r"]] = self.fop(st, op, a, b)
            return
        if op == "fneg":
            a = self.val(st, I["ops"][0])
            f = lambda x: -self.as_real(x, st)
            st.env[I["r"]] = [f(x) for x in a] if isinstance(a, list) else f(a)
            return
        if op == "icmp":
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            ot = I["ots"][0]
            if self.lanes(ot):
                st.env[I["r"]] = [self.scalar_icmp(st, I["pred"], x, y, ot["e"], I) for x, y in zip(a, b)]
            else:
                st.env[I["r"]] = self.scalar_icmp(st, I["pred"], a, b, ot, I)
            return
        if op == "fcmp":
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            if isinstance(a, list):
                st.env[I["r"]] = [self.fcmp(st, I["pred"], x, y) for x, y in zip(a, b)]
            else:
                st.env[I["r"]] = self.fcmp(st, I["pred"], a, b)
            return
        if op == "getelementptr":
            st.env[I["r"]] = self.gep(st, I)
            return
        if op == "load":
            p = self.val(st, I["ops"][0])
            st.env[I["r"]] = self.load(st, p, t, I)
            return
        if op == "store":
            v, p = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            self.store(st, p, I["ots"][0], v, I)
            return
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "addrspacecast", "freeze"):
            v = self.val(st, I["ops"][0])
            ft = I["ots"][0]
            st.env[I["r"]] = self.cast(st, op, v, ft, t, I)
            return
        if op == "alloca":
            n = I["n"]
            if n["k"] != "int":
                raise Unsupported("variable alloca")
            size = I["size"] * int(n["v"])
            r = Region("alloca" + I["r"], "obj", size=size)
            r.local = True
            aty = I["aty"]
            if isinstance(aty, dict) and "a" in aty and isinstance(aty["e"], str):
                r.kind = "arr"
                r.stride = aty["es"]
                r.length = aty["a"]
                r.fields = {0: aty["e"]}
            st.env[I["r"]] = Ptr(r, 0)
            return
        if op == "extractvalue":
            v = self.val(st, I["ops"][0])
            for k in I["idx"]:
                if isinstance(v, Undef):
                    break
                v = v[k]
            st.env[I["r"]] = v
            return
        if op == "insertvalue":
            v = self.val(st, I["ops"][0])
            if isinstance(v, Undef):
                v = self._undef_of(I["t"])
            x = self.val(st, I["ops"][1])

            def ins(a, idx):
                a = list(a)
                a[idx[0]] = x if len(idx) == 1 else ins(a[idx[0]], idx[1:])
                return a

            st.env[I["r"]] = ins(v, I["idx"])
            return
        if op == "extractelement":
            v, k = self.val(st, I["ops"][0]), self.ival(st, I["ops"][1])
            if not isinstance(k, int):
                if not v:
                    raise Unsupported("extract")
                r = v[-1]
                self.oblige(st, And(k >= 0, k < len(v)), "lane index", "safety", I.get("loc", ""))
                for j in range(len(v) - 2, -1, -1):
                    r = self.sel(st, k == j, v[j], r, I)
                st.env[I["r"]] = r
                return
            st.env[I["r"]] = v[k]
            return
        if op == "insertelement":
            v, x, k = self.val(st, I["ops"][0]), self.val(st, I["ops"][1]), self.ival(st, I["ops"][2])
            if isinstance(v, Undef):
                v = [UNDEF] * t["v"]
            if not isinstance(k, int):
                raise Unsupported("insert at variable lane")
            v = list(v)
            v[k] = x
            st.env[I["r"]] = v
            return
        if op == "shufflevector":
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            n0 = I["ots"][0]["v"]
            if isinstance(a, Undef):
                a = [UNDEF] * n0
            if isinstance(b, Undef):
                b = [UNDEF] * n0
            c = list(a) + list(b)
            st.env[I["r"]] = [UNDEF if m < 0 else c[m] for m in I["mask"]]
            return
        if op == "fence":
            return
        if op == "atomicrmw":
            p, v = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            w = int(I["t"][1:])
            h = self.contracts.get("atomicrmw")
            if h:
                st.env[I["r"]] = h(self, st, [p, v], I)
                return
            old = self.load(st, p, I["t"], I)
            a, b = self.as_int(old, st, w), self.as_int(v, st, w)
            new = {"add": lambda: self.wrap(st, a + b, w), "sub": lambda: self.wrap(st, a - b, w), "xchg": lambda: b}[I["aop"]]()
            self.store(st, p, I["t"], new, I)
            st.env[I["r"]] = old
            return
        if op == "cmpxchg":
            p, e, v = (self.val(st, o) for o in I["ops"])
            old = self.load(st, p, I["ots"][1], I)
            c = Eq(self.as_int(old, st), self.as_int(e, st))
            self.store(st, p, I["ots"][1], Ite(c, self.as_int(v, st), self.as_int(old, st)), I)
            st.env[I["r"]] = [old, c]
            return
        raise Unsupported("instruction " + op)

    mul_uf = False  # products of two unknown reals are an uninterpreted function (sound: any function is allowed)

    def fop(self, st, op, x, y):
        x, y = self.as_real(x, st), self.as_real(y, st)
        if isc(x) and isc(y):
            if op == "fadd":
                return x + y
            if op == "fsub":
                return x - y
            if op == "fmul":
                return x * y
            if y != 0:
                return x / y
        if op == "fdiv":
            return zR(x) / zR(y)
        if op == "fmul":
            if isc(x) and x == 0 or isc(y) and y == 0:
                return fractions.Fraction(0)
            if isc(x) and x == 1:
                return y
            if isc(y) and y == 1:
                return x
            if self.mul_uf and not isc(x) and not isc(y):
                st.assume(MULR(zR(x), zR(y)) == MULR(zR(y), zR(x)))
                return MULR(zR(x), zR(y))
            return zR(x) * zR(y)
        if op == "fadd":
            if isc(x) and x == 0:
                return y
            if isc(y) and y == 0:
                return x
            return zR(x) + zR(y)
        if isc(y) and y == 0:
            return x
        return zR(x) - zR(y)

    def scalar_iop(self, st, op, a, b, w, I):
        if w == 1:
            a, b = self.as_bool(a, st), self.as_bool(b, st)
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        # pointers as integers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(st, op, a, b, w, I)
        # structured bit patterns
        if op == "shl" and isinstance(b, int) and not isinstance(a, int):
            if isinstance(a, Parts) and not any(lo + b < w < lo + b + pw for lo, pw, _ in a.parts):
                return Parts([(lo + b, pw, t) for lo, pw, t in a.parts if lo + b < w], w)
            if isinstance(a, FloatBits) and b + BYTES[a.ty] * 8 <= w:
                return Parts([(b, BYTES[a.ty] * 8, a)], w)
        if op == "lshr" and isinstance(b, int) and isinstance(a, (Parts, FloatBits)):
            if isinstance(a, FloatBits):
                a = Parts([(0, BYTES[a.ty] * 8, a)], w)
            try:
                return self.zext_parts(self.slice_bits(st, a, b, w - b, w), w)
            except Unsupported:
                pass
        if op == "or" and (isinstance(a, Parts) or isinstance(b, Parts)):
            pa, pb = self.to_parts(a, w), self.to_parts(b, w)
            if pa is not None and pb is not None and not any(l1 < l2 + w2 and l2 < l1 + w1 for l1, w1, _ in pa for l2, w2, _ in pb):
                return Parts(pa + pb, w)
        if op == "and" and isinstance(b, int) and isinstance(a, (Parts, FloatBits)):
            if isinstance(a, FloatBits):
                a = Parts([(0, BYTES[a.ty] * 8, a)], w)
            lo = (b & -b).bit_length() - 1 if b else 0
            m = b >> lo
            if b and m & (m + 1) == 0:
                try:
                    x = self.slice_bits(st, a, lo, m.bit_length(), w)
                    return Parts([(lo, m.bit_length(), x)], w)
                except Unsupported:
                    pass
        a, b = self.as_int(a, st, w), self.as_int(b, st, w)
        h = self.contracts.get("iop")
        if h is not None:
            r = h(self, st, op, a, b, w, I)
            if r is not None:
                return r
        return self.iop(st, op, a, b, w, I)

    def zext_parts(self, v, w):
        if isinstance(v, Parts):
            return Parts(v.parts, w)
        if isinstance(v, FloatBits):
            return v if BYTES[v.ty] * 8 == w else Parts([(0, BYTES[v.ty] * 8, v)], w)
        return v

    def to_parts(self, a, w):
        if isinstance(a, Parts):
            return a.parts
        if isinstance(a, FloatBits):
            return [(0, BYTES[a.ty] * 8, a)]
        if isinstance(a, int):
            return [] if a == 0 else None
        if isinstance(a, z3.ExprRef):
            wd = self.term_width.get(tid(a))
            if wd is not None:
                return [(0, wd, a)]
        return None

    term_width = {}

    def ptr_arith(self, st, op, a, b, w, I):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg and (a.row is None) == (b.row is None):
                if a.row is not None and not self.fast(st, Eq(a.row, b.row)):
                    raise Unsupported("difference of pointers into different rows")
                return self.wrap(st, norm(a.off - b.off), w)
            if a.reg is NULLREG and b.reg is NULLREG:
                return 0
            raise Unsupported(f"difference of pointers into {a.reg.name} and {b.reg.name}")
        if op == "add" and isinstance(a, Ptr):
            return Ptr(a.reg, norm(a.off + self.signed(st, self.as_int(b, st), 64)), a.row)
        if op == "add" and isinstance(b, Ptr):
            return Ptr(b.reg, norm(b.off + self.signed(st, self.as_int(a, st), 64)), b.row)
        if op == "sub" and isinstance(a, Ptr):
            return Ptr(a.reg, norm(a.off - self.signed(st, self.as_int(b, st), 64)), a.row)
        h = self.contracts.get("ptr_iop")
        if h is not None:
            r = h(self, st, op, a, b, w, I)
            if r is not None:
                return r
        raise Unsupported("integer operation on a pointer: " + op)

    def scalar_icmp(self, st, pred, a, b, ty, I):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, (Ptr, FnPtr, Undef)) and isinstance(b, (Ptr, FnPtr, Undef)):
                if pred[0] == "s":
                    pred = "u" + pred[1:]
                return self.ptr_cmp(st, pred, a, b, I)
            raise Unsupported("pointer/int comparison")
        if ty == "i1":
            a, b = self.as_bool(a, st), self.as_bool(b, st)
            if pred == "eq":
                return Eq(a, b)
            if pred == "ne":
                return Not(Eq(a, b))
            raise Unsupported("i1 icmp " + pred)
        if isinstance(a, FloatBits) and isinstance(b, FloatBits) and pred in ("eq", "ne"):
            e = Eq(a.val, b.val)
            return e if pred == "eq" else Not(e)
        if ty == "ptr":
            return fresh_bool("undefcmp")
        w = int(ty[1:])
        return self.icmp(st, pred, self.as_int(a, st, w), self.as_int(b, st, w), w)

    def gep(self, st, I):
        base = self.val(st, I["base"])
        if isinstance(base, list):
            raise Unsupported("vector gep")
        if isinstance(base, Undef):
            raise Unsupported("gep on undef")
        if isinstance(base, FnPtr):
            raise Unsupported("gep on function")
        off = base.off + I["const"]
        for t in I["terms"]:
            v = self.ival(st, t["v"], t["w"])
            if not isinstance(v, int) or v >= TWO[t["w"] - 1]:
                v = self.signed(st, v, t["w"])
                if isinstance(v, z3.ExprRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
                    if True:
                        nv = fresh_int("sidx")
                        st.assume(nv == v)
                        v = nv
            off = off + v * t["s"]
        return Ptr(base.reg, norm(off), base.row)

    def cast(self, st, op, v, ft, t, I):
        if isinstance(v, list) and self.lanes(t) and op != "bitcast":
            return [self.cast(st, op, x, ft["e"], t["e"], I) for x in v]
        if op == "freeze":
            if isinstance(v, Undef):
                return self.fresh(t, "frozen", st)
            return v
        if op == "zext":
            if ft == "i1":
                b = self.as_bool(v, st)
                if isinstance(b, bool):
                    return int(b)
                r = z3.If(b, z3.IntVal(1), z3.IntVal(0))
                self.term_width[tid(r)] = 1
                self.keep.append(r)
                return r
            if isinstance(v, (Parts, FloatBits)):
                return self.zext_parts(v, int(t[1:]))
            v = self.as_int(v, st, int(ft[1:]))
            if isinstance(v, z3.ExprRef):
                return Parts([(0, int(ft[1:]), v)], int(t[1:]))
            return v
        if op == "sext":
            w, w2 = int(ft[1:]), int(t[1:])
            if w == 1:
                b = self.as_bool(v, st)
                return Ite(b, TWO[w2] - 1, 0)
            s = self.signed(st, self.as_int(v, st, w), w)
            return self.wrap(st, s, w2)
        if op == "trunc":
            w = int(t[1:])
            wf = int(ft[1:])
            if w == 1:
                if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                    return v
                v = self.as_int(v, st, wf)
                if isinstance(v, int):
                    return bool(v & 1)
                if self.fast(st, z3.And(v >= 0, v <= 1)):
                    return v == 1
                return self.divmod_terms(st, v, 2)[1] == 1
            if isinstance(v, (Parts, FloatBits)):
                return self.slice_bits(st, v, 0, w, wf)
            if isinstance(v, Ptr):
                raise Unsupported("trunc of pointer")
            v = self.as_int(v, st, wf)
            if isinstance(v, int):
                return v % TWO[w]
            if self.fast(st, v < TWO[w]):
                return v
            return self.divmod_terms(st, v, TWO[w])[1]
        if op in ("ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and not isinstance(v, (Ptr, FnPtr)):
                if isinstance(v, int) and v == 0:
                    return NULL
                raise Unsupported("inttoptr")
            return v
        if op == "bitcast":
            if t == ft:
                return v
            if t in ("f32", "f64", "f16") and isinstance(ft, str):
                if isinstance(v, FloatBits):
                    return v.val
                if isinstance(v, Parts) and len(v.parts) == 1 and isinstance(v.parts[0][2], FloatBits):
                    return v.parts[0][2].val
                if isinstance(v, int):
                    return self.fpconst(t, v)
                raise Unsupported("int to float bitcast")
            if ft in ("f32", "f64", "f16") and isinstance(t, str):
                return FloatBits(self.as_real(v, st), ft)
            return self.vec_bitcast(st, v, ft, t, I)
        if op in ("fptrunc", "fpext"):
            return self.as_real(v, st)
        if op in ("sitofp", "uitofp"):
            w = int(ft[1:]) if ft != "i1" else 1
            if w == 1:
                b = self.as_bool(v, st)
                return Ite(b, fractions.Fraction(1 if op == "uitofp" else -1), fractions.Fraction(0))
            x = self.as_int(v, st, w)
            if op == "sitofp":
                x = self.signed(st, x, w)
            if isinstance(x, int):
                return fractions.Fraction(x)
            return z3.ToReal(x)
        if op in ("fptosi", "fptoui"):
            x = self.as_real(v, st)
            w = int(t[1:])
            if isc(x):
                return int(x) % TWO[w]
            tr = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            r = fresh_int("fptoi")
            lo, hi = (-TWO[w - 1], TWO[w - 1]) if op == "fptosi" else (0, TWO[w])
            # out of range conversion is undefined behaviour
            h = self.contracts.get("fptoi_range")
            self.oblige(st, z3.And(tr >= lo, tr < hi), "float to integer conversion in range", "safety", I.get("loc", ""))
            st.assume(r == z3.If(tr < 0, tr + TWO[w], tr), r >= 0, r < TWO[w])
            return r
        raise Unsupported("cast " + op)

    keep = []

    def vec_bitcast(self, st, v, ft, t, I):
        # scalar int -> <n x i1>
        if isinstance(t, dict) and "v" in t and t["e"] == "i1":
            n = t["v"]
            if isinstance(v, list):
                raise Unsupported("vec->i1 vec bitcast")
            return self.int_to_mask(st, self.as_int(v, st, n), n)
        if isinstance(ft, dict) and "v" in ft and ft["e"] == "i1" and isinstance(t, str):
            return self.mask_to_int(st, v)
        if isinstance(ft, dict) and "v" in ft and isinstance(t, dict) and "v" in t:
            return self.vec_to_vec(st, v, ft, t)
        if isinstance(ft, dict) and "v" in ft and t in WIDTH:
            b = self.vec_bits(st, v, ft)
            return Parts(b, WIDTH[t])
        if isinstance(t, dict) and "v" in t and ft in WIDTH:
            w = ty_bytes(t["e"]) * 8
            out = []
            for k in range(t["v"]):
                x = self.slice_bits(st, v if not isinstance(v, int) else v, k * w, w, WIDTH[ft])
                if t["e"][0] == "f":
                    x = x.val if isinstance(x, FloatBits) else None
                    if x is None:
                        raise Unsupported("bitcast int to float lanes")
                out.append(x)
            return out
        raise Unsupported(f"bitcast {ft} -> {t}")

    def vec_bits(self, st, v, ft):
        w = ty_bytes(ft["e"]) * 8
        out = []
        for k, x in enumerate(v):
            if ft["e"][0] == "f":
                x = FloatBits(self.as_real(x, st), ft["e"])
            elif isinstance(x, Undef):
                x = 0
            out.append((k * w, w, x))
        return out

    def vec_to_vec(self, st, v, ft, t):
        if isinstance(v, Undef):
            return [UNDEF] * t["v"]
        w1, w2 = ty_bytes(ft["e"]) * 8, ty_bytes(t["e"]) * 8
        f1, f2 = ft["e"][0] == "f", t["e"][0] == "f"
        if w1 == w2:
            if f1 == f2:
                return v
            if f1:
                return [x if isinstance(x, Undef) else FloatBits(self.as_real(x, st), ft["e"]) for x in v]
            out = []
            for x in v:
                if isinstance(x, FloatBits):
                    out.append(x.val)
                elif isinstance(x, int):
                    out.append(self.fpconst(t["e"], x))
                elif isinstance(x, Undef):
                    out.append(x)
                else:
                    raise Unsupported("int lanes as float")
            return out
        out = []
        if w2 > w1:
            r = w2 // w1
            for k in range(t["v"]):
                grp = v[k * r:(k + 1) * r]
                if all(isinstance(x, int) for x in grp):
                    out.append(sum((x & (TWO[w1] - 1)) << (w1 * j) for j, x in enumerate(grp)))
                    continue
                ps = []
                for j, x in enumerate(grp):
                    if f1:
                        x = FloatBits(self.as_real(x, st), ft["e"])
                    elif isinstance(x, Undef):
                        x = self.fresh("i%d" % w1, "undef", st)
                    ps.append((j * w1, w1, x))
                out.append(Parts(ps, w2))
        else:
            r = w1 // w2
            for x in v:
                for j in range(r):
                    if isinstance(x, Undef):
                        out.append(UNDEF)
                        continue
                    if f1:
                        x = FloatBits(self.as_real(x, st), ft["e"])
                    out.append(self.slice_bits(st, x, j * w2, w2, w1))
        if f2:
            out = [x.val if isinstance(x, FloatBits) else (self.fpconst(t["e"], x) if isinstance(x, int) else x) for x in out]
            if any(isinstance(x, (z3.ArithRef,)) and z3.is_int(x) for x in out):
                raise Unsupported("int lanes as float")
        return out

    def int_to_mask(self, st, x, n):
        """bits of x as booleans; understands x = 2^k - 1 patterns (ghost facts from pow2)"""
        if isinstance(x, int):
            return [bool((x >> k) & 1) for k in range(n)]
        h = self.contracts.get("int_to_mask")
        if h:
            r = h(self, st, x, n)
            if r is not None:
                return r
        bs = self.bits(st, x, n)
        return [b == 1 for b in bs]

    def mask_to_int(self, st, v):
        s = 0
        for k, b in enumerate(v):
            b = self.as_bool(b, st)
            s = s + (int(b) * TWO[k] if isinstance(b, bool) else z3.If(b, z3.IntVal(TWO[k]), z3.IntVal(0)))
        return s

    # ------------------------------------------------------------------ calls
    def exec_call(self, st, fn, b, I, exits):
        """returns list of (state, value) or None when the path ended"""
        callee = I.get("callee")
        loc = I.get("loc", "")
        if callee is None:
            v = self.val(st, I["callee_v"]) if I["callee_v"]["k"] not in ("asm",) else None
            if I["callee_v"]["k"] == "asm":
                return [(st, self.fresh(I["t"], "asm", st) if I["t"] != "void" else None)]
            if isinstance(v, FnPtr):
                callee = v.name
            else:
                raise Unsupported("indirect call")
        if callee.startswith("vp.exit."):
            kind = callee[8:]
            if kind == "assert":
                self.oblige(st, False, "assertion in the code holds", "assert", loc)
            elif kind in ("ub", "abort"):
                self.oblige(st, False, f"{kind} path not reached", "safety", loc)
            else:
                exits.append(Exit("throw", st, None, loc))
            return None
        args = I["args"]
        if callee.startswith("llvm."):
            return self.intrinsic(st, callee, I, args)
        avs = [self.val(st, a) for a in args]
        h = self.contracts.get(callee)
        if h is None:
            for pat, hh in self.contracts.items():
                if pat.startswith("~") and pat[1:] in I.get("dem", callee):
                    h = hh
                    break
        if h is not None:
            self.contract_calls.add(callee)
            r = h(self, st, avs, I)
            if r is None or isinstance(r, (int, bool, Ptr, z3.ExprRef, fractions.Fraction, Parts, FnPtr)) :
                return [(st, r)]
            if isinstance(r, tuple) and r and r[0] == "agg":
                return [(st, list(r[1]))]
            if isinstance(r, tuple) and r and r[0] == "throw":
                # ('throw', throwing_state, [(state, val)...])
                exits.append(Exit("throw", r[1], None, loc))
                return r[2] or None
            if isinstance(r, list):
                return r
            raise Unsupported("bad contract result")
        if callee in self.ir["functions"]:
            self.called.add(callee)
            es = self.run_function(st, callee, avs)
            out = []
            for e in es:
                if e.kind == "ret":
                    # restore caller env
                    out.append((e.state, e.val))
                else:
                    exits.append(e)
            return out or None
        r = self.libcall(st, callee, avs, I)
        if r is NotImplemented:
            raise Unsupported(f"call of {I.get('dem', callee)} (no contract)")
        return r

    def libcall(self, st, callee, avs, I):
        if callee in ("_Znwm", "_ZnwmSt11align_val_t", "malloc", "_Znam"):
            n = self.as_int(avs[0], st)
            r = Region("heap", "obj", size=n if isinstance(n, int) else None)
            r.local = True
            r.heap = True
            if self.heap_hook:
                self.heap_hook(self, st, r, n, I)
            return [(st, Ptr(r, 0))]
        if callee.startswith("_ZdlPv") or callee in ("free", "_ZdaPv") or callee.startswith("_ZdaPv"):
            return [(st, None)]
        if callee in ("sqrtf", "sqrt"):
            return [(st, self.sqrt(st, avs[0]))]
        if callee in ("floorf", "floor"):
            return [(st, self.floor(st, avs[0]))]
        if callee in ("ceilf", "ceil"):
            return [(st, -self.floor(st, -self.as_real(avs[0], st)))]
        return NotImplemented

    def floor(self, st, x):
        x = self.as_real(x, st)
        if isc(x):
            return fractions.Fraction(math.floor(x))
        k = fresh_int("floor")
        st.assume(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1)
        return z3.ToReal(k)

    def sqrt(self, st, x):
        x = self.as_real(x, st)
        f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        return f(zR(x))

    def intrinsic(self, st, c, I, args):
        base = c
        if base.startswith(("llvm.lifetime", "llvm.dbg", "llvm.prefetch", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.stack")):
            return [(st, None)]
        if base.startswith("llvm.assume"):
            v = self.as_bool(self.val(st, args[0]), st)
            # the optimiser's own assumption: must already hold
            return [(st, None)]
        if base.startswith("llvm.expect"):
            return [(st, self.val(st, args[0]))]
        av = [None if a["k"] == "meta" else self.val(st, a) for a in args]
        t = I["t"]
        if base.startswith(("llvm.memcpy", "llvm.memmove")):
            if isinstance(av[0], Undef) or isinstance(av[1], Undef):
                raise Unsupported("copy through undef")
            self.memcpy(st, av[0], av[1], self.as_int(av[2], st), I, base.startswith("llvm.memmove"))
            return [(st, None)]
        if base.startswith("llvm.memset"):
            self.memset(st, av[0], self.as_int(av[1], st, 8), self.as_int(av[2], st), I)
            return [(st, None)]
        for nme, p in (("llvm.umin", "ult"), ("llvm.umax", "ugt"), ("llvm.smin", "slt"), ("llvm.smax", "sgt")):
            if base.startswith(nme):
                L = self.lanes(t)
                w = int((t["e"] if L else t)[1:])

                def mm(x, y):
                    x, y = self.as_int(x, st, w), self.as_int(y, st, w)
                    cnd = self.icmp(st, p, x, y, w)
                    if is_true(cnd) or is_false(cnd):
                        return x if is_true(cnd) else y
                    if self.fast(st, cnd):
                        return x
                    if self.fast(st, z3.Not(cnd)):
                        return y
                    v = fresh_int(nme[5:])
                    st.assume(v == z3.If(cnd, zI(x), zI(y)))
                    return v

                return [(st, [mm(x, y) for x, y in zip(av[0], av[1])] if L else mm(av[0], av[1]))]
        if base.startswith("llvm.vector.reduce."):
            kind = base.split(".")[3]
            ety = I["ats"][-1]["e"]
            if kind in ("fadd",):
                s = self.as_real(av[0], st)
                for x in av[1]:
                    s = self.fop(st, "fadd", s, x)
                return [(st, s)]
            if kind == "add":
                w = int(ety[1:])
                s = 0
                for x in av[0]:
                    s = s + self.as_int(x, st, w)
                h = self.contracts.get("reduce_add")
                if h:
                    return [(st, h(self, st, av[0], w))]
                return [(st, self.wrap(st, s, w))]
            raise Unsupported(base)
        if base.startswith("llvm.masked.load"):
            p, al, m, pt = av
            return [(st, self.masked_load(st, p, m, pt, t, I))]
        if base.startswith(("llvm.fma", "llvm.fmuladd")):
            if isinstance(t, dict):
                return [(st, [self.fop(st, "fadd", self.fop(st, "fmul", x, y), z) for x, y, z in zip(*av)])]
            return [(st, self.fop(st, "fadd", self.fop(st, "fmul", av[0], av[1]), av[2]))]
        if base.startswith("llvm.sqrt"):
            return [(st, self.sqrt(st, av[0]))]
        if base.startswith("llvm.fabs"):
            x = zR(self.as_real(av[0], st))
            return [(st, z3.If(x >= 0, x, -x))]
        if base.startswith(("llvm.minnum", "llvm.minimum", "llvm.maxnum", "llvm.maximum")):
            x, y = zR(self.as_real(av[0], st)), zR(self.as_real(av[1], st))
            return [(st, z3.If(x < y, x, y) if "min" in base else z3.If(x > y, x, y))]
        if base.startswith("llvm.floor"):
            return [(st, self.floor(st, av[0]))]
        if base.startswith("llvm.ceil"):
            return [(st, -self.floor(st, -self.as_real(av[0], st)))]
        if base.startswith(("llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow")):
            w = int(t["s"][0][1:])
            a, b = self.as_int(av[0], st, w), self.as_int(av[1], st, w)
            r = a + b if "uadd" in base else a - b if "usub" in base else a * b
            ov = Or(r >= TWO[w], r < 0) if not isinstance(r, int) else not (0 <= r < TWO[w])
            return [(st, [self.wrap(st, r, w), ov])]
        if base.startswith(("llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow")):
            w = int(t["s"][0][1:])
            a, b = self.signed(st, self.as_int(av[0], st, w), w), self.signed(st, self.as_int(av[1], st, w), w)
            r = a + b if "sadd" in base else a - b if "ssub" in base else a * b
            H = TWO[w - 1]
            ov = Or(r >= H, r < -H) if not isinstance(r, int) else not (-H <= r < H)
            return [(st, [self.wrap(st, r, w), ov])]
        if base.startswith(("llvm.usub.sat", "llvm.uadd.sat")):
            w = int(t[1:])
            a, b = self.as_int(av[0], st, w), self.as_int(av[1], st, w)
            v = fresh_int("sat")
            if "usub" in base:
                st.assume(v == z3.If(zI(a) >= zI(b), zI(a) - zI(b), z3.IntVal(0)))
            else:
                st.assume(v == z3.If(zI(a) + b < TWO[w], zI(a) + b, z3.IntVal(TWO[w] - 1)))
            return [(st, v)]
        if base.startswith("llvm.abs"):
            w = int(t[1:])
            s = self.signed(st, self.as_int(av[0], st, w), w)
            return [(st, self.wrap(st, abs(s) if isinstance(s, int) else z3.If(s >= 0, s, -s), w))]
        if base.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
            return [(st, self.bitcount(st, base, av[0], int(t[1:])))]
        if base.startswith("llvm.is.constant"):
            return [(st, False)]
        if base.startswith("llvm.objectsize"):
            return [(st, TWO[64] - 1)]
        if base.startswith(("llvm.fshl", "llvm.fshr")):
            w = int(t[1:])
            a, b2, s = (self.as_int(x, st, w) for x in av)
            if isinstance(s, int):
                s %= w
                if "fshr" in base:
                    s = (w - s) % w
                if s == 0:
                    return [(st, a if "fshl" in base else b2)]
                hi = self.wrap(st, a * TWO[s], w)
                lo = self.divmod_terms(st, b2, TWO[w - s])[0]
                return [(st, norm(hi + lo))]
        h = self.contracts.get(c)
        if h:
            return [(st, h(self, st, av, I))]
        r = self.x86(st, base, av, I)
        if r is not NotImplemented:
            return [(st, r)]
        raise Unsupported("intrinsic " + c)

    def bitcount(self, st, base, x, w):
        x = self.as_int(x, st, w)
        if isinstance(x, int):
            if "ctpop" in base:
                return bin(x).count("1")
            if "ctlz" in base:
                return w - x.bit_length()
            return (x & -x).bit_length() - 1 if x else w
        v = fresh_int("bc")
        st.assume(v >= 0, v <= w)
        if "ctlz" in base:
            # 2^(w-1-v) <= x < 2^(w-v)
            e = z3.IntVal(w)
            for k in range(w):
                e = z3.If(x >= TWO[k], z3.IntVal(w - 1 - k), e) if False else e
            e = z3.IntVal(0)
            for k in range(w - 1, -1, -1):
                e = e
            expr = z3.IntVal(w)
            for k in range(0, w):
                expr = z3.If(x >= TWO[k], z3.IntVal(w - 1 - k), expr)
            st.assume(v == expr)
            return v
        bs = self.bits(st, x, w)
        if "ctpop" in base:
            st.assume(v == sum(bs[1:], bs[0]))
            return v
        expr = z3.IntVal(w)
        for k in range(w - 1, -1, -1):
            expr = z3.If(bs[k] == 1, z3.IntVal(k), expr)
        st.assume(v == expr)
        return v

    def masked_load(self, st, p, m, pt, t, I):
        es = ty_bytes(t["e"])
        out = []
        for k in range(t["v"]):
            c = self.as_bool(m[k], st)
            z = pt[k] if isinstance(pt, list) else pt
            if isinstance(z, Undef):
                z = self.zero(t["e"])
            if is_false(c):
                out.append(z)
                continue
            if is_true(c):
                out.append(self.load1(st, Ptr(p.reg, p.off + k * es, p.row), t["e"], I))
                continue
            v = self.load1(st, Ptr(p.reg, p.off + k * es, p.row), t["e"], I, cond=c)
            out.append(Ite(c, v, z))
        return out

    def x86(self, st, base, av, I):
        return NotImplemented

    def memset(self, st, p, byte, n, I):
        n = norm(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(byte, int):
            raise Unsupported("memset with variable byte")
        reg = p.reg
        if reg.kind == "obj":
            if not isinstance(n, int):
                raise Unsupported("symbolic memset of object")
            off = norm(p.off)
            flds = self.fields_of(st, reg)
            if n > 4096:
                raise Unsupported("large memset of object")
            for k in [k for k in flds if off <= k[0] < off + n]:
                del flds[k]
                self.note_write(reg, k)
            o = off
            while o < off + n:
                for w in (8, 4, 2, 1):
                    if o + w <= off + n:
                        flds[(o, "i%d" % (8 * w))] = int.from_bytes(bytes([byte] * w), "little")
                        self.note_write(reg, (o, "i%d" % (8 * w)))
                        o += w
                        break
            return
        if reg.kind in ("null", "opaque"):
            self.oblige(st, Eq(n, 0), "memset through null/unknown pointer", "safety", I.get("loc", ""))
            return
        S = reg.stride
        d, cnt = lin_divisible(norm(p.off), S), lin_divisible(n, S)
        if d is None or cnt is None or d[1] or cnt[1]:
            raise Unsupported("misaligned memset")
        d, cnt = d[0], cnt[0]
        L = reg.length(p.row) if callable(reg.length) else reg.length
        self.oblige(st, Implies(zI(cnt) > 0, And(zI(d) >= 0, zI(d) + cnt <= L)), f"memset stays inside {reg.name}", "safety", I.get("loc", ""))
        for f, t in (reg.fields.items() if reg.fields else list(self.fields_of(st, reg))):
            v = self.bytes_const(t, byte)
            old = self.arr_get(st, reg, f, t)
            oldr = z3.Select(old, zI(p.row)) if p.row is not None else old
            new = fresh_array(f"{reg.name}.{f}", self.sort_of(t))
            k = z3.Int("k!ms")
            st.qfacts.append(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= d, k < d + cnt), v, z3.Select(oldr, k)), patterns=[z3.Select(new, k)]))
            st.mem[reg.id][(f, t)] = z3.Store(old, zI(p.row), new) if p.row is not None else new
            self.note_write(reg, (f, t))

    def bytes_const(self, t, byte):
        w = BYTES[t]
        v = int.from_bytes(bytes([byte] * w), "little")
        if t[0] == "f":
            return zR(self.fpconst(t, v))
        return z3.IntVal(v)

    # ------------------------------------------------------------------ loops
    def havoc_value(self, st, v, name, ty, steps):
        """fresh value of the same shape as v"""
        if isinstance(v, Ptr):
            if v.reg.kind in ("arr", "rows"):
                S = v.reg.stride
                q = fresh_int(name)
                return Ptr(v.reg, norm(v.off + S * q), v.row)
            if v.reg.kind == "obj":
                raise Unsupported(f"loop-carried pointer into object {v.reg.name}")
            return self.fresh("ptr", name, st)
        if isinstance(v, list):
            if isinstance(ty, dict) and "v" in ty:
                return [self.havoc_value(st, x, name, ty["e"], steps) for x in v]
            if isinstance(ty, dict) and "s" in ty:
                return [self.havoc_value(st, x, name, t, steps) for x, t in zip(v, ty["s"])]
        return self.fresh(ty, name, st)

    def phis(self, fn, header):
        out = []
        for i in self.blockmap[fn][header]:
            if i["op"] != "phi":
                break
            out.append(i)
        return out

    def run_loop(self, S0, fn, loop, pred):
        """S0: state arriving at the header from outside.  -> (exits, outs)"""
        phis = self.phis(fn, loop.header)
        init = {}
        for p in phis:
            for v, pb in p["in"]:
                if pb == pred:
                    init[p["r"]] = self.val(S0, v)
        if self.unroll is not None:
            return self.run_loop_unrolled(S0, fn, loop, phis, init)
        tys = {p["r"]: p["t"] for p in phis}
        key = (bool(self.discovering), tuple(self.ctx_stack), fn, loop.header, tuple(x for x in S0.trace if x.startswith("shift=")))

        # --- discovery of the modified memory (over-approximation by iteration)
        mods = {}
        self.quiet += 1
        self.discovering += 1
        ptr_force = {}
        back_samples = []
        entry_phi = dict(init)
        try:
            for rnd in range(6):
                st = S0.copy()
                cur = {}
                for r, v in entry_phi.items():
                    if isinstance(v, Undef):
                        cur[r] = self.fresh(tys[r], "phi", st) if tys[r] != "ptr" else UNDEF
                    else:
                        cur[r] = self.havoc_value(st, v, "phi" + r, tys[r], None)
                    st.env[r] = cur[r]
                self.havoc_mem(st, mods)
                st.facts = list(st.facts)
                w = set()
                self.write_watch.append(w)
                np0 = self.npaths
                try:
                    ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
                finally:
                    self.write_watch.pop()
                back_samples = []
                changed = False
                for bs, bp in backs:
                    vals = self.back_vals(bs, phis, bp)
                    back_samples.append((cur, vals, bs))
                    for r, v in vals.items():
                        e = entry_phi[r]
                        if isinstance(v, Ptr):
                            if isinstance(e, Undef):
                                entry_phi[r] = v
                                changed = True
                            elif isinstance(e, Ptr) and e.reg is not v.reg:
                                if e.reg is NULLREG or v.reg is NULLREG:
                                    raise Unsupported("loop pointer changes object")
                                raise Unsupported(f"loop pointer moves from {e.reg} to {v.reg}")
                        elif isinstance(e, Undef) and not isinstance(v, Undef) and not isinstance(v, (Ptr, FnPtr)):
                            pass
                for (reg, k) in w:
                    if reg.id in S0.mem or not reg.local or reg in [x[0] for x in mods]:
                        if (reg, k) not in mods:
                            mods[(reg, k)] = True
                            changed = True
                if not changed:
                    break
        finally:
            self.quiet -= 1
            self.discovering -= 1
        # --- candidates
        if self.discovering:
            self.candcache.pop(key, None)
        cands = self.make_candidates(S0, fn, loop, phis, entry_phi, mods, back_samples, tys)
        if key in self.candcache and not self.discovering and not getattr(self.unit, "fresh_candidates", False):
            alive0 = self.candcache[key]
            alive = [c for c in cands if c[0] in alive0]
        else:
            alive = list(cands)
        # --- init
        v0 = LoopView(self, loop, S0, entry_phi, S0, 0, entry_phi, mods)
        alive2 = []
        for nme, fnc in alive:
            g = self.evalc(fnc, v0)
            if g is None:
                continue
            if self.prove_cand(S0, g):
                alive2.append((nme, fnc))
            elif DBG:
                print("  not initial:", nme)
        alive = alive2
        # --- Houdini (in stages: the candidates of a later stage do not influence an earlier one)
        rounds = 0
        done = []
        for stage in self.cand_stages(alive):
            alive = done + stage
            while stage:
                rounds += 1
                st, cur, t, view = self.loop_head_state(S0, phis, entry_phi, tys, mods, loop)
                for nme, fnc in alive:
                    g = self.evalc(fnc, view)
                    if g is not None:
                        st.assume(g)
                self.quiet += 1
                try:
                    ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
                finally:
                    self.quiet -= 1
                dropped = set()
                for bs, bp in backs:
                    vals = self.back_vals(bs, phis, bp)
                    bv = LoopView(self, loop, S0, vals, bs, t + 1, entry_phi, mods)
                    for nme, fnc in alive[len(done):]:
                        if nme in dropped:
                            continue
                        g = self.evalc(fnc, bv)
                        if g is None or not self.prove_cand(bs, g):
                            dropped.add(nme)
                            if DBG:
                                print("  not inductive:", nme, g is None, [str(x) for x in bs.trace][-6:])
                if not dropped:
                    break
                alive = [c for c in alive if c[0] not in dropped]
                if rounds > 40:
                    raise Unsupported("invariant inference does not converge")
            done = alive
        alive = done
        self.candcache[key] = {c[0] for c in alive}
        if self.quiet:
            return ex, outs
        # --- final pass with obligations
        st, cur, t, view = self.loop_head_state(S0, phis, entry_phi, tys, mods, loop)
        for nme, fnc in alive:
            g = self.evalc(fnc, view)
            if g is not None:
                st.assume(g)
        rep = len(self.loop_report)
        self.loop_report.append(dict(fn=self.fname, loop=loop.header, candidates=len(cands), kept=sorted(c[0] for c in alive), rounds=rounds))
        ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
        self.loop_report[rep]["dead"] = not any(not self.contradictory(bs) for bs, _ in backs)
        self.check_termination(S0, loop, phis, entry_phi, view, backs, t)
        return ex, outs

    def contradictory(self, st):
        """the state is certainly unreachable (used to detect vacuous proofs)"""
        return self._check(st.facts + st.qfacts, z3.BoolVal(False), 3_000_000, 3000, True)[0] == z3.unsat

    def cand_stages(self, cands):
        return [cands]

    def check_termination(self, *a):
        pass

    def prove_cand(self, st, g):
        if is_true(g):
            return True
        if is_false(g):
            return not self.feasible(st)
        if not has_quant(g):
            if self.fast(st, g):
                return True
            if not st.qfacts and not self.axioms:
                return False
        return self.houdini_prove(st, g)

    def evalc(self, f, view):
        try:
            g = f(view)
        except (KeyError, TypeError, AttributeError, NotApplicable, z3.Z3Exception):
            return None
        if g is None or g is NotImplemented:
            return None
        if isinstance(g, bool):
            return z3.BoolVal(g)
        return g

    def loop_head_state(self, S0, phis, entry_phi, tys, mods, loop):
        st = S0.copy()
        cur = {}
        for r, v in entry_phi.items():
            if isinstance(v, Undef):
                cur[r] = self.fresh(tys[r], "phi" + r, st) if tys[r] != "ptr" else UNDEF
            else:
                cur[r] = self.havoc_value(st, v, "phi" + r, tys[r], None)
            st.env[r] = cur[r]
        self.havoc_mem(st, mods)
        t = fresh_int("iter")
        st.assume(t >= 0)
        for r, v in entry_phi.items():
            if isinstance(cur[r], (z3.ArithRef, z3.BoolRef)) and isinstance(v, (int, fractions.Fraction, z3.ArithRef, z3.BoolRef)):
                c = cur[r] == (v if isinstance(v, (z3.ExprRef, bool)) else zR(v) if cur[r].is_real() else zI(v))
                st.assume(z3.Implies(t == 0, c))  # before the first iteration
        st.trace = st.trace + (f"loop {loop.header}",)
        view = LoopView(self, loop, S0, cur, st, t, entry_phi, mods)
        return st, cur, t, view

    def havoc_mem(self, st, mods):
        for (reg, k) in mods:
            flds = st.mem.setdefault(reg.id, {})
            f, ty = k
            if reg.kind == "obj":
                old = flds.get(k)
                if ty == "ptr":
                    if old is None:
                        old = reg.bind.get(f)
                    if isinstance(old, Ptr) and old.reg.kind in ("arr", "rows"):
                        flds[k] = self.havoc_value(st, old, "mem", ty, None)
                    else:
                        flds[k] = self.fresh("ptr", "mem", st)
                else:
                    # remove overlapping stale views
                    for k2 in list(flds):
                        if k2 != k and not (k2[0] + BYTES[k2[1]] <= f or f + BYTES[ty] <= k2[0]) and (reg, k2) not in mods:
                            del flds[k2]
                    flds[k] = self.fresh(ty, f"{reg.name}.{f}", st)
            elif reg.kind == "rows":
                flds[k] = z3.Const(f"{reg.name}.{f}!{next(_fresh)}", z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), self.sort_of(ty))))
            else:
                flds[k] = fresh_array(f"{reg.name}.{f}", self.sort_of(ty))

    def back_vals(self, st, phis, bp):
        vals = {}
        for p in phis:
            for v, pb in p["in"]:
                if pb == bp:
                    vals[p["r"]] = self.val(st, v)
        return vals

    # ---- cursors: integer-like loop state
    def cursor(self, v, init=None):
        """index-like Int term of a value, or None"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return None
        if isinstance(v, int):
            return v
        if isinstance(v, Parts):
            return v.term
        if isinstance(v, z3.ArithRef) and z3.is_int(v):
            return v
        if isinstance(v, Ptr) and v.reg.kind in ("arr", "rows"):
            d = lin_divisible(norm(v.off), v.reg.stride)
            if d is not None:
                return d[0]
        return None

    def cursors(self, view):
        """name -> term for everything index-like that the loop modifies"""
        out = {}
        for r in view.init:
            c = self.cursor(view.vals.get(r))
            if c is not None:
                out[r] = c
        for (reg, k) in view.modcells:
            if reg.kind == "obj":
                v = view.state.mem.get(reg.id, {}).get(k)
                if v is None and view.state is view.entry:
                    try:
                        v = self.obj_load(view.state, reg, k[0], k[1], {})
                    except Unsupported:
                        v = None
                c = self.cursor(v)
                if c is not None:
                    out[f"{reg.name}.{k[0]}"] = c
        return out

    def make_candidates(self, S0, fn, loop, phis, entry_phi, mods, back_samples, tys):
        cands = []
        view0 = LoopView(self, loop, S0, entry_phi, S0, 0, entry_phi, mods)
        cur0 = self.cursors(view0)
        names = list(cur0)
        seen = set()

        def add(nme, f):
            if nme not in seen:
                seen.add(nme)
                cands.append((nme, f))

        def cget(view, n):
            c = self.cursors(view)
            if n not in c:
                raise KeyError(n)
            return c[n]

        # constant steps
        steps = {}
        for n in names:
            ds = set()
            for cur, vals, bs in back_samples:
                vb = LoopView(self, loop, S0, vals, bs, 0, entry_phi, mods)
                vc = LoopView(self, loop, S0, cur, None, 0, entry_phi, {})
                c1 = self.cursors(vb).get(n)
                c0 = self.cursor(cur.get(n)) if n in cur else None
                if c1 is None or c0 is None:
                    ds.add(None)
                    continue
                if isinstance(c1, z3.ExprRef) and tid(c1) in self.wrapof:
                    c1 = self.wrapof[tid(c1)][0]
                d = norm(c1 - c0) if not (isinstance(c1, int) and isinstance(c0, int)) else c1 - c0
                ds.add(d if isinstance(d, int) else None)
            if len(ds) == 1 and None not in ds:
                steps[n] = ds.pop()
        for n in names:
            i0 = cur0[n]
            add(f"{n}>=init", lambda v, n=n, i0=i0: zI(cget(v, n)) >= i0)
            add(f"{n}<=init", lambda v, n=n, i0=i0: zI(cget(v, n)) <= i0)
            if n in steps and steps[n] != 0:
                add(f"{n}=init+{steps[n]}t", lambda v, n=n, i0=i0, s=steps[n]: zI(cget(v, n)) == i0 + s * v.t)
            add(f"{n}>=0", lambda v, n=n: zI(cget(v, n)) >= 0)
        # bounds taken from the comparisons in the loop body
        bnds = self.loop_bounds(S0, fn, loop)
        if self.unit is not None and hasattr(self.unit, "bounds"):
            for bn, bt in self.unit.bounds(self, S0):
                bnds.append((bn, bt))
        ub = {}
        for bn, bt in bnds:
            k = bt if isinstance(bt, int) else tid(bt)
            ub.setdefault(k, (bn, bt))
        for n in names:
            for bn, bt in ub.values():
                add(f"{n}<={bn}", lambda v, n=n, bt=bt: zI(cget(v, n)) <= bt)
                add(f"{n}>={bn}", lambda v, n=n, bt=bt: zI(cget(v, n)) >= bt)
        for n in names:
            for bn, bt in ub.values():
                for k in (1,):
                    add(f"{n}<{bn}", lambda v, n=n, bt=bt: zI(cget(v, n)) < bt)
                    add(f"{n}>{bn}", lambda v, n=n, bt=bt: zI(cget(v, n)) > bt)
        # congruence of multi-step counters
        # pairs
        if self.auto_pairs and len(names) <= 5:
            for a in range(len(names)):
                for b in range(a + 1, len(names)):
                    n, m = names[a], names[b]
                    add(f"{n}+{m}<=init", lambda v, n=n, m=m, s=cur0[n] + cur0[m]: zI(cget(v, n)) + cget(v, m) <= s)
                    add(f"{n}+{m}>=init", lambda v, n=n, m=m, s=cur0[n] + cur0[m]: zI(cget(v, n)) + cget(v, m) >= s)
                    add(f"{n}-{m}<=init", lambda v, n=n, m=m, s=cur0[n] - cur0[m]: zI(cget(v, n)) - cget(v, m) <= s)
                    add(f"{n}-{m}>=init", lambda v, n=n, m=m, s=cur0[n] - cur0[m]: zI(cget(v, n)) - cget(v, m) >= s)
                    add(f"{n}<={m}", lambda v, n=n, m=m: zI(cget(v, n)) <= cget(v, m))
                    add(f"{m}<={n}", lambda v, n=n, m=m: zI(cget(v, m)) <= cget(v, n))
        if self.unit is not None and hasattr(self.unit, "templates") and not self.discovering:
            for nme, f in self.unit.templates(self, S0, names, cur0, cget, mods, loop):
                add(nme, f)
        return cands

    def loop_bounds(self, S0, fn, loop):
        """loop-invariant integer operands of the comparisons inside the loop"""
        out = []
        defs = set()
        for b in loop.blocks:
            for i in self.blockmap[fn][b]:
                defs.add(i["r"])
        for b in sorted(loop.blocks):
            for i in self.blockmap[fn][b]:
                if i["op"] == "icmp":
                    for o in i["ops"]:
                        if o["k"] == "ref" and o["n"] not in defs and o["n"] in S0.env:
                            c = self.cursor(S0.env[o["n"]])
                            if c is not None:
                                out.append((o["n"], c))
                        elif o["k"] == "int" and o["w"] > 1:
                            c = int(o["v"])
                            if c < TWO[o["w"] - 1]:
                                out.append((str(c), c))
        return out

    # ---- bounded mode
    def run_loop_unrolled(self, S0, fn, loop, phis, init):
        exits, outs = [], []
        states = [(S0, init)]
        for k in range(self.unroll + 1):
            nxt = []
            for st, vals in states:
                st.env.update(vals)
                ex, backs, os_ = self.run_blocks(st, fn, loop.header, None, loop)
                exits += ex
                outs += os_
                for bs, bp in backs:
                    nxt.append((bs, self.back_vals(bs, phis, bp)))
            states = nxt
            if not states:
                break
        return exits, outs


class NotApplicable(Exception):
    pass
