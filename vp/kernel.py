"""Executor for the SIMD distance kernels: lanes as exact polynomials over the input elements.

Integer lanes are carried as mathematical signed integers (SInt) and every operation on them proves
that it does not leave its machine width; sums of lanes are related to the specification's prefix
sums by a prover that normalises polynomials and hands the linearised problem to z3."""
import fractions
import itertools

import os

import z3
from ids import tid

from engine import *  # noqa
from engine import _fresh
from execu import Executor, NotApplicable

H16 = z3.Function("half", z3.IntSort(), z3.RealSort())
S8 = z3.Function("signed8", z3.IntSort(), z3.IntSort())
FDIV = z3.Function("fdiv", z3.RealSort(), z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


class SInt:
    """machine integer known by its (in range) signed mathematical value"""

    __slots__ = ("t", "w", "b", "lo", "hi")

    def __init__(self, t, w, rng=None):
        self.t, self.w = t, w
        # value lies in [b + lo, b + hi], b a linear term
        self.b, self.lo, self.hi = rng if rng is not None else (t, 0, 0)


class FSlice:
    """some bits of a float's pattern"""

    __slots__ = ("src", "lo", "w")

    def __init__(self, src, lo, w):
        self.src, self.lo, self.w = src, lo, w


class Poly:
    """polynomial normal form; atoms are hash-consed by canonical key"""

    def __init__(self):
        self.atoms = {}  # key -> (id, z3 var)
        self.cache = {}
        self.keep = []
        self.fapps = {}  # (fname, key) -> (decl, index term, atom id)
        self.n = itertools.count()
        self.info = []  # id -> description tuple
        self.vars = []

    def atom(self, key, info, sort=None):
        a = self.atoms.get(key)
        if a is None:
            a = len(self.vars)
            self.atoms[key] = a
            self.vars.append(z3.Real(f"p!{a}"))
            self.info.append(info)
        return a

    def of(self, t):
        """z3 arithmetic term / number -> {mono: coeff}"""
        if isinstance(t, (int, fractions.Fraction)):
            return {(): fractions.Fraction(t)} if t else {}
        k = tid(t)
        if k in self.cache:
            return self.cache[k]
        r = self._of(t)
        self.cache[k] = r
        self.keep.append(t)
        return r

    @staticmethod
    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def _of(self, t):
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): fractions.Fraction(v)} if v else {}
        if z3.is_rational_value(t):
            v = fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.of(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.of(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.of(ch[0]).items()}
        if d == z3.Z3_OP_MUL:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.of(c))
            return r
        if d == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            v = fractions.Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if v:
                return {m: c / v for m, c in self.of(ch[0]).items()}
        if t.decl().eq(FDIV):
            # x / y / z  ->  x / (y * z)
            num, den = ch
            while z3.is_app(num) and num.decl().eq(FDIV):
                den = num.arg(1) * den
                num = num.arg(0)
            a = self.atom(("fdiv", self.key(num), self.key(den)), ("fdiv", num, den))
            return {(a,): fractions.Fraction(1)}
        if d == z3.Z3_OP_SELECT:
            idx = self.ikey(ch[1])
            a = self.atom(("sel", tid(ch[0]), idx), ("sel",))
            self.keep.append(t)
            return {(a,): fractions.Fraction(1)}
        if d == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            n = t.decl().name()
            if z3.is_int(ch[0]):
                key = (n, self.ikey(ch[0]))
                a = self.atom(key, ("app", t.decl(), ch[0]))
                self.fapps[key] = (t.decl(), ch[0], a)
            else:
                a = self.atom((n, self.key(ch[0])), ("uf", t.decl(), ch[0]))
            return {(a,): fractions.Fraction(1)}
        a = self.atom(("t", tid(t)), ("t", t))
        return {(a,): fractions.Fraction(1)}

    def ikey(self, i):
        if isinstance(i, int):
            return ((), i)
        p = self.of(i)
        return tuple(sorted((m, c) for m, c in p.items()))

    def key(self, t):
        return tuple(sorted(self.of(t).items()))

    # ---- linearisation
    def lin(self, t, ufs):
        """z3 linear Real expression; nonlinear monomials become variables"""
        return self.linp(self.of(t), ufs)

    def linp(self, p, ufs):
        terms = []
        for m, c in p.items():
            if not m:
                terms.append(z3.RealVal(c))
                continue
            if len(m) == 1:
                v = self.atomv(m[0], ufs)
            else:
                v = self.mono(m, ufs)
            terms.append(v if c == 1 else z3.RealVal(c) * v)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def atomv(self, a, ufs):
        inf = self.info[a]
        if inf[0] in ("fdiv", "uf") and ufs is not None:
            if a not in ufs:
                ufs[a] = None
                if inf[0] == "fdiv":
                    ufs[a] = FDIV(self.lin(inf[1], ufs), self.lin(inf[2], ufs))
                else:
                    ufs[a] = inf[1](self.lin(inf[2], ufs))
            return ufs[a]
        return self.vars[a]

    def mono(self, m, ufs):
        special = ufs is not None and any(self.info[a][0] in ("fdiv", "uf") for a in m)
        if not special:
            key = ("m", m)
            if key not in self.atoms:
                self.atoms[key] = len(self.vars)
                self.vars.append(z3.Real(f"p!{len(self.vars)}"))
                self.info.append(("m",))
            return self.vars[self.atoms[key]]
        f = z3.Function("pmul", z3.RealSort(), z3.RealSort(), z3.RealSort())
        vs = [self.atomv(a, ufs) for a in m]
        x = vs[0]
        for y in vs[1:]:
            ufs.setdefault("comm", []).append(f(x, y) == f(y, x))
            x = f(x, y)
        return x

    def form(self, f, ufs):
        """boolean formula over arithmetic -> linearised; None if not expressible"""
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if z3.is_quantifier(f):
            return None
        k = f.decl().kind()
        ch = f.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return f
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            cs = [self.form(c, ufs) for c in ch]
            if k == z3.Z3_OP_AND:
                cs = [c for c in cs if c is not None] if not self.strict else cs
            if any(c is None for c in cs):
                return None
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: lambda x: z3.Not(x), z3.Z3_OP_IMPLIES: z3.Implies}[k](*cs)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_arith(ch[0]):
            d = self.linp(self.add(self.of(ch[0]), self.of(ch[1]), -1), ufs)
            z = z3.RealVal(0)
            return {z3.Z3_OP_EQ: d == z, z3.Z3_OP_LE: d <= z, z3.Z3_OP_LT: d < z, z3.Z3_OP_GE: d >= z, z3.Z3_OP_GT: d > z}[k]
        return None

    strict = False


class KernelExecutor(Executor):
    unroll_const = True
    sampling = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.poly = Poly()
        self.bnd = {}  # atom key -> (lo, hi)
        self.polyfacts = []
        self.prefix = {}  # decl name -> (decl, T) with decl(x+1) = decl(x) + T(x), decl(0) = 0
        self.wall_houdini = 20000
        self._nr = {}

    # ---------------------------------------------------------------- bounds
    def set_bound(self, t, lo, hi):
        p = self.poly.of(t)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1:
                self.bnd[m[0]] = (lo, hi)

    def interval(self, t):
        p = self.poly.of(t)
        lo = hi = fractions.Fraction(0)
        for m, c in p.items():
            a, b = fractions.Fraction(1), fractions.Fraction(1)
            for x in m:
                if x not in self.bnd:
                    return None
                l, h = self.bnd[x]
                vs = (a * l, a * h, b * l, b * h)
                a, b = min(vs), max(vs)
            if len(m) == 2 and m[0] == m[1]:
                l, h = self.bnd[m[0]]
                a, b = (0 if l <= 0 <= h else min(l * l, h * h)), max(l * l, h * h)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    # ---------------------------------------------------------------- signed values
    def sv(self, st, x, w):
        if isinstance(x, SInt):
            return x.t
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            x &= TWO[w] - 1
            return x - TWO[w] if x >= TWO[w - 1] else x
        if isinstance(x, Parts):
            if not x.parts:
                return 0
            if len(x.parts) == 1 and x.parts[0][0] == 0 and x.parts[0][1] < w:
                y = x.parts[0][2]
                if isinstance(y, SInt):
                    return super().signed(st, self.as_int(y, st, y.w), w)
                return y
            x = x.term
        if isinstance(x, Undef):
            raise Unsupported("undef lane")
        iv = self.interval(x)
        if iv is not None and 0 <= iv[0] and iv[1] < TWO[w - 1]:
            return x
        if w == 8 and iv is not None and 0 <= iv[0] and iv[1] < 256:
            s = S8(x)
            self.set_bound(s, -128, 127)
            return s
        return Executor.signed(self, st, x, w)

    def rng(self, st, x, w):
        """(base, lo, hi) of the signed value of x"""
        if isinstance(x, SInt):
            return x.b, x.lo, x.hi
        t = self.sv(st, x, w)
        if isinstance(t, int):
            return 0, t, t
        iv = self.interval(t)
        if iv is not None:
            return 0, int(iv[0]), int(iv[1])
        return t, 0, 0

    def lin_prove(self, st, goal):
        if is_true(goal):
            return True
        import time as _t

        t0 = _t.time()
        s = z3.Solver()
        s.set("timeout", 8000)
        for f in st.facts:
            k = tid(f)
            if k not in self._nr:
                self._nr[k] = (not self.nonlin(f), f)
            if self._nr[k][0]:
                s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        self.solver_time += _t.time() - t0
        self.nq += 1
        return r == z3.unsat

    def nonlin(self, g):
        stack, seen = [g], set()
        while stack:
            x = stack.pop()
            if tid(x) in seen:
                continue
            seen.add(tid(x))
            if z3.is_quantifier(x) or z3.is_arith(x) and x.is_real():
                return True
            if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_int_value(c)) > 1:
                return True
            stack.extend(x.children())
            if len(seen) > 400:
                return True
        return False

    def mk_all(self, st, vals, w, what, I):
        """vals: [(term, (base, lo, hi))] -> machine results"""
        H = TWO[w - 1]
        need = []
        for t, (b, lo, hi) in vals:
            if isinstance(b, int):
                need.append(z3.BoolVal(-H <= b + lo and b + hi < H))
            else:
                need.append(z3.And(b + lo >= -H, b + hi < H))
        if self.sampling or self.lin_prove(st, z3.And(need)):
            return [SInt(t, w, r) if not isinstance(t, int) else t & (TWO[w] - 1) for t, r in vals]
        return [self.mk(st, t, w, what, I, r, wrap=len(vals) > 1) for t, r in vals]

    def in_range(self, st, t, lo, hi):
        if isinstance(t, int):
            return lo <= t <= hi
        iv = self.interval(t)
        if iv is not None:
            return lo <= iv[0] and iv[1] <= hi
        return self.poly_prove(st, z3.And(t >= lo, t <= hi))

    def mk(self, st, t, w, what, I, r=None, wrap=False):
        """the machine result of an operation with mathematical value t, known to be in range r"""
        H = TWO[w - 1]
        t = norm(t) if not isinstance(t, int) else t
        if r is not None:
            b, lo, hi = r
            if isinstance(b, int):
                if -H <= b + lo and b + hi < H:
                    return SInt(t, w, r) if not isinstance(t, int) else t & (TWO[w] - 1)
            elif self.sampling or not wrap and self.lin_prove(st, z3.And(b + lo >= -H, b + hi < H)):
                return SInt(t, w, r) if not isinstance(t, int) else t & (TWO[w] - 1)
        if self.sampling or not wrap and self.in_range(st, t, -H, H - 1):
            return SInt(t, w) if not isinstance(t, int) else t & (TWO[w] - 1)
        # wraps (or cannot be shown not to)
        v, k = fresh_int("wrapped"), fresh_int("wrapk")
        st.assume(t == v + TWO[w] * k, v >= -H, v < H)
        return SInt(v, w)

    def as_int(self, v, st, w=64):
        if isinstance(v, SInt):
            t = v.t
            if isinstance(t, int):
                return t & (TWO[v.w] - 1)
            iv = self.interval(t)
            if iv is not None and iv[0] >= 0:
                return t
            r = fresh_int("uns")
            st.assume(r == z3.If(t < 0, t + TWO[v.w], t))
            return r
        return super().as_int(v, st, w)

    def signed(self, st, x, w):
        if isinstance(x, SInt):
            return x.t
        return super().signed(st, x, w)

    def rng_op(self, st, op, a, b, w):
        xb, xl, xh = self.rng(st, a, w)
        yb, yl, yh = self.rng(st, b, w)
        if op == "add":
            return xb + yb if not (isinstance(xb, int) and isinstance(yb, int)) else xb + yb, xl + yl, xh + yh
        if op == "sub":
            return xb - yb, xl - yh, xh - yl
        if not (isinstance(xb, int) and isinstance(yb, int)):
            return None
        x, y = (xb + xl, xb + xh), (yb + yl, yb + yh)
        vs = [p * q for p in x for q in y]
        lo, hi = min(vs), max(vs)
        if a is b or self.poly.key(zI(self.sv(st, a, w))) == self.poly.key(zI(self.sv(st, b, w))):
            lo = 0 if x[0] <= 0 <= x[1] else min(x[0] ** 2, x[1] ** 2)
        return 0, lo, hi

    def scalar_iop(self, st, op, a, b, w, I):
        if op in ("add", "sub", "mul") and w in (16, 32) and (isinstance(I["t"], dict) or isinstance(a, SInt) or isinstance(b, SInt) or self.known(a) and self.known(b)):
            x, y = self.sv(st, a, w), self.sv(st, b, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            return self.mk(st, r, w, op, I, self.rng_op(st, op, a, b, w))
        if op == "shl" and isinstance(a, SInt) and isinstance(b, int):
            return self.mk(st, a.t * TWO[b], w, op, I)
        if op in ("lshr", "ashr", "and", "or", "xor") and (isinstance(a, SInt) or isinstance(b, SInt)):
            a, b = self.as_int(a, st, w), self.as_int(b, st, w)
        return super().scalar_iop(st, op, a, b, w, I)

    def exec_simple(self, st, I):
        if I["op"] in ("add", "sub") and isinstance(I["t"], dict) and I["t"]["e"] == "i32":
            a, b = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            vals = []
            for x, y in zip(a, b):
                p, q = self.sv(st, x, 32), self.sv(st, y, 32)
                t = p + q if I["op"] == "add" else p - q
                vals.append((t if isinstance(t, int) else norm(t), self.rng_op(st, I["op"], x, y, 32)))
            st.env[I["r"]] = self.mk_all(st, vals, 32, I["op"], I)
            return
        return super().exec_simple(st, I)

    def known(self, x):
        if isinstance(x, Parts) and len(x.parts) == 1 and x.parts[0][0] == 0:
            x = x.parts[0][2]
        return isinstance(x, z3.ExprRef) and z3.is_int(x) and self.interval(x) is not None

    def cast(self, st, op, v, ft, t, I):
        if isinstance(v, list) and isinstance(t, dict) and op != "bitcast":
            return super().cast(st, op, v, ft, t, I)
        if op == "sext" and ft in ("i8", "i16") and t in WIDTH and not isinstance(v, int):
            return SInt(self.sv(st, v, WIDTH[ft]), WIDTH[t], self.rng(st, v, WIDTH[ft]))
        if op == "zext" and isinstance(v, SInt):
            iv = self.interval(v.t)
            if iv and iv[0] >= 0:
                return v.t
            v = self.as_int(v, st)
        if op == "sitofp" and ft in ("i8", "i16", "i32") and not isinstance(v, int):
            x = self.sv(st, v, WIDTH[ft])
            return fractions.Fraction(x) if isinstance(x, int) else z3.ToReal(x)
        if op == "uitofp" and isinstance(v, SInt):
            iv = self.interval(v.t)
            if iv and iv[0] >= 0 or self.in_range(st, v.t, 0, TWO[v.w]):
                return z3.ToReal(v.t) if not isinstance(v.t, int) else fractions.Fraction(v.t)
        if op == "trunc" and isinstance(v, SInt):
            w = WIDTH[t]
            if self.in_range(st, v.t, -TWO[w - 1], TWO[w - 1] - 1):
                return SInt(v.t, w, (v.b, v.lo, v.hi))
        return super().cast(st, op, v, ft, t, I)

    def fop(self, st, op, x, y):
        if op == "fdiv":
            x, y = self.as_real(x, st), self.as_real(y, st)
            if not (isc(x) and isc(y)):
                return FDIV(zR(x), zR(y))
        return super().fop(st, op, x, y)

    def as_real(self, v, st):
        return super().as_real(v, st)

    def havoc_value(self, st, v, name, ty, steps):
        if ty == "i32" and isinstance(v, (SInt,)) or isinstance(ty, str) and ty == "i32" and steps == "lane":
            t = fresh_int(name)
            st.assume(t >= -TWO[31], t < TWO[31])
            return SInt(t, 32)
        if isinstance(v, list) and isinstance(ty, dict) and ty.get("e") == "i32":
            return [self.havoc_value(st, x, name, "i32", "lane") for x in v]
        return super().havoc_value(st, v, name, ty, steps)

    def fresh(self, ty, name, st):
        if isinstance(ty, dict) and ty.get("e") == "i32" and "v" in ty:
            return [self.havoc_value(st, None, name, "i32", "lane") for _ in range(ty["v"])]
        return super().fresh(ty, name, st)

    def elem_facts(self, st, reg, f, ty, v):
        hi = TWO[WIDTH[ty]]
        self.set_bound(v, 0, hi - 1)
        if ty not in ("i8", "i16"):
            super().elem_facts(st, reg, f, ty, v)

    # ---------------------------------------------------------------- memory
    def vec_bounds(self, st, p, es, n, I):
        reg = p.reg
        if reg.kind != "arr":
            return False
        idx, f = self.locate(st, p, es, I, False)
        if reg.stride != es or f:
            return False
        self.bounds(st, reg, idx, I, False, n=n)
        return idx

    def load(self, st, p, ty, inst):
        if isinstance(p, Ptr) and p.reg.kind == "arr":
            es = p.reg.stride
            if isinstance(ty, dict) and "v" in ty and ty["e"] != "i1":
                return self.lanes_at(st, p, ty["e"], ty["v"], inst)
            if isinstance(ty, str) and ty in WIDTH and BYTES[ty] > es:
                n = BYTES[ty] // es
                b = "i%d" % (8 * es)
                vs = self.lanes_at(st, p, b, n, inst)
                return Parts([(k * 8 * es, 8 * es, x) for k, x in enumerate(vs)], WIDTH[ty])
        return super().load(st, p, ty, inst)

    def lanes_at(self, st, p, ety, n, inst):
        reg = p.reg
        es = ty_bytes(ety)
        S = reg.stride
        if es > S:  # e.g. <4 x i64> from floats
            r = es // S
            base = self.lanes_at(st, p, "i%d" % (8 * S), n * r, inst)
            return [Parts([(k * 8 * S, 8 * S, x) for k, x in enumerate(base[j * r:(j + 1) * r])], 8 * es) for j in range(n)]
        if es < S:
            k = S // es
            base = self.lanes_at(st, p, "i%d" % (8 * S), (n + k - 1) // k, inst)
            return [self.slice_bits(st, base[j // k], (j % k) * 8 * es, 8 * es, 8 * S) for j in range(n)]
        idx = self.vec_bounds(st, p, es, n, inst)
        if idx is False:
            raise Unsupported("vector load")
        return [self.elem(st, reg, norm(idx + k), ety) for k in range(n)]

    def elem(self, st, reg, idx, ety):
        ft = reg.fields[0]
        v = self.arr_read(st, reg, idx, 0, ft)
        if ft[0] == "f" and ety[0] == "i":
            return FloatBits(v, ft)
        if ft[0] == "i" and ety[0] == "f":
            raise Unsupported("integer data read as float")
        return v

    def masked_load(self, st, p, m, pt, t, I):
        ms = [self.as_bool(c, st) for c in m]
        if p.reg.kind != "arr" or not all(is_true(c) or is_false(c) for c in ms):
            raise Unsupported("masked load with a symbolic mask")
        on = [k for k, c in enumerate(ms) if is_true(c)]
        es = ty_bytes(t["e"])
        if es != p.reg.stride:
            raise Unsupported("masked load of another width")
        out = []
        idx, _ = self.locate(st, p, es, I, False)
        if on:
            lo, hi = min(on), max(on)
            self.bounds(st, p.reg, norm(idx + lo), I, False, n=hi - lo + 1)
        for k in range(t["v"]):
            z = pt[k] if isinstance(pt, list) else pt
            if isinstance(z, Undef):
                z = self.zero(t["e"])
            out.append(self.elem(st, p.reg, norm(idx + k), t["e"]) if is_true(ms[k]) else z)
        return out

    def vec_to_vec(self, st, v, ft, t):
        if isinstance(v, list) and any(isinstance(x, FSlice) for x in v):
            w1, w2 = ty_bytes(ft["e"]) * 8, ty_bytes(t["e"]) * 8
            r = w2 // w1
            out = []
            for k in range(t["v"]):
                grp = v[k * r:(k + 1) * r]
                if not (r and all(isinstance(x, FSlice) and x.src is grp[0].src and x.lo == j * w1 and x.w == w1 for j, x in enumerate(grp)) and BYTES[grp[0].src.ty] * 8 == w2):
                    raise Unsupported("bytes of floats")
                out.append(grp[0].src if t["e"][0] == "i" else grp[0].src.val)
            return out
        if isinstance(v, list) and any(isinstance(x, SInt) for x in v):
            w1, w2 = ty_bytes(ft["e"]) * 8, ty_bytes(t["e"]) * 8
            if w2 > w1:
                r = w2 // w1
                return [Parts([(j * w1, w1, x) for j, x in enumerate(v[k * r:(k + 1) * r])], w2) if not all(isinstance(x, int) for x in v[k * r:(k + 1) * r]) else sum((x & (TWO[w1] - 1)) << (w1 * j) for j, x in enumerate(v[k * r:(k + 1) * r])) for k in range(t["v"])]
        if isinstance(v, list) and ty_bytes(t["e"]) > 4:
            # opaque wide lanes (e.g. <8 x i64> as the type of a register): keep parts
            w1, w2 = ty_bytes(ft["e"]) * 8, ty_bytes(t["e"]) * 8
            if w2 > w1 and ft["e"][0] == "i":
                r = w2 // w1
                return [self.join(v[k * r:(k + 1) * r], w1, w2) for k in range(t["v"])]
        return super().vec_to_vec(st, v, ft, t)

    def join(self, xs, w1, w2):
        if all(isinstance(x, int) for x in xs):
            return sum((x & (TWO[w1] - 1)) << (w1 * j) for j, x in enumerate(xs))
        ps = []
        for j, x in enumerate(xs):
            ps.append((j * w1, w1, x))
        return Parts(ps, w2)

    def slice_bits(self, st, v, lo, w, total):
        if isinstance(v, SInt):
            if lo == 0 and w == v.w:
                return v
            raise Unsupported("bits of a signed lane")
        if isinstance(v, FloatBits) and (lo or w != BYTES[v.ty] * 8):
            return FSlice(v, lo, w)
        return super().slice_bits(st, v, lo, w, total)

    # ---------------------------------------------------------------- masks and selects
    def try_select(self, st, c, x, y, I=None):
        if I is not None and I.get("t") in ("i16", "i32", "i64") and isinstance(x, int) and isinstance(y, int) and not is_true(c) and not is_false(c):
            ones = TWO[WIDTH[I["t"]]] - 1
            if (x == ones) != (y == ones):
                return NotImplemented  # a lane mask: split the path
        if not (is_true(c) or is_false(c)):
            if self.fast(st, c):
                return x
            if self.fast(st, z3.Not(c)):
                return y
            if isinstance(x, int) and isinstance(y, int) and x != y and I is not None and not isinstance(I["t"], dict):
                return NotImplemented
        if isinstance(x, SInt) or isinstance(y, SInt):
            if is_true(c):
                return x
            if is_false(c):
                return y
            w = x.w if isinstance(x, SInt) else y.w
            return SInt(z3.If(c, zI(self.sv(st, x, w)), zI(self.sv(st, y, w))), w)
        return super().try_select(st, c, x, y, I)

    def exec_insts(self, st, fn, b, insts, i, work, exits):
        n = len(insts)
        j = i
        while j < n:
            I = insts[j]
            if I["op"] in ("br", "switch", "ret", "call", "invoke", "select", "unreachable"):
                if I["op"] in ("call", "select"):
                    # run up to and including it through the normal path, one instruction at a time
                    return self.exec_from(st, fn, b, insts, i, j, work, exits)
                return super().exec_insts(st, fn, b, insts, i, work, exits)
            if I["op"] == "shl":
                return self.exec_from(st, fn, b, insts, i, j, work, exits)
            j += 1
        return super().exec_insts(st, fn, b, insts, i, work, exits)

    def exec_from(self, st, fn, b, insts, i, j, work, exits):
        for k in range(i, j):
            self.exec_simple(st, insts[k])
        I = insts[j]
        if I["op"] == "shl" and isinstance(I["t"], str):
            w = int(I["t"][1:])
            a, s = self.val(st, I["ops"][0]), self.val(st, I["ops"][1])
            if isinstance(a, int) and not isinstance(s, int):
                s = self.as_int(s, st, w)
                # case split over every shift amount (exhaustive: the amount must be < w)
                self.oblige(st, And(s >= 0, s < w), "shift amount within the width", "safety", I.get("loc", ""))
                for v in range(w) if not os.environ.get('VP_SHIFT') else [int(os.environ['VP_SHIFT'])]:
                    s2 = st.copy()
                    s2.assume(s == v)
                    if not self.feasible(s2):
                        continue
                    s2.env[I["ops"][1]["n"]] = v
                    s2.trace = s2.trace + (f"shift={v}",)
                    for r, x in list(s2.env.items()):
                        if isinstance(x, z3.ExprRef) and not z3.is_bool(x) and tid(x) == tid(s):
                            s2.env[r] = v
                    s2.env[I["r"]] = (a << v) % TWO[w]
                    self.exec_insts(s2, fn, b, insts, j + 1, work, exits)
                return
            self.exec_simple(st, I)
            return self.exec_insts(st, fn, b, insts, j + 1, work, exits)
        # a call or select: let the base class run it, then come back
        return Executor.exec_insts(self, st, fn, b, [*insts], j, work, exits) if j + 1 >= len(insts) else self.one_then(st, fn, b, insts, j, work, exits)

    def one_then(self, st, fn, b, insts, j, work, exits):
        I = insts[j]
        if I["op"] == "call":
            r = self.exec_call(st, fn, b, I, exits)
            if r is None:
                return
            for s2, v in r:
                s2.env[I["r"]] = v
                self.exec_insts(s2, fn, b, insts, j + 1, work, exits)
            return
        c = self.val(st, I["ops"][0])
        x, y = self.val(st, I["ops"][1]), self.val(st, I["ops"][2])
        if isinstance(c, list):
            x = x if isinstance(x, list) else [x] * len(c)
            y = y if isinstance(y, list) else [y] * len(c)
            st.env[I["r"]] = [self.sel(st, cc, a, bb, I) for cc, a, bb in zip(c, x, y)]
            return self.exec_insts(st, fn, b, insts, j + 1, work, exits)
        c = self.as_bool(c, st)
        v = self.try_select(st, c, x, y, I)
        if v is not NotImplemented:
            st.env[I["r"]] = v
            return self.exec_insts(st, fn, b, insts, j + 1, work, exits)
        s2 = st.copy()
        st.assume(c)
        s2.assume(z3.Not(c))
        st.env[I["r"]] = x
        s2.env[I["r"]] = y
        if self.feasible(s2):
            self.exec_insts(s2, fn, b, insts, j + 1, work, exits)
        if self.feasible(st):
            self.exec_insts(st, fn, b, insts, j + 1, work, exits)

    def x86(self, st, base, av, I):
        if base.startswith("llvm.x86.avx512.vpdpwssd.") or base.startswith("llvm.x86.avx512.vpdpwssd"):
            acc, a, b = av
            vals = []
            for c, x, y in zip(acc, a, b):
                s, r = self.sv(st, c, 32), self.rng(st, c, 32)
                for (x0, y0) in zip(self.halves(st, x), self.halves(st, y)):
                    p = self.sv(st, x0, 16) * self.sv(st, y0, 16)
                    s = s + p
                    q = self.rng_op(st, "mul", x0, y0, 16)
                    r = (r[0], r[1] + q[1], r[2] + q[2]) if r is not None and q is not None else None
                if r is None:
                    raise Unsupported("vpdpwssd on lanes of unknown range")
                vals.append((norm(s) if not isinstance(s, int) else s, r))
            return self.mk_all(st, vals, 32, "vpdpwssd", I)
        if base.startswith("llvm.x86.avx.ldu.dq.256"):
            return self.load(st, av[0], {"v": 32, "e": "i8"}, I)
        return NotImplemented

    def halves(self, st, x):
        if isinstance(x, int):
            return [x & 0xFFFF, (x >> 16) & 0xFFFF]
        if isinstance(x, Parts):
            out = [0, 0]
            for lo, w, t in x.parts:
                if lo not in (0, 16) or w > 16:
                    raise Unsupported("halves of a lane")
                out[lo // 16] = t
            return out
        raise Unsupported("halves of a lane")

    def intrinsic(self, st, c, I, args):
        if c.startswith("llvm.vector.reduce.add"):
            av = self.val(st, args[0])
            w = int(I["ats"][-1]["e"][1:])
            s, b, lo, hi = 0, 0, 0, 0
            for x in av:
                s = s + self.sv(st, x, w)
                r = self.rng(st, x, w)
                b, lo, hi = b + r[0], lo + r[1], hi + r[2]
            return [(st, self.mk(st, s, w, "reduce", I, (b, lo, hi)))]
        return super().intrinsic(st, c, I, args)

    # ---------------------------------------------------------------- loops with a constant trip count
    def run_loop(self, S0, fn, loop, pred):
        phis = self.phis(fn, loop.header)
        init = {}
        for p in phis:
            for v, pb in p["in"]:
                if pb == pred:
                    init[p["r"]] = self.val(S0, v)
        self.quiet += 1
        st, vals, n = S0.copy(), init, 0
        ok = False
        try:
            while n <= 64:
                st.env.update(vals)
                nf = len(st.facts)
                ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
                if len(ex) + len(backs) + len(outs) != 1:
                    break
                if outs or ex:
                    ok = True
                    break
                st, bp = backs[0]
                vals = self.back_vals(st, phis, bp)
                n += 1
        finally:
            self.quiet -= 1
        if not ok:
            return super().run_loop(S0, fn, loop, pred)
        st, vals = S0, init
        while True:
            st.env.update(vals)
            ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
            if not backs:
                return ex, outs
            st, bp = backs[0]
            vals = self.back_vals(st, phis, bp)

    def make_candidates(self, S0, fn, loop, phis, entry_phi, mods, back_samples, tys):
        self.entry_phi = entry_phi
        self.loop_mods = mods
        # a representative iteration (indices assumed small), used only to discard hopeless candidates
        st, cur, t, view = self.loop_head_state(S0, phis, entry_phi, tys, mods, loop)
        for r, v in cur.items():
            c = self.cursor(v)
            if isinstance(c, z3.ExprRef):
                st.assume(c >= 0, c < 1 << 40)
        self.quiet += 1
        self.sampling = True
        try:
            ex, backs, outs = self.run_blocks(st, fn, loop.header, None, loop)
        finally:
            self.quiet -= 1
            self.sampling = False
        self.back_samples = [(cur, self.back_vals(bs, phis, bp), bs) for bs, bp in backs]
        return super().make_candidates(S0, fn, loop, phis, entry_phi, mods, back_samples, tys)

    def step_of(self, loop, S0, n):
        for cur, vals, bs in self.back_samples:
            vb = LoopView(self, loop, S0, vals, bs, 0, self.entry_phi, self.loop_mods)
            c0, c1 = self.cursor(cur.get(n)), self.cursors(vb).get(n)
            if c0 is None or c1 is None:
                continue
            if isinstance(c1, z3.ExprRef) and tid(c1) in self.wrapof:
                c1 = self.wrapof[tid(c1)][0]
            d = norm(c1 - c0) if not (isinstance(c1, int) and isinstance(c0, int)) else c1 - c0
            if isinstance(d, int) and d > 0:
                return d
        return None

    def plausible(self, loop, S0, total, sub, n, o, fn, some=False):
        r = [self.plausible1(loop, S0, total, sub, n, o, fn, b) for b in self.back_samples]
        return any(r) if some else all(r)

    def plausible1(self, loop, S0, total, sub, n, o, fn, sample):
        """cheap filter: does the sum grow by exactly the terms the cursor passes (as polynomials)?"""
        F, T = self.prefix[fn]
        P = self.poly
        cur, vals, bs = sample
        if True:
            va = LoopView(self, loop, S0, cur, bs, 0, self.entry_phi, {})
            vb = LoopView(self, loop, S0, vals, bs, 0, self.entry_phi, self.loop_mods)
            c0, c1 = self.cursor(cur.get(n)), self.cursors(vb).get(n)
            if c0 is None or c1 is None:
                return False
            if isinstance(c1, z3.ExprRef) and tid(c1) in self.wrapof:
                c1 = self.wrapof[tid(c1)][0]
            d = norm(c1 - c0) if not (isinstance(c1, int) and isinstance(c0, int)) else c1 - c0
            if not isinstance(d, int) or not 0 < d <= 256:
                return False
            p = P.add(P.of(total(vb, sub)), P.of(total(va, sub)), -1)
            for k in range(d):
                p = P.add(p, P.of(T(norm(c0 + o + k))), -1)
            if p:
                return False
        return True

    # ---------------------------------------------------------------- provers
    def fast(self, st, goal):
        return super().fast(st, goal)

    def chain_facts(self, st):
        """definition of the prefix sums at the arguments that occur"""
        P = self.poly
        out = []
        byf = {}
        for key, (d, idx, a) in P.fapps.items():
            if d.name() in self.prefix and a in self.relevant:
                byf.setdefault(d.name(), []).append((idx, a))
        for fn, lst in byf.items():
            d, T = self.prefix[fn]
            lst = list(lst)
            # group by constant difference
            groups = []
            for idx, a in lst:
                for g in groups:
                    df = self.const_diff(st, idx, g[0][0])
                    if df is not None:
                        g.append((idx, a, df))
                        break
                else:
                    groups.append([(idx, a, 0)])
            for g in groups:
                z = self.const_diff(st, g[0][0], z3.IntVal(0))
                if z is not None:
                    g.append((z3.IntVal(0), None, -z))
                g.sort(key=lambda x: x[2])
                if len(g) == 1 and z is None:
                    continue
                base = g[0]
                if g[-1][2] - base[2] > 400:
                    continue
                s = {} if base[1] is None else {(base[1],): fractions.Fraction(1)}
                off = base[2]
                if z is not None:
                    for idx, a, df in g:
                        if df == -z and a is not None:
                            out.append(({(a,): fractions.Fraction(1)}, {}))
                for idx, a, df in g[1:]:
                    while off < df:
                        s = P.add(s, P.of(T(norm(base[0] + (off - base[2])))))
                        off += 1
                    out.append(({(a,): fractions.Fraction(1)} if a is not None else {}, s))
        return out

    def const_diff(self, st, x, y):
        d = norm(x - y) if not (isinstance(x, int) and isinstance(y, int)) else x - y
        if isinstance(d, int):
            return d
        key = ("cd", tid(d), len(st.facts))
        hit = st.fastcache.get(key)
        if hit is not None:
            return hit[0]
        s = z3.Solver()
        s.set("timeout", 1500)
        for f in st.facts:
            s.add(f)
        v = z3.Int("cd!")
        s.add(v == d)
        res = None
        if s.check() == z3.sat:
            k = s.model()[v].as_long()
            s.add(v != k)
            if s.check() == z3.unsat:
                res = k
        self.nq += 2
        st.fastcache[key] = (res, d)
        return res

    def poly_prove(self, st, goal):
        if is_true(goal):
            return True
        if z3.is_bool(goal) and z3.is_and(goal) and goal.num_args() <= 4:
            return all(self.poly_prove(st, g) for g in goal.children())
        if z3.is_bool(goal) and z3.is_implies(goal):
            s2 = st.copy()
            s2.assume(goal.arg(0))
            if not self.feasible(s2):
                return True
            r = self.poly_prove(s2, goal.arg(1))
            if not r and os.environ.get("VP_DBG"):
                print("IMP", goal, "\n FACTS", [f for f in s2.facts if not self.nonlin(f)])
            return r
        import time as _t

        t0 = _t.time()
        P = self.poly
        ufs = {}
        s = z3.Solver()
        s.set("timeout", 15000)
        P.strict = True
        g = P.form(zB(goal), ufs)
        P.strict = False
        if g is None:
            return False
        facts = []
        forms = []
        for f in itertools.chain(st.facts, self.polyfacts):
            c = P.form(f, ufs)
            if c is not None:
                forms.append((c, f))
        self.relevant = set(range(len(P.vars)))
        used = self.atoms_in(goal)
        # keep only facts that can matter: transitive closure over shared atoms
        fa = [(c, self.atoms_in(f)) for c, f in forms]
        # prefix-sum applications mentioned in goal or kept facts
        changed = True
        keep = [False] * len(fa)
        while changed:
            changed = False
            for k, (c, at) in enumerate(fa):
                if not keep[k] and at & used:
                    keep[k] = True
                    if not at <= used:
                        used |= at
                    changed = True
        self.relevant = used
        for (l, r) in self.chain_facts(st):
            s.add(P.linp(P.add(l, r, -1), ufs) == 0)
        for k, (c, at) in enumerate(fa):
            s.add(c)
        for a, (lo, hi) in self.bnd.items():
            if a in used:
                s.add(P.vars[a] >= lo, P.vars[a] <= hi)
        for c in ufs.get("comm", []):
            s.add(c)
        s.add(z3.Not(g))
        r = s.check()
        self.solver_time += _t.time() - t0
        self.nq += 1
        return r == z3.unsat

    def atoms_in(self, f):
        k = tid(f)
        c = self.__dict__.setdefault("_ai", {})
        if k in c:
            return c[k][0]
        out = set()
        stack = [f]
        P = self.poly

        def poly_atoms(p):
            for m in p:
                for a in m:
                    if a in out:
                        continue
                    out.add(a)
                    inf = P.info[a]
                    if inf[0] == "fdiv":
                        poly_atoms(P.of(inf[1]))
                        poly_atoms(P.of(inf[2]))
                    elif inf[0] == "uf":
                        poly_atoms(P.of(inf[2]))

        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                continue
            if z3.is_arith(x):
                poly_atoms(P.of(x))
            elif z3.is_bool(x):
                stack.extend(x.children())
        c[k] = (out, f)
        return out

    def cand_stages(self, cands):
        return [[c for c in cands if not c[0].startswith(("lanes", "sum"))], [c for c in cands if c[0].startswith("lanes")], [c for c in cands if c[0].startswith("sum")]]

    def prove_cand(self, st, g):
        if is_true(g):
            return True
        if not z3.is_bool(g):
            return False
        if not self.nonlin(g):
            return self.lin_prove(st, g)
        return self.poly_prove(st, g)

    def fast_int(self, st, g):
        return not self.nonlin(g) and self.lin_prove(st, g)

    def has_real(self, g):
        stack, seen = [g], set()
        while stack:
            x = stack.pop()
            if tid(x) in seen:
                continue
            seen.add(tid(x))
            if z3.is_arith(x) and x.is_real():
                return True
            stack.extend(x.children())
            if len(seen) > 300:
                return True
        return False

    def full_prove(self, st, goal):
        if is_true(goal):
            return "proved", "trivial", None
        if isinstance(goal, z3.ExprRef) and self.poly_prove(st, goal):
            return "proved", "poly+z3", None
        if isinstance(goal, bool) or self.has_real(goal):
            if self.poly_prove(st, z3.BoolVal(False)):
                return "proved", "poly+z3", None
            return "unknown", "poly+z3", None
        r, s = self._check(st.facts, goal, self.rlimit_full, 10000, True)
        if r == z3.unsat:
            return "proved", "z3", None
        return ("failed", "z3", s.model()) if r == z3.sat else ("unknown", "z3", None)
