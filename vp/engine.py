"""Verification-condition generator and symbolic executor over the JSON that tools/irx prints.

One `Engine` verifies one function (a root of the harness translation unit, with everything it
calls inlined from /repo's real headers) against a contract written in Python (vp/units/*.py).

 * integers are mathematical; every machine operation is encoded with its exact wrap-around
   (wrap is removed only when the solver proves that it cannot happen on that path),
 * memory is a set of disjoint regions, each access carries a bounds obligation,
 * loops are cut by inductive invariants: candidate formulas are generated (automatic ones from
   the loop's induction variables, plus the unit's templates) and pruned to the largest inductive
   subset (Houdini).  No loop is ever unrolled in proof mode, so the result has no bound,
 * a call is replaced by the callee's contract (precondition proved, effects havocked,
   postcondition assumed) when a contract is registered, otherwise its body is executed.
"""
import fractions
import itertools
import json
import os
import struct
import time

import z3
from ids import tid

import ground

TWO = [1 << k for k in range(0, 300)]


class Unsupported(Exception):
    """The extracted code uses something outside the verifier's reach (never a violation)."""


# ---------------------------------------------------------------- small term helpers
def isc(x):
    return isinstance(x, (int, bool, fractions.Fraction)) and not isinstance(x, z3.ExprRef)


def is_true(x):
    return x is True or (isinstance(x, z3.BoolRef) and z3.is_true(x))


def is_false(x):
    return x is False or (isinstance(x, z3.BoolRef) and z3.is_false(x))


def zI(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zR(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))
    return z3.RealVal(x)


def zB(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    xs = [x for x in xs if not is_true(x)]
    if any(is_false(x) for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if not is_false(x)]
    if any(is_true(x) for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    if is_true(x):
        return False
    if is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return True
    return z3.Implies(zB(a), zB(b))


def Ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isc(a) and isc(b) and a == b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    if isinstance(a, fractions.Fraction) or isinstance(b, fractions.Fraction) or (
        isinstance(a, z3.ExprRef) and z3.is_real(a)) or (isinstance(b, z3.ExprRef) and z3.is_real(b)):
        return z3.If(c, zR(a), zR(b))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, zB(a), zB(b))
    return z3.If(c, zI(a), zI(b))


def Eq(a, b):
    if isc(a) and isc(b):
        return a == b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return zB(a) == zB(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return True
    if isinstance(a, fractions.Fraction):
        a = zR(a)
    if isinstance(b, fractions.Fraction):
        b = zR(b)
    return a == b


_fresh = itertools.count()


def fresh_int(n):
    return z3.Int(f"{n}!{next(_fresh)}")


def fresh_real(n):
    return z3.Real(f"{n}!{next(_fresh)}")


def fresh_bool(n):
    return z3.Bool(f"{n}!{next(_fresh)}")


def fresh_array(n, sort):
    return z3.Array(f"{n}!{next(_fresh)}", z3.IntSort(), sort)


# ---------------------------------------------------------------- linear normal form
def linform(t, scale=1, acc=None):
    """term -> ({key: (atom, coeff)}, const)"""
    top = acc is None
    if top:
        acc = ({}, [0])
    if isinstance(t, int):
        acc[1][0] += scale * t
    elif z3.is_int_value(t):
        acc[1][0] += scale * t.as_long()
    elif z3.is_add(t):
        for c in t.children():
            linform(c, scale, acc)
    elif z3.is_sub(t):
        ch = t.children()
        linform(ch[0], scale, acc)
        for c in ch[1:]:
            linform(c, -scale, acc)
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        linform(t.arg(0), -scale, acc)
    elif z3.is_mul(t):
        k = 1
        rest = []
        for c in t.children():
            if z3.is_int_value(c):
                k *= c.as_long()
            else:
                rest.append(c)
        if not rest:
            acc[1][0] += scale * k
        elif len(rest) == 1:
            linform(rest[0], scale * k, acc)
        else:
            # distribute one sum over the other factors (keeps i*stride + j forms linear in atoms)
            atom = rest[0]
            for r in rest[1:]:
                atom = atom * r
            atom = z3.simplify(atom, som=True)
            if z3.is_add(atom) or (z3.is_mul(atom) and any(z3.is_int_value(c) for c in atom.children())):
                linform(atom, scale * k, acc)
            else:
                key = tid(atom)
                a0, c0 = acc[0].get(key, (atom, 0))
                acc[0][key] = (a0, c0 + scale * k)
    else:
        key = tid(t)
        a0, c0 = acc[0].get(key, (t, 0))
        acc[0][key] = (t, c0 + scale)
    if top:
        return {k: v for k, v in acc[0].items() if v[1] != 0}, acc[1][0]
    return None


def from_lin(m, c):
    if not m:
        return c
    terms = []
    for a, k in m.values():
        terms.append(a if k == 1 else k * a)
    s = terms[0]
    for x in terms[1:]:
        s = s + x
    return s + c if c else s


def norm(t):
    if isinstance(t, int):
        return t
    m, c = linform(t)
    return from_lin(m, c)


def lin_divisible(t, d):
    """(q, r) with t = d*q + r, 0<=r<d constant, if syntactically evident; else None"""
    if isinstance(t, int):
        return t // d, t % d
    m, c = linform(t)
    if any(k % d for _, k in m.values()):
        return None
    q = from_lin({i: (a, k // d) for i, (a, k) in m.items()}, c // d)
    return q, c % d


# ---------------------------------------------------------------- memory objects
class Region:
    """kind 'obj': one object, fields at fixed byte offsets.  kind 'arr': `length` elements of
    `stride` bytes, fields per element.  kind 'rows': an array per row key (2-D, rows disjoint)."""

    _n = itertools.count()

    def __init__(self, name, kind="obj", stride=None, length=None, fields=None, size=None, readonly=False, bind=None):
        self.id = next(Region._n)
        self.name = name
        self.kind = kind
        self.stride = stride
        self.length = length
        self.fields = dict(fields or {})  # off -> type string
        self.size = size
        self.readonly = readonly
        self.bind = bind or {}  # off -> Ptr for pointer fields of the initial state
        self.freed = False
        self.local = False

    def __repr__(self):
        return f"<{self.name}#{self.id}>"


class Ptr:
    __slots__ = ("reg", "off", "row")

    def __init__(self, reg, off=0, row=None):
        self.reg = reg
        self.off = off
        self.row = row

    def __repr__(self):
        return f"Ptr({self.reg},{self.off}{'' if self.row is None else ', row=' + str(self.row)})"


NULLREG = Region("null", "null", size=0)
NULL = Ptr(NULLREG, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()

WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
BYTES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "f16": 2, "f32": 4, "f64": 8, "ptr": 8}


def ty_bytes(t):
    if isinstance(t, str):
        return BYTES[t] if t in BYTES else (int(t[1:]) + 7) // 8
    if "v" in t:
        return t["v"] * ty_bytes(t["e"])
    if "a" in t:
        return t["a"] * t["es"]
    raise Unsupported(f"size of {t}")


class Parts:
    """An integer known as a concatenation of disjoint bit fields: value = sum term << lo."""

    __slots__ = ("parts", "_t", "w")

    def __init__(self, parts, w):
        self.parts = [(lo, pw, t) for lo, pw, t in parts if not (isinstance(t, int) and t == 0)]
        self.w = w
        self._t = None

    @property
    def term(self):
        if self._t is None:
            s = 0
            for lo, pw, t in self.parts:
                if isinstance(t, FloatBits):
                    t = t.as_int()
                elif not isinstance(t, (int, z3.ExprRef, Parts)):
                    t = z3.If(t.t < 0, t.t + TWO[t.w], t.t)  # signed machine integer (kernel.SInt)
                elif isinstance(t, Parts):
                    t = t.term
                s = s + t * TWO[lo]
            self._t = s
        return self._t


class FloatBits:
    """The bit pattern of a float value (only ever moved around or cast back)."""

    __slots__ = ("val", "ty", "_i")

    def __init__(self, val, ty):
        self.val = val
        self.ty = ty
        self._i = None

    def as_int(self):
        if self._i is None:
            self._i = fresh_int("fbits")
        return self._i


class State:
    __slots__ = ("env", "facts", "qfacts", "mem", "ghost", "trace", "loopdepth", "meta", "fastcache")

    def __init__(self):
        self.env = {}
        self.facts = []
        self.qfacts = []
        self.mem = {}
        self.ghost = {}
        self.trace = ()
        self.meta = {}
        self.fastcache = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = list(self.facts)
        s.qfacts = list(self.qfacts)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.meta = dict(self.meta)
        s.fastcache = {k: v for k, v in self.fastcache.items() if v[0]}
        return s

    def assume(self, *fs):
        for f in fs:
            if is_true(f):
                continue
            if f is False:
                f = z3.BoolVal(False)
            if has_quant(f):
                self.qfacts.append(f)
            else:
                self.facts.append(f)


_qcache = {}


def has_quant(f):
    if not isinstance(f, z3.ExprRef):
        return False
    if z3.is_quantifier(f):
        return True
    k = tid(f)
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        i = tid(x)
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


class Obligation:
    def __init__(self, name, kind, loc, status, backend, secs, detail=""):
        self.name, self.kind, self.loc, self.status = name, kind, loc, status
        self.backend, self.secs, self.detail = backend, secs, detail

    def as_dict(self):
        return dict(name=self.name, kind=self.kind, loc=self.loc, status=self.status, backend=self.backend, secs=round(self.secs, 3), detail=self.detail)


class LoopView:
    """What templates see: cursors (index-like terms), memory, at one program point of a loop."""

    def __init__(self, eng, loop, entry, cur_vals, state, t, init_vals, modcells):
        self.eng = eng
        self.loop = loop
        self.entry = entry  # State at loop entry
        self.vals = cur_vals  # phi name -> value
        self.init = init_vals
        self.state = state  # State whose memory is current
        self.t = t
        self.modcells = modcells


class Engine:
    def __init__(self, ir, fn, unit=None, log=None):
        self.ir = ir
        self.fname = fn
        self.unit = unit
        self.globals = ir["globals"]
        self.obls = []
        self.quiet = 0
        self.contracts = {}
        self.templates = []
        self.solver_time = 0.0
        self.nq = 0
        self.assumptions = set()
        self.called = set()
        self.contract_calls = set()
        self.unsupported_note = None
        self.rlimit_fast = 400_000
        self.rlimit_houdini = 6_000_000
        self.rlimit_full = 60_000_000
        self.wall_fast = 1500
        self.wall_houdini = 6000
        self.wall_full = 40000
        self.nowrap = True
        self.real_arith = True
        self.log = log or (lambda *a: None)
        self.axioms = []  # background quantified axioms (always included in full proofs)
        self.prooflog = []
        self.max_paths = 4000
        self.npaths = 0
        self.grows = {}
        self.global_regions = {}
        self.fnloops = {}
        self.candcache = {}
        self.loop_report = []
        self.deadline = None
        self.unroll = None  # set to an int for bounded counterexample search
        self.auto_pairs = True
        self.heap_hook = None
        self.name_stores = False
        self.uf = {}
        self.wrapof = {}

    # ------------------------------------------------------------ solver
    def _check(self, facts, goal, rlimit, wall, mbqi):
        t0 = time.time()
        s = z3.Solver()
        s.set("rlimit", rlimit)
        s.set("timeout", wall)
        if not mbqi:
            s.set("smt.mbqi", False)
            if mbqi is None:
                s.set("smt.auto_config", False)
        for f in facts:
            s.add(f)
        s.add(z3.Not(zB(goal)))
        r = s.check()
        self.solver_time += time.time() - t0
        self.nq += 1
        return r, s

    def fast(self, st, goal):
        """quantifier-free, cheap: True if proved"""
        if is_true(goal):
            return True
        if is_false(goal):
            goal = z3.BoolVal(False)
        c = st.fastcache
        gid = tid(goal)
        hit = c.get(gid)
        if hit is not None and (hit[0] or hit[1] == len(st.facts)):
            return hit[0]
        r, _ = self._check(st.facts, goal, self.rlimit_fast, self.wall_fast, True)
        res = r == z3.unsat
        c[gid] = (res, len(st.facts), goal)
        return res

    def feasible(self, st):
        r, _ = self._check(st.facts, z3.BoolVal(False), self.rlimit_fast, self.wall_fast, True)
        return r != z3.unsat

    def houdini_prove(self, st, goal):
        if is_true(goal):
            return True
        if self.ground_prove(st.facts, st.qfacts + self.axioms, goal, self.rlimit_houdini, self.wall_houdini):
            return True
        r, _ = self._check(st.facts + st.qfacts + self.axioms, goal, self.rlimit_houdini // 4, self.wall_houdini // 2, None)
        if r == z3.unknown and self.name_stores:
            r, _ = self._check(st.facts + st.qfacts + self.axioms, goal, self.rlimit_houdini // 4, self.wall_houdini // 2, False)
        return r == z3.unsat

    def ground_prove(self, facts, qfacts, goal, rlimit, wall):
        g = ground.instantiate(facts, qfacts, zB(goal))
        if g is None:
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set("rlimit", rlimit)
        s.set("timeout", wall)
        s.add(*g)
        r = s.check()
        self.solver_time += time.time() - t0
        self.nq += 1
        return r == z3.unsat

    def full_prove(self, st, goal):
        """-> (status, backend, model or None)"""
        if is_true(goal):
            return "proved", "trivial", None
        facts = st.facts + st.qfacts + self.axioms
        quant = bool(st.qfacts) or bool(self.axioms) or has_quant(goal)
        if is_false(goal):
            goal = z3.BoolVal(False)
        if quant and self.ground_prove(st.facts, st.qfacts + self.axioms, goal, self.rlimit_full // 2, self.wall_full // 2):
            return "proved", "z3-ground", None
        for mode in ((None, False) if quant else (True,)):
            r, s = self._check(facts, goal, self.rlimit_full // 4, self.wall_full // 4, mode)
            if r == z3.unsat:
                return "proved", "z3", None
            if r == z3.sat:
                return "failed", "z3", s.model()
        unk = None
        if quant:
            r, s = self._check(facts, goal, self.rlimit_full // 2, self.wall_full // 2, True)
            if r == z3.unsat:
                return "proved", "z3-mbqi", None
            if r == z3.sat:
                return "failed", "z3-mbqi", s.model()
        r = self._cvc5(facts, goal)
        if r == "unsat":
            return "proved", "cvc5", None
        if r == "sat":
            return "failed", "cvc5", None
        return "unknown", "z3+cvc5", None

    def _cvc5(self, facts, goal):
        import subprocess
        import tempfile

        s = z3.Solver()
        for f in facts:
            s.add(f)
        s.add(z3.Not(zB(goal)))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (self.wall_full // 2), f.name], capture_output=True, text=True, timeout=self.wall_full / 1000 + 10)
            out = p.stdout.strip().splitlines()
        except Exception:
            out = []
        finally:
            os.unlink(f.name)
        self.solver_time += time.time() - t0
        self.nq += 1
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind, loc=""):
        """Prove `goal` in `st`; record; afterwards assume it (so one defect is reported once)."""
        if self.quiet:
            st.assume(goal)
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the unit exhausted")
        t0 = time.time()
        ok = False
        if not has_quant(goal) and self.fast(st, goal):
            status, be, model = "proved", "z3", None
        else:
            status, be, model = self.full_prove(st, goal)
        detail = ""
        if status != "proved":
            detail = self.describe_failure(st, goal, model)
        o = Obligation(name, kind, loc, status, be, time.time() - t0, detail)
        self.obls.append(o)
        if status != "proved":
            o.state = st.copy()
            o.goal = goal
            o.model = model
            self.log("OBLIGATION", status, name, loc)
        st.assume(goal)
        return status == "proved"

    def describe_failure(self, st, goal, model):
        out = ["goal: " + str(goal)[:2000], "path: " + " ; ".join(st.trace[-25:])]
        if model is not None:
            try:
                ds = sorted(model.decls(), key=lambda d: d.name())
                out.append("model: " + ", ".join(f"{d.name()}={str(model[d])[:80]}" for d in ds if d.arity() == 0)[:3000])
            except Exception:
                pass
        return "\n".join(out)

    # ------------------------------------------------------------ values
    def fresh(self, ty, name, st):
        if ty == "i1":
            return fresh_bool(name)
        if isinstance(ty, str) and ty[0] == "i" and ty[1:].isdigit():
            v = fresh_int(name)
            st.assume(v >= 0, v < TWO[int(ty[1:])])
            return v
        if ty in ("f32", "f64", "f16"):
            return fresh_real(name)
        if ty == "ptr":
            return Ptr(Region("opaque_" + name, "opaque"), 0)
        if isinstance(ty, dict):
            if "v" in ty:
                return [self.fresh(ty["e"], name, st) for _ in range(ty["v"])]
            if "s" in ty:
                return [self.fresh(t, name, st) for t in ty["s"]]
            if "a" in ty:
                return [self.fresh(ty["e"], name, st) for _ in range(ty["a"])]
        raise Unsupported(f"fresh value of type {ty}")

    def zero(self, ty):
        if ty == "i1":
            return False
        if isinstance(ty, str) and ty[0] == "i":
            return 0
        if ty in ("f32", "f64", "f16"):
            return fractions.Fraction(0)
        if ty == "ptr":
            return NULL
        if "v" in ty:
            return [self.zero(ty["e"]) for _ in range(ty["v"])]
        if "s" in ty:
            return [self.zero(t) for t in ty["s"]]
        if "a" in ty:
            return [self.zero(ty["e"]) for _ in range(ty["a"])]
        raise Unsupported("zero")

    INF = fractions.Fraction(1 << 200)

    def fpconst(self, ty, bits):
        b = int(bits)
        if ty == "f32":
            v = struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0]
        elif ty == "f64":
            v = struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]
        elif ty == "f16":
            v = struct.unpack("<e", struct.pack("<H", b & 0xFFFF))[0]
        else:
            raise Unsupported("fp const")
        if v != v:
            return fresh_real("nan")
        if v in (float("inf"), float("-inf")):
            return self.INF if v > 0 else -self.INF
        return fractions.Fraction(v)

    def const(self, o, st):
        k = o["k"]
        if k == "int":
            v = int(o["v"])
            if o["w"] == 1:
                return bool(v)
            return v
        if k == "fp":
            return self.fpconst(o["t"], o["bits"])
        if k == "null":
            return NULL
        if k == "undef":
            t = o["t"]
            if isinstance(t, dict):
                return self._undef_of(t)
            return UNDEF
        if k == "zero":
            return self.zero(o["t"])
        if k == "agg":
            return [self.const(e, st) for e in o["e"]]
        if k == "global":
            n = o["n"]
            if n in self.ir["functions"] or n not in self.globals:
                return FnPtr(n)
            return Ptr(self.global_region(n), o.get("off", 0))
        raise Unsupported(f"constant {k}")

    def _undef_of(self, t):
        if isinstance(t, dict):
            if "v" in t:
                return [UNDEF] * t["v"]
            if "s" in t:
                return [self._undef_of(x) for x in t["s"]]
            if "a" in t:
                return [self._undef_of(t["e"]) for _ in range(t["a"])]
        return UNDEF

    def global_region(self, n):
        if n in self.global_regions:
            return self.global_regions[n]
        g = self.globals[n]
        r = Region("@" + n, "obj", size=g["size"], readonly=g["const"])
        r.glob = g
        self.global_regions[n] = r
        return r

    def val(self, st, o):
        if o["k"] == "ref":
            try:
                return st.env[o["n"]]
            except KeyError:
                raise Unsupported("unbound value " + o["n"])
        return self.const(o, st)

    def ival(self, st, o, w=64):
        return self.as_int(self.val(st, o), st, w)

    def as_int(self, v, st, w=64):
        if isinstance(v, Parts):
            return v.term
        if isinstance(v, Undef):
            return self.fresh("i%d" % w, "undef", st)
        if isinstance(v, FloatBits):
            return v.as_int()
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def as_bool(self, v, st):
        if isinstance(v, Undef):
            return fresh_bool("undef")
        if isinstance(v, int) and not isinstance(v, bool):
            return bool(v & 1)
        return v

    # -- interval reasoning on terms: cheap attempt before asking z3
    def bound(self, st, t, depth=0):
        if isinstance(t, int):
            return t, t
        return None

    def wrap(self, st, r, w, lo_possible=True):
        """reduce integer r (mathematically exact) modulo 2^w to [0,2^w)"""
        M = TWO[w]
        if isinstance(r, int):
            return r % M
        r = norm(r)
        if isinstance(r, int):
            return r % M
        if self.fast(st, And(r >= 0, r < M)):
            return r
        if self.fast(st, And(r >= M, r < 2 * M)):
            return norm(r - M)
        if self.fast(st, And(r < 0, r >= -M)):
            return norm(r + M)
        # a named value keeps later terms small
        v = fresh_int("wrap")
        self.wrapof[tid(v)] = (r, v)
        if self.fast(st, And(r >= -M, r < 2 * M)):
            st.assume(v == z3.If(r >= M, r - M, z3.If(r < 0, r + M, r)))
        else:
            k = fresh_int("wrapk")
            st.assume(r == v + M * k)
        st.assume(v >= 0, v < M)
        return v

    def signed(self, st, x, w):
        if isinstance(x, int):
            return x - TWO[w] if x >= TWO[w - 1] else x
        H = TWO[w - 1]
        if self.fast(st, x < H):
            return x
        if self.fast(st, x >= H):
            return norm(x - TWO[w])
        return z3.If(x < H, x, x - TWO[w])

    # ------------------------------------------------------------ integer ops
    def iop(self, st, op, a, b, w, inst):
        """a, b canonical unsigned ints"""
        M = TWO[w]
        if op == "add":
            return self.wrap(st, a + b, w)
        if op == "sub":
            return self.wrap(st, a - b, w)
        if op == "mul":
            if isinstance(a, int) and isinstance(b, int):
                return a * b % M
            # x * -1 etc.
            if isinstance(b, int) and b >= TWO[w - 1]:
                return self.wrap(st, a * (b - M), w)
            if isinstance(a, int) and a >= TWO[w - 1]:
                return self.wrap(st, b * (a - M), w)
            return self.wrap(st, a * b, w)
        if op in ("udiv", "urem"):
            if not self.quiet or True:
                self.oblige(st, Not(Eq(b, 0)), "division by zero", "safety", inst.get("loc", ""))
            if isinstance(a, int) and isinstance(b, int):
                return (a // b if op == "udiv" else a % b) if b else 0
            if isinstance(b, int):
                d = lin_divisible(a, b)
                if d is not None:
                    return d[0] if op == "udiv" else d[1]
            q, r = self.divmod_terms(st, a, b)
            return q if op == "udiv" else r
        if op in ("sdiv", "srem"):
            self.oblige(st, Not(Eq(b, 0)), "division by zero", "safety", inst.get("loc", ""))
            if isinstance(b, int):
                sb = b - M if b >= TWO[w - 1] else b
                sa = self.signed(st, a, w)
                d = lin_divisible(sa, abs(sb)) if not (isinstance(sa, z3.ExprRef) and z3.is_app_of(sa, z3.Z3_OP_ITE)) else None
                if d is not None and d[1] == 0:
                    q = d[0] if sb > 0 else norm(-d[0])
                    return self.wrap(st, q, w) if op == "sdiv" else 0
                if isinstance(sa, int):
                    q = abs(sa) // abs(sb)
                    q = q if (sa < 0) == (sb < 0) else -q
                    return (q if op == "sdiv" else sa - q * sb) % M
                if self.fast(st, sa >= 0) and sb > 0:
                    q, r = self.divmod_terms(st, sa, sb)
                    return q if op == "sdiv" else r
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            if self.fast(st, And(sa >= 0, sb > 0)):
                q, r = self.divmod_terms(st, sa, sb)
                return q if op == "sdiv" else r
            absa = z3.If(zI(sa) >= 0, zI(sa), -zI(sa))
            absb = z3.If(zI(sb) >= 0, zI(sb), -zI(sb))
            q, r = self.divmod_terms(st, absa, absb)
            sq = z3.If((zI(sa) >= 0) == (zI(sb) >= 0), q, -q)
            sr = z3.If(zI(sa) >= 0, r, -r)
            return self.wrap(st, sq if op == "sdiv" else sr, w)
        if op == "shl":
            if isinstance(b, int):
                if b >= w:
                    return self.fresh("i%d" % w, "shlpoison", st)
                return self.wrap(st, a * TWO[b], w)
            self.oblige(st, And(b >= 0, b < w), "shift amount in range", "safety", inst.get("loc", ""))
            if isinstance(a, int):
                p = self.pow2(st, b, w)
                return self.wrap(st, a * p, w)
            p = self.pow2(st, b, w)
            return self.wrap(st, a * p, w)
        if op == "lshr":
            if isinstance(b, int):
                if b >= w:
                    return self.fresh("i%d" % w, "shrpoison", st)
                if isinstance(a, int):
                    return a >> b
                return self.divmod_terms(st, a, TWO[b])[0]
            self.oblige(st, And(b >= 0, b < w), "shift amount in range", "safety", inst.get("loc", ""))
            p = self.pow2(st, b, w)
            return self.divmod_terms(st, a, p)[0]
        if op == "ashr":
            if isinstance(b, int):
                sa = self.signed(st, a, w)
                if isinstance(sa, int):
                    return (sa >> b) % M
                q = z3.ToInt(z3.ToReal(sa)) if False else None
                v, r = fresh_int("ashr"), fresh_int("ashr_r")
                st.assume(sa == v * TWO[b] + r, r >= 0, r < TWO[b])
                return self.wrap(st, v, w)
            raise Unsupported("ashr by variable")
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, a, b, w)
        raise Unsupported("int op " + op)

    def pow2(self, st, b, w):
        e = z3.IntVal(TWO[w - 1])
        for k in range(w - 2, -1, -1):
            e = z3.If(b == k, z3.IntVal(TWO[k]), e)
        v = fresh_int("pow2")
        st.assume(v == e, v >= 1, v <= TWO[w - 1])
        return v

    def divmod_terms(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a // b, a % b
        if isinstance(b, int):
            d = lin_divisible(a, b)
            if d is not None:
                return d
        key = ("dm", a if isinstance(a, int) else tid(a), b if isinstance(b, int) else tid(b))
        c = st.meta.get("dm", {})
        if key in c:
            return c[key][0]
        # Euclidean definition with fresh quotient and remainder: friendlier than div/mod terms
        q, r = fresh_int("q"), fresh_int("r")
        st.assume(zI(a) == q * b + r, r >= 0, zI(r) < b, q >= 0)
        if not isinstance(b, int):
            st.assume(q <= a)
        c = dict(c)
        c[key] = ((q, r), a, b)
        st.meta["dm"] = c
        return q, r

    def bits(self, st, x, w):
        """little-endian list of bits (ints 0/1 or Int terms)"""
        if isinstance(x, int):
            return [(x >> k) & 1 for k in range(w)]
        bs = [fresh_int("bit") for _ in range(w)]
        for b in bs:
            st.assume(b >= 0, b <= 1)
        s = 0
        for k, b in enumerate(bs):
            s = s + b * TWO[k]
        st.assume(x == s)
        return bs

    def bitop(self, st, op, a, b, w):
        M = TWO[w]
        if isinstance(a, int) and isinstance(b, int):
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == "xor" and b == M - 1:
                return norm(M - 1 - a)
            if op == "xor" and b == 0 or op == "or" and b == 0:
                return a
            if op == "and" and b == 0:
                return 0
            if op == "and" and b == M - 1:
                return a
            if op == "or" and b == M - 1:
                return M - 1
            if op == "and":
                # contiguous mask [lo,hi)
                lo = (b & -b).bit_length() - 1
                m = b >> lo
                if m & (m + 1) == 0:
                    n = m.bit_length()
                    if lo == 0:
                        return self.divmod_terms(st, a, TWO[n])[1]
                    q = self.divmod_terms(st, a, TWO[lo])[0]
                    if lo + n == w:
                        return norm(q * TWO[lo])
                    return norm(self.divmod_terms(st, q, TWO[n])[1] * TWO[lo])
            if op in ("or", "xor") and b & (b - 1) == 0:
                k = b.bit_length() - 1
                q = self.divmod_terms(st, a, TWO[k])[0]
                bit = self.divmod_terms(st, q, 2)[1]
                if op == "or":
                    return norm(a + (1 - bit) * TWO[k])
                return norm(a + (1 - 2 * bit) * TWO[k])
        if op == "or" and not isinstance(b, int):
            # disjoint halves built by zext/shl
            for x, y in ((a, b), (b, a)):
                for k in (8, 16, 32):
                    d = lin_divisible(x, TWO[k])
                    if d is not None and d[1] == 0 and self.fast(st, And(y >= 0, y < TWO[k])):
                        return norm(x + y)
        if w > 16 and not isinstance(b, int):
            key = ("bvop", op, w)
            v = fresh_int(op)
            st.assume(v >= 0, v < M)
            if op == "and":
                st.assume(v <= a, v <= b)
            if op == "or":
                st.assume(v >= a, v >= b, v <= a + b)
            st.assume(Eq(v, z3.BV2Int({"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op](z3.Int2BV(zI(a), w), z3.Int2BV(zI(b), w)))))
            return v
        ba, bb = self.bits(st, a, w), self.bits(st, b, w)
        s = 0
        for k in range(w):
            x, y = ba[k], bb[k]
            if op == "and":
                t = 0 if (isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0) else (y if isinstance(x, int) else (x if isinstance(y, int) else z3.If(And(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))))
            elif op == "or":
                t = 1 if (isinstance(x, int) and x == 1) or (isinstance(y, int) and y == 1) else (y if isinstance(x, int) else (x if isinstance(y, int) else z3.If(Or(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))))
            else:
                t = (y if x == 0 else 1 - y) if isinstance(x, int) else ((x if y == 0 else 1 - x) if isinstance(y, int) else z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))
            s = s + t * TWO[k]
        return s

    def icmp(self, st, pred, a, b, w):
        if pred in ("eq", "ne"):
            e = Eq(a, b)
            return e if pred == "eq" else Not(e)
        if pred[0] == "s":
            a, b = self.signed(st, a, w), self.signed(st, b, w)
        p = pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        a, b = zI(a), zI(b)
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

    def fcmp(self, st, pred, a, b):
        if pred == "true":
            return True
        if pred == "false" or pred == "uno":
            return False
        if pred == "ord":
            return True
        p = pred[1:]
        a, b = self.as_real(a, st), self.as_real(b, st)
        if isc(a) and isc(b):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        a, b = zR(a), zR(b)
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

    def as_real(self, v, st):
        if isinstance(v, Undef):
            return fresh_real("undef")
        if isinstance(v, FloatBits):
            return v.val
        if isinstance(v, int):
            return fractions.Fraction(v)
        return v

    def ptr_cmp(self, st, pred, p, q, inst):
        if isinstance(p, FnPtr) or isinstance(q, FnPtr):
            if isinstance(p, FnPtr) and isinstance(q, FnPtr):
                e = p.name == q.name
            else:
                e = False
            return e if pred == "eq" else not e
        if isinstance(p, Undef) or isinstance(q, Undef):
            return fresh_bool("undefcmp")
        if p.reg is q.reg and (p.row is None and q.row is None or (p.row is not None and q.row is not None and is_true(Eq(p.row, q.row)))):
            a, b = norm(p.off), norm(q.off)
            d = norm(a - b)
            if pred in ("eq", "ne"):
                # divide out the common factor
                if not isinstance(d, int):
                    m, c = linform(d)
                    import math

                    g = 0
                    for _, k in m.values():
                        g = math.gcd(g, k)
                    if g > 1:
                        if c % g:
                            e = False
                        else:
                            e = from_lin({i: (x, k // g) for i, (x, k) in m.items()}, c // g) == 0
                    else:
                        e = d == 0
                else:
                    e = d == 0
                return e if pred == "eq" else Not(e)
            p2 = pred[1:]
            return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[p2]
        if p.reg is q.reg and pred in ("eq", "ne"):
            e = And(Eq(p.row, q.row), Eq(p.off, q.off))
            return e if pred == "eq" else Not(e)
        if pred in ("eq", "ne"):
            # distinct regions: never equal (null included) -- opaque pointers are unknown
            if p.reg.kind == "opaque" or q.reg.kind == "opaque":
                key = ("opq", p.reg.id, q.reg.id, str(p.off), str(q.off))
                if key not in self.uf:
                    self.uf[key] = fresh_bool("opaque_eq")
                e = self.uf[key]
                return e if pred == "eq" else Not(e)
            # zero-length regions may be represented by null or one-past pointers
            nul = getattr(p.reg, "maybe_null", None) if q.reg is NULLREG else (getattr(q.reg, "maybe_null", None) if p.reg is NULLREG else None)
            if nul is not None:
                return nul if pred == "eq" else Not(nul)
            return pred == "ne"
        raise Unsupported("ordering comparison of pointers into different objects")

    # ------------------------------------------------------------ memory
    def sort_of(self, ty):
        if ty in ("f32", "f64", "f16"):
            return z3.RealSort()
        if ty == "i1":
            return z3.BoolSort()
        return z3.IntSort()

    def fields_of(self, st, reg):
        return st.mem.setdefault(reg.id, {})

    def locate(self, st, p, nbytes, inst, write):
        """-> (idx, fieldoff): element index term and constant field offset"""
        reg = p.reg
        if reg.kind in ("null", "opaque"):
            self.oblige(st, False, f"access through {'null' if reg.kind == 'null' else 'unknown'} pointer", "safety", inst.get("loc", ""))
            raise DeadPath()
        if reg.kind == "obj":
            off = norm(p.off)
            if not isinstance(off, int):
                # symbolic offset into an object: try to determine it
                raise Unsupported(f"symbolic offset into object {reg.name}: {off}")
            if reg.size is not None:
                self.oblige(st, And(off >= 0, off + nbytes <= reg.size), f"access within {reg.name}", "safety", inst.get("loc", ""))
            return None, off
        S = reg.stride
        off = norm(p.off)
        d = lin_divisible(off, S)
        if d is None:
            for f in (sorted(reg.fields) or [0]):
                r = fresh_int("chk")
                m, c = linform(off)
                # off == S*q + f ?
                q = fresh_int("idx")
                st2 = st.copy()
                rr = fresh_int("rem")
                st2.assume(off == S * q + rr, rr >= 0, rr < S)
                if self.fast(st2, rr == f):
                    st.assume(off == S * q + f)
                    return q, f
            raise Unsupported(f"offset {off} into {reg.name} (stride {S})")
        return d

    def bounds(self, st, reg, idx, inst, write, n=1, cond=True, row=None):
        if reg.length is None:
            return
        L = reg.length(row) if callable(reg.length) else reg.length
        g = And(idx >= 0, idx + (n - 1) < L) if not (isinstance(idx, int) and isinstance(L, int)) else (idx >= 0 and idx + n - 1 < L)
        self.oblige(st, Implies(cond, g), f"{'write' if write else 'read'} of {reg.name} in bounds", "safety", inst.get("loc", ""))

    def arr_get(self, st, reg, f, ty):
        flds = self.fields_of(st, reg)
        key = (f, ty)
        if key not in flds:
            # different width / type at the same place?
            for (f2, t2) in flds:
                if not (f2 + BYTES[t2] <= f or f + BYTES[ty] <= f2):
                    raise Unsupported(f"type-punned access to {reg.name}: {ty}@{f} vs {t2}@{f2}")
            if reg.kind == "rows":
                flds[key] = z3.Const(f"{reg.name}.{f}!{next(_fresh)}", z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), self.sort_of(ty))))
            else:
                flds[key] = fresh_array(f"{reg.name}.{f}", self.sort_of(ty))
            st.meta.setdefault("lazy", []) if False else None
            self.lazy_init.setdefault((reg.id, key), flds[key])
        return flds[key]

    lazy_init = {}

    def elem_facts(self, st, reg, f, ty, v):
        if isinstance(v, z3.ArithRef) and z3.is_int(v) and ty in WIDTH:
            hi = reg.fields_range.get(f) if hasattr(reg, "fields_range") else None
            st.assume(v >= 0, v < (hi if hi is not None else TWO[WIDTH[ty]]))

    def load1(self, st, p, ty, inst, cond=True):
        """scalar load"""
        reg = p.reg
        n = BYTES[ty] if ty in BYTES else ty_bytes(ty)
        if reg.kind == "obj" and not isinstance(norm(p.off), int):
            return self.load_symbolic_obj(st, p, ty, inst)
        idx, f = self.locate(st, p, n, inst, False)
        if reg.kind == "obj":
            return self.obj_load(st, reg, f, ty, inst)
        if n > reg.stride and ty in WIDTH and f == 0:
            raise Unsupported(f"wide load {ty} from {reg.name}")
        self.bounds(st, reg, idx, inst, False, cond=cond, row=p.row)
        # declared layout
        if reg.fields and not (f in reg.fields and reg.fields[f] == ty):
            return self.arr_load_wide(st, p, idx, f, ty, inst)
        return self.arr_read(st, reg, idx, f, ty, p.row)

    def arr_read(self, st, reg, idx, f, ty, row=None):
        a = self.arr_get(st, reg, f, ty)
        if row is not None:
            a = z3.Select(a, zI(row))
        if ty == "ptr":
            raise Unsupported("pointer element load from " + reg.name) if not hasattr(reg, "ptr_elem") else None
        v = z3.Select(a, zI(idx))
        if ty in WIDTH:
            v = z3.simplify(v) if False else v
            self.elem_facts(st, reg, f, ty, v)
        return v

    def arr_load_wide(self, st, p, idx, f, ty, inst):
        reg = p.reg
        n = BYTES[ty]
        if ty == "ptr" and hasattr(reg, "ptr_elem"):
            return reg.ptr_elem(self, st, idx, f)
        parts = []
        for fo, ft in sorted(reg.fields.items()):
            if fo >= f and fo + BYTES[ft] <= f + n:
                v = self.arr_read(st, reg, idx, fo, ft, p.row)
                if ft in ("f32", "f64", "f16"):
                    v = FloatBits(v, ft)
                parts.append(((fo - f) * 8, BYTES[ft] * 8, v))
            elif not (fo + BYTES[ft] <= f or f + n <= fo):
                if fo == f and BYTES[ft] == n:
                    v = self.arr_read(st, reg, idx, fo, ft, p.row)
                    if ft in ("f32", "f64") and ty in WIDTH:
                        return FloatBits(v, ft)
                    if ft in WIDTH and ty in WIDTH:
                        return v
                raise Unsupported(f"partial load {ty}@{f} of {reg.name}")
        if ty in ("f32", "f64") or not parts:
            raise Unsupported(f"load {ty}@{f} of {reg.name}")
        return Parts(parts, n * 8)

    def obj_load(self, st, reg, off, ty, inst):
        flds = self.fields_of(st, reg)
        key = (off, ty)
        if key in flds:
            return flds[key]
        if hasattr(reg, "glob"):
            v = self.glob_read(reg, off, ty)
            if v is not None:
                return v
        n = BYTES[ty]
        over = [(f2, t2) for (f2, t2) in flds if not (f2 + BYTES[t2] <= off or off + n <= f2)]
        if over:
            # assemble from parts, or take a slice
            if ty in WIDTH or ty in ("f32", "f64", "f16"):
                cover = [(f2, t2) for f2, t2 in over if f2 >= off and f2 + BYTES[t2] <= off + n]
                if len(cover) == len(over) and ty in WIDTH:
                    parts = []
                    for f2, t2 in cover:
                        v = flds[(f2, t2)]
                        if t2 in ("f32", "f64", "f16"):
                            v = FloatBits(self.as_real(v, st), t2)
                        elif t2 == "ptr":
                            if n == 8:
                                return v
                            raise Unsupported("pointer as part")
                        else:
                            v = self.as_int(v, st, WIDTH[t2])
                        parts.append(((f2 - off) * 8, BYTES[t2] * 8, v))
                    if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == n * 8:
                        return parts[0][2]
                    # missing bytes are unspecified (padding): treat as zero only if nothing reads them
                    have = sum(p[1] for p in parts)
                    if have < n * 8:
                        pos = 0
                        for lo, pw, _ in sorted(parts):
                            if lo > pos:
                                parts.append((pos, lo - pos, self.fresh("i%d" % (lo - pos), "pad", st)))
                            pos = lo + pw
                        if pos < n * 8:
                            parts.append((pos, n * 8 - pos, self.fresh("i%d" % (n * 8 - pos), "pad", st)))
                    return Parts(parts, n * 8)
                if len(over) == 1:
                    f2, t2 = over[0]
                    if f2 <= off and off + n <= f2 + BYTES[t2] and t2 in WIDTH:
                        v = self.slice_bits(st, flds[(f2, t2)], (off - f2) * 8, n * 8, BYTES[t2] * 8)
                        if ty in ("f32", "f64", "f16"):
                            if isinstance(v, FloatBits):
                                return v.val
                            raise Unsupported("int bits as float")
                        return v
                    if f2 == off and BYTES[t2] == n:
                        v = flds[(f2, t2)]
                        if t2 == "ptr" and ty == "i64":
                            return v
                        if t2 in ("f32", "f64") and ty in WIDTH:
                            return FloatBits(v, t2)
                        if t2 == "i64" and ty == "ptr" and isinstance(v, (Ptr,)):
                            return v
                        if t2 in WIDTH and ty in ("f32", "f64") and isinstance(v, FloatBits):
                            return v.val
            raise Unsupported(f"mixed access {ty}@{off} of {reg.name}: {over}")
        # lazily created initial field
        if ty == "ptr":
            if off in reg.bind:
                flds[key] = reg.bind[off]
            elif reg.local:
                flds[key] = UNDEF
            else:
                flds[key] = Ptr(Region(f"opaque_{reg.name}.{off}", "opaque"), 0)
        elif reg.local:
            flds[key] = UNDEF
            if ty in WIDTH and ty != "i1":
                flds[key] = self.fresh(ty, f"uninit.{reg.name}.{off}", st)
        else:
            ck = (reg.id, key)
            if ck in self.lazy_init:
                v = self.lazy_init[ck]
                if ty in WIDTH and ty != "i1":
                    st.assume(v >= 0, v < TWO[WIDTH[ty]])
                flds[key] = v
            else:
                flds[key] = self.fresh(ty, f"{reg.name}.{off}", st)
                self.lazy_init[ck] = flds[key]
        return flds[key]

    def glob_read(self, reg, off, ty):
        init = reg.glob.get("init")
        if init is None or not reg.readonly and not reg.glob.get("const"):
            return None

        def walk(c, t, o):
            if isinstance(t, str):
                if o == 0:
                    return c, t
                return None
            if c["k"] in ("zero", "undef"):
                return c, t
            if "s" in t:
                for i in range(len(t["s"]) - 1, -1, -1):
                    if t["o"][i] <= o:
                        return walk(c["e"][i], t["s"][i], o - t["o"][i])
            if "a" in t:
                i = o // t["es"]
                if i < len(c["e"]):
                    return walk(c["e"][i], t["e"], o % t["es"])
            if "v" in t:
                es = ty_bytes(t["e"])
                return walk(c["e"][o // es], t["e"], o % es)
            return None

        r = walk(init, reg.glob["t"], off)
        if r is None:
            return None
        c, t = r
        if c["k"] == "zero":
            return self.zero(ty)
        if t == ty:
            return self.const(c, None)
        return None

    def slice_bits(self, st, v, lo, w, total):
        if isinstance(v, Parts):
            if lo == 0 and w == v.w:
                return v
            for plo, pw, t in v.parts:
                if plo == lo and pw == w:
                    return t
                if plo == lo and pw < w and not any(p is not t and lo <= l2 < lo + w for l2, _, p in v.parts):
                    return t if not isinstance(t, FloatBits) else t
            inside = [(plo - lo, pw, t) for plo, pw, t in v.parts if plo >= lo and plo + pw <= lo + w]
            outside = [1 for plo, pw, t in v.parts if plo + pw <= lo or plo >= lo + w]
            if len(inside) + len(outside) == len(v.parts):
                return Parts(inside, w) if inside else 0
            for plo, pw, t in v.parts:
                if plo <= lo and lo + w <= plo + pw and not isinstance(t, FloatBits):
                    return self.slice_bits(st, t, lo - plo, w, pw)
            raise Unsupported("bit slice across parts")
        if isinstance(v, FloatBits):
            if lo == 0 and w == BYTES[v.ty] * 8:
                return v
            v = v.as_int()
        v = self.as_int(v, st, total)
        if isinstance(v, int):
            return (v >> lo) & (TWO[w] - 1)
        if lo:
            v = self.divmod_terms(st, v, TWO[lo])[0]
        if lo + w < total:
            v = self.divmod_terms(st, v, TWO[w])[1]
        return v

    def store1(self, st, p, ty, v, inst):
        reg = p.reg
        n = BYTES[ty]
        if reg.kind == "obj" and not isinstance(norm(p.off), int):
            return self.store_symbolic_obj(st, p, ty, v, inst)
        idx, f = self.locate(st, p, n, inst, True)
        if reg.readonly:
            self.oblige(st, False, f"write to read-only {reg.name}", "frame", inst.get("loc", ""))
        if reg.kind == "obj":
            flds = self.fields_of(st, reg)
            self.note_write(reg, (f, ty))
            for (f2, t2) in list(flds):
                if (f2, t2) != (f, ty) and not (f2 + BYTES[t2] <= f or f + n <= f2):
                    if f2 >= f and f2 + BYTES[t2] <= f + n:
                        del flds[(f2, t2)]
                        self.note_write(reg, (f2, t2))
                    else:
                        # split the old wider field
                        ov = flds.pop((f2, t2))
                        if t2 not in WIDTH:
                            raise Unsupported("partial overwrite of " + t2)
                        if f > f2:
                            for k in range(f2, f):
                                flds[(k, "i8")] = self.slice_bits(st, ov, (k - f2) * 8, 8, BYTES[t2] * 8)
                        for k in range(f + n, f2 + BYTES[t2]):
                            flds[(k, "i8")] = self.slice_bits(st, ov, (k - f2) * 8, 8, BYTES[t2] * 8)
            flds[(f, ty)] = v
            return
        self.bounds(st, reg, idx, inst, True, row=p.row)
        if reg.fields and not (f in reg.fields and reg.fields[f] == ty):
            for fo, ft in sorted(reg.fields.items()):
                if fo >= f and fo + BYTES[ft] <= f + n:
                    s = self.slice_bits(st, v, (fo - f) * 8, BYTES[ft] * 8, n * 8)
                    if ft in ("f32", "f64", "f16"):
                        if not isinstance(s, FloatBits):
                            raise Unsupported(f"integer bits stored as float into {reg.name}")
                        s = s.val
                    self.arr_write(st, reg, idx, fo, ft, s, p.row)
                elif not (fo + BYTES[ft] <= f or f + n <= fo):
                    raise Unsupported(f"partial store {ty}@{f} to {reg.name}")
            return
        self.arr_write(st, reg, idx, f, ty, v, p.row)

    def symbolic_cells(self, st, p, ty, inst):
        """cells of a small object an access at a symbolic offset can hit (checked: it hits one of them)"""
        if not ty.startswith("i") and ty not in ("f32", "f64"):
            raise Unsupported(f"symbolic access to object {p.reg.name}: {p.off}")
        if p.reg.size is not None and p.reg.size <= 64 * BYTES[ty]:
            offs = list(range(0, p.reg.size - BYTES[ty] + 1, BYTES[ty]))
        else:
            offs = sorted(f for (f, t) in self.fields_of(st, p.reg) if t == ty)
        if not offs or len(offs) > 64:
            raise Unsupported(f"symbolic access to object {p.reg.name}: {p.off}")
        self.oblige(st, z3.Or(*[zI(p.off) == o for o in offs]), f"in-bounds access to {p.reg.name}", "memory", inst.get("loc", ""))
        return offs

    def store_symbolic_obj(self, st, p, ty, v, inst):
        for o in self.symbolic_cells(st, p, ty, inst):
            old = self.load1(st, Ptr(p.reg, o), ty, inst)
            c = zI(p.off) == o
            nv = z3.If(c, zI(self.as_int(v, st)), zI(self.as_int(old, st))) if ty.startswith("i") else z3.If(c, zR(v), zR(old))
            self.store1(st, Ptr(p.reg, o), ty, nv, inst)

    def load_symbolic_obj(self, st, p, ty, inst):
        r = None
        for o in self.symbolic_cells(st, p, ty, inst):
            v = self.load1(st, Ptr(p.reg, o), ty, inst)
            v = zI(self.as_int(v, st)) if ty.startswith("i") else zR(v)
            r = v if r is None else z3.If(zI(p.off) == o, v, r)
        return r

    def arr_write(self, st, reg, idx, f, ty, v, row=None):
        a = self.arr_get(st, reg, f, ty)
        if ty in ("f32", "f64", "f16"):
            v = zR(self.as_real(v, st))
        else:
            v = zI(self.as_int(v, st, WIDTH[ty]))
        if row is not None:
            r = z3.Store(z3.Select(a, zI(row)), zI(idx), v)
            st.mem[reg.id][(f, ty)] = z3.Store(a, zI(row), r)
        else:
            n = z3.Store(a, zI(idx), v)
            if self.name_stores:  # quantifier patterns need array constants
                c = z3.FreshConst(n.sort(), reg.name)
                st.assume(c == n)
                n = c
            st.mem[reg.id][(f, ty)] = n
        self.note_write(reg, (f, ty))

    def note_write(self, reg, key):
        for w in self.write_watch:
            w.add((reg, key))

    write_watch = []

    def load(self, st, p, ty, inst):
        if isinstance(p, Undef) or isinstance(p, FnPtr):
            raise Unsupported("load through undef")
        if isinstance(ty, dict):
            if "v" in ty:
                es = ty_bytes(ty["e"])
                if ty["e"] == "i1":
                    raise Unsupported("i1 vector load")
                return [self.load1(st, Ptr(p.reg, p.off + k * es, p.row), ty["e"], inst) for k in range(ty["v"])]
            if "s" in ty:
                return [self.load(st, Ptr(p.reg, p.off + o, p.row), t, inst) for t, o in zip(ty["s"], ty["o"])]
            if "a" in ty:
                return [self.load(st, Ptr(p.reg, p.off + k * ty["es"], p.row), ty["e"], inst) for k in range(ty["a"])]
            raise Unsupported("aggregate load")
        if ty == "i1":
            v = self.load1(st, p, "i8", inst)
            return self.as_int(v, st, 8) == 1 if not isinstance(v, int) else v == 1
        if ty not in BYTES:
            raise Unsupported("load of " + ty)
        return self.load1(st, p, ty, inst)

    def store(self, st, p, ty, v, inst):
        if isinstance(p, (Undef, FnPtr)):
            raise Unsupported("store through undef")
        if isinstance(ty, dict):
            if isinstance(v, Undef):
                v = self._undef_of(ty)
            if "v" in ty:
                es = ty_bytes(ty["e"])
                for k in range(ty["v"]):
                    self.store1(st, Ptr(p.reg, p.off + k * es, p.row), ty["e"], v[k], inst)
                return
            if "s" in ty:
                for k, (t, o) in enumerate(zip(ty["s"], ty["o"])):
                    self.store(st, Ptr(p.reg, p.off + o, p.row), t, v[k], inst)
                return
            if "a" in ty:
                for k in range(ty["a"]):
                    self.store(st, Ptr(p.reg, p.off + k * ty["es"], p.row), ty["e"], v[k], inst)
                return
            raise Unsupported("aggregate store")
        if ty == "i1":
            v = self.as_bool(v, st)
            return self.store1(st, p, "i8", self.as_int(v, st, 8), inst)
        self.store1(st, p, ty, v, inst)

    # block copies ---------------------------------------------------------
    def memcpy(self, st, d, s, n, inst, move):
        n = norm(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return
        if d.reg.kind == "obj" or s.reg.kind == "obj":
            if not isinstance(n, int):
                if self.fast(st, Eq(n, 0)):
                    return
                raise Unsupported(f"symbolic-size copy {s.reg.name}->{d.reg.name}")
            return self.copy_fixed(st, d, s, n, inst)
        if d.reg.kind in ("null", "opaque") or s.reg.kind in ("null", "opaque"):
            self.oblige(st, Eq(n, 0), "block copy through null/unknown pointer", "safety", inst.get("loc", ""))
            return
        S = d.reg.stride
        if s.reg.stride != S:
            raise Unsupported(f"block copy between strides {s.reg.stride} and {S}")
        if isinstance(n, int) and n < S:
            return self.copy_fixed(st, d, s, n, inst)
        cnt = lin_divisible(n, S)
        di = lin_divisible(norm(d.off), S)
        si = lin_divisible(norm(s.off), S)
        if cnt is None:
            q = fresh_int("cnt")
            st2 = st.copy()
            r = fresh_int("crem")
            st2.assume(n == S * q + r, r >= 0, r < S)
            if not self.fast(st2, r == 0):
                raise Unsupported("block copy size not a multiple of the element size")
            st.assume(n == S * q)
            cnt = (q, 0)
        if di is None or si is None or di[1] or si[1] or cnt[1]:
            raise Unsupported("misaligned block copy")
        cnt, di, si = cnt[0], di[0], si[0]
        loc = inst.get("loc", "")
        dl = d.reg.length(d.row) if callable(d.reg.length) else d.reg.length
        sl = s.reg.length(s.row) if callable(s.reg.length) else s.reg.length
        self.oblige(st, Implies(zI(cnt) > 0, And(zI(di) >= 0, zI(di) + cnt <= dl)), f"block copy stays inside {d.reg.name}", "safety", loc)
        self.oblige(st, Implies(zI(cnt) > 0, And(zI(si) >= 0, zI(si) + cnt <= sl)), f"block copy stays inside {s.reg.name}", "safety", loc)
        self.oblige(st, zI(cnt) >= 0, "block copy size non-negative", "safety", loc)
        if not move and d.reg is s.reg and (d.row is None):
            self.oblige(st, Or(zI(cnt) == 0, zI(di) + cnt <= si, zI(si) + cnt <= di, Eq(di, si)), "memcpy ranges disjoint", "safety", loc)
        if d.reg.readonly:
            self.oblige(st, Eq(cnt, 0), f"write to read-only {d.reg.name}", "frame", loc)
        if isinstance(cnt, int) and cnt <= 4:
            vals = []
            for k in range(cnt):
                vals.append({(f, t): self.arr_read(st, s.reg, si + k, f, t, s.row) for f, t in self.layout(st, s.reg, d.reg)})
            for k in range(cnt):
                for (f, t), v in vals[k].items():
                    self.arr_write(st, d.reg, di + k, f, t, v, d.row)
            return
        for f, t in self.layout(st, s.reg, d.reg):
            src = self.arr_get(st, s.reg, f, t)
            old = self.arr_get(st, d.reg, f, t)
            if s.row is not None:
                src = z3.Select(src, zI(s.row))
            oldr = z3.Select(old, zI(d.row)) if d.row is not None else old
            new = fresh_array(f"{d.reg.name}.{f}", self.sort_of(t))
            k = z3.Int("k!mv")
            shift = norm(si - di) if not (isinstance(si, int) and isinstance(di, int)) else si - di
            body = z3.If(z3.And(k >= di, k < di + cnt), z3.Select(src, k + shift), z3.Select(oldr, k))
            st.qfacts.append(z3.ForAll([k], z3.Select(new, k) == body, patterns=[z3.Select(new, k)]))
            j = z3.Int("j!mv")
            if d.reg is s.reg and d.row is None and s.row is None:
                st.qfacts.append(z3.ForAll([j], z3.Implies(z3.And(j >= si, j < si + cnt), z3.Select(new, j - shift) == z3.Select(src, j)), patterns=[z3.Select(src, j)]))
            if d.row is not None:
                st.mem[d.reg.id][(f, t)] = z3.Store(old, zI(d.row), new)
            else:
                st.mem[d.reg.id][(f, t)] = new
            self.note_write(d.reg, (f, t))

    def layout(self, st, a, b):
        ks = {}
        for r in (a, b):
            for f, t in r.fields.items():
                ks[(f, t)] = 1
        if not ks:
            for r in (a, b):
                for k in self.fields_of(st, r):
                    ks[k] = 1
        return sorted(ks)

    def copy_fixed(self, st, d, s, n, inst):
        """constant-size copy, field by field"""
        items = []
        if s.reg.kind == "obj":
            so = norm(s.off)
            if not isinstance(so, int):
                raise Unsupported("symbolic offset copy")
            flds = self.fields_of(st, s.reg)
            want = set()
            if d.reg.kind == "arr" and d.reg.fields:
                dd = self.locate(st, d, n, inst, True)
                for e in range(0, (n + d.reg.stride - 1) // d.reg.stride):
                    for fo, ft in d.reg.fields.items():
                        o = e * d.reg.stride + fo - dd[1]
                        if 0 <= o and o + BYTES[ft] <= n:
                            want.add((o, ft))
            elif s.reg.fields:
                for fo, ft in s.reg.fields.items():
                    if so <= fo and fo + BYTES[ft] <= so + n:
                        want.add((fo - so, ft))
            else:
                for (fo, ft) in flds:
                    if so <= fo and fo + BYTES[ft] <= so + n:
                        want.add((fo - so, ft))
                if hasattr(s.reg, "glob"):
                    for k in range(0, n, 8):
                        if n - k >= 8:
                            want.add((k, "i64"))
                if not want and not s.reg.local:
                    for k in range(0, n - 7, 8):
                        want.add((k, "i64"))
            for o, ft in sorted(want):
                items.append((o, ft, self.load1(st, Ptr(s.reg, so + o), ft, inst)))
        else:
            idx, f0 = self.locate(st, s, n, inst, False)
            S = s.reg.stride
            ne = (f0 + n + S - 1) // S
            self.bounds(st, s.reg, idx, inst, False, n=ne, row=s.row)
            for e in range(ne):
                for fo, ft in sorted(s.reg.fields.items()):
                    o = e * S + fo - f0
                    if 0 <= o and o + BYTES[ft] <= n:
                        items.append((o, ft, self.arr_read(st, s.reg, idx + e, fo, ft, s.row)))
        for o, ft, v in items:
            self.store1(st, Ptr(d.reg, d.off + o, d.row), ft, v, inst)


class DeadPath(Exception):
    pass
