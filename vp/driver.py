"""Build harness -> IR -> JSON, run units, collect obligations."""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

import z3

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)

from engine import *  # noqa
from execu import Executor, Exit, MULR  # noqa

LLVM = "/usr/lib/llvm-18"
CACHE = os.environ.get("VP_CACHE", "/tmp/vp-build-%d" % os.getuid())

ISA = {"v4": ["-march=x86-64-v4", "-mavx512vnni"], "v3": ["-march=x86-64-v3"]}
DEFS = ["-DSVS_HAVE_MKL=0", "-DSVS_VERSION_MAJOR=0", "-DSVS_VERSION_MINOR=0", "-DSVS_VERSION_PATCH=4", "-DSVS_CHECK_BOUNDS=0", "-DSVS_ENABLE_NUMA=0", "-DSVS_INITIALIZE_LOGGER=0", "-DSPDLOG_FMT_EXTERNAL"]


class BuildError(Exception):
    pass


def sh(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    return p.returncode, p.stdout, p.stderr


def irx_path():
    src = os.path.join(ROOT, "tools/irx/irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "irx-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        rc, o, e = sh([f"{LLVM}/bin/clang++", "-O1", "-std=c++17", f"-I{LLVM}/include", src, f"-L{LLVM}/lib", "-lLLVM-18", f"-Wl,-rpath,{LLVM}/lib", "-o", tmp])
        if rc:
            raise BuildError(e[-3000:])
        os.rename(tmp, out)
    return out


def compile_ir(harness, isa="v4", noinline=(), defs=(), roots=(), extra_inc=(), dump=None):
    """harness: path of a .cpp in /verif; returns the parsed JSON"""
    irx = irx_path()
    os.makedirs(CACHE, exist_ok=True)
    base = os.path.join(CACHE, "%s-%s-%d" % (os.path.basename(harness)[:-4], isa, os.getpid()))
    bc, js = base + ".bc", base + ".json"
    cmd = [f"{LLVM}/bin/clang++", "-std=c++20", "-fsized-deallocation", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-access-control", "-w",
           *ISA[isa], *[f"-I{i}" for i in extra_inc], f"-I{HERE}/harness", f"-I{REPO}/include", "-I/opt/vp/deps/tomlplusplus/include", *DEFS, *defs, "-emit-llvm", "-c", harness, "-o", bc]
    rc, o, e = sh(cmd)
    if rc:
        raise BuildError("clang: " + e[-4000:])
    cmd = [irx, bc, js, "--noinline=^fmt::"] + [f"--noinline={n}" for n in noinline] + [f"--root={r}" for r in roots]
    if dump:
        cmd.append("--dump")
    rc, o, e = sh(cmd)
    if dump:
        open(dump, "w").write(e)
    if rc:
        raise BuildError("irx: " + e[-4000:])
    ir = json.load(open(js))
    os.unlink(bc)
    os.unlink(js)
    ir["consts"] = {}
    for n, g in ir["globals"].items():
        if n.startswith("vpk_") and g.get("init", {}).get("k") == "int":
            ir["consts"][n[4:]] = int(g["init"]["v"])
        elif n.startswith("vpk_") and g.get("init", {}).get("k") in ("zero",):
            ir["consts"][n[4:]] = 0
    return ir


class Ghost:
    """ghost memory: integer cells that loops havoc like program memory"""

    def __init__(self, st, *names):
        self.reg = Region("ghost", "obj", size=8 * len(names))
        self.off = {n: 8 * i for i, n in enumerate(names)}
        st.mem[self.reg.id] = {(8 * i, "i64"): 0 for i in range(len(names))}

    def get(self, e, st, n):
        return e.as_int(e.obj_load(st, self.reg, self.off[n], "i64", {}), st)

    def set(self, e, st, n, v):
        e.store(st, Ptr(self.reg, self.off[n]), "i64", v, {})


class Unit:
    """One function under contract."""

    name = "?"
    fn = "?"
    noexcept = True  # a throwing path is a contract violation unless post() deals with it

    def setup(self, e, st):
        raise NotImplementedError

    def post(self, e, st, ret, cx):
        return []

    def on_throw(self, e, st, cx):
        """goals for an exit by exception; default: must not happen"""
        return [("no exception", False)]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []
        self.error = None
        self.secs = 0.0
        self.solver = 0.0
        self.loops = []
        self.contract_calls = []
        self.exits = 0
        self.assumptions = []


def run_case(e, unit, res):
    st = State()
    args, cx = unit.setup(e, st)
    cx = cx if cx is not None else {}
    # vacuity: the precondition is satisfiable
    r, _ = e._check(st.facts + st.qfacts, z3.BoolVal(False), 20_000_000, 20000, True)
    if r == z3.unsat:
        e.obls.append(Obligation("precondition satisfiable", "vacuity", "", "failed", "z3", 0, "contradictory precondition"))
    else:
        e.obls.append(Obligation("precondition satisfiable" + ("" if r == z3.sat else " (not refuted)"), "vacuity", "", "proved", "z3", 0))
    cx["pre"] = st.copy()
    exits = e.run_function(st, unit.fn, args)
    live = 0
    for x in exits:
        if x.kind == "ret":
            live += 0 if live == 0 and e.contradictory(x.state) else 1
            goals = unit.post(e, x.state, x.val, cx)
        else:
            goals = unit.on_throw(e, x.state, cx)
        for nme, g in goals:
            s2 = x.state.copy()
            e.oblige(s2, g, nme, "post", x.loc)
    res.exits += len(exits)
    if live == 0 and not getattr(unit, "may_not_return", False):
        e.obls.append(Obligation("some execution returns", "vacuity", "", "failed", "symbolic", 0, "no return path"))


def run_unit(ir, unit, budget=None, verbose=False):
    res = Result(unit.name)
    t0 = time.time()
    e = getattr(unit, "executor", Executor)(ir, unit.fn, unit, log=(lambda *a: print("   ", *a)) if verbose else None)
    if budget:
        e.deadline = t0 + budget
    try:
        if unit.fn not in ir["functions"]:
            raise Unsupported(f"function {unit.fn} not present after extraction")
        if hasattr(unit, "configure"):
            unit.configure(e)
        for case in (unit.cases if getattr(unit, "cases", None) is not None else [None]):
            unit.case = case
            e.npaths = 0
            run_case(e, unit, res)
    except (Unsupported, BuildError, RecursionError) as ex:
        res.error = f"{type(ex).__name__}: {ex}"
        if verbose:
            traceback.print_exc()
    except (z3.Z3Exception, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as ex:
        res.error = f"internal {type(ex).__name__}: {ex}"
        if verbose:
            traceback.print_exc()
    res.obls = e.obls
    res.secs = time.time() - t0
    res.solver = e.solver_time
    res.loops = e.loop_report
    res.contract_calls = sorted(e.contract_calls)
    res.assumptions = sorted(e.assumptions)
    res.queries = e.nq
    return res


def show(res, full=False):
    bad = [o for o in res.obls if o.status != "proved"]
    print(f"{res.unit}: {len(res.obls) - len(bad)}/{len(res.obls)} proved, exits={res.exits} {res.secs:.1f}s solver={res.solver:.1f}s" + (f" ERROR {res.error}" if res.error else ""))
    dead = sorted({l["loop"] for l in res.loops if l.get("dead")} - {l["loop"] for l in res.loops if not l.get("dead")})
    if dead:
        print("   NOTE loops whose body never comes back:", dead)
    for o in bad:
        print("   FAIL", o.status, o.name, o.kind, o.loc)
        if full:
            print("      " + o.detail.replace("\n", "\n      "))
