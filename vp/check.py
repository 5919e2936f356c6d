#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property from /repo's current source:
 1. extracts the functions the property depends on (clang -> LLVM IR -> irx) and discharges every
    obligation of their contracts (vp/units/*.py),
 2. runs the property's replay harness (native/<id>.cpp: the same contracts as run-time oracles on
    the real code, small scope exhaustive + seeded random) -- it supplies the failing input for a
    failed obligation, and stands in, labelled bounded, for a function the verifier cannot reach,
 3. writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held.  Exit 1: VIOLATION.  Exit 2: error of the check.
"""
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "units"))
sys.setrecursionlimit(20000)

from driver import CACHE, DEFS, ISA, REPO, BuildError, compile_ir, run_unit  # noqa: E402
from registry import PROPS, TRUSTED  # noqa: E402

T0 = time.time()
DEADLINE = 720  # a quick check answers within 900 s: what is not proved by then is bounded only
NPROC = int(os.environ.get("VP_JOBS", "8"))
OUT = os.environ.get("VP_OUT", ROOT)


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------ native harness
def native_flags(isa="native"):
    cpu = open("/proc/cpuinfo").read()
    if isa == "native":
        isa = "v4" if "avx512_vnni" in cpu else "v3"
    return ISA[isa]


class Native:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.fails = []
        self.error = None
        self.counts = {}
        self.samples = []
        self.secs = 0
        self.evals = 0
        self.distinct = 0
        self.nobuild = None

    def build(self, src, tag, isa):
        os.makedirs(CACHE, exist_ok=True)
        exe = os.path.join(CACHE, f"native-{tag}-{isa}-{os.getpid()}")
        cmd = ["g++", "-std=c++20", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-fno-access-control", *native_flags(isa),
               f"-I{ROOT}/native", f"-I{REPO}/include", "-I/opt/vp/deps/tomlplusplus/include", *DEFS, src, "-o", exe, "-lfmt", "-lpthread"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("replay harness does not compile: " + p.stderr[-3000:])
        return exe, cmd

    def run_one(self, src, isa, budget):
        tag = os.path.basename(src)[:-4]
        exe, cmd = self.build(src, tag, isa)
        scratch = os.path.join(CACHE, f"scratch-{tag}-{os.getpid()}")
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1:allocator_may_return_null=1:detect_container_overflow=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0", NH_SCRATCH=scratch)
        try:
            p = subprocess.run([exe, "--seed", str(self.seed), "--tier", self.tier], capture_output=True, text=True, errors="replace", timeout=budget, env=env, cwd=scratch)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout.decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            err, rc = "timeout of the whole harness", None
        finally:
            for f in (exe,):
                if os.path.exists(f):
                    os.unlink(f)
            subprocess.run(["/bin/rm", "-rf", scratch])
        nf = 0
        for line in out.splitlines():
            if line.startswith("FAIL "):
                nf += 1
                m = re.match(r"FAIL (\S+) (.*)", line)
                self.fails.append(dict(oracle=m.group(1), input=m.group(2), harness=os.path.relpath(src, ROOT), isa=isa, build=" ".join(cmd), run=f"--seed {self.seed} --tier {self.tier}", stderr=err[-3000:]))
            elif line.startswith("COUNT "):
                _, n, ev, di = line.split()
                self.counts[tag + ":" + n] = (int(ev), int(di))
                self.evals += int(ev)
                self.distinct += int(di)
            elif line.startswith("SAMPLE "):
                self.samples.append(line[7:])
        if rc is None:
            self.error = f"{tag}: replay harness exceeded {budget}s"
        elif rc != 0 and not nf:
            self.error = f"{tag}: replay harness ended with {rc}: {err[-800:]}"

    def run(self):
        t0 = time.time()
        try:
            ths = []
            for src in self.spec.get("native", []):
                if isinstance(src, tuple):
                    src, isas = src
                else:
                    isas = ["native"]
                for isa in isas:
                    if isa == "v4" and len(isas) > 1 and "avx512_vnni" not in open("/proc/cpuinfo").read():
                        continue
                    def go(src=src, isa=isa):
                        try:
                            self.run_one(os.path.join(ROOT, "native", src), isa, 1500 if self.tier == "thorough" else 420)
                        except BuildError as ex:
                            self.nobuild = str(ex)
                        except Exception as ex:  # noqa
                            self.error = f"{type(ex).__name__}: {ex}"
                    t = threading.Thread(target=go)
                    t.start()
                    ths.append(t)
            for t in ths:
                t.join()
        finally:
            self.secs = time.time() - t0


# ------------------------------------------------------------------------------ proofs
def work(conn, mod, isa, idx, budget, irs):
    try:
        m = importlib.import_module(mod)
        u = m.UNITS[idx]
        r = run_unit(irs[(mod, isa)], u, budget=budget)
        conn.send(dict(unit=r.unit, isa=isa, mod=mod, fn=u.fn, obls=[o.as_dict() for o in r.obls], error=r.error, secs=r.secs, solver=r.solver, loops=len(r.loops),
                       invs=sum(len(l["kept"]) for l in r.loops), contracts=r.contract_calls, exits=r.exits, assumptions=r.assumptions, queries=r.queries))
    except BaseException as ex:  # noqa
        conn.send(dict(unit=f"{mod}[{idx}]", isa=isa, mod=mod, fn="?", obls=[], error=f"internal {type(ex).__name__}: {ex}", secs=0, solver=0, loops=0, invs=0, contracts=[], exits=0, assumptions=[], queries=0))
    finally:
        conn.close()


def prove(pid, spec, tier):
    """-> list of unit results, list of build errors"""
    irs, errs = {}, []
    jobs = []
    for m in spec["modules"]:
        name, isas = (m, ["v4"]) if isinstance(m, str) else m
        for isa in isas:
            jobs.append((name, isa))

    def comp(j):
        m = importlib.import_module(j[0])
        try:
            irs[j] = compile_ir(os.path.join(HERE, "harness", getattr(m, "HARNESS", j[0]) + ".cpp"), isa=j[1], noinline=getattr(m, "NOINLINE", ()), extra_inc=[os.path.join(HERE, "stubs", s) for s in getattr(m, "STUBS", ())], defs=getattr(m, "DEFS", ()))
        except BuildError as ex:
            errs.append((j, str(ex)))

    for j in jobs:  # imported here, one after another: modules create terms, and the solver's context is not thread safe
        importlib.import_module(j[0])
    ths = [threading.Thread(target=comp, args=(j,)) for j in jobs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    tasks = []
    for (name, isa) in jobs:
        if (name, isa) not in irs:
            continue
        m = importlib.import_module(name)
        for i, u in enumerate(m.UNITS):
            props = getattr(u, "props", None) or getattr(m, "PROPS", None)
            if props and pid not in props:
                continue
            if tier == "quick" and getattr(u, "thorough_only", False):
                continue
            if getattr(u, "isas", None) and isa not in u.isas:
                continue
            tasks.append((getattr(u, "cost", 1), name, isa, i, getattr(u, "budget", 240 if tier == "quick" else 1200)))
    tasks.sort(key=lambda t: -t[0])
    ctx = mp.get_context("fork")
    running, results = [], []
    pending = list(tasks)
    while pending or running:
        while pending and len(running) < NPROC:
            if tier == "quick" and time.time() - T0 > DEADLINE:
                pending = [(c, n, x, i, 1) for c, n, x, i, b in pending]
            c, name, isa, i, b = pending.pop(0)
            pc, cc = ctx.Pipe(duplex=False)
            p = ctx.Process(target=work, args=(cc, name, isa, i, b, irs))
            p.start()
            cc.close()
            running.append((p, pc, time.time(), b, name, isa, i))
        time.sleep(0.02)
        for r in list(running):
            p, pc, ts, b, name, isa, i = r
            done = None
            if pc.poll():
                try:
                    done = pc.recv()
                except EOFError:
                    done = dict(error="worker died")
                p.join()
            elif not p.is_alive():
                done = dict(error="worker died")
            elif time.time() - ts > b + 120 or (tier == "quick" and time.time() - T0 > DEADLINE):
                p.kill()
                p.join()
                done = dict(error="unit exceeded its time budget")
            if done is not None:
                running.remove(r)
                if "unit" not in done:
                    u = importlib.import_module(name).UNITS[i]
                    done = dict(unit=u.name, isa=isa, mod=name, fn=u.fn, obls=[], secs=time.time() - ts, solver=0, loops=0, invs=0, contracts=[], exits=0, assumptions=[], queries=0, **done)
                results.append(done)
    return results, errs


# ------------------------------------------------------------------------------ main
def load_findings():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finding_for(findings, pid, text):
    for f in findings:
        if f.get("property") == pid and f.get("status") == "known" and re.search(f["match"], text):
            return f
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    findings = load_findings()
    nat = Native(pid, spec, tier, seed)
    nt = threading.Thread(target=nat.run)
    nt.start()
    results, errs = prove(pid, spec, tier)
    nt.join()
    n_obl = sum(len(r["obls"]) for r in results)
    n_ok = sum(1 for r in results for o in r["obls"] if o["status"] == "proved")
    failed, undecided = [], []
    for r in results:
        for o in r["obls"]:
            if o["status"] != "proved":
                failed.append((r, o))
        if r["error"]:
            undecided.append((r["unit"] + "/" + r["isa"], r["error"]))
    for j, e in errs:
        undecided.append((f"module {j[0]}/{j[1]}", "extraction failed: " + e))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    violations, known = [], []
    rdir = os.path.join(OUT, "evidence", "replay")

    def replay(i, doc):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{pid}-{i}.json")
        json.dump(doc, open(p, "w"), indent=1)
        return p

    seen = set()
    for f in nat.fails:
        k = finding_for(findings, pid, f["oracle"] + " " + f["input"])
        if k:
            known.append(k)
            continue
        if f["oracle"] in seen:
            continue
        seen.add(f["oracle"])
        doc = dict(property=pid, kind="failing input on the real code", **f, failed_obligations=[dict(unit=r["unit"], isa=r["isa"], **o) for r, o in failed][:10])
        violations.append(("", replay(len(violations), doc), f"{f['oracle']}: {f['input']}"[:300]))
    live = []
    for r, o in failed:
        k = finding_for(findings, pid, f"{r['unit']}: {o['name']} @ {o['loc']}")
        if k:
            known.append(k)
        else:
            live.append((r, o))
    if live and not violations:
        r, o = live[0]
        doc = dict(property=pid, kind="failed obligation (no failing input found)", obligations=[dict(unit=r["unit"], function=r["fn"], isa=r["isa"], **o) for r, o in live][:20])
        violations.append((" no-failing-input-found", replay(0, doc), f"obligation '{o['name']}' of {r['unit']} at {o['loc']} not discharged ({o['status']})"))
    for f in findings:
        if f.get("property") == pid and f.get("status") == "known":
            if f not in known and not f.get("always"):
                continue
            say(f"KNOWN-FINDING: property={pid} {f['what']}")
    fatal = None
    if not results and not errs:
        fatal = "no unit under contract"
    if nat.error and not violations:
        fatal = nat.error
    if nat.nobuild and not violations:
        # the replay harness reaches into the classes; where it no longer fits them the proof alone decides
        if undecided or not n_obl:
            fatal = nat.nobuild
        else:
            say("  replay harness left out: " + nat.nobuild[-300:])
    if n_obl == 0 and not undecided:
        fatal = "no obligation generated (vacuous)"
    bounded = list(spec.get("bounded", []))
    for u, e in undecided:
        bounded.append(f"{u}: not within the verifier's reach on this tree ({e[:300]}); the replay harness stands in, bounded")
    level = "proof" if n_obl and not undecided else "other"
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec.get("level", "proof") if level == "proof" else "exploration",
        coverage=dict(
            obligations=n_obl, discharged=n_ok,
            checker_cmd=f"python3-vt /verif/vp/check.py {pid} --tier {tier}",
            trusted_base=TRUSTED + spec.get("trusted", []),
            functions_under_contract=sorted({f"{r['unit']} [{r['isa']}]" for r in results}),
            back_ends={b: sum(1 for r in results for o in r["obls"] if o["backend"] == b) for b in sorted({o["backend"] for r in results for o in r["obls"]})},
            obligation_kinds={b: sum(1 for r in results for o in r["obls"] if o["kind"] == b) for b in sorted({o["kind"] for r in results for o in r["obls"]})},
            solver_time_s=round(sum(r["solver"] for r in results), 1), solver_queries=sum(r["queries"] for r in results),
            loops_with_invariants=sum(r["loops"] for r in results), loop_invariants=sum(r["invs"] for r in results),
            callee_contracts=sorted({c for r in results for c in r["contracts"]})[:60],
            units=[dict(unit=r["unit"], isa=r["isa"], obligations=len(r["obls"]), discharged=sum(1 for o in r["obls"] if o["status"] == "proved"), solver_s=round(r["solver"], 2), wall_s=round(r["secs"], 2), error=r["error"]) for r in results],
            bounded=bounded,
            undischarged=[dict(unit=r["unit"], isa=r["isa"], name=o["name"], loc=o["loc"], status=o["status"]) for r, o in failed][:40],
            replay_harness=("left out: " + nat.nobuild[-600:]) if nat.nobuild else "ran",
            evaluations=nat.evals, distinct_nontrivial=nat.distinct,
            rule="replay harness cases (bounded, not counted as proved): " + spec.get("rule", "small inputs enumerated plus seeded random inputs; distinct = distinct input descriptions"),
            samples=(nat.samples or ["none"])[:8],
        ),
        assumptions=spec.get("assumptions", []) + sorted({a for r in results for a in r["assumptions"]}),
        wall_s=round(time.time() - T0, 1), violations=len(violations),
    )
    if ev["level"] == "exploration":
        ev["coverage"]["explanation"] = "some function is outside the verifier's reach on this tree: see 'bounded'"
    json.dump(ev, open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    say(f"{pid}: {n_ok}/{n_obl} obligations discharged over {len(results)} units, {nat.evals} replay cases, {time.time() - T0:.1f}s")
    for u, e in undecided:
        say(f"  bounded only: {u}: {e[:400]}")
    for r, o in failed:
        say(f"  undischarged: {r['unit']} [{r['isa']}]: {o['name']} ({o['kind']}) {o['loc']} {o['status']}")
    if fatal and not violations:
        say("ERROR", fatal)
        sys.exit(2)
    for sfx, p, what in violations:
        say(" ", what)
    for sfx, p, what in violations:
        say(f"VIOLATION property={pid} replay={p}{sfx}")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
