#!/usr/bin/env python3-vt
"""Driver: check.py --property Pxx --tier quick|thorough

Discharges the contracts of one property against /repo's current sources and runs the executable
contracts (bounded) on the same sources.  Exit 0: held on everything decided.  Exit 1: VIOLATION."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from dv import ir, engine, spec, build   # noqa: E402
from config import CHECKS                # noqa: E402

CMD = "python3-vt /verif/check.py --property %s --tier %s"


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ proofs
def worker(conn, sp, prog, secs):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        r = spec.run_spec(sp, prog, secs)
    except BaseException:
        r = {"name": sp.name, "status": "undecided", "note": "verifier error: " + traceback.format_exc()[-1600:], "obligations": [],
             "targets": [], "inlined": [], "models": [], "assumed": [], "contracts": [], "loops": {}, "covers": []}
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()
    os._exit(0)


def blank(sp, note):
    return {"name": sp.name, "status": "undecided", "note": note, "obligations": [], "targets": [], "inlined": [], "models": [],
            "assumed": [], "contracts": [], "loops": {}, "covers": []}


def run_specs(specs, tmp, tier, pool, jobs, end):
    mods, errs = {}, {}
    need = {}
    for sp in specs:
        for t in sp.tus:
            need.setdefault(t.key(), t)
    futs = {}
    for i, (k, t) in enumerate(need.items()):
        futs[k] = (t, pool.submit(build.compile_ir, t, os.path.join(tmp, "m%d.ll" % i)))
    for k, (t, f) in futs.items():
        try:
            mods[k] = ir.Module(open(f.result()).read(), t.path)
        except Exception as e:
            errs[k] = str(e)[-1500:]
    todo, results, running = [], {}, []
    for n, sp in enumerate(specs):
        bad = [errs[t.key()] for t in sp.tus if t.key() in errs]
        if bad:
            results[n] = blank(sp, "extraction failed: " + bad[0])
        else:
            todo.append((n, sp))
    todo.reverse()
    ctx = mp.get_context("fork")
    mult = 1 if tier == "quick" else 4
    while todo or running:
        while todo and len(running) < jobs:
            n, sp = todo.pop()
            secs = min(sp.secs * mult, max(5, end - time.time()))
            if end - time.time() < 5:
                results[n] = blank(sp, "time budget of the check used up")
                continue
            prog = engine.Program([mods[t.key()] for t in sp.tus])
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, sp, prog, secs))
            p.start()
            b.close()
            running.append((n, sp, p, a, time.time() + secs * 2 + 60))
        still = []
        for n, sp, p, a, dl in running:
            if a.poll(0):
                try:
                    results[n] = a.recv()
                except EOFError:
                    results[n] = blank(sp, "verifier process died")
                p.join(5)
            elif not p.is_alive():
                results[n] = blank(sp, "verifier process died (memory?)")
            elif time.time() > dl:
                p.kill()
                results[n] = blank(sp, "timeout")
            else:
                still.append((n, sp, p, a, dl))
        running = still
        if running:
            mp.connection.wait([a for _, _, _, a, _ in running], 0.5)
    return [results[n] for n in range(len(specs))]


# ------------------------------------------------------------------ executable contracts
class HarnessResult:
    def __init__(self):
        self.name, self.ran, self.note = None, False, None
        self.fails = []
        self.evals = self.nontrivial = 0
        self.groups, self.samples = {}, []


def run_harness(h, tmp, tier, seed, pool, only=None):
    r = HarnessResult()
    name = h["src"].replace(".cpp", "") + h.get("tag", "")
    r.name = name
    try:
        exe = build.build_harness(name, os.path.join(VERIF, "harness", h["src"]), tmp, defs=[x.replace("@TMP@", tmp) for x in h.get("defs", ())],
                                  drop=h.get("drop", ()), exclude=h.get("exclude", ()), std=h.get("std", "c++11"), pool=pool,
                                  extra_link=h.get("link", ()), only=h.get("only"), san=h.get("san", build.SAN),
                                  hflags=[x.replace("@TMP@", tmp) for x in h.get("hflags", ())], opt=h.get("opt", "-O1"))
    except build.BuildError as e:
        r.note = "harness does not build against this tree: " + str(e)[-3000:]
        return r
    secs = h.get("secs", 8) * (1 if tier == "quick" else h.get("mult", 12))
    rep, cur = os.path.join(tmp, name + ".rep"), os.path.join(tmp, name + ".cur")
    work = os.path.join(tmp, name + ".work")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:detect_stack_use_after_return=1"
               % h.get("leaks", 1), UBSAN_OPTIONS="print_stacktrace=1", HX_WORK=work, HX_TMP=tmp)
    env.update({k: v.replace("@TMP@", tmp) for k, v in h.get("env", {}).items()})
    cmd = [exe, str(seed), str(secs), rep, cur] + ([only] if only else [])
    if h.get("user"):
        pass
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=secs * 4 + 120, env=env, cwd=work, errors="replace", text=True,
                           stdin=subprocess.DEVNULL)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        r.note = "harness exceeded its time budget"
        rc, err = None, ""
    done = False
    hang = False
    if os.path.exists(rep):
        for line in open(rep, errors="replace"):
            f = line.rstrip("\n").split("\t")
            if f[0] == "FAIL":
                r.fails.append({"check": f[1], "input": f[2] if len(f) > 2 else "", "message": f[3] if len(f) > 3 else ""})
            elif f[0] == "DONE":
                done = True
                r.evals, r.nontrivial = int(f[1]), int(f[2])
            elif f[0] == "GROUP":
                r.groups[f[1]] = int(f[2])
            elif f[0] == "SAMPLE":
                r.samples.append(f[1])
            elif f[0] == "HANG":
                hang = True
    r.ran = done
    if rc is not None and rc not in (0, 3) or (rc in (0, 3) and not done):
        c = open(cur, errors="replace").read().split("\0")[0] if os.path.exists(cur) else ""
        g, _, inp = c.partition("\t")
        if hang or rc == 98:
            msg = "does not terminate"
        else:
            msg = "crash: exit status %s: %s" % (rc, summary(err))
        if rc in (2, 126, 127) or (rc == -9):
            r.note = "harness could not run (status %s)" % rc
        elif done and "LeakSanitizer" in err:
            r.fails.append({"check": "leak", "input": "whole run (memory not released)", "message": summary(err)})
        else:
            r.fails.append({"check": g or "start", "input": inp, "message": msg})
            r.ran = True
    return r


def summary(err):
    keep = [l for l in err.split("\n") if "ERROR:" in l or "SUMMARY" in l or "runtime error" in l or "terminate" in l or "what()" in l
            or l.strip().startswith("#") and "cpptrace" in l or "Assert" in l]
    return " | ".join(x.strip() for x in keep[:14])[:2500] or err[-600:]


# ------------------------------------------------------------------ known findings
def known(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=P sig=<kind>:<signature> text
                rest = line[len("known: property=%s " % prop):]
                sig, _, text = rest.partition(" ")
                r.append((sig[4:], text))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", help="harness group (replay)")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 0
    try:
        rc = check(a, prop, tier, seed, t0, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(a, prop, tier, seed, t0, cfg, tmp):
    budget = 500 if tier == "quick" else 840
    hs = cfg.get("harness", [])
    hres, proofs, hthread = [], [], None
    pool = cf.ThreadPoolExecutor(8)
    if hs and not a.no_harness:
        def go():
            for h in hs:
                if h.get("tier", "quick") == "thorough" and tier == "quick":
                    continue
                try:
                    hres.append(run_harness(h, tmp, tier, seed, pool, a.only))
                except Exception:
                    x = HarnessResult()
                    x.note = "harness error: " + traceback.format_exc()[-1600:]
                    hres.append(x)
        if not a.no_proof:
            hthread = threading.Thread(target=go)
        else:
            go()
    specs = []
    if not a.no_proof:
        importlib.import_module("specs." + prop)
        specs = [s for s in spec.SPECS if s.prop == prop and (s.tier == "quick" or tier == "thorough")]
        # forking workers while other threads run is avoided: proofs first, then the harness
        proofs = run_specs(specs, tmp, tier, pool, a.jobs, t0 + budget - 150)
    if hthread:
        hthread.start()
        hthread.join()
    return report(a, prop, tier, seed, t0, cfg, specs, proofs, hres)


def report(a, prop, tier, seed, t0, cfg, specs, proofs, hres):
    kn = known(prop)
    used = []
    violations = []

    def is_known(sig):
        for s, text in kn:
            if sig.startswith(s):
                if (s, text) not in used:
                    used.append((s, text))
                return True
        return False
    # executable contracts: failing inputs against the real code
    hfails = [(h, f) for h in hres for f in h.fails if not is_known("input:%s:%s" % (f["check"], f["input"]))]
    # contracts: failed obligations
    pf = [r for r in proofs if r["status"] == "failed"]
    pfn = []
    for r in pf:
        bad = [o for o in r["obligations"] if o["status"] == "failed" and (not o["tainted"] or r.get("refutation"))]
        bad = [o for o in bad if not is_known("obligation:%s:%s" % (r["name"], o["name"]))]
        if bad:
            pfn.append((r, bad))
        else:
            r["status"] = "known-finding"
    und = [r for r in proofs if r["status"] == "undecided"]
    obs = [o for r in proofs for o in r["obligations"]]
    backends = {}
    for o in obs:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "obligations": len(obs), "discharged": sum(o["status"] == "proved" for o in obs),
            "checker_cmd": CMD % (prop, tier),
            "trusted_base": ["dv: the verification condition generator of /verif/dv (LLVM IR semantics, loop cutting, memory model)",
                             "clang-18 front end (C++ to LLVM IR at -O0)", "z3, cvc5 (python3-vt)"]
            + ["model: " + m for m in sorted({m for r in proofs for m in r["models"]})]
            + ["assumed: " + m for m in sorted({m for r in proofs for m in r["assumed"]})],
            "contracts_proved": [r["name"] for r in proofs if r["status"] == "proved"],
            "contracts_not_proved": [{"name": r["name"], "status": r["status"], "note": r["note"]} for r in proofs if r["status"] != "proved"],
            "functions_under_contract": sorted({t for r in proofs if r["status"] == "proved" for t in r["targets"]}),
            "functions_verified_in_context": sorted({t for r in proofs if r["status"] == "proved" for t in r["inlined"]}),
            "loop_invariants": {k: v for r in proofs for k, v in r["loops"].items()},
            "callee_contracts_used": sorted({t for r in proofs for t in r["contracts"]}),
            "backends": backends,
            "solver_s": round(sum(r.get("solver_s", 0) for r in proofs), 2),
            "solver_queries": sum(r.get("queries", 0) for r in proofs),
            "paths": sum(r.get("paths", 0) for r in proofs),
            "vacuity_covers": sum(len(r["covers"]) for r in proofs),
            "bounded_executable_contract": [{"harness": h.name, "ran": h.ran, "note": h.note, "evaluations": h.evals,
                                             "distinct_nontrivial": h.nontrivial, "groups": h.groups, "samples": h.samples} for h in hres],
            "rule": cfg.get("rule", "seeded generator per group in /verif/harness; bounded, never counted as proved"),
            "evaluations": sum(h.evals for h in hres), "distinct_nontrivial": sum(h.nontrivial for h in hres),
            "samples": [s for h in hres for s in h.samples][:8],
        },
        "assumptions": cfg.get("assumptions", []) + ["machine integers are bit-vectors of their exact width (no mathematical integers)",
                                                     "std:: containers and libc behave as their trusted contracts in dv/models.py"],
        "wall_s": round(time.time() - t0, 1),
        "violations": [],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    if hfails or pfn:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        rep = {"property": prop, "tier": tier, "seed": seed, "rerun": "VERIF_SEED=%d " % seed + CMD % (prop, tier),
               "failing_inputs": [{"harness": h.name, **f} for h, f in hfails],
               "failed_obligations": [{"contract": r["name"], "refutation": r.get("refutation"), "obligations": bad[:10]} for r, bad in pfn]}
        json.dump(rep, open(path, "w"), indent=1, default=str)
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        if not hfails:
            line += " no-failing-input-found"
        lines.append(line)
        evidence["violations"] = [line]
        for h, f in hfails[:5]:
            log("  failing input [%s/%s]: %s -> %s" % (h.name, f["check"], f["input"][:300], f["message"][:500]))
        for r, bad in pfn[:6]:
            for o in bad[:2]:
                log("  failed obligation [%s]: %s  at %s in %s" % (r["name"], o["name"], o.get("loc"), o["fn"]))
                if o.get("witness"):
                    log("     countermodel: %s" % json.dumps(o["witness"])[:600])
    ev = evidence
    ev["violations"] = len(lines)
    ev["coverage"]["violation_lines"] = lines
    ev["coverage"]["known_findings"] = [t for _, t in used]
    tmpf = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmpf, "w"), indent=1, default=str)
    os.replace(tmpf, os.path.join(VERIF, "evidence", prop + ".json"))
    log("%s %s: %d contracts, %d proved, %d undecided, %d failed; %d/%d obligations discharged; %d executable-contract cases; %.1fs"
        % (prop, tier, len(proofs), sum(r["status"] == "proved" for r in proofs), len(und), len(pfn), evidence["coverage"]["discharged"],
           len(obs), evidence["coverage"]["evaluations"], time.time() - t0))
    for r in und:
        log("  undecided: %s: %s" % (r["name"], (r["note"] or "")[:300]))
    for h in hres:
        if h.note:
            log("  harness %s: %s" % (h.name, h.note[:1500]))
    for s, text in used:
        log("KNOWN-FINDING: property=%s %s" % (prop, text))
    for l in lines:
        log(l)
    return 1 if lines else 0


if __name__ == "__main__":
    main()
