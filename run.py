#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--only CONFIG] [-j N]"""
from __future__ import annotations

import argparse
import contextlib
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
for k, v in (("PETSC_DIR", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"),
             ("OMP_NUM_THREADS", "1"), ("MPLBACKEND", "Agg"), ("PYTHONHASHSEED", "0")):
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from symx import core, loader  # noqa: E402

TOOL = 3
EXECUTED = set()


PKG = loader.PKG


def monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "symx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename and PKG and code.co_filename.startswith(PKG):
            EXECUTED.add(os.path.basename(code.co_filename) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def match_known(known, cfg, label):
    for k in known:
        if fnmatch.fnmatchcase(cfg["name"], k["config"]) and label == k["label"]:
            return k
    return None


def witness(mod, cfg, tries, seed, known):
    """Concrete runs of the real code with other numbers, when the solver's own are no witness
    (function symbols are arbitrary to the solver, and large queries may stay undecided)."""
    for s in range(tries):
        try:
            got, inc, used = replay(mod, cfg, {}, seed + 100 + s)
        except core.HarnessError:
            continue
        got = [g for g in got if not known(g.label)]
        if got:
            return got, inc, used
    return [], [], {}


def replay(mod, cfg, assignment, seed):
    """Run the same harness on concrete numbers: (labels that fail, detail, inconclusive)."""
    env = core.Env(core.Stats(), "num", assignment=assignment, cfg=cfg, seed=seed)
    core.run_once(env, lambda e: mod.harness(e, cfg), loader.PKG, HERE)
    return env.failures, env.inconclusive, dict(env.used)


def work(args):
    pid, cfg, seed, deadline = args
    try:
        return work_(pid, cfg, seed, deadline)
    except core.HarnessError as e:
        return dict(cfg=cfg, error=str(e))
    except BaseException:
        return dict(cfg=cfg, error=traceback.format_exc())


def match(known, cfg):
    return lambda label: match_known(known, cfg, label)


def work_(pid, cfg, seed, deadline):
    t0 = time.time()
    monitor()
    EXECUTED.clear()
    sys.monitoring.restart_events()
    mod = importlib.import_module("checks." + pid.lower())
    stats = core.Stats()
    known = known_findings(pid)
    fails, inc, samples = core.explore(
        lambda e: mod.harness(e, cfg), stats, loader.PKG, HERE, cfg=cfg, seed=seed,
        max_paths=getattr(mod, "MAX_PATHS", 512), deadline=deadline,
        known=lambda label: match_known(known, cfg, label) is not None)
    out = []
    done = set()
    for f in fails:
        if f.label in done:
            continue
        k = match_known(known, cfg, f.label)
        asg = f.assignment or {}
        got, rinc, used = [], [], {}
        for s in (seed, seed + 1, seed + 2):
            try:
                got, rinc, used = replay(mod, cfg, asg, s)
            except core.HarnessError as e:
                rinc = [str(e)[-300:]]
            if got:
                break
        if k:
            got = [g for g in got if g.label == k["label"]]
        elif not got:
            got, rinc2, used = witness(mod, cfg, 4, seed, match(known, cfg))
        if got:
            done.add(f.label)
        out.append(dict(label=f.label, detail=f.detail, known=k,
                        reproduced=bool(got), replay_inconclusive=rinc,
                        replay=[f"{g.label}: {g.detail}" for g in got][:3],
                        assignment={n: str(v) for n, v in used.items()}))
    if inc and not any(o["reproduced"] and not o["known"] for o in out):
        got, rinc, used = witness(mod, cfg, 4, seed, match(known, cfg))
        if got:
            out.append(dict(label=got[0].label, detail="undecided by the solver, fails on concrete numbers",
                            known=None, reproduced=True, replay_inconclusive=rinc,
                            replay=[f"{g.label}: {g.detail}" for g in got][:3],
                            assignment={n: str(v) for n, v in used.items()}))
    # validation of the encoding: the same harness on concrete numbers must agree
    val = 0
    if not fails and not inc:
        for s in range(getattr(mod, "VALIDATE", 1)):
            got, rinc, _ = replay(mod, cfg, {}, seed + 10 + s)
            if got:
                out.append(dict(label=got[0].label, detail="fails on concrete numbers although the "
                                "symbolic run passed: " + got[0].detail, known=None,
                                reproduced=False, replay=[], assignment={}, replay_inconclusive=[]))
            elif not rinc:
                val += 1
    return dict(cfg=cfg, stats=stats.__dict__, failures=out, inconclusive=inc[:5],
                samples=samples, functions=sorted(EXECUTED), validated=val,
                wall=time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS") or 7))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.id.upper()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        got, inc, _ = replay(mod, d["config"], {k: Fraction(v) for k, v in d["assignment"].items()},
                             seed)
        for g in got:
            print(f"reproduced: {g.label}: {g.detail}")
        for i in inc:
            print("inconclusive:", i)
        sys.exit(1 if got else 0)
    cfgs = mod.configs(a.tier)
    if a.only:
        cfgs = [c for c in cfgs if fnmatch.fnmatchcase(c["name"], a.only)]
    limit = 800 if a.tier == "quick" else 6 * 3600
    deadline = t0 + limit
    cfgs = sorted(cfgs, key=lambda c: -c.get("cost", 1))
    jobs = [(pid, c, seed, deadline) for c in cfgs]
    results = []
    if a.j <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(work(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=4) as pool:
            it = pool.imap_unordered(work, jobs, chunksize=1)
            until = None    # a violation is shown: a little more, then report it
            for _ in jobs:
                try:
                    results.append(it.next(timeout=max(0.1, (until or deadline + 40) - time.time())))
                except mp.TimeoutError:
                    if not until:
                        results.append(dict(cfg={"name": "?"}, error="time limit"))
                    break
                if until is None and a.tier == "quick" and any(
                        f["reproduced"] and not f["known"] for f in results[-1].get("failures", ())):
                    until = time.time() + 10
            pool.terminate()
    finish(mod, pid, a, seed, t0, results)


def finish(mod, pid, a, seed, t0, results):
    tot = {}
    fns = set()
    viol, knowns, bad = [], [], []
    samples = []
    validated = 0
    for r in results:
        if "error" in r:
            bad.append(f"{r['cfg'].get('name')}: {r['error']}")
            continue
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_terms" else tot.get(k, 0) + v
        fns.update(r["functions"])
        validated += r["validated"]
        for i in r["inconclusive"]:
            bad.append(f"{r['cfg']['name']}: {i}")
        for f in r["failures"]:
            if f["reproduced"] and f["known"]:
                knowns.append((r["cfg"], f))
            elif f["reproduced"]:
                viol.append((r["cfg"], f))
            else:
                bad.append(f"{r['cfg']['name']}: {f['label']}: {f['detail']}: not reproduced "
                           f"{f['replay_inconclusive'][:1]}")
        if len(samples) < 6 and r["samples"]:
            samples.append(dict(config=r["cfg"]["name"], **r["samples"][0]))
        if a.v:
            print(f"  {r['cfg']['name']}: {r['wall']:.1f}s paths={r['stats']['paths']} "
                  f"queries={r['stats']['queries']} oblig={r['stats']['obligations']} "
                  f"solver={r['stats']['solver_s']:.2f}s", file=sys.stderr)
    if not tot.get("obligations") and not viol and not bad:
        bad.append("no obligation was generated")
    if not tot.get("paths") and not viol and not bad:
        bad.append("no path reached the end of a harness")
    # code may move between modules or get other names: all that is needed is that code of dxss ran
    other = [fn for fn in getattr(mod, "MUST_RUN", ()) if not any(fnmatch.fnmatchcase(x, fn) for x in fns)]
    if other:
        print(f"note: not executed under this name: {', '.join(other)}", file=sys.stderr)
    if not fns and not viol:
        bad.append("no code of dxss was executed")
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    lines = []
    for i, (cfg, f) in enumerate(viol[:5]):
        p = os.path.join(HERE, "evidence", "replays", f"{pid}-{i}.json")
        with open(p, "w") as h:
            json.dump(dict(property=pid, config=cfg, label=f["label"], detail=f["detail"],
                           replay=f["replay"], assignment=f["assignment"],
                           command=f"/opt/venv/bin/python /verif/run.py {pid} --replay {p}"),
                      h, indent=1)
        lines.append(f"VIOLATION property={pid} replay={p}")
        print(f"{pid} [{cfg['name']}] {f['label']}: {f['detail']}")
        for x in f["replay"]:
            print(f"   replay on the real code: {x}")
    seen = set()
    for cfg, f in knowns:
        w = f["known"]["what"]
        if w not in seen:
            seen.add(w)
            print(f"KNOWN-FINDING: property={pid} {w}")
    for b in bad[:12]:
        print("INCONCLUSIVE", b)
    wall = time.time() - t0
    bounds = mod.bounds(a.tier) if hasattr(mod, "bounds") else ""
    ev = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
              level="other", wall_s=round(wall, 2), violations=len(viol),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  explanation=(
                      "Symbolic execution of the real source in /repo/src/dxss, re-read on this run; "
                      "z3 decides every branch and every obligation. "
                      f"Bounds: {bounds} "
                      f"{len(results)} harness configurations, {tot.get('paths', 0)} feasible paths "
                      f"completed, {tot.get('obligations', 0)} obligations, "
                      f"{tot.get('queries', 0)} solver queries ({tot.get('unsat', 0)} unsat, "
                      f"{tot.get('sat', 0)} sat, {tot.get('unknown', 0)} unknown) in "
                      f"{tot.get('solver_s', 0):.2f} s of solver time."),
                  bounds=bounds,
                  configurations=[r["cfg"]["name"] for r in results],
                  paths=tot.get("paths", 0), obligations=tot.get("obligations", 0),
                  solver_queries=tot.get("queries", 0), unsat=tot.get("unsat", 0),
                  sat=tot.get("sat", 0), unknown=tot.get("unknown", 0),
                  branch_queries=tot.get("branch_queries", 0),
                  reachability_witnesses=tot.get("reach", 0),
                  largest_query_terms=tot.get("max_terms", 0),
                  solver_seconds=round(tot.get("solver_s", 0), 3),
                  functions_encoded=sorted(fns),
                  not_executed_under_this_name=other,
                  concrete_runs_agreeing_with_encoding=validated,
                  known_findings=sorted(seen), inconclusive=bad[:12], samples=samples))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{pid}: {tot.get('obligations', 0)} obligations, {tot.get('paths', 0)} paths, "
          f"{tot.get('queries', 0)} queries, solver {tot.get('solver_s', 0):.1f}s, "
          f"wall {wall:.1f}s, functions {len(fns)}")
    for ln in lines:
        print(ln)
    if viol:
        sys.exit(1)
    sys.exit(2 if bad else 0)


COMMON_ASSUMPTIONS = [
    "real arithmetic: floating point constants are the exact rationals they denote, rounding is "
    "outside of the claim",
    "equalities are decided up to an absolute coefficient tolerance with monomials of the symbolic "
    "inputs in [-1, 1] (1e-9 unless the property states another)",
]

if __name__ == "__main__":
    try:
        main()
    finally:
        try:
            sys.monitoring.set_events(TOOL, 0)
        except ValueError:
            pass
