"""Runs the cases of one check in a pool of processes, collects evidence and verdicts.

A check module provides
  ID, LEVEL, RULE (what one case is, what makes it non-trivial), BOUNDS (text),
  cases(tier)  -> iterable of JSON-able case descriptions, each with a unique "key"
  run(case, st) -> list of (kind, message) problems; st is a mc.runner.Run to count on
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

MAXBAD = int(os.environ.get("MC_MAXBAD", "40"))
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "240"))


class Run:
    """Counters of one case."""

    def __init__(self):
        self.states = self.transitions = self.traces = self.evals = self.programs = self.capped = 0
        self.outcomes = set()

    def outcome(self, *o):
        self.outcomes.add(repr(o))


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


_mod = None


def _init(modname):
    global _mod
    sys.dont_write_bytecode = True
    signal.signal(signal.SIGALRM, _alarm)
    _mod = importlib.import_module(modname)


def _one(case):
    st = Run()
    t0 = time.time()
    signal.alarm(getattr(_mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        problems = list(_mod.run(case, st) or [])
    except CaseTimeout:
        problems = [("timeout", f"no result within {CASE_TIMEOUT} s")]
    except Exception:
        problems = [("crash", traceback.format_exc()[-1500:])]
    finally:
        signal.alarm(0)
    return {
        "case": case,
        "problems": problems[:10],
        "counts": [st.states, st.transitions, st.traces, st.evals, st.programs, st.capped],
        "outcomes": sorted(st.outcomes)[:50],
        "noutcomes": len(st.outcomes),
        "t": time.time() - t0,
    }


def load_known(here):
    p = os.path.join(here, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--only", help="run the cases whose key contains this")
    ap.add_argument("--slow", action="store_true", help="print the slowest cases")
    a = ap.parse_args(argv)
    modname = f"mc.checks.{a.id.lower()}"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    if a.replay:
        _init(modname)
        case = json.load(open(a.replay))["case"]
        r = _one(case)
        for kind, msg in r["problems"]:
            print(f"{kind}: {msg}")
        print("reproduced" if r["problems"] else "no violation")
        return 1 if r["problems"] else 0

    mod = importlib.import_module(modname)
    if hasattr(mod, "setup"):
        mod.setup(a.tier)
    cases = list(mod.cases(a.tier))
    keys = [c["key"] for c in cases]
    if len(set(keys)) != len(keys):
        dup = sorted({k for k in keys if keys.count(k) > 1})[:5]
        print(f"error: duplicate case keys {dup}", file=sys.stderr)
        return 3
    if a.only:
        cases = [c for c in cases if a.only in c["key"]]
    if not cases:
        print("error: no cases", file=sys.stderr)
        return 3

    known = load_known(here)
    findings = {f["case"]: f for f in known["findings"] if f["property"] == a.id}

    out_dir = os.path.join(here, "out", a.id)
    os.makedirs(out_dir, exist_ok=True)
    for f in os.listdir(out_dir):
        os.remove(os.path.join(out_dir, f))

    tot = [0] * 6
    bad, seen_findings, outcomes, samples, slow = [], {}, set(), [], []
    nontrivial = 0
    jobs = max(1, min(a.jobs, len(cases)))
    ctx = mp.get_context("fork")
    chunk = max(1, min(8, len(cases) // (jobs * 8) or 1))
    with ctx.Pool(jobs, _init, (modname,), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 60)) as pool:
        for i, r in enumerate(pool.imap_unordered(_one, cases, chunk)):
            for j in range(6):
                tot[j] += r["counts"][j]
            outcomes.update(r["outcomes"])
            nontrivial += r["noutcomes"] > getattr(mod, "NONTRIVIAL", 0)
            slow.append((r["t"], r["case"]["key"]))
            k = r["case"]["key"]
            if k in findings:
                kinds = {x[0] for x in r["problems"]}
                want = set(findings[k]["kinds"])
                if kinds and kinds <= want:
                    seen_findings[k] = r
                elif kinds:
                    bad.append(r)
            elif r["problems"]:
                bad.append(r)
            elif len(samples) < 3 and r["counts"][2] + r["counts"][3] > 0:
                samples.append({"case": r["case"], "outcomes": r["outcomes"][:5]})
            if len(bad) >= MAXBAD:
                pool.terminate()
                break

    for k, r in sorted(seen_findings.items()):
        print(f"KNOWN-FINDING: property={a.id} {findings[k]['what']} [case {k}]")

    wall = time.time() - t0
    bad.sort(key=lambda r: (len(json.dumps(r["case"])), r["case"]["key"]))
    for n, r in enumerate(bad):
        path = os.path.join(out_dir, f"{n:03d}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": a.id, "case": r["case"], "problems": r["problems"],
                 "replay": f"/opt/venv/bin/python check.py {a.id} --replay {path}"},
                f, indent=1, default=str,
            )
        if n < 5:
            print(f"VIOLATION property={a.id} replay={path}")
            for kind, msg in r["problems"][:2]:
                print(f"    [{r['case']['key']}] {kind}: {msg}"[:700])
    if len(bad) > 5:
        print(f"... and {len(bad) - 5} more violating cases in {out_dir}")

    cov = {
        "rule": mod.RULE,
        "samples": samples or [{"case": cases[0]}],
        "exhaustive": len(bad) < MAXBAD and not a.only and not tot[5],
        "bounds": mod.BOUNDS[a.tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "cases": len(cases),
        "distinct_outcomes": len(outcomes),
    }
    if mod.LEVEL == "model_checking":
        cov.update(states=tot[0], transitions=tot[1], traces_validated_against_impl=tot[2])
        if tot[3]:
            cov["evaluations"] = tot[3]
    else:
        cov.update(evaluations=tot[3], distinct_nontrivial=nontrivial)
        if tot[0]:
            cov.update(states=tot[0], transitions=tot[1])
    if tot[5]:
        cov["capped_explorations"] = tot[5]
    if tot[4]:
        cov["programs"] = tot[4]
    ev = {
        "property": a.id, "tier": a.tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", f"{a.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.id} {a.tier}: {len(cases)} cases, states={tot[0]} transitions={tot[1]} traces={tot[2]} "
          f"evaluations={tot[3]} programs={tot[4]} capped={tot[5]} outcomes={len(outcomes)} violations={len(bad)} {wall:.1f}s")
    if a.slow:
        for t, k in sorted(slow, reverse=True)[:8]:
            print(f"   {t:.1f}s {k}")
    return 1 if bad else 0
