"""Driver: python -m pbt.run --property C01 [--tier quick|thorough] | --replay FILE | --list"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import env

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def load(prop):
    env.setup_path()
    import warnings

    warnings.simplefilter("ignore")
    importlib.import_module("pbt.props." + prop.lower())
    from . import core

    return core


def plan(prop, tier, only=None):
    """Ask a child for the sub-checks (the driver itself never imports the code under test)."""
    code = ("import json,sys; from pbt import run; c=run.load(%r); "
            "print('PLAN'+json.dumps([dict(name=s.name,quick=s.quick,thorough=s.thorough,shards=s.shards,"
            "group=s.group,threads=s.threads,extra_env=s.extra_env) for s in c.REGISTRY[%r].values()]))"
            % (prop, prop))
    tmp = tempfile.mkdtemp(prefix="verif-plan-")
    try:
        r = subprocess.run([env.PY, "-c", code], cwd=env.VERIF, env=env.child_env(tmp), capture_output=True, text=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("ERROR: cannot load the checks of", prop)
        sys.exit(2)
    subs = json.loads([l for l in r.stdout.splitlines() if l.startswith("PLAN")][-1][4:])
    if only:
        subs = [s for s in subs if s["name"] in only]
    return subs


def build_jobs(subs, tier):
    groups = {}
    for s in subs:
        n = s[tier]
        shards = s["shards"] if tier == "quick" else max(s["shards"], 4)
        shards = max(1, min(shards, n))
        for k in range(shards):
            ex = n // shards + (1 if k < n % shards else 0)
            g = groups.setdefault((s["group"], k), dict(items=[], threads=s["threads"], extra=s["extra_env"]))
            g["items"].append(dict(sub=s["name"], shard=k, nshards=shards, examples=ex))
    return [dict(key=k, **v) for k, v in groups.items()]


def run_property(prop, tier, seed, only=None, scale=1.0, quiet=False):
    t0 = time.time()
    subs = plan(prop, tier, only)
    for s in subs:
        s[tier] = max(1, int(s[tier] * scale))
    jobs = build_jobs(subs, tier)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    total_budget = float(os.environ.get("VERIF_BUDGET", 300 if tier == "quick" else 3000))
    hard = total_budget + 240
    ncpu = os.cpu_count() or 4
    pending, running, reports, problems, violations = list(enumerate(jobs)), [], [], [], []

    def start(i, job):
        cur, out, jf = (os.path.join(tmp, f"{n}{i}.json") for n in ("cur", "out", "job"))
        left = max(20.0, total_budget - (time.time() - t0))
        for it in job["items"]:
            it["budget"] = left / len(job["items"])
        json.dump(dict(property=prop, tier=tier, seed=seed, items=job["items"], current=cur, out=out), open(jf, "w"))
        log = open(os.path.join(tmp, f"log{i}.txt"), "w")
        p = subprocess.Popen([env.PY, "-m", "pbt.worker", jf], cwd=env.VERIF, stdin=subprocess.DEVNULL,
                             env=env.child_env(tmp, job["threads"], job["extra"]), stdout=log, stderr=log,
                             start_new_session=True)
        return dict(p=p, i=i, job=job, cur=cur, out=out, log=log.name, t=time.time())

    def collect(r):
        rc = r["p"].returncode
        if os.path.exists(r["out"]):
            reports.extend(json.load(open(r["out"])))
        if rc == 0 and os.path.exists(r["out"] + ".done"):
            return
        tail = open(r["log"]).read()[-1500:]
        if rc is not None and rc < 0 and -rc in {int(s) for s in CRASH}:
            case = None
            try:
                case, _ = json.JSONDecoder().raw_decode(open(r["cur"]).read())
            except (OSError, ValueError):
                pass
            if case:
                violations.append(dict(sub=case["sub"], case=case["case"],
                                       message=f"the process was killed by signal {-rc} in this case"))
                return
        problems.append(f"worker {r['job']['key']} ended with {rc}: {tail}")

    stop = False
    while pending or running:
        while pending and len(running) < ncpu and not stop:
            running.append(start(*pending.pop(0)))
        if stop:
            pending = []
        time.sleep(0.1)
        for r in list(running):
            if r["p"].poll() is not None:
                running.remove(r)
                collect(r)
                if any(x["violation"] for x in reports) or violations:
                    stop = True
            elif time.time() - t0 > hard:
                os.killpg(r["p"].pid, signal.SIGKILL)
                r["p"].wait()
                running.remove(r)
                if os.path.exists(r["out"]):
                    reports.extend(json.load(open(r["out"])))
                try:
                    cur = open(r["cur"]).read(600)
                except OSError:
                    cur = ""
                problems.append(f"worker {r['job']['key']} did not finish in {hard:.0f}s; last case {cur}")
        if stop and running:
            # give the others a moment to finish their own shrinking, then stop
            if not hasattr(run_property, "_t"):
                run_property._t = time.time()
            if time.time() - run_property._t > 5:
                for r in running:
                    os.killpg(r["p"].pid, signal.SIGKILL)
                    r["p"].wait()
                    if os.path.exists(r["out"]):
                        reports.extend(json.load(open(r["out"])))
                running = []
    if hasattr(run_property, "_t"):
        del run_property._t
    for rep in reports:
        if rep["violation"]:
            violations.append(dict(sub=rep["sub"], **rep["violation"]))
        if rep["error"]:
            problems.append(f"{rep['sub']}: {rep['error']}")
    shutil.rmtree(tmp, ignore_errors=True)

    from . import core

    known = core.load_known()
    hits = sorted({k for rep in reports for k in rep["known"]})
    for k in hits:
        print(f"KNOWN-FINDING: property={prop} [{k}] {known[k][1]}")

    # evidence
    per_sub, samples, nt = {}, [], set()
    for rep in reports:
        d = per_sub.setdefault(rep["sub"], dict(evaluations=0, distinct_nontrivial=0, labels={}, truncated=False,
                                                rule=rep["rule"], wall_s=0.0))
        d["evaluations"] += rep["evaluations"]
        d["distinct_nontrivial"] += len(set(rep["hashes"]))
        d["truncated"] |= rep["truncated"]
        d["wall_s"] = round(d["wall_s"] + rep.get("wall", 0), 1)
        for l, c in rep["labels"].items():
            d["labels"][l] = d["labels"].get(l, 0) + c
        nt |= {(rep["sub"], h) for h in rep["hashes"]}
    seen = set()
    for rep in reports:
        if rep["samples"] and rep["sub"] not in seen:
            seen.add(rep["sub"])
            samples.append(dict(sub_check=rep["sub"], case=rep["samples"][-1]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(r["evaluations"] for r in reports),
                  distinct_nontrivial=len(nt),
                  rule="Hypothesis-generated cases per sub-check (seeded by VERIF_SEED, sub-check and shard); distinct = "
                       "different generated case, non-trivial = the sub-check's own rule, given under sub_checks",
                  samples=samples[:8] or ["none"],
                  sub_checks=per_sub,
                  known_findings=hits,
                  inconclusive=problems[:5]),
              assumptions=["floating-point comparison within the tolerances coded in each sub-check",
                           "reference oracles in pbt/oracle.py are correct"],
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(env.VERIF, "evidence", f"{prop}.json")
    json.dump(ev, open(evf + ".tmp", "w"), indent=1)
    os.replace(evf + ".tmp", evf)

    if not quiet:
        for n, d in per_sub.items():
            print(f"  {n}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['wall_s']}s"
                  + (" (time budget reached)" if d["truncated"] else "") + " " + json.dumps(d["labels"]))
    if violations:
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        for n, v in enumerate(violations):
            path = os.path.join(env.VERIF, "replays", f"{prop}-{v['sub']}-{n}.json")
            json.dump(dict(property=prop, sub=v["sub"], case=v["case"], message=v["message"], seed=seed), open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['sub']}: {v['message']}")
            print(f"  case: {json.dumps(v['case'])[:1000]}")
        return 1
    if problems:
        for p in problems:
            print("ERROR:", p[:3000])
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={ev['coverage']['evaluations']} "
          f"nontrivial={ev['coverage']['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


def replay(path):
    """Run one saved case without Hypothesis, in a child process."""
    r = json.load(open(path))
    subs = [s for s in plan(r["property"], "quick") if s["name"] == r["sub"]]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    code = ("import json,sys; from pbt import run; r=json.load(open(%r)); c=run.load(r['property']); "
            "m=c.run_case(c.REGISTRY[r['property']][r['sub']], r['case'], c.Ctx()); "
            "print('REPLAY '+(m or 'no violation')); sys.exit(3 if m else 0)" % os.path.abspath(path))
    try:
        p = subprocess.run([env.PY, "-c", code], cwd=env.VERIF,
                           env=env.child_env(tmp, subs[0]["threads"], subs[0]["extra_env"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode == 3 or p.returncode < 0:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    if p.returncode:
        print(f"ERROR: replay ended with {p.returncode}")
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run_property(a.property, "thorough" if a.tier == "thorough" else "quick", seed, a.only, a.scale))


if __name__ == "__main__":
    main()
