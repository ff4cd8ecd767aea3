"""One worker process: runs some sub-checks of one property and writes a JSON report."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

from . import env

env.setup_path()
warnings.simplefilter("ignore")
import logging  # noqa: E402

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.errors import HypothesisException  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

from . import core  # noqa: E402


class Found(AssertionError):
    pass


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def run_sub(subc, seed, shard, nshards, tier, examples, budget, curfd):
    rep = dict(sub=subc.name, shard=shard, evaluations=0, nontrivial=0, hashes=[], labels={}, samples=[],
               known=[], violation=None, error=None, truncated=False, rule=subc.rule)
    ctx = core.Ctx()
    hashes = set()
    state = dict(fail=None, first=None)
    t0 = time.time()
    strat = subc.strategy() if callable(subc.strategy) else subc.strategy

    def body(case):
        if state["fail"] is None and time.time() - t0 > budget:
            rep["truncated"] = True
            return
        js = json.dumps(case, sort_keys=True)
        os.pwrite(curfd, (json.dumps(dict(property=subc.prop, sub=subc.name, case=case)) + "\n").encode(), 0)
        msg = core.run_case(subc, case, ctx)
        if state["fail"] is None:
            rep["evaluations"] += 1
            for l in ctx.labels:
                rep["labels"][l] = rep["labels"].get(l, 0) + 1
            if ctx.nontriv:
                h = hashlib.sha1(js.encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(rep["samples"]) < 3 and len(js) < 1500:
                        rep["samples"].append(case)
        for k in ctx.known_hits:
            if k not in rep["known"]:
                rep["known"].append(k)
        if msg is not None:
            state["fail"] = (case, msg)
            if state["first"] is None:
                state["first"] = (case, msg)
            raise Found(msg)

    _engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120
    test = hypothesis.seed(derive_seed(seed, subc.prop, subc.name, shard))(
        settings(max_examples=max(1, examples), database=None, deadline=None, print_blob=False,
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                 phases=[Phase.explicit, Phase.generate, Phase.shrink])(given(strat)(body)))
    try:
        test()
    except Found:
        case, msg = state["fail"]
        rep["violation"] = dict(case=case, message=msg)
    except BaseException as e:  # noqa: BLE001
        if state["first"] is not None:
            # e.g. the failure did not reproduce while shrinking: report what was seen
            case, msg = state["first"]
            rep["violation"] = dict(case=case, message=msg + " (not reproduced on an immediate re-run)")
        else:
            rep["error"] = "".join(traceback.format_exception(e))[-4000:]
    rep["hashes"] = sorted(hashes)
    rep["wall"] = round(time.time() - t0, 2)
    return rep


def main():
    job = json.load(open(sys.argv[1]))
    logging.disable(logging.CRITICAL)
    importlib.import_module("pbt.props." + job["property"].lower())
    import thewalrus

    assert thewalrus.__file__.startswith(env.REPO + "/thewalrus/"), thewalrus.__file__
    reg = core.REGISTRY[job["property"]]
    curfd = os.open(job["current"], os.O_RDWR | os.O_CREAT, 0o600)
    out = []
    for item in job["items"]:
        out.append(run_sub(reg[item["sub"]], job["seed"], item["shard"], item["nshards"], job["tier"],
                           item["examples"], item["budget"], curfd))
        tmp = job["out"] + ".tmp"
        json.dump(out, open(tmp, "w"))
        os.replace(tmp, job["out"])
        if out[-1]["violation"]:
            break
    json.dump(dict(done=True), open(job["out"] + ".done", "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
