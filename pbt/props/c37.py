"""C37: compiled kernels stay inside their arrays (and never use uninitialised memory)."""
import numpy as np
from hypothesis import strategies as st

from pbt import calls, gen, pureserver
from pbt.core import sub

P = "C37"
ENV = {"NUMBA_BOUNDSCHECK": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.perturb=128"}  # fresh memory is filled with 0x7f: huge numbers
CLIENT = pureserver.Client()


def flat(x):
    """Numbers in a result, in order; None for anything that holds none."""
    if isinstance(x, np.ndarray):
        return [np.asarray(x)]
    if isinstance(x, (list, tuple)):
        out = []
        for i in x:
            out += flat(i)
        return out
    if isinstance(x, dict):
        return flat([x[k] for k in sorted(x)])
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return [np.asarray(x)]
    return []


def case_for(names):
    return st.fixed_dictionaries(dict(name=st.sampled_from(names), n=st.sampled_from([1, 2, 3, 0, 4, 5, 6]), seed=gen.seeds, edge=st.sampled_from(["none", "none", "zero", "sparse", "one"])))


def check(case, ctx):
    name = case["name"]
    key = (name, case["n"], case["seed"], case["edge"])
    f, args, kw, tags = calls.build(*key)
    label = getattr(f, "__name__", name)
    ctx.label(name, "edge " + case["edge"], "n=%d" % case["n"])
    calls.seed_all(case["seed"])
    try:
        got = f(*args, **kw)
    except (IndexError, SystemError) as e:
        ctx.fail(f"{label} accesses memory outside its arrays: {type(e).__name__}: {e}")
    if "random" in tags:  # different random streams with and without compilation
        ctx.nontrivial(False)
        return
    how, want = CLIENT.ask(*key)
    if how != "ok":
        ctx.label("not interpretable: " + name)
        ctx.nontrivial(case["edge"] != "none" or case["n"] < 2)
        return
    ctx.label("compared with interpretation")
    a, b = flat(got), flat(want)
    ctx.require(len(a) == len(b), lambda: f"{label} returns {len(a)} values compiled and {len(b)} interpreted")
    for x, y in zip(a, b):
        x, y = x.astype(complex), y.astype(complex)
        ok = np.isfinite(x) | np.isfinite(y)
        ctx.require(x.shape == y.shape, lambda: f"{label} returns shape {x.shape} compiled and {y.shape} interpreted")
        s = float(np.max(np.abs(y[np.isfinite(y)]), initial=0.0))
        ctx.close(x[ok], y[ok], f"{label}, compiled with bounds checking in junk-filled memory against interpreted", 1e-6, 1e-8, scale=s)


KERNELS = calls.names("kernel")
for _i in range(6):
    sub(P, case_for(KERNELS[_i::6]), quick=500, thorough=30000, threads=1, extra_env=ENV, name=f"kernels{_i}",
        rule="no call accesses memory outside its arrays (bounds checks on), results equal interpretation; non-trivial: result compared with the interpreted one, or a degenerate size")(check)
