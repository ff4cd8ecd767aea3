"""C30: samplers honour their contract: shapes, ranges, limits, vacuum and seeding."""
import numpy as np
from hypothesis import strategies as st

from thewalrus import samples as sm, csamples
from thewalrus.quantum import distinguishable_squeezers as ds
from pbt import gen, oracle
from pbt.core import sub
from pbt.props.c27 import mat_graph

P = "C30"

KINDS = ["hafnian_state", "torontonian_state", "hafnian_graph", "torontonian_graph", "hafnian_classical", "torontonian_classical",
         "rank_one", "table", "thermal", "distinguishable"]


@st.composite
def request(draw, kinds=tuple(KINDS), parallel=True):
    kind = draw(st.sampled_from(kinds))
    d = dict(kind=kind, N=draw(st.sampled_from([2, 3, 1, 4])), n=draw(st.sampled_from([3, 1, 2, 10])), seed=draw(gen.seeds), hbar=draw(gen.hbars),
             cutoff=draw(st.sampled_from([4, 1, 2, 6, None])), limit=draw(st.sampled_from([3, 0, 1, 2, None])), disp=draw(st.booleans()),
             vac=draw(st.sampled_from(["none", "none", "some", "all"])), fan=draw(st.sampled_from([10, 1, 4])), oob=draw(st.sampled_from([False, -1])))
    d["parallel"] = parallel and draw(st.sampled_from([False, False, False, True])) and kind in KINDS[:4]
    return d


def spec(q):
    """The call described by q: (callable, per-outcome upper bound, total bound, modes that are certainly empty)."""
    N, hb = q["N"], q["hbar"]
    rng = np.random.default_rng(q["seed"])
    empty = {"none": np.zeros(N, bool), "all": np.ones(N, bool), "some": rng.random(N) < 0.5}[q["vac"]]
    kind, n = q["kind"], q["n"]
    kw = {}
    if q["parallel"]:
        kw["parallel"] = True
    if kind in ("hafnian_state", "torontonian_state", "hafnian_classical", "torontonian_classical"):
        live = np.flatnonzero(~empty)
        k = len(live)
        cov = np.eye(2 * N)
        ix = np.concatenate([live, live + N])
        if k:
            if kind.endswith("classical"):
                X = rng.normal(size=(2 * k, 2 * k)) * 0.6
                sub_ = np.eye(2 * k) + X @ X.T
            else:
                O = oracle.passive(gen.haar(k, rng))
                r = rng.uniform(-0.7, 0.7, k)
                nb = rng.uniform(1, 1.8, k) if rng.random() < 0.5 else np.ones(k)
                O2 = oracle.passive(gen.haar(k, rng))
                sub_ = O @ np.diag(np.exp(np.concatenate([-r, r]))) @ O2
                sub_ = sub_ @ np.diag(np.tile(nb, 2)) @ sub_.T
            cov[np.ix_(ix, ix)] = (sub_ + sub_.T) / 2
        cov = cov * hb / 2
        mu = np.zeros(2 * N)
        if q["disp"] and k:
            mu[ix] = np.sqrt(2 * hb) * rng.uniform(-0.7, 0.7, 2 * k)
        if hb != 2 or q["seed"] % 2:
            kw["hbar"] = hb
        if q["disp"]:
            kw["mu" if kind == "torontonian_state" else "mean"] = mu
        if kind == "hafnian_classical":
            return (lambda: sm.hafnian_sample_classical_state(cov, n, **kw)), None, None, empty
        if kind == "torontonian_classical":
            return (lambda: sm.torontonian_sample_classical_state(cov, n, **kw)), 1, None, empty
    if kind in ("hafnian_state", "hafnian_graph"):
        top, cut = 30, 5
        if q["cutoff"] is not None:
            kw["cutoff"] = cut = q["cutoff"]
        if q["limit"] is not None:
            kw["max_photons"] = top = q["limit"]
    if kind in ("torontonian_state", "torontonian_graph"):
        top = 30
        if q["limit"] is not None:
            kw["max_photons"] = top = q["limit"]
        if q["fan"] != 10:
            kw["fanout"] = q["fan"]
        if q["cutoff"] is not None:
            kw["cutoff"] = q["cutoff"]
        cut = 1
    if kind == "hafnian_state":
        return (lambda: sm.hafnian_sample_state(cov, n, **kw)), cut, top, empty
    if kind == "torontonian_state":
        return (lambda: sm.torontonian_sample_state(cov, n, **kw)), cut, top, empty
    if kind in ("hafnian_graph", "torontonian_graph"):
        A = mat_graph(dict(n=N, kind=["weighted", "graph", "complex"][q["seed"] % 3], seed=q["seed"]))
        f = sm.hafnian_sample_graph if kind == "hafnian_graph" else sm.torontonian_sample_graph
        if n > 1 or q["seed"] % 2:
            kw["samples"] = n
        return (lambda: f(A, 0.6, **kw)), cut, top, np.zeros(N, bool)
    if kind == "rank_one":
        G = rng.random(N) + 0.1
        e = empty & (q["vac"] == "some")
        if e.all():
            e[0] = False
        G[e] = 0
        mean = 0.0 if q["vac"] == "all" else 1.0
        kw.update({"samples": n} if n > 1 or q["seed"] % 2 else {})
        return (lambda: sm.hafnian_sample_graph_rank_one(G, mean, **kw)), None, None, e if mean else np.ones(N, bool)
    if kind == "table":
        c = q["cutoff"] or 3
        p = rng.random((c,) * N)
        for j in np.flatnonzero(empty):
            ix = [slice(None)] * N
            ix[j] = slice(1, None)
            p[tuple(ix)] = 0
        p /= p.sum()
        return (lambda: sm.photon_number_sampler(p, n)), c - 1, None, empty
    if kind == "thermal":
        O = gen.haar(N, rng, real=True)
        ls = rng.uniform(0, 0.6, N)
        if q["vac"] == "all":
            ls[:] = 0
        elif q["vac"] == "some":
            O, ls = np.eye(N), np.where(empty, 0.0, ls)
        return (lambda: csamples.generate_thermal_samples(ls, O, num_samples=n)), None, None, empty
    T = gen.haar(N, rng) * np.sqrt(rng.uniform(0.3, 1))
    T = np.where(empty[:, None], 0, T)
    rs = rng.uniform(-0.9, 0.9, N)
    return (lambda: ds.sample(T, rs, n_samples=n)), None, None, empty


def draw_from(q):
    return np.array([np.asarray(s) for s in spec(q)[0]()])


@sub(P, request(), quick=300, thorough=20000, shards=4, threads=1)
def contract(case, ctx):
    """shape, integrality, range, limits and empty modes of every sampler; non-trivial: an effective limit, an empty mode or several samples"""
    call, top, total, empty = spec(case)
    N, n = case["N"], case["n"]
    np.random.seed(case["seed"] % 2**32)
    with np.errstate(all="ignore"):
        out = call()
    ctx.label(case["kind"], f"n={n}", "parallel" if case["parallel"] else "serial", f"vacuum modes: {case['vac']}", f"limit={case['limit']}" if total is not None else "no limit")
    ctx.nontrivial(total is not None and total <= 2 or empty.any() or n > 1)
    ctx.require(len(out) == n, lambda: f"{len(out)} samples instead of {n}")
    if case["kind"] not in ("table", "thermal"):
        ctx.require(isinstance(out, np.ndarray), f"samples of type {type(out)}")
    out = np.array([np.asarray(s) for s in out])
    ctx.require(out.shape == (n, N), lambda: f"samples of shape {out.shape} instead of {(n, N)}")
    if case["kind"] != "rank_one":
        ctx.require(out.dtype.kind in "iu", f"samples have type {out.dtype}")
    ctx.require(np.all(out == np.round(out)) and np.all(out >= 0), lambda: f"negative or fractional outcomes {out.tolist()}")
    if top is not None:
        ctx.require(out.max() <= top, lambda: f"outcome {out.max()} above {top}")
    if total is not None:
        ctx.require(out.sum(axis=1).max() <= total, lambda: f"{out.sum(axis=1).max()} detections exceed the limit {total}")
    ctx.require(np.all(out[:, empty] == 0), lambda: f"detections {out.tolist()} in the empty modes {np.flatnonzero(empty).tolist()}")
    if case["kind"] in ("rank_one",):
        ctx.require(np.all(out.sum(axis=1) % 2 == 0), lambda: f"odd photon number from a squeezed state {out.tolist()}")


SERIAL = request(parallel=False)


@st.composite
def history(draw):
    def foreign():
        return st.one_of(st.tuples(st.just("draw"), SERIAL).map(list), st.tuples(st.just("numpy"), st.integers(0, 40)).map(list),
                         st.tuples(st.just("seed"), gen.seeds).map(list))
    return dict(a=draw(st.lists(foreign(), max_size=4)), b=draw(st.lists(foreign(), max_size=2)), seed=draw(st.sampled_from([137, 0, 2**32 - 1]) | gen.seeds),
                draws=draw(st.lists(SERIAL, min_size=1, max_size=3)), other=draw(gen.seeds))


def play(ops):
    for op, arg in ops:
        if op == "draw":
            draw_from(arg)
        elif op == "numpy":
            np.random.normal(size=arg)
            np.random.choice(3, size=arg % 3)
        else:
            sm.seed(arg)


@sub(P, history(), quick=120, thorough=8000, shards=3, threads=1)
def reseeding(case, ctx):
    """seed(s) followed by the same draws gives the same samples whatever happened before; other seeds give other streams; non-trivial: different histories"""
    ctx.nontrivial(case["a"] != case["b"])
    ctx.label(*sorted({q["kind"] for q in case["draws"]}), f"history {len(case['a'])}")
    runs = []
    for hist in (case["a"], case["b"]):
        play(hist)
        sm.seed(case["seed"])
        runs.append([draw_from(q) for q in case["draws"]] + [np.random.random(4)])
    for q, x, y in zip(case["draws"] + [dict(kind="numpy")], *runs):
        ctx.require(x.shape == y.shape and np.array_equal(x, y), lambda: f"{q['kind']}: reseeding with {case['seed']} gives {x.tolist()} and then {y.tolist()}")
    if case["other"] != case["seed"]:
        cov = np.eye(8) * 30
        sm.seed(case["seed"])
        x = sm.hafnian_sample_classical_state(cov, 10)
        sm.seed(case["other"])
        y = sm.hafnian_sample_classical_state(cov, 10)
        ctx.require(not np.array_equal(x, y), f"seeds {case['seed']} and {case['other']} give the same samples")
