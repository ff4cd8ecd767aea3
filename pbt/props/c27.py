"""C27: photon-number samplers draw from the distribution of the Gaussian state."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import samples as sm
from pbt import gen, oracle, stats
from pbt.core import sub

P = "C27"


def tensor_table(p, top):
    return {i: float(p[i]) for i in itertools.product(*[range(k) for k in p.shape]) if sum(i) <= top}


def conditional(t, top):
    """Condition on at most ``top`` photons; the table must contain all such outcomes."""
    t = {i: max(p, 0.0) for i, p in t.items() if sum(i) <= top}
    z = sum(t.values())
    return {i: p / z for i, p in t.items()}


@st.composite
def case_s(draw):
    s = draw(gen.state(1, 3, max_r=0.6, max_nb=0.5, max_a=0.9, distinct=draw(st.sampled_from([True, True, False]))))
    return dict(s=s, seed=draw(gen.seeds), top=draw(st.sampled_from([30, 4, 3, 2, 30])), how=draw(st.sampled_from(["state", "state", "single", "default"])),
                parallel=draw(st.sampled_from([False, False, False, False, True])))


def state_table(mu, cov, hb, top):
    N = len(mu) // 2
    cut = {1: 26, 2: 14, 3: 6}[N] if top >= 30 else top + 1
    return tensor_table(oracle.fock_probs(mu, cov, cut, hb), 10**6)


@sub(P, case_s, quick=42, thorough=1600, shards=7, group="s", threads=1)
def states(case, ctx):
    """hafnian_sample_state and generate_hafnian_sample follow the exact photon statistics conditioned on the photon limit (joint, single modes and total); non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N = case["s"]["N"]
    ctx.nontrivial(N > 1)
    top, how = case["top"], case["how"]
    n = 600 if case["parallel"] and how == "state" else 1500
    ctx.label(f"max_photons={top}", how, *(["parallel"] if case["parallel"] and how == "state" else []))
    args = {} if hb == 2 and case["seed"] % 2 else {"hbar": hb}
    if gen.is_displaced(case["s"]) or case["seed"] % 3:
        args["mean"] = mu
    np.random.seed(case["seed"] % 2**32)
    if how == "single":
        smp = []
        while len(smp) < n:
            r = sm.generate_hafnian_sample(cov, cutoff=16, max_photons=top, **args)
            if not isinstance(r, (int, np.integer)):
                smp.append(r)
    else:
        smp = sm.hafnian_sample_state(cov, n, cutoff=16, max_photons=top, parallel=case["parallel"] and how == "state", **args)
        ctx.require(np.shape(smp) == (n, N), lambda: f"shape {np.shape(smp)}")
    t = state_table(mu, cov, hb, top)
    if top < 30:
        t = conditional(t, top)
    stats.compare_all(ctx, smp, t, f"hafnian sampling ({how})")


@st.composite
def case_g(draw):
    return dict(n=draw(st.sampled_from([3, 2, 4, 1])), kind=draw(st.sampled_from(["weighted", "complex", "graph", "signed"])), seed=draw(gen.seeds),
                mean=draw(st.sampled_from([0.8, 0.3, 1.2])), top=draw(st.sampled_from([4, 2, 6])))


def scaled(A, mean):
    sv = np.linalg.svd(A, compute_uv=False)
    lo, hi = 0.0, 1 / sv[0]
    for _ in range(200):
        x = (lo + hi) / 2
        s = (x * sv) ** 2
        lo, hi = (x, hi) if np.sum(s / (1 - s)) < mean else (lo, x)
    return x * A


def mat_graph(c):
    n, rng = c["n"], np.random.default_rng(c["seed"])
    if c["kind"] == "graph":
        A = np.triu(rng.random((n, n)) < 0.7, 1).astype(int)
    elif c["kind"] == "signed":
        A = rng.integers(-2, 3, (n, n))
    elif c["kind"] == "complex":
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    else:
        A = rng.random((n, n))
    A = np.triu(A) + np.triu(A, 1).T
    return A if np.abs(A).max() > 0 else A + 1


def graph_table(A, top):
    n = len(A)
    t = {}
    for i in itertools.product(range(top + 1), repeat=n):
        if sum(i) <= top:
            t[i] = abs(oracle.rep_haf(A, list(i))) ** 2 / math.prod(math.factorial(k) for k in i)
    return conditional(t, top)


@sub(P, case_g, quick=14, thorough=600, shards=7, group="s", threads=1)
def graphs(case, ctx):
    """hafnian_sample_graph samples patterns with probability |haf(xA_n)|^2/n! conditioned on the photon limit; non-trivial: at least two vertices"""
    A = mat_graph(case)
    ctx.nontrivial(len(A) > 1)
    ctx.label(case["kind"], f"top={case['top']}", f"n={len(A)}")
    np.random.seed(case["seed"] % 2**32)
    smp = sm.hafnian_sample_graph(A, case["mean"], samples=2000, cutoff=16, max_photons=case["top"])
    stats.compare_all(ctx, smp, graph_table(scaled(A, case["mean"]), case["top"]), "hafnian_sample_graph")


@st.composite
def case_t(draw):
    m = draw(st.sampled_from([2, 1, 3]))
    return dict(m=m, c=draw(st.sampled_from([3, 2, 4, 1, 5])), seed=draw(gen.seeds), total=draw(st.sampled_from([1.0, 0.8, 0.3, 1.0, 2.5])), zeros=draw(st.booleans()),
                oob=draw(st.sampled_from([False, -1, "out", True, False, None, 0, "", 7])))


@sub(P, case_t, quick=120, thorough=3000, shards=2, group="s", threads=1)
def tables(case, ctx):
    """photon_number_sampler reproduces its table, renormalised or with the missing mass reported as out of bounds; non-trivial: several modes or missing mass"""
    rng = np.random.default_rng(case["seed"])
    p = rng.random((case["c"],) * case["m"]) ** 2
    if case["zeros"]:
        p = p * (rng.random(p.shape) < 0.6)
    if p.sum() < 1e-3:
        p[(0,) * case["m"]] = 1.0
    oob = case["oob"]
    tot = case["total"] if oob is False else min(case["total"], 1.0)
    p = p / p.sum() * tot
    ctx.nontrivial(case["m"] > 1 or tot < 1)
    ctx.label(f"m={case['m']}", f"oob={oob}", f"sum={tot}")
    n = 3000
    np.random.seed(case["seed"] % 2**32)
    smp = sm.photon_number_sampler(p, n, **({} if oob is False else {"out_of_bounds": oob}))
    ctx.require(len(smp) == n, f"{len(smp)} samples instead of {n}")
    flag = "out of bounds"
    out = [flag if (oob is not False and not isinstance(s, tuple) and s == oob) else tuple(int(x) for x in s) for s in smp]
    t = {i: float(p[i]) for i in np.ndindex(p.shape)}
    if oob is False:
        t = {i: q / tot for i, q in t.items()}
    else:
        t[flag] = max(1 - tot, 0.0) if tot < 1 else 0.0
    for i in set(out):
        ctx.require(i in t and (t[i] > 0), lambda: f"the impossible outcome {i} was drawn")
    stats.compare(ctx, out, t, "photon_number_sampler", kmax=130)


@st.composite
def case_big(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3])), r=draw(st.sampled_from([4.0, 3.0, 5.0])), seed=draw(gen.seeds), hbar=draw(gen.hbars))


@sub(P, case_big, quick=24, thorough=600, group="s", threads=1)
def strongly_squeezed(case, ctx):
    """strongly squeezed pure states (where rounding makes the Williamson form slightly unphysical) are sampled without failure; non-trivial: several modes"""
    N = case["N"]
    rng = np.random.default_rng(case["seed"])
    S = oracle.passive(gen.haar(N, rng)) @ np.diag(np.exp(np.repeat([-case["r"], case["r"]], N)))
    cov = S @ S.T * case["hbar"] / 2
    cov = (cov + cov.T) / 2
    ctx.nontrivial(N > 1)
    ctx.label(f"r={case['r']}")
    np.random.seed(case["seed"] % 2**32)
    for _ in range(2):
        r = sm.generate_hafnian_sample(cov, hbar=case["hbar"], cutoff=6, max_photons=100)
        ctx.require(isinstance(r, (int, np.integer)) or len(r) == N, f"sample {r}")


@st.composite
def case_order(draw):
    n = draw(st.integers(1, 9))
    return dict(p=list(draw(st.permutations(list(range(n))))), s=draw(gen.state(1, 6, max_r=1.0, max_nb=1.0, max_a=1.0)))


@sub(P, case_order, quick=300, thorough=6000, group="t")
def orderings(case, ctx):
    """invert_permutation inverts every permutation; photon_means_order sorts the modes by mean photon number; non-trivial: a permutation that is not its own inverse"""
    p = np.array(case["p"])
    inv = sm.invert_permutation(p)
    n = len(p)
    ctx.nontrivial(bool((p[p] != np.arange(n)).any()))
    ctx.require(np.array_equal(np.asarray(inv)[p], np.arange(n)) and np.array_equal(p[inv], np.arange(n)), lambda: f"invert_permutation({list(p)}) = {list(inv)}")
    mu, cov, hb = gen.mat_state(case["s"])
    N = case["s"]["N"]
    o = np.asarray(sm.photon_means_order(mu, cov, hbar=hb))
    ctx.require(sorted(o.tolist()) == list(range(N)), lambda: f"photon_means_order returned {o}")
    m = [oracle.moment(mu, cov, tuple(int(k == j) for k in range(N)), hb) for j in range(N)]
    ctx.require(all(m[a] <= m[b] + 1e-9 * (1 + m[b]) for a, b in zip(o, o[1:])), lambda: f"means {m} in the order {o}")


@st.composite
def case_many(draw):
    return dict(s=draw(gen.state(4, 6, max_r=0.7, max_nb=0.3, max_a=0.7, distinct=True)), seed=draw(gen.seeds), how=draw(st.sampled_from(["state", "single"])))


@sub(P, case_many, quick=14, thorough=500, shards=7, group="s", threads=1)
def many_modes(case, ctx):
    """hafnian sampling of four to six modes: the laws of all single modes and of all neighbouring pairs of modes; non-trivial: always"""
    mu, cov, hb = gen.mat_state(case["s"])
    N, n = case["s"]["N"], 700
    ctx.label(f"N={N}", case["how"])
    ctx.nontrivial(True)
    np.random.seed(case["seed"] % 2**32)
    if case["how"] == "state":
        smp = sm.hafnian_sample_state(cov, n, mean=mu, hbar=hb, cutoff=14, max_photons=60)
    else:
        smp = []
        while len(smp) < n:
            r = sm.generate_hafnian_sample(cov, mean=mu, hbar=hb, cutoff=14, max_photons=60)
            if not isinstance(r, (int, np.integer)):
                smp.append(r)
    smp = [tuple(int(x) for x in r) for r in smp]
    ctx.require(all(len(r) == N for r in smp), "length of a sample")
    for i, j in [(k, (k + 1) % N) for k in range(N)]:
        ix = [i, j, i + N, j + N]
        p = oracle.fock_probs(mu[ix], cov[np.ix_(ix, ix)], 10, hb)
        t = tensor_table(p, 10**6)
        stats.compare(ctx, [(r[i], r[j]) for r in smp], t, f"modes {i} and {j} of {N}")
        stats.compare(ctx, [r[i] for r in smp], stats.fold(t, lambda o: o[0]), f"mode {i} of {N}")
