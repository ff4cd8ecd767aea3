"""C28: threshold samplers draw from the click distribution of the Gaussian state."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import samples as sm
from pbt import gen, oracle, stats
from pbt.core import sub
from pbt.props.c27 import mat_graph, scaled, conditional

P = "C28"


def table(mu, cov, hb, top):
    D = oracle.click_distribution(mu, cov, hb)
    t = {i: float(D[i]) for i in itertools.product((0, 1), repeat=len(mu) // 2)}
    return conditional(t, top)


@st.composite
def case_s(draw):
    weak = draw(st.sampled_from([False, False, False, True]))
    k = 0.12 if weak else 1.0
    s = draw(gen.state(1, 4, max_r=0.6 * k, max_nb=0.4 * k * k, max_a=1.0 * k, distinct=draw(st.sampled_from([True, True, False]))))
    N = s["N"]
    return dict(s=s, seed=draw(gen.seeds), top=draw(st.sampled_from([30, N, max(1, N - 1), 1, N])), weak=weak, how=draw(st.sampled_from(["state", "state", "single"])),
                fan=draw(st.sampled_from([[10, 8], [5, 10], [2, 14], [1, 18], [3, 12]])), parallel=draw(st.sampled_from([False, False, False, False, True])))


@sub(P, case_s, quick=42, thorough=1600, shards=7, group="s", threads=1)
def states(case, ctx):
    """torontonian_sample_state and generate_torontonian_sample follow the exact click law conditioned on the click limit, for every fan-out; non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, top, how = case["s"]["N"], case["top"], case["how"]
    ctx.nontrivial(N > 1)
    par = case["parallel"] and how == "state"
    n = 500 if par else 1500
    # the defaults (fan-out 10 with one photon per branch) are accurate for weak states only
    args = {} if case["weak"] else dict(fanout=case["fan"][0], cutoff=case["fan"][1])
    ctx.label(f"limit={'none' if top >= N else top}", how, "default fan-out" if case["weak"] else f"fan-out={case['fan'][0]}", *(["parallel"] if par else []))
    if not (hb == 2 and case["seed"] % 2):
        args["hbar"] = hb
    if gen.is_displaced(case["s"]) or case["seed"] % 3:
        args["mu"] = mu
    np.random.seed(case["seed"] % 2**32)
    if how == "single":
        smp = []
        while len(smp) < n:
            r = sm.generate_torontonian_sample(cov, max_photons=top, **args)
            if not isinstance(r, (int, np.integer)):
                smp.append(r)
    else:
        smp = sm.torontonian_sample_state(cov, n, max_photons=top, parallel=par, **args)
        ctx.require(np.shape(smp) == (n, N), lambda: f"shape {np.shape(smp)}")
    stats.compare_all(ctx, smp, table(mu, cov, hb, top), f"threshold sampling ({how})")


@st.composite
def case_g(draw):
    return dict(n=draw(st.sampled_from([3, 2, 4, 1])), kind=draw(st.sampled_from(["weighted", "complex", "graph", "signed"])), seed=draw(gen.seeds),
                mean=draw(st.sampled_from([0.8, 0.3, 1.2])), top=draw(st.sampled_from([4, 2, 3])))


@sub(P, case_g, quick=14, thorough=600, shards=7, group="s", threads=1)
def graphs(case, ctx):
    """torontonian_sample_graph follows the click law of the graph state conditioned on the click limit; non-trivial: at least two vertices"""
    A = mat_graph(case)
    n = len(A)
    ctx.nontrivial(n > 1)
    ctx.label(case["kind"], f"n={n}")
    np.random.seed(case["seed"] % 2**32)
    smp = sm.torontonian_sample_graph(A, case["mean"], samples=1500, max_photons=case["top"], fanout=5, cutoff=10)
    # click law from photon-number weights |haf(xA_n)|^2/n!, by inclusion-exclusion on the vacuum probabilities
    B = scaled(A, case["mean"])
    vac = {}
    for k in range(n + 1):
        for off in itertools.combinations(range(n), k):
            on = [i for i in range(n) if i not in off]
            # vacuum on ``off``: trace over ``on`` of the state with kernel exp(z.B.z/2)
            Bon = B[np.ix_(on, on)]
            s = np.linalg.svd(Bon, compute_uv=False) if on else np.zeros(0)
            vac[off] = math.prod(1 / math.sqrt(1 - x * x) for x in s)
    tot = vac[()]
    t = {}
    for c in itertools.product((0, 1), repeat=n):
        off = [i for i in range(n) if not c[i]]
        on = [i for i in range(n) if c[i]]
        t[c] = sum((-1) ** k * vac[tuple(sorted(off + list(e)))] for k in range(len(on) + 1) for e in itertools.combinations(on, k)) / tot
    stats.compare_all(ctx, smp, conditional(t, case["top"]), "torontonian_sample_graph")


@st.composite
def case_m(draw):
    return dict(s=draw(gen.state(5, 7, max_r=0.4, max_nb=0.15, max_a=0.5, distinct=True)), seed=draw(gen.seeds), top=draw(st.sampled_from([30, 3, 5])), fan=draw(st.sampled_from([[5, 6], [8, 4]])))


@sub(P, case_m, quick=5, thorough=300, shards=5, group="m", threads=1)
def many_modes(case, ctx):
    """five to seven modes: the click law, the law of every mode, of every pair and of the total; non-trivial: always"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N = case["s"]["N"]
    ctx.nontrivial(True)
    ctx.label(f"N={N}", f"limit={case['top']}")
    np.random.seed(case["seed"] % 2**32)
    smp = sm.torontonian_sample_state(cov, 1000, mu=mu, hbar=hb, max_photons=case["top"], fanout=case["fan"][0], cutoff=case["fan"][1])
    t = table(mu, cov, hb, case["top"])
    stats.compare_all(ctx, smp, t, "threshold sampling", [(f"modes {i} and {j}", (lambda i, j: lambda s: (s[i], s[j]))(i, j)) for i, j in itertools.combinations(range(N), 2)])
