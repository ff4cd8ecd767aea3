"""C16: click means, variances and cumulants are those of the threshold distribution."""
import itertools

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import mean_clicks, variance_clicks, click_cumulant
from pbt import gen, oracle
from pbt.core import sub

P = "C16"


@sub(P, lambda: gen.state(1, 6, max_r=1.5, max_nb=2.0, displaced=False), quick=400, thorough=8000, group="a")
def mean_variance(case, ctx):
    """mean_clicks and variance_clicks against the exact joint click distribution; non-trivial: at least two modes with photons"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N = case["N"]
    p = oracle.click_distribution(mu, cov, hb)
    n = sum(np.indices(p.shape))
    m = (p * n).sum()
    v = (p * (n - m) ** 2).sum()
    ctx.nontrivial(N >= 2 and m > 0.05)
    ctx.close(mean_clicks(cov, hbar=hb), m, f"mean_clicks (N={N})", 1e-8, 1e-9)
    ctx.close(variance_clicks(cov, hbar=hb), v, f"variance_clicks (N={N})", 1e-8, 1e-9)


@st.composite
def case2(draw):
    s = draw(gen.state(1, 6, max_r=1.2, max_nb=1.0, max_a=1.2))
    N = s["N"]
    k = draw(st.sampled_from([min(3, N), min(2, N), min(4, N), 1, min(5, N)]))
    modes = list(draw(st.permutations(list(range(N))))[:k])
    if draw(st.sampled_from([False, True])):  # some modes several times, anywhere in the list
        modes += draw(st.lists(st.sampled_from(modes), min_size=1, max_size=min(2, 5 - k)) if k < 5 else st.just([]))
        modes = list(draw(st.permutations(modes)))
    return dict(s=s, modes=modes, arr=draw(st.booleans()))


@sub(P, case2, quick=250, thorough=5000, group="b")
def cumulants(case, ctx):
    """click_cumulant of modes in any order, repeated or not, is the joint cumulant of the click variables; non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    md = case["modes"]
    ctx.nontrivial(len(md) >= 2)
    ctx.label("order=%d" % len(md), "repeated" if len(set(md)) < len(md) else "distinct")
    memo = {}

    def E(items):
        S = tuple(sorted(set(items)))
        if S not in memo:
            memo[S] = sum((-1) ** len(T) * oracle.vac_prob(mu, cov, [S[t] for t in T], hb) for T in oracle.subsets(len(S)))
        return memo[S]

    want = oracle.cumulant(E, md)
    got = click_cumulant(mu, cov, np.array(md) if case["arr"] else list(md), hbar=hb)
    ctx.close(got, want, f"click_cumulant({md})", 1e-8, 1e-9)


@sub(P, lambda: gen.state(2, 4, max_r=1.0, max_nb=1.0, displaced=False), quick=100, thorough=2000, group="b")
def consistency(case, ctx):
    """mean = sum of first cumulants, variance = sum of m(1-m) and twice the pair cumulants; non-trivial: correlated clicks"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N = case["N"]
    k1 = [click_cumulant(mu, cov, [j], hbar=hb) for j in range(N)]
    k2 = {(i, j): click_cumulant(mu, cov, [i, j], hbar=hb) for i, j in itertools.permutations(range(N), 2)}
    ctx.nontrivial(max(abs(x) for x in k2.values()) > 1e-3)
    for i, j in k2:
        ctx.close(k2[i, j], k2[j, i], f"symmetry of the cumulant of {i}, {j}", 1e-9, 1e-10)
    ctx.close(mean_clicks(cov, hbar=hb), sum(k1), "mean_clicks vs first cumulants", 1e-8, 1e-9)
    ctx.close(variance_clicks(cov, hbar=hb), sum(m * (1 - m) for m in k1) + sum(k2.values()), "variance_clicks vs cumulants", 1e-8, 1e-9)


@sub(P, lambda: gen.extreme(1, 4), quick=150, thorough=3000, group="b")
def extremes(case, ctx):
    """strongly squeezed, noisy and displaced states and nearly vacuum states, to rounding accuracy; non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N = case["N"]
    ctx.label(str(case["ex"]))
    ctx.nontrivial(N >= 2)
    p = oracle.click_distribution(mu, cov, hb)
    n = np.indices(p.shape)
    md = list(np.random.default_rng(case["useed"]).permutation(N)[: min(N, 3)])
    want = oracle.cumulant(lambda it: (p * np.prod([n[i] for i in set(it)], axis=0)).sum(), md)
    ctx.close(click_cumulant(mu, cov, [int(m) for m in md], hbar=hb), want, f"click_cumulant({md})", 1e-9, 2e-13)
    if not case["ma"]:
        m = (p * sum(n)).sum()
        ctx.close(mean_clicks(cov, hbar=hb), m, "mean_clicks", 1e-9, 2e-13)
        ctx.close(variance_clicks(cov, hbar=hb), (p * (sum(n) - m) ** 2).sum(), "variance_clicks", 1e-9, 2e-13)


@st.composite
def case_high_order(draw):
    s = draw(gen.state(1, 7, max_r=1.2, max_nb=1.0, max_a=1.2))
    N = s["N"]
    size = draw(st.sampled_from([6, 7, 6, 5]))
    modes = list(draw(st.permutations(list(range(N))))[:size])
    modes += draw(st.lists(st.sampled_from(modes), min_size=size - len(modes), max_size=size - len(modes)))
    return dict(s=s, modes=list(draw(st.permutations(modes))), arr=draw(st.booleans()))


@sub(P, case_high_order, quick=40, thorough=800, group="b")
def high_order(case, ctx):
    """click_cumulant of five to seven modes, repeated or not; non-trivial: at least three different modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    md = case["modes"]
    ctx.nontrivial(len(set(md)) >= 3)
    ctx.label("order=%d" % len(md), "modes=%d" % len(set(md)))
    memo = {}

    def E(items):
        S = tuple(sorted(set(items)))
        if S not in memo:
            memo[S] = sum((-1) ** len(T) * oracle.vac_prob(mu, cov, [S[t] for t in T], hb) for T in oracle.subsets(len(S)))
        return memo[S]

    want = oracle.cumulant(E, md)
    # up to 720 times the product of the click probabilities is added and subtracted
    scale = max(1.0, max(E([i]) for i in md) ** len(md) * 100)
    ctx.close(click_cumulant(mu, cov, np.array(md) if case["arr"] else list(md), hbar=hb), want, f"click_cumulant({md})", 1e-8, 1e-9, scale=scale)
