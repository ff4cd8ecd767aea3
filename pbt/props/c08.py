"""C08: torontonians and Gaussian threshold probabilities match inclusion-exclusion."""
import itertools

import numpy as np
from hypothesis import strategies as st

from thewalrus import tor, ltor, threshold_detection_prob
from thewalrus._torontonian import numba_tor, numba_ltor, numba_vac_prob, rec_torontonian, rec_ltorontonian
from pbt import gen, oracle
from pbt.core import sub

P = "C08"


def omat(mu, cov, hb):
    """(O, gamma) of a state, from the definitions."""
    N = len(cov) // 2
    R = np.block([[np.eye(N), 1j * np.eye(N)], [np.eye(N), -1j * np.eye(N)]]) / np.sqrt(2 * hb)
    Q = R @ cov @ R.conj().T + np.eye(2 * N) / 2
    Qi = np.linalg.inv(Q)
    return np.eye(2 * N) - Qi, (Qi @ (R @ mu)).conj(), Q, R @ mu


@st.composite
def case_tor(draw):
    s = draw(gen.state(1, 5, max_r=1.0, max_nb=1.0, max_a=1.0))
    return dict(s=s, real=draw(st.booleans()), order=draw(st.sampled_from(["C", "C", "F"])))


@sub(P, case_tor, quick=250, thorough=5000, group="a")
def torontonians(case, ctx):
    """tor/ltor, recursive and direct, against the signed subset sum; non-trivial: N >= 2"""
    mu, cov, hb = gen.mat_state(case["s"])
    N = case["s"]["N"]
    if case["real"]:
        # real O: no x-p correlations, no p displacement
        r = np.linspace(-0.7, 0.9, N)
        Q_, _ = np.linalg.qr(np.random.default_rng(case["s"]["useed"]).normal(size=(N, N)))
        cov = hb / 2 * np.block([[Q_ @ np.diag(np.exp(-2 * r) * 1.3) @ Q_.T, np.zeros((N, N))],
                                 [np.zeros((N, N)), Q_ @ np.diag(np.exp(2 * r) * 1.3) @ Q_.T]])
    O, g, _, _ = omat(mu, cov, hb)
    if case["real"]:
        O, g = O.real, np.concatenate([g[:N].real, g[:N].real])
    O = gen.layout(np.array(O), case["order"])
    ctx.nontrivial(N >= 2)
    ctx.label("N=%d" % N, "real" if case["real"] else "complex", case["order"])
    gen.label_state(ctx, case["s"])
    w = oracle.tor(O)
    mag = 1.0 + sum(1 / np.sqrt(abs(np.linalg.det(np.eye(2 * len(S)) - O[np.ix_(list(S) + [k + N for k in S], list(S) + [k + N for k in S])])))
                    for S in oracle.subsets(N) if S)
    for rec in (True, False):
        ctx.close(tor(O, recursive=rec), w, f"tor(recursive={rec}), N={N}", 1e-9, 1e-10, mag)
    w = oracle.ltor(O, g)
    big = mag * float(np.exp(0.5 * np.abs(g) @ np.abs(np.linalg.inv(np.eye(2 * N) - O)) @ np.abs(g)))
    for rec in (True, False):
        ctx.close(ltor(O, g, recursive=rec), w, f"ltor(recursive={rec}), N={N}", 1e-9, 1e-10, big)
    ctx.close(ltor(O, 0 * g), oracle.tor(O), "ltor without displacement", 1e-9, 1e-10, mag)


@st.composite
def case_state(draw, lo=1, hi=4):
    return dict(s=draw(gen.state(lo, hi, max_r=1.0, max_nb=1.0, max_a=1.2)), seq=draw(st.sampled_from(["tuple", "list", "array"])))


CONV = {"tuple": tuple, "list": list, "array": np.array}


@sub(P, case_state, quick=250, thorough=5000, group="b", shards=2)
def click_patterns(case, ctx):
    """threshold_detection_prob of every pattern against inclusion-exclusion of vacuum probabilities; non-negative, sums to one"""
    mu, cov, hb = gen.mat_state(case["s"])
    N = case["s"]["N"]
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(N >= 2)
    tot = 0.0
    for d in itertools.product(range(2), repeat=N):
        g = threshold_detection_prob(mu, cov, CONV[case["seq"]](d), hbar=hb)
        ctx.close(g, oracle.click_prob(mu, cov, d, hb), f"threshold_detection_prob({d})", 1e-8, 1e-9)
        ctx.require(np.real(g) > -1e-9, lambda: f"probability {g} of {d} is negative")
        tot += g
    ctx.close(tot, 1.0, "sum over click patterns", 1e-8, 1e-9)


@st.composite
def case_marg(draw):
    s = draw(gen.state(2, 4, max_r=1.0, max_nb=1.0, max_a=1.2))
    modes = draw(st.permutations(list(range(s["N"]))))[: draw(st.integers(1, s["N"] - 1))]
    return dict(s=s, modes=list(modes), d=draw(st.lists(st.integers(0, 1), min_size=len(modes), max_size=len(modes))))


@sub(P, case_marg, quick=150, thorough=3000, group="b")
def marginals(case, ctx):
    """summing a pattern over unlisted modes gives the pattern probability of the reduced state"""
    mu, cov, hb = gen.mat_state(case["s"])
    N, modes, d = case["s"]["N"], case["modes"], case["d"]
    ix = modes + [m + N for m in modes]
    want = threshold_detection_prob(mu[ix], cov[np.ix_(ix, ix)], np.array(d), hbar=hb)
    ctx.nontrivial(len(modes) >= 2 or N - len(modes) >= 2)
    gen.label_state(ctx, case["s"])
    tot = 0.0
    rest = [m for m in range(N) if m not in modes]
    for e in itertools.product(range(2), repeat=len(rest)):
        p = np.zeros(N, dtype=int)
        p[modes] = d
        p[rest] = e
        tot += threshold_detection_prob(mu, cov, p, hbar=hb)
    ctx.close(tot, want, f"marginal of {modes}={d}", 1e-8, 1e-9)


@sub(P, lambda: case_state(1, 5), quick=100, thorough=2000, group="a")
def vacuum(case, ctx):
    """numba_vac_prob against the Gaussian vacuum overlap"""
    mu, cov, hb = gen.mat_state(case["s"])
    _, _, Q, a = omat(mu, cov, hb)
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(gen.is_displaced(case["s"]))
    ctx.close(numba_vac_prob(a, Q), oracle.vac_prob(mu, cov, range(case["s"]["N"]), hb), "numba_vac_prob", 1e-9, 1e-10)


@st.composite
def case_large(draw):
    return dict(s=draw(gen.state(6, 7, max_r=0.8, max_nb=0.6, max_a=0.6)), off=draw(st.lists(st.integers(0, 6), max_size=2)))


@sub(P, case_large, quick=12, thorough=200, group="a")
def larger(case, ctx):
    """as above for 6-7 modes, patterns with at most two silent modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    N = case["s"]["N"]
    d = np.ones(N, dtype=int)
    d[[o for o in case["off"] if o < N]] = 0
    gen.label_state(ctx, case["s"])
    ctx.close(threshold_detection_prob(mu, cov, d, hbar=hb), oracle.click_prob(mu, cov, d, hb), f"threshold_detection_prob({d})", 1e-8, 1e-9)
    O, g, _, _ = omat(mu, cov, hb)
    ctx.close(ltor(O, g, recursive=True), ltor(O, g, recursive=False), "ltor recursive against direct", 1e-8, 1e-8)
    ctx.close(tor(O, recursive=True), tor(O, recursive=False), "tor recursive against direct", 1e-8, 1e-8)


@sub(P, lambda: gen.extreme(1, 4), quick=150, thorough=3000, group="b")
def extremes(case, ctx):
    """click patterns of strongly squeezed, noisy and displaced states and of nearly vacuum states, to rounding accuracy"""
    mu, cov, hb = gen.mat_state(case)
    N = case["N"]
    gen.label_state(ctx, case)
    ctx.label(str(case["ex"]))
    ctx.nontrivial(N >= 2)
    for d in itertools.product(range(2), repeat=N):
        g = threshold_detection_prob(mu, cov, np.array(d), hbar=hb)
        ctx.close(g, oracle.click_prob(mu, cov, d, hb), f"threshold_detection_prob({d}), {case['ex']} state", 1e-9, 1e-12)


@st.composite
def case_faint(draw):
    N = draw(st.integers(1, 4))
    return dict(N=N, r=draw(st.lists(st.sampled_from([0.0, 0.5, -0.5, 1.5, -1.5, 3.0, -3.0]), min_size=N, max_size=N)), logd=draw(st.sampled_from([-3.5, -2.5, -4.0, -3.0, -5.0, -6.0])),
                mix=draw(st.booleans()), nb=draw(st.sampled_from([0.0, 0.0, 0.1])), seed=draw(gen.seeds), hbar=draw(gen.hbars))


@sub(P, case_faint, quick=250, thorough=6000, group="b")
def faint_displacements(case, ctx):
    """faint displacements, along or across the squeezed quadratures, change the click probabilities as they should; non-trivial: displacement with a visible effect"""
    N, hb = case["N"], case["hbar"]
    rng = np.random.default_rng(case["seed"])
    r = np.array(case["r"])
    cov = np.diag(np.exp(np.concatenate([-2 * r, 2 * r]))) * (1 + 2 * case["nb"])
    mu = rng.normal(size=2 * N) * 10 ** case["logd"]
    if case["mix"]:
        X = oracle.passive(gen.haar(N, rng))
        cov, mu = X @ cov @ X.T, X @ mu
    cov, mu = (cov + cov.T) / 2 * hb / 2, mu * np.sqrt(hb / 2)
    ctx.label(f"displacement 1e{case['logd']}", f"r={np.abs(r).max()}", "mixed" if case["nb"] else "pure")
    vis = 0.0
    for d in itertools.product(range(2), repeat=N):
        want = oracle.click_prob(mu, cov, d, hb)
        vis = max(vis, abs(want - oracle.click_prob(0 * mu, cov, d, hb)))
        # below 1e-8 displacements count as zero; that changes nothing here
        ctx.close(threshold_detection_prob(mu, cov, np.array(d), hbar=hb), want, f"threshold_detection_prob({d})", 1e-12, 2e-13)
    ctx.nontrivial(vis > 1e-12)
