"""C17: total photon-number distributions and generating functions are exact."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln

from thewalrus.quantum import pure_state_distribution, total_photon_number_distribution, characteristic_function
from pbt import gen, oracle
from pbt.core import sub

P = "C17"


def sq_even(s, k, nmax):
    """Distribution of the total photon number of k squeezed vacua (negative binomial on even numbers)."""
    out = np.zeros(nmax + 1)
    t = abs(math.tanh(s))
    for m in range(nmax // 2 + 1):
        if t == 0:
            out[0] = 1.0
            break
        out[2 * m] = math.exp(gammaln(k / 2 + m) - gammaln(k / 2) - gammaln(m + 1) - k * math.log(math.cosh(s)) + 2 * m * math.log(t))
    return out


def thinned(s, k, eta, nmax):
    """Exact distribution after binomial loss, by summing over the photon number before the loss."""
    t = abs(math.tanh(s))
    big = nmax + 60
    if 0 < t:
        while (t**2 * (1 - eta) ** 2) ** ((big - nmax) / 2) * (big + 1.0) ** (k + nmax * (eta > 0)) > 1e-25 and big < 4000:
            big += 100
    p = sq_even(s, k, big)
    n = np.arange(big + 1)
    out = np.zeros(nmax + 1)
    for j in range(nmax + 1):
        if eta == 1:
            out[j] = p[j]
        elif eta == 0:
            out[j] = p.sum() if j == 0 else 0
        else:
            m = n[j:]
            w = np.exp(gammaln(m + 1) - gammaln(j + 1) - gammaln(m - j + 1) + j * math.log(eta) + (m - j) * math.log1p(-eta))
            out[j] = (w * p[j:]).sum()
    return out


SQ = [0.7, 0.3, 1.0, 0.0, 1.4, -0.6, 0.05]
ET = [0.5, 1.0, 0.8, 0.25, 0.0, 0.95, 0.6]


@st.composite
def case_tot(draw):
    return dict(s=draw(st.one_of(st.sampled_from(SQ), st.integers(-140, 140).map(lambda k: k / 100))),
                eta=draw(st.one_of(st.sampled_from(ET), st.integers(0, 100).map(lambda k: k / 100))),
                k=draw(st.sampled_from([3, 1, 2, 5, 8, 4, 12])), nmax=draw(st.sampled_from([9, 20, 5, 35])),
                pref=draw(st.sampled_from([1.0, 1.0, 0.7, 1.2])))


@sub(P, case_tot, quick=1500, thorough=6000, group="a")
def lossy_squeezers(case, ctx):
    """total_photon_number_distribution against the thinned negative binomial law; non-trivial: 0 < eta < 1 and s != 0"""
    s, eta, k, nmax, pref = (case[x] for x in ("s", "eta", "k", "nmax", "pref"))
    ctx.nontrivial(s != 0 and 0 < eta < 1)
    ctx.label(f"k={k}", "odd k" if k % 2 else "even k", "lossless" if eta == 1 else "lossy", "s<0" if s < 0 else "s>=0")
    want = thinned(s, k, eta, nmax) * pref ** np.arange(nmax + 1)
    got = [total_photon_number_distribution(n, k, s, eta, pref=pref) for n in range(nmax + 1)]
    ctx.close(got, want, f"total_photon_number_distribution(n, {k}, {s}, {eta}, pref={pref})", 1e-7, 1e-13)


@st.composite
def case_far(draw):
    return dict(s=draw(st.sampled_from([2.5, 0.7, 1.4, 2.0, -1.0, 0.2])), eta=draw(st.sampled_from([0.25, 0.5, 0.05, 0.9, 1.0, 0.7])), k=draw(st.sampled_from([1, 3, 2, 8])),
                n=draw(st.sampled_from([100, 200, 301, 528, 601, 800, 1169, 1500])), off=draw(st.integers(0, 40)))


@sub(P, case_far, quick=200, thorough=4000, group="a")
def far_tail(case, ctx):
    """probabilities of hundreds of photons are finite and equal the thinned law; non-trivial: probability above 1e-12"""
    s, eta, k, n = case["s"], case["eta"], case["k"], case["n"] + case["off"]
    # sum over the number of photons before the loss, in logarithms
    N = np.arange(n + n % 2 if eta == 1 else 2 * ((n + 1) // 2), (n + 2 if eta == 1 else 40 * n), 2)
    if eta == 1:
        N = N[N == n]
    m = N / 2
    lp = gammaln(k / 2 + m) - gammaln(k / 2) - gammaln(m + 1) - k * math.log(math.cosh(s)) + 2 * m * math.log(abs(math.tanh(s)))
    if eta < 1:
        lp = lp + gammaln(N + 1) - gammaln(n + 1) - gammaln(N - n + 1) + n * math.log(eta) + (N - n) * math.log1p(-eta)
    top = lp.max() if len(lp) else -np.inf
    lw = top + math.log(np.exp(lp - top).sum()) if len(lp) else -np.inf
    ctx.nontrivial(lw > -27)
    ctx.label(f"n>={n // 400 * 400}", "zero" if lw == -np.inf else "1e%d" % (50 * int(lw / math.log(10) / 50)))
    got = total_photon_number_distribution(n, k, s, eta)
    ctx.require(np.isfinite(got) and got >= 0, lambda: f"total_photon_number_distribution({n}, {k}, {s}, {eta}) = {got}")
    if lw > -575:
        ctx.close(got, math.exp(lw), f"total_photon_number_distribution({n}, {k}, {s}, {eta})", 1e-8, 1e-15)  # a power below 1e-308 may underflow
    else:
        ctx.require(got < 1e-15, lambda: f"total_photon_number_distribution({n}, {k}, {s}, {eta}) = {got}, exact logarithm {lw}")


@st.composite
def case_norm(draw):
    return dict(s=draw(st.sampled_from([0.5, 0.2, -0.4, 0.8])), eta=draw(st.sampled_from(ET)), k=draw(st.sampled_from([3, 1, 2, 4])))


@sub(P, case_norm, quick=60, thorough=300, group="a")
def normalisation(case, ctx):
    """probabilities sum to one and have mean eta*k*sinh(s)^2; non-trivial: 0 < eta < 1"""
    s, eta, k = case["s"], case["eta"], case["k"]
    ctx.nontrivial(0 < eta < 1)
    p = np.array([total_photon_number_distribution(n, k, s, eta) for n in range(130)])
    ctx.close(p.sum(), 1.0, "sum of probabilities", 1e-9)
    ctx.close((p * np.arange(130)).sum(), eta * k * math.sinh(s) ** 2, "mean", 1e-8, 1e-10)


@st.composite
def case_ch(draw):
    return dict(s=draw(st.sampled_from([0.7, 0.3, 1.0, -0.6, 0.0, 0.1, 1.8, 2.5])), eta=draw(st.sampled_from(ET)), k=draw(st.sampled_from([3, 1, 2, 5, 8])),
                q=draw(st.sampled_from([0.5, 0.8, 0.2, 0.65, 0.05, 0.9, 0.97, "normal"])), m=draw(st.sampled_from([2, None, 1, 0, 3, 4])), neg=draw(st.sampled_from([False, False, True])))


@sub(P, case_ch, quick=1500, thorough=20000, group="c")
def characteristic(case, ctx):
    """characteristic_function is E[n^m exp(mu n)] for mu inside the convergence radius; non-trivial: lossy, mu != 0, m > 0"""
    s, eta, k, m = case["s"], case["eta"], case["k"], case["m"]
    t = abs(math.tanh(s))
    # successive (even) terms shrink like t^2 (1-eta+eta z)^2 in generating-function terms: the radius is where t (1 - eta + eta z) = 1
    if case["q"] == "normal":
        mu = 0.0
    elif s == 0 or eta == 0:
        mu = 0.3
    else:
        zmax = (1 / t - 1 + eta) / eta
        z = case["q"] * zmax
        mu = math.log(max(z, 1e-3))
    if case["neg"]:
        mu = -abs(mu)
        z = math.exp(mu)
    ctx.nontrivial(0 < eta < 1 and s != 0 and mu != 0 and bool(m))
    ctx.label(f"m={m}", "mu>0" if mu > 0 else "mu<=0", "lossless" if eta == 1 else "lossy")
    got = characteristic_function(k, s, eta, mu, poly_corr=m)
    z = math.exp(mu)
    # exact: sum over the photon number N before the loss, given which n ~ Bin(N, eta):
    # E[n^m z^n | N] = sum_j S(m, j) (N)_j (eta z)^j (1 - eta + eta z)^(N - j)
    big = 6000 if t * (1 - eta + eta * z) > 0.96 else 1200
    Nk = np.arange(0, big + 1.0, 2)
    lp = gammaln(k / 2 + Nk / 2) - gammaln(k / 2) - gammaln(Nk / 2 + 1) - k * math.log(math.cosh(s)) + Nk * math.log(t) if t else np.where(Nk == 0, 0.0, -np.inf)
    w = 1 - eta + eta * z
    mm = m or 0
    want = 0.0
    for j in range(mm + 1):
        c = oracle.stirling2(mm, j)
        if c:
            ff = np.prod([Nk - i for i in range(j)], axis=0) if j else np.ones_like(Nk)
            want += c * (eta * z) ** j * (ff * np.exp(lp + (Nk - j) * math.log(w))).sum()
    ctx.close(got, want, f"characteristic_function({k}, {s}, {eta}, {mu:.4f}, poly_corr={m})", 1e-7 if case["q"] in (0.9, 0.97) else 1e-9, 1e-13)


@st.composite
def case_pure(draw):
    return dict(s=draw(gen.state(1, 6, max_r=draw(st.sampled_from([1.2, 1.2, 1.8])), pure=True, displaced=False)), cut=draw(st.sampled_from([12, 7, 2, 1, 30, 50, 3, 51, 61, 75, 100, 151])),
                pad=draw(st.sampled_from([2, 1, 3])))


@sub(P, case_pure, quick=1000, thorough=6000, group="b")
def pure(case, ctx):
    """pure_state_distribution is the convolution of the single-mode laws of the squeezing spectrum; non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    cut, N = case["cut"], case["s"]["N"]
    ctx.nontrivial(N >= 2 and cut > 2)
    ctx.label(f"cutoff={cut}", f"pad={case['pad']}")
    r = 0.5 * np.log(np.sort(np.linalg.eigvalsh(cov))[N:] * 2 / hb)
    want = np.zeros(cut)
    want[0] = 1
    for x in r:
        want = np.convolve(want, sq_even(x, 1, cut))[:cut]
    got = pure_state_distribution(cov, cutoff=cut, hbar=hb, padding_factor=case["pad"])
    ctx.close(got, want, f"pure_state_distribution(N={N}, cutoff={cut}, padding_factor={case['pad']})", 1e-6, 1e-9)
    if N <= 3:
        c = {1: 9, 2: 6, 3: 4}[N]
        p = oracle.fock_probs(mu, cov, c, hb)
        tot = sum(np.indices(p.shape))
        full = [p[tot == n].sum() for n in range(min(c, cut))]
        ctx.close(got[: min(c, cut)], full, "sum of the joint distribution", 1e-6, 1e-9)
