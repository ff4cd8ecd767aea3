"""C14: loss is binomial thinning and noise is convolution, mode by mode."""
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import loss_mat, update_probabilities_with_loss, update_probabilities_with_noise, probabilities
from thewalrus.symplectic import loss
from pbt import gen, oracle
from pbt.core import sub

P = "C14"
ETAS = [0.37, 0.5, 1.0, 0.0, 0.9, 0.05, 0.001, 0.999, 0.6180339, 1 - 1e-5, 1 - 1e-7, 1 - 1e-9, 1e-6, 1e-9]


@st.composite
def case_mat(draw):
    return dict(eta=draw(st.one_of(st.sampled_from(ETAS), st.integers(0, 10**6).map(lambda k: k / 1e6))),
                eta2=draw(st.sampled_from(ETAS)), cut=draw(st.sampled_from([7, 2, 1, 3, 12, 25, 4, 60, 90])))


def binom_rows(eta, cut):
    L = np.zeros((cut, cut))
    for n in range(cut):
        for k in range(n + 1):
            L[n, k] = math.comb(n, k) * eta**k * (1 - eta) ** (n - k)
    return L


@sub(P, case_mat, quick=400, thorough=8000, group="a")
def matrix(case, ctx):
    """loss_mat rows are binomial distributions summing to one; loss_mat(a) loss_mat(b) = loss_mat(ab); non-trivial: 0 < eta < 1, cutoff > 1"""
    eta, e2, cut = case["eta"], case["eta2"], case["cut"]
    ctx.nontrivial(0 < eta < 1 and cut > 1)
    ctx.label("cut>20" if cut > 20 else "cut<=20", "edge" if eta in (0, 1) else "inside")
    L = loss_mat(eta, cut)
    ctx.close(L, binom_rows(eta, cut), f"loss_mat({eta}, {cut})", 1e-9, 1e-13)
    ctx.close(L.sum(axis=1), np.ones(cut), "row sums", 1e-10)
    ctx.close(L @ loss_mat(e2, cut), loss_mat(eta * e2, cut), f"composition {eta} {e2}", 1e-8, 1e-12)


@st.composite
def tensor(draw):
    M = draw(st.sampled_from([2, 3, 1, 4, 2, 3, 5, 10, 12]))
    cut = draw(st.sampled_from({1: [6, 2, 1, 15, 30], 2: [5, 2, 3, 9, 1], 3: [3, 4, 2, 5], 4: [3, 2], 5: [2, 3], 10: [2], 12: [2]}[M]))
    return dict(M=M, cut=cut, seed=draw(gen.seeds), kind=draw(st.sampled_from(["dense", "delta", "sparse", "int"])))


def mk(c):
    rng = np.random.default_rng(c["seed"])
    sh = (c["cut"],) * c["M"]
    p = rng.random(sh)
    if c["kind"] == "sparse":
        p = p * (rng.random(sh) < 0.3)
    if c["kind"] in ("delta", "int"):
        p = np.zeros(sh, dtype=int if c["kind"] == "int" else float)
        p[tuple(rng.integers(0, c["cut"], c["M"]))] = 1
        return p
    return p / max(p.sum(), 1e-9)


@st.composite
def case_loss(draw):
    t = draw(tensor())
    e = st.one_of(st.sampled_from(ETAS), st.integers(0, 1000).map(lambda k: k / 1000))
    return dict(t, etas=draw(st.lists(e, min_size=t["M"], max_size=t["M"])), etas2=draw(st.lists(e, min_size=t["M"], max_size=t["M"])))


@sub(P, case_loss, quick=300, thorough=6000, group="b")
def thinning(case, ctx):
    """update_probabilities_with_loss thins each mode with its own transmission, conserves mass, composes; non-trivial: several modes with different etas"""
    p, M = mk(case), case["M"]
    e, e2 = case["etas"], case["etas2"]
    ctx.nontrivial(M > 1 and len(set(e)) > 1 and case["cut"] > 1)
    ctx.label(f"M={M}", case["kind"])
    got = update_probabilities_with_loss(e, p)
    want = p
    for ax, eta in enumerate(e):
        want = oracle.binom_thin(want, eta, ax)
    ctx.close(got, want, f"loss {e} on a {p.shape} tensor", 1e-9, 1e-13)
    ctx.close(got.sum(), p.sum(), "total probability", 1e-10)
    ctx.close(update_probabilities_with_loss(e2, got), update_probabilities_with_loss([a * b for a, b in zip(e, e2)], p),
              "composition of losses", 1e-9, 1e-12)


@st.composite
def case_noise(draw):
    t = draw(tensor())
    return dict(t, lens=draw(st.lists(st.sampled_from([t["cut"], 1, 2, 3, t["cut"] + 2, 5]), min_size=t["M"], max_size=t["M"])))


@sub(P, case_noise, quick=250, thorough=5000, group="b")
def noise(case, ctx):
    """update_probabilities_with_noise convolves each mode with its own noise law; non-trivial: several modes"""
    p, M, cut = mk(case), case["M"], case["cut"]
    rng = np.random.default_rng(case["seed"] + 1)
    q = [rng.dirichlet(np.ones(k)) for k in case["lens"]]
    ctx.nontrivial(M > 1 and cut > 1)
    ctx.label(f"M={M}", case["kind"])
    got = update_probabilities_with_noise(q, p)
    want = np.asarray(p, float)
    for ax in range(M):
        want = np.apply_along_axis(lambda v: np.convolve(v, q[ax])[:cut], ax, want)
    ctx.close(got, want, f"noise of lengths {case['lens']} on a {p.shape} tensor", 1e-10, 1e-13)
    keep = np.zeros((cut + max(case["lens"]) + 8,) * M) if M <= 2 else None
    if keep is not None:
        # with room for every photon nothing is lost
        keep[(slice(0, cut),) * M] = p
        ctx.close(update_probabilities_with_noise(q, keep).sum(), float(p.sum()), "total probability with room", 1e-10)


@st.composite
def case_long(draw):
    M = draw(st.sampled_from([1, 2]))
    cut = draw(st.sampled_from({1: [20, 13, 40, 64, 100], 2: [14, 20, 26]}[M]))
    return dict(M=M, cut=cut, seed=draw(gen.seeds), kind=draw(st.sampled_from(["dense", "delta", "sparse", "int"])), lens=draw(st.lists(st.sampled_from([cut, cut + 3, cut - 2, 2 * cut]), min_size=M, max_size=M)))


@sub(P, case_long, quick=60, thorough=3000, group="b")
def long_noise(case, ctx):
    """high cutoffs and long noise distributions; non-trivial: always"""
    noise(case, ctx)
    ctx.nontrivial(True)


@st.composite
def case_ch(draw):
    s = draw(gen.state(1, 3, max_r=0.5, max_nb=0.3, max_a=0.5))
    N = s["N"]
    return dict(s=s, etas=draw(st.lists(st.one_of(st.sampled_from(ETAS), st.integers(0, 1000).map(lambda k: k / 1000)), min_size=N, max_size=N)))


@sub(P, case_ch, quick=120, thorough=2500, group="c")
def channel(case, ctx):
    """loss on the distribution is the distribution after the Gaussian loss channel, up to the mass outside the cutoff; non-trivial: different etas"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, e = case["s"]["N"], case["etas"]
    cut = {1: 24, 2: 9, 3: 5}[N]
    ctx.nontrivial(any(0 < x < 1 for x in e))
    mu2, cov2 = np.array(mu), np.array(cov)
    for k, eta in enumerate(e):
        mu2, cov2 = loss(mu2, cov2, eta, k, hbar=hb)
    D = np.sqrt(np.diag(e + e))
    ctx.close(mu2, D @ mu, "means after loss", 1e-12, 1e-12)
    ctx.close(cov2, D @ cov @ D + hb / 2 * (np.eye(2 * N) - D @ D), "covariance after loss", 1e-12, 1e-12)
    p = probabilities(mu, cov, cut, hbar=hb)
    ctx.close(p, oracle.fock_probs(mu, cov, cut, hb), "distribution before loss", 1e-7, 1e-9)
    got = update_probabilities_with_loss(e, p)
    # tight tolerances: by default a state of purity above 1 - 1e-5 is treated as pure
    want = probabilities(mu2, cov2, cut, hbar=hb, rtol=1e-13, atol=1e-13)
    diff, tail = want - got, 1 - p.sum()
    ctx.label("tail<1e-6" if tail < 1e-6 else "tail>=1e-6")
    ctx.require(diff.min() > -1e-8, lambda: f"thinned distribution exceeds the lossy state's by {-diff.min()} at {np.unravel_index(diff.argmin(), diff.shape)}")
    ctx.require(diff.max() < tail + 1e-8, lambda: f"thinned distribution misses {diff.max()} at {np.unravel_index(diff.argmax(), diff.shape)}, truncated mass {tail}")
