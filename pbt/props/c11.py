"""C11: photon-number probabilities of Gaussian states are the Born probabilities."""
import itertools

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import probabilities, density_matrix, state_vector
from pbt import gen, oracle
from pbt.core import sub

P = "C11"


@st.composite
def case(draw, hi=3, **kw):
    s = draw(gen.state(1, hi, max_r=0.9, max_nb=0.9, max_a=1.0, **kw))
    cut = draw(st.sampled_from({1: [1, 4, 7, 10, 16], 2: [1, 3, 4, 5, 6], 3: [2, 3, 4], 4: [2, 3]}[s["N"]]))
    return dict(s=s, cut=cut)


def setup(c, ctx):
    mu, cov, hb = gen.mat_state(c["s"])
    gen.label_state(ctx, c["s"])
    ctx.label("cut=%d" % c["cut"])
    ctx.nontrivial(c["cut"] >= 2)
    return mu, cov, hb, c["s"]["N"], c["cut"]


@sub(P, case, quick=250, thorough=5000, group="a", shards=2)
def born(case, ctx):
    """probabilities against the exact Born probabilities; non-negative, sum <= 1; non-trivial: cutoff >= 2"""
    mu, cov, hb, N, cut = setup(case, ctx)
    p = probabilities(mu, cov, cut, hbar=hb)
    ctx.require(np.isrealobj(p), "probabilities are not real")
    ctx.close(p, oracle.fock_probs(mu, cov, cut, hb), f"probabilities(N={N}, cutoff={cut})", 1e-7, 1e-9)
    ctx.require((p >= -1e-12).all(), lambda: f"negative probability {p.min()}")
    ctx.require(p.sum() <= 1 + 1e-8, lambda: f"probabilities sum to {p.sum()}")


@sub(P, lambda: case(4), quick=120, thorough=2500, group="b")
def consistency(case, ctx):
    """density-matrix diagonal and squared amplitudes give the same numbers; a smaller cutoff gives a sub-block"""
    mu, cov, hb, N, cut = setup(case, ctx)
    if N == 4:
        cut = 2
    p = probabilities(mu, cov, cut, hbar=hb)
    rho = density_matrix(mu, cov, cutoff=cut, hbar=hb)
    d = np.array([rho[tuple(x for k in i for x in (k, k))] for i in itertools.product(range(cut), repeat=N)]).reshape((cut,) * N)
    ctx.close(d, p, "diagonal of the density matrix", 1e-7, 1e-9)
    if gen.is_pure(case["s"]):
        psi = state_vector(mu, cov, cutoff=cut, hbar=hb)
        ctx.close(abs(psi) ** 2, p, "squared amplitudes", 1e-7, 1e-9)
    if cut > 1:
        q = probabilities(mu, cov, cut - 1, hbar=hb)
        ctx.close(q, p[(slice(0, cut - 1),) * N], "block of a larger cutoff", 1e-7, 1e-10)
        ctx.require(q.sum() <= p.sum() + 1e-10, "sum decreases with the cutoff")


@st.composite
def case_norm(draw):
    return dict(s=draw(gen.state(1, 1, max_r=0.4, max_nb=0.25, max_a=0.6)))


@sub(P, case_norm, quick=60, thorough=1000, group="b")
def normalisation(case, ctx):
    """with a large cutoff the distribution sums to one and has the exact mean"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    p = probabilities(mu, cov, 40, hbar=hb)
    ctx.close(p.sum(), 1.0, "total probability at cutoff 40", 1e-6, 1e-6)
    ctx.close(p @ np.arange(40), oracle.moment(mu, cov, (1,), hb), "mean photon number at cutoff 40", 1e-5, 1e-5)


@st.composite
def case_wide(draw):
    return dict(s=draw(gen.state(5, 7, max_r=0.7, max_nb=2.0, max_a=0.8)), cut=draw(st.sampled_from([2, 3])))


@sub(P, case_wide, quick=14, thorough=300, group="b")
def wide(case, ctx):
    """five to seven modes: the whole table, and its corner with the most photons relative to its size, follow the exact law; non-trivial: cutoff >= 2"""
    mu, cov, hb, N, cut = setup(case, ctx)
    cut = 2 if N == 7 else cut
    p = probabilities(mu, cov, cut, hbar=hb)
    ctx.require(p.shape == (cut,) * N, lambda: f"shape {p.shape}")
    want = oracle.fock_probs(mu, cov, cut, hb)
    ctx.close(p, want, f"probabilities(N={N}, cutoff={cut})", 1e-7, 1e-10)
    # the corner with the most photons, relative to its own size
    top = tuple([cut - 1] * N)
    ctx.close(p[top], want[top], f"probability of {top}", 1e-4, 1e-13)


@st.composite
def case_prod(draw):
    hb = draw(gen.hbars)
    N = draw(st.sampled_from([5, 7, 4, 6]))
    parts, left = [], N
    while left:
        k = min(left, draw(st.sampled_from([1, 2])))
        parts.append(draw(gen.state(k, k, max_r=0.8, max_nb=2.0, max_a=1.0, hbar=hb, distinct=draw(st.sampled_from([True, True, False])), pure=draw(st.sampled_from([False, None])))))
        left -= k
    return dict(parts=parts, order=[int(x) for x in draw(st.permutations(list(range(N))))], cut=draw(st.sampled_from({4: [6, 5], 5: [4, 3], 6: [3], 7: [3]}[N])))


@sub(P, case_prod, quick=20, thorough=400, shards=4, group="d")
def products(case, ctx):
    """four to seven modes in a product of small states, modes interleaved: the table is the product of the exact tables of the factors, far corners relative to their size; non-trivial: a factor of two modes"""
    cut = case["cut"]
    hb, N = case["parts"][0]["hbar"], sum(s["N"] for s in case["parts"])
    mu, cov, want = np.zeros(2 * N), np.zeros((2 * N, 2 * N)), np.ones(())
    at = 0
    for s in case["parts"]:
        m, V, _ = gen.mat_state(s)
        ix = case["order"][at : at + s["N"]]
        ix = ix + [x + N for x in ix]
        mu[ix] = m
        cov[np.ix_(ix, ix)] = V
        want = np.multiply.outer(want, oracle.fock_probs(m, V, cut, hb))
        at += s["N"]
    want = want.transpose(np.argsort(case["order"]))
    ctx.nontrivial(any(s["N"] == 2 for s in case["parts"]))
    ctx.label(f"N={N}", f"cut={cut}")
    p = probabilities(mu, cov, cut, hbar=hb)
    ctx.close(p, want, f"probabilities(N={N}, cutoff={cut}) of a product state", 1e-7, 1e-11)
    big = want > 1e-10
    ctx.label(f"rarest 1e{int(np.log10(want[(-1,) * N] + 1e-300))}")
    ctx.close(p[big] / want[big], np.ones(big.sum()), "relative to the exact probabilities", 0, 1e-3)


@st.composite
def case_par(draw):
    return dict(s=draw(gen.state(1, 2, pure=False, max_r=0.7)), cut=draw(st.sampled_from([2, 3])))


@sub(P, case_par, quick=3, thorough=40, group="c")
def parallel(case, ctx):
    """parallel=True gives the same table"""
    mu, cov, hb, N, cut = setup(case, ctx)
    ctx.close(probabilities(mu, cov, cut, parallel=True, hbar=hb), oracle.fock_probs(mu, cov, cut, hb), "parallel probabilities", 1e-7, 1e-9)


@st.composite
def case_ex(draw):
    s = draw(gen.extreme(1, 3))
    big = s["ex"] == "strong"
    return dict(s=s, cut=draw(st.sampled_from({1: [20, 8, 14] if big else [4, 6], 2: [7, 4, 6] if big else [3, 5], 3: [3, 4]}[s["N"]])))


@sub(P, case_ex, quick=200, thorough=4000, group="c")
def extremes(case, ctx):
    """strongly squeezed, noisy and displaced states, relative to the largest probability; nearly vacuum states to rounding accuracy"""
    mu, cov, hb, N, cut = setup(case, ctx)
    ctx.label(str(case["s"]["ex"]))
    want = oracle.fock_probs(mu, cov, cut, hb)
    p = probabilities(mu, cov, cut, hbar=hb)
    strong = case["s"]["ex"] == "strong"
    ctx.close(p, want, f"probabilities(N={N}, cutoff={cut}) of an extreme state ({case['s']['ex']})", 1e-7 if strong else 1e-9, 1e-13,
              scale=np.abs(want).max() if strong else None)
