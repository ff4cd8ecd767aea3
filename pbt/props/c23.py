"""C23: relabelling modes permutes results accordingly."""
import numpy as np
from hypothesis import strategies as st

import thewalrus.quantum as q
from thewalrus import threshold_detection_prob
from pbt import gen
from pbt.core import sub

P = "C23"


@st.composite
def case(draw, hi=4, lo=2, **kw):
    s = draw(gen.state(lo, hi, max_r=0.9, max_nb=1.0, max_a=1.0, distinct=draw(st.sampled_from([True, True, False])), **kw))
    N = s["N"]
    p = draw(st.permutations(list(range(N))).filter(lambda x: list(x) != sorted(x)))
    cyc = draw(st.sampled_from([False, True, False]))
    if cyc:
        p = list(np.roll(np.arange(N), 1 + int(p[0]) % (N - 1)))
    return dict(s=s, p=[int(x) for x in p], seed=draw(gen.seeds))


def setup(c, ctx):
    """(mu, cov, relabelled mu, relabelled cov, hbar, N, p): mode k of the relabelled state is mode p[k] of the original"""
    mu, cov, hb = gen.mat_state(c["s"])
    gen.label_state(ctx, c["s"])
    N, p = c["s"]["N"], c["p"]
    ix = p + [x + N for x in p]
    ctx.nontrivial(sorted(range(N), key=lambda k: p[k]) != p)  # not an involution
    return mu, cov, mu[ix], cov[np.ix_(ix, ix)], hb, N, p


@sub(P, lambda: case(6), quick=300, thorough=6000, group="a")
def phase_space(case, ctx):
    """per-mode quantities permute, scalars are unchanged; non-trivial: the permutation is not its own inverse"""
    mu, cov, mu2, cov2, hb, N, p = setup(case, ctx)
    rng = np.random.default_rng(case["seed"])
    ctx.close(q.photon_number_mean_vector(mu2, cov2, hbar=hb), q.photon_number_mean_vector(mu, cov, hbar=hb)[p], "photon_number_mean_vector", 1e-9, 1e-10)
    C = q.photon_number_covmat(mu, cov, hbar=hb)
    ctx.close(q.photon_number_covmat(mu2, cov2, hbar=hb), C[np.ix_(p, p)], "photon_number_covmat", 1e-9, 1e-10)
    ix = p + [x + N for x in p]
    ctx.close(q.Qmat(cov2, hbar=hb), q.Qmat(cov, hbar=hb)[np.ix_(ix, ix)], "Qmat", 1e-9, 1e-10)
    ctx.close(q.Amat(cov2, hbar=hb), q.Amat(cov, hbar=hb)[np.ix_(ix, ix)], "Amat", 1e-8, 1e-9)
    ctx.close(q.mean_clicks(cov2, hbar=hb), q.mean_clicks(cov, hbar=hb), "mean_clicks", 1e-9, 1e-10)
    ctx.close(q.variance_clicks(cov2, hbar=hb), q.variance_clicks(cov, hbar=hb), "variance_clicks", 1e-8, 1e-9)
    ctx.close(q.vonneumann_entropy(cov2, hbar=hb), q.vonneumann_entropy(cov, hbar=hb), "vonneumann_entropy", 1e-5, 1e-3)
    A = sorted(int(x) for x in rng.permutation(N)[: rng.integers(1, N)])
    A2 = [p.index(a) for a in A]
    ctx.close(q.log_negativity(cov2, modes_A=A2, hbar=hb), q.log_negativity(cov, modes_A=A, hbar=hb), f"log_negativity {A}", 1e-5, 1e-3)
    if gen.is_pure(case["s"]):
        ctx.close(q.entanglement_entropy(cov2, modes_A=A2, hbar=hb), q.entanglement_entropy(cov, modes_A=A, hbar=hb), "entanglement_entropy", 1e-4, 1e-3)
        ctx.close(q.pure_state_distribution(cov2, cutoff=10, hbar=hb), q.pure_state_distribution(cov, cutoff=10, hbar=hb), "pure_state_distribution", 1e-6, 1e-9)
    o = dict(case["s"], useed=case["seed"])
    m3, c3, _ = gen.mat_state(o)
    ctx.close(q.fidelity(mu2, cov2, m3[ix], c3[np.ix_(ix, ix)], hbar=hb), q.fidelity(mu, cov, m3, c3, hbar=hb), "fidelity", 5e-6, 5e-6)


@sub(P, lambda: case(3), quick=120, thorough=2500, group="b")
def tensors(case, ctx):
    """probability, density-matrix, amplitude and marginal tensors permute; non-trivial: the permutation is not its own inverse"""
    mu, cov, mu2, cov2, hb, N, p = setup(case, ctx)
    cut = 3 if N == 3 else 4
    P1 = q.probabilities(mu, cov, cut, hbar=hb)
    ctx.close(q.probabilities(mu2, cov2, cut, hbar=hb), P1.transpose(p), "probabilities", 1e-8, 1e-10)
    c2 = 2 if N == 3 else 3
    R = q.density_matrix(mu, cov, cutoff=c2, hbar=hb)
    ax = [x for k in p for x in (2 * k, 2 * k + 1)]
    ctx.close(q.density_matrix(mu2, cov2, cutoff=c2, hbar=hb), R.transpose(ax), "density_matrix", 1e-8, 1e-10)
    ps = {p[0]: 1}
    ctx.close(q.density_matrix(mu2, cov2, post_select={0: 1}, cutoff=2, hbar=hb),
              q.density_matrix(mu, cov, post_select=ps, cutoff=2, hbar=hb).transpose([x for k in rest(p) for x in (2 * k, 2 * k + 1)]),
              "post-selected density_matrix", 1e-8, 1e-10)
    ctx.close(q.tvd_cutoff_bounds(mu2, cov2, 4, hbar=hb), q.tvd_cutoff_bounds(mu, cov, 4, hbar=hb), "tvd_cutoff_bounds", 1e-8, 1e-9)
    a, b = q.n_body_marginals(mu2, cov2, 2, 2, hbar=hb), q.n_body_marginals(mu, cov, 2, 2, hbar=hb)
    ctx.close(a[0], b[0][p], "one-body marginals", 1e-8, 1e-10)
    ctx.close(a[1], b[1][np.ix_(p, p)], "two-body marginals", 1e-8, 1e-10)
    if gen.is_pure(case["s"]):
        psi = q.state_vector(mu, cov, cutoff=cut, hbar=hb)
        phi = q.state_vector(mu2, cov2, cutoff=cut, hbar=hb)
        ctx.close(phi, psi.transpose(p), "state_vector", 1e-8, 1e-10)
        ctx.label("amplitudes")


def rest(p):
    """axes of the reduced tensor of the original state, in the order of the remaining relabelled modes"""
    r = p[1:]
    s = sorted(r)
    return [s.index(x) for x in r]


@st.composite
def case_w(draw):
    c = draw(case(3))
    N = c["s"]["N"]
    M = draw(st.sampled_from([12, 9, 10, 17]))
    return dict(c, M=M, at=[int(x) for x in draw(st.permutations(list(range(M))))[:N]])


@sub(P, case_w, quick=120, thorough=3000, group="b")
def among_many(case, ctx):
    """the modes of a small state scattered among many thermal spectators: moments, cumulants, marginals and measures of those modes do not change; non-trivial: listed out of order with an index beyond eight"""
    mu, cov, hb = gen.mat_state(case["s"])
    N, M, at = case["s"]["N"], case["M"], case["at"]
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(at != sorted(at) and max(at) >= 8)
    ctx.label(f"M={M}")
    rng = np.random.default_rng(case["seed"])
    big = np.diag(np.tile(1 + 2 * rng.uniform(0, 1, M) * (rng.random() < 0.7), 2)) * hb / 2
    v = rng.normal(size=2 * M) * 0.3
    ix = at + [a + M for a in at]
    big[ix] = 0
    big[:, ix] = 0
    big[np.ix_(ix, ix)] = cov
    v[ix] = mu
    m, V = q.reduced_gaussian(v, big, at)
    ctx.close(m, mu, f"reduced_gaussian {at}: means", 0, 0)
    ctx.close(V, cov, f"reduced_gaussian {at}: covariance", 0, 0)
    r = list(range(N))
    ctx.close(q.photon_number_mean_vector(v, big, hbar=hb)[at], q.photon_number_mean_vector(mu, cov, hbar=hb), "photon_number_mean_vector", 1e-10, 1e-12)
    ctx.close(q.photon_number_covmat(v, big, hbar=hb)[np.ix_(at, at)], q.photon_number_covmat(mu, cov, hbar=hb), "photon_number_covmat", 1e-10, 1e-12)
    for f in (q.photon_number_expectation, q.photon_number_squared_expectation, q.photon_number_cumulant, q.click_cumulant):
        if f is not q.photon_number_squared_expectation or N < 3:
            ctx.close(f(v, big, at, hbar=hb), f(mu, cov, r, hbar=hb), f"{f.__name__} {at}", 1e-8, 1e-10)
    rep = [at[0], at[-1], at[0]]
    ctx.close(q.photon_number_cumulant(v, big, rep, hbar=hb), q.photon_number_cumulant(mu, cov, [0, N - 1, 0], hbar=hb), f"photon_number_cumulant {rep}", 1e-8, 1e-9)
    ctx.close(q.click_cumulant(v, big, rep, hbar=hb), q.click_cumulant(mu, cov, [0, N - 1, 0], hbar=hb), f"click_cumulant {rep}", 1e-8, 1e-9)
    d = {a: int(rng.integers(1, 3)) for a in at}
    ctx.close(q.photon_number_moment(v, big, d, hbar=hb), q.photon_number_moment(mu, cov, {i: d[a] for i, a in enumerate(at)}, hbar=hb), f"photon_number_moment {d}", 1e-8, 1e-10)
    k = int(rng.integers(1, N)) if N > 1 else 1
    rest_ = [a for a in range(M) if a not in at[:k]]
    ctx.close(q.log_negativity(big, modes_A=at[:k], hbar=hb), q.log_negativity(cov, modes_A=r[:k], hbar=hb), f"log_negativity {at[:k]}", 1e-5, 1e-6)
    ctx.close(q.log_negativity(big, modes_A=rest_, hbar=hb), q.log_negativity(cov, modes_A=r[:k], hbar=hb), f"log_negativity of all but {at[:k]}", 1e-5, 1e-6)


@st.composite
def case_e(draw):
    c = draw(case(5))
    N = c["s"]["N"]
    n = st.lists(st.sampled_from([1, 0, 2] if N > 3 else [1, 0, 2, 3]), min_size=N, max_size=N)
    return dict(c, i=draw(n), j=draw(n))


@sub(P, case_e, quick=150, thorough=3000, group="c")
def elements(case, ctx):
    """single density-matrix elements, click probabilities, moments and cumulants permute; non-trivial: the permutation is not its own inverse"""
    mu, cov, mu2, cov2, hb, N, p = setup(case, ctx)
    i, j = case["i"], case["j"]
    i2, j2 = [i[k] for k in p], [j[k] for k in p]
    if sum(i + j) <= 12:
        ctx.close(q.density_matrix_element(mu2, cov2, i2, j2, hbar=hb), q.density_matrix_element(mu, cov, i, j, hbar=hb), f"density_matrix_element {i} {j}", 1e-7, 1e-9)
        a, b = [q.s_ordered_expectation(m, c, x + y, hbar=hb, s=0.2) for m, c, x, y in ((mu2, cov2, i2, j2), (mu, cov, i, j))]
        ctx.close(a, b, f"s_ordered_expectation {i} {j}", 1e-7, 1e-8, scale=1)
    pat, pat2 = [min(x, 1) for x in i], [min(x, 1) for x in i2]
    ctx.close(threshold_detection_prob(mu2, cov2, pat2, hbar=hb), threshold_detection_prob(mu, cov, pat, hbar=hb), f"threshold_detection_prob {pat}", 1e-7, 1e-9)
    md = [k for k in range(N) if j[k]][:3] or [0]
    md2 = [p.index(m) for m in md]
    ctx.close(q.photon_number_expectation(mu2, cov2, md2, hbar=hb), q.photon_number_expectation(mu, cov, md, hbar=hb), f"photon_number_expectation {md}", 1e-7, 1e-8)
    ctx.close(q.photon_number_squared_expectation(mu2, cov2, md2[:2], hbar=hb), q.photon_number_squared_expectation(mu, cov, md[:2], hbar=hb), f"photon_number_squared_expectation {md[:2]}", 1e-7, 1e-8)
    d, d2 = {m: j[m] or 1 for m in md[:2]}, {m2: j[m] or 1 for m, m2 in list(zip(md, md2))[:2]}
    ctx.close(q.photon_number_moment(mu2, cov2, d2, hbar=hb), q.photon_number_moment(mu, cov, d, hbar=hb), f"photon_number_moment {d}", 1e-7, 1e-8)
    ctx.close(q.photon_number_cumulant(mu2, cov2, md2, hbar=hb), q.photon_number_cumulant(mu, cov, md, hbar=hb), f"photon_number_cumulant {md}", 1e-7, 1e-7, scale=1)
    ctx.close(q.click_cumulant(mu2, cov2, md2, hbar=hb), q.click_cumulant(mu, cov, md, hbar=hb), f"click_cumulant {md}", 1e-7, 1e-9)
    if gen.is_pure(case["s"]):
        ctx.close(q.pure_state_amplitude(mu2, cov2, i2, hbar=hb), q.pure_state_amplitude(mu, cov, i, hbar=hb), f"pure_state_amplitude {i}", 1e-7, 1e-9)
