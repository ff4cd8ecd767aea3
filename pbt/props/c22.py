"""C22: results do not depend on the hbar convention."""
import numpy as np
from hypothesis import strategies as st

import thewalrus.quantum as q
import thewalrus.symplectic as sp
from thewalrus import samples, threshold_detection_prob
from thewalrus.random import random_covariance
from pbt import gen
from pbt.core import sub

P = "C22"
PAIRS = [2.0, 1.0, 0.5, 0.37, 4.0, 10.0, 1.7, 25.0]


@st.composite
def case(draw, hi=4, **kw):
    s = draw(gen.state(1, hi, max_r=0.9, max_nb=1.0, max_a=1.0, hbar=2.0, **kw))
    h = draw(st.permutations(PAIRS))[:2]
    return dict(s=s, h=list(h), seed=draw(gen.seeds))


def both(c, ctx, pairs):
    """evaluate every (name, f(mu, cov, hbar), kind) at both conventions; kind says how the result scales"""
    out = []
    for h in c["h"]:
        mu, cov, _ = gen.mat_state(c["s"], hbar=h)
        out.append((mu, cov, h))
    h1, h2 = c["h"]
    k = h2 / h1
    for name, f, kind, tol in pairs:
        a, b = f(*out[0]), f(*out[1])
        if kind == "state":
            (ma, ca), (mb, cb) = a, b
            ctx.close(mb, np.asarray(ma) * np.sqrt(k), f"{name}: means at hbar={h2} against hbar={h1}", tol, tol)
            ctx.close(cb, np.asarray(ca) * k, f"{name}: covariance at hbar={h2} against hbar={h1}", tol, tol, scale=np.abs(cb).max())
        elif kind == "vec":
            ctx.close(b, np.asarray(a) * np.sqrt(k), f"{name} at hbar={h2} against hbar={h1}", tol, tol)
        elif kind == "cov":
            ctx.close(b, np.asarray(a) * k, f"{name} at hbar={h2} against hbar={h1}", tol, tol, scale=np.abs(b).max())
        elif kind == "list":
            for x, y in zip(a, b):
                ctx.close(y, x, f"{name} at hbar={h2} against hbar={h1}", tol, tol)
        else:
            ctx.close(b, a, f"{name} at hbar={h2} against hbar={h1}", tol, tol)


@sub(P, case, quick=300, thorough=6000, group="a")
def phase_space(case, ctx):
    """conversions, predicates, entropies, channels, constructors, click statistics; non-trivial: displaced state"""
    gen.label_state(ctx, case["s"])
    N = case["s"]["N"]
    ctx.nontrivial(gen.is_displaced(case["s"]))
    rng = np.random.default_rng(case["seed"])
    T = gen.haar(N + 1, rng)[:N, :N] * 0.9
    al, mode, t, nbar = complex(rng.normal(), rng.normal()), int(rng.integers(N)), rng.random(), rng.random()
    sd = case["seed"] % 2**31
    A = [int(rng.integers(N))]
    other = dict(case["s"], useed=case["seed"])

    def rcov(m, c, h):
        np.random.seed(sd)
        return random_covariance(N, hbar=h, pure=bool(sd % 2), block_diag=bool(sd % 3))

    def fid(m, c, h):
        m2, c2, _ = gen.mat_state(other, hbar=h)
        return q.fidelity(m, c, m2, c2, hbar=h)

    t6 = 1e-8
    fs = [
        ("Qmat", lambda m, c, h: q.Qmat(c, hbar=h), "", t6),
        ("Covmat", lambda m, c, h: q.Covmat(q.Qmat(c, hbar=h), hbar=h), "cov", t6),
        ("Covmat of a fixed Q", lambda m, c, h: q.Covmat(np.eye(2 * N) * 1.5, hbar=h), "cov", t6),
        ("Amat", lambda m, c, h: q.Amat(c, hbar=h), "", t6),
        ("complex_to_real_displacements", lambda m, c, h: q.complex_to_real_displacements(m, hbar=h), "", t6),
        ("real_to_complex_displacements", lambda m, c, h: q.real_to_complex_displacements(np.arange(2 * N) * (1 + 0.5j), hbar=h), "vec", t6),
        ("is_valid_cov", lambda m, c, h: q.is_valid_cov(c, hbar=h), "", t6),
        ("is_valid_cov of half the state", lambda m, c, h: q.is_valid_cov(c / 2, hbar=h), "", t6),
        ("is_pure_cov", lambda m, c, h: q.is_pure_cov(c, hbar=h), "", t6),
        ("is_classical_cov", lambda m, c, h: q.is_classical_cov(c + 0.3 * h * np.eye(2 * N), hbar=h), "", t6),
        ("fidelity", fid, "", 5e-6),
        ("vonneumann_entropy", lambda m, c, h: q.vonneumann_entropy(c, hbar=h), "", 1e-3),
        ("log_negativity", lambda m, c, h: q.log_negativity(c, modes_A=A, hbar=h) if N > 1 else 0, "", 1e-3),
        ("entanglement_entropy", lambda m, c, h: q.entanglement_entropy(c, modes_A=A, hbar=h) if N > 1 and gen.is_pure(case["s"]) else 0, "", 1e-3),
        ("mean_clicks", lambda m, c, h: q.mean_clicks(c, hbar=h), "", t6),
        ("variance_clicks", lambda m, c, h: q.variance_clicks(c, hbar=h), "", t6),
        ("photon_number_mean", lambda m, c, h: q.photon_number_mean(m, c, mode, hbar=h), "", t6),
        ("photon_number_mean_vector", lambda m, c, h: q.photon_number_mean_vector(m, c, hbar=h), "", t6),
        ("photon_number_covar", lambda m, c, h: q.photon_number_covar(m, c, mode, 0, hbar=h), "", t6),
        ("photon_number_covmat", lambda m, c, h: q.photon_number_covmat(m, c, hbar=h), "", t6),
        ("find_classical_subsystem", lambda m, c, h: q.find_classical_subsystem(c + h / 2 * np.diag(np.tile(np.arange(N)[::-1], 2)), hbar=h), "", t6),
        ("mean_photon_number", lambda m, c, h: np.array(sp.mean_photon_number(m[[0, N]], c[np.ix_([0, N], [0, N])], hbar=h)), "", t6),
        ("vacuum_state", lambda m, c, h: tuple(sp.vacuum_state(N, hbar=h)), "state", t6),
        ("expand_vector", lambda m, c, h: sp.expand_vector(al, mode, N, hbar=h), "vec", t6),
        ("loss", lambda m, c, h: sp.loss(m, c, t, mode, nbar=nbar, hbar=h), "state", t6),
        ("passive_transformation", lambda m, c, h: sp.passive_transformation(m, c, T, hbar=h), "state", t6),
        ("random_covariance", rcov, "cov", 1e-7),
    ]
    if gen.is_pure(case["s"]):
        fs.append(("pure_state_distribution", lambda m, c, h: q.pure_state_distribution(c, cutoff=12, hbar=h), "", 1e-6))
    both(case, ctx, fs)


@st.composite
def case_f(draw, **kw):
    c = draw(case(3, **kw))
    N = c["s"]["N"]
    c["i"] = draw(st.lists(st.sampled_from([1, 0, 2, 3] if N < 3 else [1, 0, 2]), min_size=N, max_size=N))
    c["j"] = draw(st.lists(st.sampled_from([1, 0, 2]), min_size=N, max_size=N))
    return c


@sub(P, case_f, quick=120, thorough=2500, group="b")
def fock(case, ctx):
    """probabilities, density matrices, moments, marginals, bounds and clicks; non-trivial: displaced state"""
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(gen.is_displaced(case["s"]))
    N, i, j = case["s"]["N"], case["i"], case["j"]
    t = 1e-7
    mo = {m: p for m, p in enumerate(i) if p} or {0: 1}
    fs = [
        ("density_matrix_element", lambda m, c, h: q.density_matrix_element(m, c, i, j, hbar=h), "", t),
        ("density_matrix_element without prefactor", lambda m, c, h: q.density_matrix_element(m, c, i, j, include_prefactor=False, hbar=h), "", 1e-6),
        ("density_matrix", lambda m, c, h: q.density_matrix(m, c, cutoff=3, hbar=h), "", t),
        ("density_matrix post-selected", lambda m, c, h: q.density_matrix(m, c, post_select={0: i[0]}, cutoff=2, hbar=h) if N > 1 else 0, "", t),
        ("density_matrix post-selected and normalised", lambda m, c, h: q.density_matrix(m, c, post_select={N - 1: 0}, normalize=True, cutoff=2, hbar=h) if N > 1 else 0, "", t),
        ("probabilities", lambda m, c, h: q.probabilities(m, c, 3, hbar=h), "", t),
        ("tvd_cutoff_bounds without validation", lambda m, c, h: q.tvd_cutoff_bounds(m, c, 3, hbar=h, check_is_valid_cov=False), "", t),
        ("tvd_cutoff_bounds", lambda m, c, h: q.tvd_cutoff_bounds(m, c, 4, hbar=h), "", t),
        ("n_body_marginals", lambda m, c, h: q.n_body_marginals(m, c, 2, min(N, 2), hbar=h), "list", t),
        ("threshold_detection_prob", lambda m, c, h: threshold_detection_prob(m, c, [min(x, 1) for x in i], hbar=h), "", t),
        ("photon_number_expectation", lambda m, c, h: q.photon_number_expectation(m, c, list(range(N)), hbar=h), "", t),
        ("photon_number_squared_expectation", lambda m, c, h: q.photon_number_squared_expectation(m, c, list(range(N)), hbar=h), "", t),
        ("photon_number_moment", lambda m, c, h: q.photon_number_moment(m, c, mo, hbar=h), "", t),
        ("photon_number_cumulant", lambda m, c, h: q.photon_number_cumulant(m, c, [0, N - 1, 0], hbar=h), "", 1e-6),
        ("normal_ordered_expectation", lambda m, c, h: q.normal_ordered_expectation(m, c, i + j, hbar=h), "", t),
        ("s_ordered_expectation", lambda m, c, h: q.s_ordered_expectation(m, c, i + j, hbar=h, s=-0.4), "", t),
        ("click_cumulant", lambda m, c, h: q.click_cumulant(m, c, list(range(N)), hbar=h), "", t),
    ]
    if gen.is_pure(case["s"]):
        fs += [
            ("pure_state_amplitude", lambda m, c, h: q.pure_state_amplitude(m, c, i, hbar=h), "", t),
            ("pure_state_amplitude without prefactor", lambda m, c, h: q.pure_state_amplitude(m, c, i, include_prefactor=False, hbar=h), "", 1e-6),
            ("state_vector", lambda m, c, h: q.state_vector(m, c, cutoff=3, hbar=h), "", t),
            ("state_vector unchecked and normalised", lambda m, c, h: q.state_vector(m, c, cutoff=3, hbar=h, check_purity=False, normalize=True), "", t),
            ("pure_state_amplitude unchecked", lambda m, c, h: q.pure_state_amplitude(m, c, i, hbar=h, check_purity=False), "", t),
            ("state_vector post-selected", lambda m, c, h: q.state_vector(m, c, post_select={0: i[0]}, cutoff=2, hbar=h) if N > 1 else 0, "", t),
        ]
    both(case, ctx, fs)


@sub(P, lambda: case(4), quick=40, thorough=800, group="c")
def sampling(case, ctx):
    """equal seeds give equal samples in conventions whose quotient is a power of four (rescaling is then exact in floating point); non-trivial: displaced"""
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(gen.is_displaced(case["s"]))
    N, sd = case["s"]["N"], case["seed"] % 2**31
    mu, cov, _ = gen.mat_state(case["s"], hbar=2.0)
    k = [4.0, 0.25, 16.0][sd % 3]
    fs = [
        ("hafnian_sample_state", lambda m, c, h: samples.hafnian_sample_state(c, 4, mean=m, hbar=h, cutoff=4)),
        ("hafnian_sample_state without means", lambda m, c, h: samples.hafnian_sample_state(c, 4, hbar=h, cutoff=4)),
        ("generate_hafnian_sample", lambda m, c, h: samples.generate_hafnian_sample(c, mean=m, hbar=h, cutoff=4)),
        ("torontonian_sample_state", lambda m, c, h: samples.torontonian_sample_state(c, 4, mu=m, hbar=h)),
        ("hafnian_sample_state in parallel", lambda m, c, h: samples.hafnian_sample_state(c, 1, mean=m, hbar=h, cutoff=4, parallel=True)),
        ("torontonian_sample_state without means", lambda m, c, h: samples.torontonian_sample_state(c, 4, hbar=h, fanout=3, cutoff=2)),
        ("torontonian_sample_state in parallel", lambda m, c, h: samples.torontonian_sample_state(c, 1, mu=m, hbar=h, parallel=True)),
        ("hafnian_sample_classical_state without means", lambda m, c, h: samples.hafnian_sample_classical_state(c + h * 1.5 * np.eye(2 * N), 5, hbar=h)),
        ("torontonian_sample_classical_state without means", lambda m, c, h: samples.torontonian_sample_classical_state(c + h * 1.5 * np.eye(2 * N), 5, hbar=h)),
        ("generate_torontonian_sample", lambda m, c, h: samples.generate_torontonian_sample(c, mu=m, hbar=h)),
        ("hafnian_sample_classical_state", lambda m, c, h: samples.hafnian_sample_classical_state(c + h * 1.5 * np.eye(2 * N), 5, mean=m, hbar=h)),
        ("torontonian_sample_classical_state", lambda m, c, h: samples.torontonian_sample_classical_state(c + h * 1.5 * np.eye(2 * N), 5, mean=m, hbar=h)),
    ]
    for name, f in fs:
        np.random.seed(sd)
        a = f(mu, cov, 2.0)
        np.random.seed(sd)
        b = f(mu * np.sqrt(k), cov * k, 2.0 * k)
        ctx.require(np.array_equal(a, b), lambda: f"{name}: equal seeds give {a} at hbar=2 but {b} at hbar={2 * k}")


@sub(P, lambda: case(2, pure=False), quick=4, thorough=24, group="d", shards=2)
def parallel(case, ctx):
    """probabilities computed by several processes; non-trivial: mixed displaced state"""
    gen.label_state(ctx, case["s"])
    ctx.nontrivial(gen.is_displaced(case["s"]) and not gen.is_pure(case["s"]))
    both(case, ctx, [("probabilities(parallel=True)", lambda m, c, h: q.probabilities(m, c, 2, hbar=h, parallel=True), "", 1e-7)])
