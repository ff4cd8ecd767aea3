"""C12: amplitudes, density matrices and post-selection describe the same state."""
import itertools

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import density_matrix, density_matrix_element, state_vector, pure_state_amplitude
from pbt import gen, oracle
from pbt.core import sub

P = "C12"


@st.composite
def case(draw, hi=3, **kw):
    s = draw(gen.state(1, hi, max_r=0.9, max_nb=0.9, max_a=1.0, **kw))
    return dict(s=s, cut=draw(st.sampled_from({1: [1, 3, 6, 9], 2: [1, 2, 3, 4, 5], 3: [1, 2, 3]}[s["N"]])))


def setup(c, ctx):
    mu, cov, hb = gen.mat_state(c["s"])
    gen.label_state(ctx, c["s"])
    ctx.nontrivial(c["cut"] >= 2 and c["s"]["N"] >= 2)
    return mu, cov, hb, c["s"]["N"], c["cut"]


def interleave(rho):
    """(i..., j...) -> (i1, j1, i2, j2, ...)"""
    N = rho.ndim // 2
    return rho.transpose([x for k in range(N) for x in (k, k + N)])


@sub(P, case, quick=200, thorough=4000, group="a")
def matrix(case, ctx):
    """density_matrix against the exact one, Hermitian and positive; non-trivial: N >= 2 and cutoff >= 2"""
    mu, cov, hb, N, cut = setup(case, ctx)
    rho = density_matrix(mu, cov, cutoff=cut, hbar=hb)
    want = oracle.fock_rho(mu, cov, cut, hb)
    ctx.close(rho, interleave(want), f"density_matrix(N={N}, cutoff={cut})", 1e-7, 1e-9)
    m = rho.transpose([2 * k for k in range(N)] + [2 * k + 1 for k in range(N)]).reshape(cut**N, cut**N)
    ctx.close(m, m.conj().T, "Hermiticity", 0, 1e-9)
    ctx.require(np.linalg.eigvalsh((m + m.conj().T) / 2).min() > -1e-9, "negative eigenvalue of the density matrix")
    full = density_matrix(mu, cov, cutoff=cut, hbar=hb, normalize=True) if cut > 3 else rho
    ctx.require(full.shape == rho.shape, "shape changes with normalize")


@st.composite
def case_el(draw):
    c = draw(case(3))
    N = c["s"]["N"]
    k = st.sampled_from({1: [0, 1, 2, 3, 5, 7], 2: [0, 1, 2, 3, 4], 3: [0, 1, 2]}[N])
    return dict(c, i=draw(st.lists(k, min_size=N, max_size=N)), j=draw(st.lists(k, min_size=N, max_size=N)), tup=draw(st.booleans()))


@sub(P, case_el, quick=250, thorough=5000, group="b")
def elements(case, ctx):
    """density_matrix_element(mu, cov, i, j) is <i|rho|j>, with and without the prefactor"""
    mu, cov, hb, N, _ = setup(case, ctx)
    i, j = case["i"], case["j"]
    f = tuple if case["tup"] else list
    want = oracle.fock_rho(mu, cov, [a + 1 for a in i + j], hb)[tuple(i + j)]
    got = density_matrix_element(mu, cov, f(i), f(j), hbar=hb)
    ctx.nontrivial(i != j and sum(i + j) >= 2)
    ctx.label("off-diagonal" if i != j else "diagonal", "complex" if abs(want.imag) > 1e-6 else "real", "big" if sum(i + j) > 6 else "small")
    err = abs(got - want)
    if err > 1e-9 + 1e-7 * abs(want):
        if abs(got - want.conjugate()) <= 1e-9 + 1e-7 * abs(want) and ctx.known("density-matrix-element-transposed", P):
            want = want.conjugate()
        else:
            ctx.fail(f"density_matrix_element({i}, {j}) = {got}, exact {want}")
    vac = oracle.fock_rho(mu, cov, 1, hb)[(0,) * (2 * N)]
    bare = density_matrix_element(mu, cov, f(i), f(j), include_prefactor=False, hbar=hb)
    ctx.close(bare * vac, want, f"density_matrix_element({i}, {j}) without prefactor", 1e-7, 1e-9)


@sub(P, lambda: case(3, pure=True), quick=200, thorough=4000, group="a")
def pure(case, ctx):
    """state_vector: outer product is the exact density matrix; entries are the single amplitudes"""
    mu, cov, hb, N, cut = setup(case, ctx)
    psi = state_vector(mu, cov, cutoff=cut, hbar=hb)
    want = oracle.fock_rho(mu, cov, cut, hb)
    ctx.close(np.multiply.outer(psi, psi.conj()), want, f"outer product of the state vector (N={N}, cutoff={cut})", 1e-7, 1e-9)
    bare = pure_state_amplitude(mu, cov, [0] * N, hbar=hb)
    for i in itertools.islice(itertools.product(range(cut), repeat=N), 0, None, max(1, cut**N // 12)):
        a = pure_state_amplitude(mu, cov, i, hbar=hb)
        ctx.close(a, psi[i], f"pure_state_amplitude({i})", 1e-7, 1e-9)
        b = pure_state_amplitude(mu, cov, list(i), include_prefactor=False, hbar=hb)
        b0 = pure_state_amplitude(mu, cov, [0] * N, include_prefactor=False, hbar=hb)
        ctx.close(b * bare, a * b0, f"pure_state_amplitude({i}) without prefactor", 1e-7, 1e-9)


@st.composite
def case_post(draw, **kw):
    s = draw(gen.state(1, 4, max_r=0.9, max_nb=0.9, max_a=1.0, **kw))
    N = s["N"]
    modes = sorted(draw(st.permutations(list(range(N))))[: draw(st.sampled_from([max(0, N - 1), max(0, N - 1), max(0, N - 2), max(0, N - 2), max(0, N - 3), N]))])
    order = draw(st.permutations(modes))
    return dict(s=s, modes=list(order), vals=draw(st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=len(modes), max_size=len(modes))),
                cut=draw(st.sampled_from([3, 2, 2, 3, 1] if N - len(modes) < 3 else [2])), norm=draw(st.booleans()))


def post_slice(want, N, modes, vals, copies):
    ix = [slice(None)] * (copies * N)
    for c in range(copies):
        for m, v in zip(modes, vals):
            ix[c * N + m] = v
    return want[tuple(ix)]


@sub(P, case_post, quick=120, thorough=2500, group="c")
def post_density(case, ctx):
    """post-selected density_matrix is the slice of the exact one, normalised on request"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, modes, vals, cut = case["s"]["N"], case["modes"], case["vals"], case["cut"]
    ps = dict(zip(modes, vals))
    cuts = [ps[m] + 1 if m in ps else cut for m in range(N)]
    want = post_slice(oracle.fock_rho(mu, cov, cuts + cuts, hb), N, modes, vals, 2)
    M = N - len(modes)
    ctx.nontrivial(M >= 1 and len(modes) >= 1 and cut >= 2)
    ctx.label("M=%d" % M, "selected=%d" % len(modes), "norm" if case["norm"] else "raw")
    tr = np.trace(want.reshape(cut**M, cut**M)).real
    want = interleave(want)
    if case["norm"]:
        if tr < 1e-5:
            ctx.nontrivial(False)
            return
        want = want / tr
    got = density_matrix(mu, cov, post_select=ps, normalize=case["norm"], cutoff=cut, hbar=hb)
    ctx.close(got, want, f"density_matrix(post_select={ps}, normalize={case['norm']})", 1e-6, 1e-9 / (tr if case["norm"] else 1))


@sub(P, lambda: case_post(pure=True), quick=150, thorough=3000, group="c")
def post_vector(case, ctx):
    """post-selected state_vector is the slice of the full one (relative phases included), normalised on request"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, modes, vals, cut = case["s"]["N"], case["modes"], case["vals"], case["cut"]
    ps = dict(zip(modes, vals))
    cuts = [ps[m] + 1 if m in ps else cut for m in range(N)]
    rho = post_slice(oracle.fock_rho(mu, cov, cuts + cuts, hb), N, modes, vals, 2)
    M = N - len(modes)
    ctx.nontrivial(M >= 1 and len(modes) >= 1 and cut >= 2)
    ctx.label("M=%d" % M, "selected=%d" % len(modes), "norm" if case["norm"] else "raw")
    tr = np.trace(rho.reshape(cut**M, cut**M)).real
    if case["norm"]:
        if tr < 1e-5:
            ctx.nontrivial(False)
            return
        rho = rho / tr
    psi = state_vector(mu, cov, post_select=ps, normalize=case["norm"], cutoff=cut, hbar=hb)
    ctx.require(psi.shape == (cut,) * M, lambda: f"shape {psi.shape}")
    ctx.close(np.multiply.outer(psi, psi.conj()), rho, f"outer product of state_vector(post_select={ps})", 1e-6, 1e-9 / (tr if case["norm"] else 1))
    if not case["norm"] and max(cuts) <= 4:
        full = state_vector(mu, cov, cutoff=max(cuts), hbar=hb)
        sl = post_slice(full[tuple(slice(0, c) for c in cuts)], N, modes, vals, 1)
        ctx.close(psi, sl, "slice of the full state vector", 1e-6, 1e-9)


@st.composite
def case_ex(draw):
    s = draw(gen.extreme(1, 3))
    big = s["ex"] == "strong"
    return dict(s=s, cut=draw(st.sampled_from({1: [14, 8] if big else [3, 5], 2: [6, 4] if big else [3, 4], 3: [2, 3]}[s["N"]])))


@sub(P, case_ex, quick=150, thorough=3000, group="b")
def extremes(case, ctx):
    """density matrices and state vectors of strong states, relative to the largest entry, and of nearly vacuum states to rounding accuracy"""
    mu, cov, hb, N, cut = setup(case, ctx)
    ex = case["s"]["ex"]
    ctx.label(str(ex))
    want = oracle.fock_rho(mu, cov, cut, hb)
    big = np.abs(want).max()
    tol = (1e-7, 1e-9 * big) if ex == "strong" else (1e-9, 1e-13)
    ctx.close(density_matrix(mu, cov, cutoff=cut, hbar=hb), interleave(want), f"density_matrix(N={N}, cutoff={cut}), {ex} state", *tol, scale=big)
    if gen.is_pure(case["s"]):
        psi = state_vector(mu, cov, cutoff=cut, hbar=hb)
        ctx.close(np.multiply.outer(psi, psi.conj()), want, f"outer product of the state vector (N={N}, cutoff={cut}), {ex} state", *tol, scale=big)
        k = tuple(min(cut - 1, 1 + m) for m in range(N))
        ctx.close(pure_state_amplitude(mu, cov, k, hbar=hb), psi[k], f"pure_state_amplitude({k}), {ex} state", *tol, scale=np.sqrt(big))


@st.composite
def case_many(draw):
    s = draw(gen.state(1, 2, max_r=1.1, max_nb=0.6, max_a=1.2))
    hi = {1: [22, 26, 13, 17, 21, 24, 30], 2: [7, 8, 6, 5]}[s["N"]]
    i = [draw(st.sampled_from(hi)) for _ in range(s["N"])]
    if s["N"] == 2:  # the two modes can also share the photons unevenly
        i = draw(st.sampled_from([i, [1, 14], [13, 0], [0, 21]]))
    j = draw(st.sampled_from([i, i, [max(0, i[0] - 2)] + i[1:], [max(0, i[0] - 1)] + i[1:]]))
    return dict(s=s, i=list(i), j=list(j))


@sub(P, case_many, quick=45, thorough=2000, group="d")
def many_photons(case, ctx):
    """density_matrix_element and pure_state_amplitude with up to 30 photons in a mode, against 60-digit arithmetic, relative to the
    largest population of that photon number or above 1e-7; non-trivial: entry above 1e-9"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    i, j = case["i"], case["j"]
    want = oracle.fock_entry(mu, cov, i, j, hb)
    ctx.nontrivial(abs(want) > 1e-9)
    ctx.label("total=%d" % (sum(i) + sum(j)), "diagonal" if i == j else "off-diagonal")
    tol = 1e-6 * abs(want) + 1e-8
    got = density_matrix_element(mu, cov, i, j, hbar=hb)
    if not abs(got - want) <= tol:
        if abs(got - want.conjugate()) <= tol and ctx.known("density-matrix-element-transposed", P):
            pass
        else:
            ctx.fail(f"density_matrix_element({i}, {j}) = {got}, exact {want}")
    if gen.is_pure(case["s"]):
        a = [pure_state_amplitude(mu, cov, k, hbar=hb) for k in (i, j)]
        got = a[0] * np.conj(a[1])
        ctx.require(abs(got - want) <= tol, lambda: f"product of pure_state_amplitude({i}) and conj of ({j}) is {got}, exact {want}")
