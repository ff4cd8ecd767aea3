"""C40: documented defaults, aliases and alternative entry points agree."""
import inspect
import warnings

import numpy as np
import thewalrus as tw
from hypothesis import strategies as st
from thewalrus import csamples as cs, decompositions as dc, fock_gradients as fg, quantum as q
from thewalrus import random as tr, reference as ref, samples as sm, symplectic as sy
from thewalrus.grouped_click_probabilities import grouped_click_probabilities, grouped_click_probabilities_squeezed
from thewalrus.loop_hafnian_batch import loop_hafnian_batch
from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
from thewalrus.quantum import distinguishable_squeezers as ds

from pbt import calls, gen
from pbt.core import sub

P = "C40"


class Natural(calls.G):
    """The same ingredients in units of hbar = 2, the documented default."""

    def __init__(self, n, seed, edge):
        super().__init__(n, seed, edge)
        self.hb = 2.0


TOL = {"rtol": 1e-05, "atol": 1e-08}
H = {"hbar": 2}
mv = q.means_and_variances
DEFAULTS = [
    (tw.hafnian, {"loop": False, "approx": False, "num_samples": 1000, "method": "glynn", **TOL}),
    (tw.hafnian_repeated, {"mu": None, "loop": False, "glynn": True, **TOL}),
    (tw.loop_hafnian, {"D": None, "reps": None, "glynn": True}),
    (tw.hafnian_sparse, {"D": None, "loop": False}),
    (tw.hafnian_banded, {"loop": False, **TOL}),
    (loop_hafnian_batch, {"glynn": True}),
    (loop_hafnian_batch_gamma, {"glynn": True}),
    (tw.hafnian_batched, {"mu": None, "renorm": False, "make_tensor": True, **TOL}),
    (tw.hermite_multidimensional, {"y": None, "C": 1, "renorm": False, "make_tensor": True, "modified": False, **TOL}),
    (tw.interferometer, {"C": 1, "renorm": True, "make_tensor": True, **TOL}),
    (tw.grad_hermite_multidimensional, {"C": 1, "renorm": True, "dtype": None}),
    (tw.perm, {"method": "bbfg"}),
    (tw.tor, {"recursive": True}),
    (tw.ltor, {"recursive": True}),
    (tw.threshold_detection_prob, {"atol": 1e-10, "rtol": 1e-10, **H}),
    (ref.hafnian, {"loop": False}),
    (ref.mtl, {"loop": False}),
    (fg.displacement, {"dtype": np.complex128}),
    (fg.squeezing, {"dtype": np.complex128}),
    (fg.two_mode_squeezing, {"dtype": np.complex128}),
    (fg.beamsplitter, {"dtype": np.complex128}),
    (fg.mzgate, {"dtype": np.complex128}),
    (q.pure_state_amplitude, {"include_prefactor": True, "tol": 1e-10, "check_purity": True, **H}),
    (q.state_vector, {"post_select": None, "normalize": False, "cutoff": 5, "check_purity": True, **H}),
    (q.density_matrix_element, {"include_prefactor": True, "tol": 1e-10, **H}),
    (q.density_matrix, {"post_select": None, "normalize": False, "cutoff": 5, **H}),
    (q.fock_tensor, {"choi_r": np.arcsinh(1.0), "check_symplectic": True, "sf_order": False, **TOL}),
    (q.probabilities, {"parallel": False, **TOL, **H}),
    (q.find_classical_subsystem, {"atol": 1e-08, **H}),
    (q.tvd_cutoff_bounds, {"check_is_valid_cov": True, **TOL, **H}),
    (q.n_body_marginals, H),
    (q.Qmat, H),
    (q.Amat, {"cov_is_qmat": False, **H}),
    (q.Covmat, H),
    (q.complex_to_real_displacements, H),
    (q.real_to_complex_displacements, H),
    (q.is_symplectic, TOL),
    (sy.is_symplectic, TOL),
    (q.is_valid_cov, {**TOL, **H}),
    (q.is_pure_cov, {**TOL, **H}),
    (q.is_classical_cov, {"atol": 1e-08, **H}),
    (q.fidelity, {**TOL, **H}),
    (q.entanglement_entropy, {"modes_A": None, "split": None, **H}),
    (q.log_negativity, {"modes_A": None, "split": None, **H}),
    (q.vonneumann_entropy, H),
    (q.pure_state_distribution, {"cutoff": 50, "padding_factor": 2, **H}),
    (q.characteristic_function, {"max_iter": 10000, "delta": 1e-14, "poly_corr": None}),
    (q.total_photon_number_distribution, {"pref": 1.0}),
    (q.s_ordered_expectation, {"s": 0, **H}),
    *[(f, H) for f in (q.photon_number_mean, q.photon_number_mean_vector, q.photon_number_covar, q.photon_number_covmat, q.photon_number_expectation, q.photon_number_squared_expectation, q.normal_ordered_expectation,
                       q.photon_number_moment, q.photon_number_cumulant, mv.click_cumulant, q.mean_clicks, q.variance_clicks, sy.mean_photon_number, sy.passive_transformation, sy.expand_vector, sm.decompose_cov, sm.mu_to_alpha,
                       sm.photon_means_order)],
    (sy.loss, {"nbar": 0, **H}),
    (sy.vacuum_state, {"dtype": np.float64, **H}),
    (sy.squeezing, {"phi": None, "dtype": np.float64}),
    (sy.rotation, {"dtype": np.float64}),
    (sy.beam_splitter, {"dtype": np.float64}),
    (sy.sympmat, {"dtype": np.float64}),
    (dc.takagi, {"svd_order": True}),
    (dc.williamson, TOL),
    (cs.generate_thermal_samples, {"num_samples": 1}),
    (cs.rescale_adjacency_matrix, {"check_positivity": True, "check_symmetry": True, **TOL}),
    (cs.rescale_adjacency_matrix_thermal, {"check_positivity": True, "check_symmetry": True, **TOL}),
    (ds.sample, {"n_samples": 100, "input_cutoff": 50}),
    (grouped_click_probabilities, {"seed": 1990}),
    (grouped_click_probabilities_squeezed, {"seed": 1990}),
    (tr.random_covariance, {"pure": False, "block_diag": False, **H}),
    (tr.random_symplectic, {"passive": False, "block_diag": False, "scale": 1.0}),
    (tr.random_interferometer, {"real": False}),
    (tr.random_block_interferometer, {"top_one": True, "real": False}),
    (tr.random_banded_interferometer, {"top_one_init": True, "real": False}),
    (sm.hafnian_sample_state, {"mean": None, "cutoff": 5, "max_photons": 30, "parallel": False, **H}),
    (sm.torontonian_sample_state, {"mu": None, "max_photons": 30, "fanout": 10, "cutoff": 1, "parallel": False, **H}),
    (sm.hafnian_sample_graph, {"samples": 1, "cutoff": 5, "max_photons": 30, "parallel": False}),
    (sm.torontonian_sample_graph, {"samples": 1, "max_photons": 30, "fanout": 10, "cutoff": 1, "parallel": False}),
    (sm.hafnian_sample_graph_rank_one, {"samples": 1}),
    (sm.hafnian_sample_classical_state, {"mean": None, "atol": 1e-08, "cutoff": None, **H}),
    (sm.torontonian_sample_classical_state, {"mean": None, "atol": 1e-08, **H}),
    (sm.photon_number_sampler, {"out_of_bounds": False}),
]
TABLE = {id(f): d for f, d in DEFAULTS}


def outcome(f, args, kw, seed):
    """('value', result) or ('error', type)."""
    calls.seed_all(seed)
    try:
        return "value", f(*args, **kw)
    except Exception as e:  # pylint: disable=broad-except
        return "error", type(e)


def equal(x, y, tol=1e-12):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype == object:
            return all(equal(a, b) for a, b in zip(x.ravel(), y.ravel()))
        s = np.max(np.abs(x[np.isfinite(x)]), initial=0) if x.dtype.kind in "fc" else 0
        return np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True)
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(map(equal, x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and sorted(map(str, x)) == sorted(map(str, y)) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, (int, float, complex, np.number)) and isinstance(y, (int, float, complex, np.number)):
        return equal(np.asarray(x), np.asarray(y), tol)
    return x is y or bool(x == y)


def same(a, b):
    return a[0] == b[0] and (a[1] == b[1] if a[0] == "error" else equal(a[1], b[1]))


def default_case(names):
    return st.fixed_dictionaries(dict(name=st.sampled_from(names), n=st.sampled_from([2, 1, 3]), seed=gen.seeds, edge=st.sampled_from(["none", "none", "none", "zero", "sparse", "one"]), keep=st.integers(0, 255)))


def defaults(case, ctx):
    name, seed = case["name"], case["seed"]
    f, args, kw, _ = calls.build(name, case["n"], seed, case["edge"], Natural)
    d = TABLE.get(id(f))
    label = getattr(f, "__name__", name)
    if d is None:
        ctx.label("no optional arguments: " + label)
        ctx.nontrivial(False)
        return
    given = inspect.signature(f).bind_partial(*args).arguments
    d = {k: v for k, v in d.items() if k not in given}
    kept = {k: v for i, (k, v) in enumerate(sorted(kw.items())) if case["keep"] >> i & 1}
    if "modes_A" in kw or "split" in kw:  # one of the two is required
        kept = {k: v for k, v in kw.items() if k in ("modes_A", "split") or k in kept}
    if f is ds.sample:
        kept["n_samples"] = kw["n_samples"]
    explicit = {**{k: v for k, v in d.items() if k not in kept}, **kept}
    a, b = outcome(f, args, kept, seed), outcome(f, args, explicit, seed)
    ctx.label(label, "raises" if b[0] == "error" else "returns")
    ctx.nontrivial(b[0] == "value")
    ctx.require(same(a, b), lambda: f"{label} with {kept or 'no optional arguments'} gives {a}, with the documented defaults given explicitly {b}")
    # each documented default on its own
    for k in explicit:
        if k not in kept:
            c = outcome(f, args, {**kept, k: explicit[k]}, seed)
            ctx.require(same(c, b), lambda: f"{label} with {k}={explicit[k]!r}, its documented default, given explicitly: {c} instead of {b}")


NAMES = calls.names()
HAVE = sorted({n for n in NAMES for s in range(40) for k in (1, 2) if id(calls.build(n, k, s, "none", Natural)[0]) in TABLE})
for _i in range(2):
    sub(P, default_case(HAVE[_i::2]), quick=800, thorough=60000, threads=1, name=f"defaults{_i}",
        rule="leaving out an optional argument equals passing its documented default; non-trivial: the call returns")(defaults)


# ------------------------------------------------------------------ deprecated names and re-exports

ALIASES = {"Means": "real_to_complex_displacements", "Beta": "complex_to_real_displacements", "total_photon_num_dist_pure_state": "pure_state_distribution", "gen_Qmat_from_graph": "adj_to_qmat",
           "find_scaling_adjacency_matrix": "adj_scaling", "find_scaling_adjacency_matrix_torontonian": "adj_scaling_torontonian", "mean_number_of_clicks": "mean_clicks", "variance_number_of_clicks": "variance_clicks"}


@st.composite
def alias_case(draw):
    return dict(old=draw(st.sampled_from(sorted(ALIASES))), n=draw(st.sampled_from([2, 1, 3, 4])), seed=draw(gen.seeds), hbar=draw(st.sampled_from([2.0, 1.0, 0.5])), how=draw(st.sampled_from(["positional", "keyword", "default"])),
                cut=draw(st.sampled_from([10, 5, 1])), mean=draw(st.sampled_from([0.5, 1.0, 2.0, 0.05])))


def alias_inputs(c):
    g = calls.G(c["n"], c["seed"], "none")
    g.hb = 2.0 if c["how"] == "default" else c["hbar"]
    n, hb, how = c["n"], g.hb, c["how"]
    new = ALIASES[c["old"]]
    h = {"positional": ([hb], {}), "keyword": ([], {"hbar": hb}), "default": ([], {})}[how]
    if new in ("adj_scaling", "adj_scaling_torontonian", "adj_to_qmat"):
        A = np.abs(g.normal((n + 1, n + 1)))
        A = A + A.T
        m = c["mean"] / (4 if "tor" in new else 1)
        return new, ([A], {"n_mean": m}) if how == "keyword" else ([A, m], {})
    if new == "pure_state_distribution":
        cov = g.state(n, pure=True)[1]
        return new, {"positional": ([cov, c["cut"], hb, 3], {}), "keyword": ([cov], {"cutoff": c["cut"], "hbar": hb}), "default": ([cov], {})}[how]
    mu, cov, _ = g.state(n)
    if new == "complex_to_real_displacements":
        return new, ([mu, *h[0]], h[1])
    if new == "real_to_complex_displacements":
        return new, ([g.vec(2 * n, "c"), *h[0]], h[1])
    return new, ([cov, *h[0]], h[1])


@sub(P, alias_case(), quick=300, thorough=8000, group="a", threads=1)
def aliases(case, ctx):
    """the deprecated names forward every argument to their replacements and warn; non-trivial: several modes"""
    new, (args, kw) = alias_inputs(case)
    ctx.label(case["old"], case["how"])
    ctx.nontrivial(case["n"] > 1)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = outcome(getattr(q, case["old"]), args, kw, case["seed"])
    want = outcome(getattr(q, new), args, kw, case["seed"])
    ctx.require(same(got, want), lambda: f"{case['old']} gives {got}, {new} gives {want}")
    ctx.require(any(issubclass(x.category, DeprecationWarning) and new in str(x.message) for x in w), lambda: f"no deprecation warning that names {new}: {[str(x.message) for x in w]}")


# ------------------------------------------------------------------ the same quantity by two public routes


@st.composite
def route_case(draw, names):
    return dict(what=draw(st.sampled_from(sorted(names))), n=draw(st.sampled_from([2, 1, 3])), seed=draw(gen.seeds), edge=draw(st.sampled_from(["none", "none", "none", "zero", "sparse"])))


R = {}


def route(f):
    R[f.__name__] = f
    return f


@route
def hafnians(g):
    n = g.dim(1, 4)
    A = g.sym(n)
    cut = [g.cut() for _ in range(n)]
    mu = g.vec(n)
    yield "hafnian_batched, Hermite polynomials of the opposite matrix", tw.hafnian_batched(A, cut, mu=mu), tw.hermite_multidimensional(-A, cut, y=mu, modified=True)
    yield "hafnian_batched without means", tw.hafnian_batched(A, cut), tw.hermite_multidimensional(-A, cut, y=np.zeros(n), modified=True)
    rpt = [c - 1 for c in cut]
    x = np.asarray(tw.hafnian_batched(A, cut, mu=mu))[tuple(rpt)]
    y = tw.hafnian_repeated(A, rpt, mu=mu, loop=True)
    yield "hafnian_batched entry, hafnian_repeated", x, y
    yield "hafnian_repeated, loop_hafnian", y, tw.loop_hafnian(A, D=mu, reps=rpt)
    yield "loop_hafnian of the expanded matrix", y, tw.loop_hafnian(tw.reduction(A, rpt), D=np.repeat(mu, rpt))


@route
def matrices(g):
    A = g.sym(g.dim(1, 3) * 2)
    h, l = tw.hafnian(A), tw.hafnian(A, loop=True)
    for m in ("glynn", "inclexcl", "recursive"):
        yield "hafnian method " + m, tw.hafnian(A, method=m), h
    for m in ("glynn", "inclexcl"):
        yield "loop hafnian method " + m, tw.hafnian(A, loop=True, method=m), l
    ones = [1] * len(A)
    for loop, v in ((False, h), (True, l)):
        yield "hafnian_repeated once each", tw.hafnian_repeated(A, ones, loop=loop), v
        yield "hafnian_sparse", tw.hafnian_sparse(A, loop=loop), v
        yield "hafnian_banded", tw.hafnian_banded(A, loop=loop), v
        yield "reference", ref.hafnian(A, loop=loop), v
    yield "loop_hafnian", tw.loop_hafnian(A), l
    yield "loop_hafnian with its own diagonal", tw.loop_hafnian(A, D=np.diag(A)), l
    B = g.mat(3, 3)
    yield "perm methods", tw.perm(B, method="ryser"), tw.perm(B, method="bbfg")
    yield "permanent_repeated once each", tw.permanent_repeated(B, [1, 1, 1]), tw.perm(B)
    yield "permanent as a hafnian", tw.hafnian(np.block([[0 * B, B], [B.T, 0 * B]])), tw.perm(B)
    yield "permanent as a Bristolian", tw.ubrs(np.ones((1, 1)) * B[0, 0]), abs(B[0, 0]) ** 2


@route
def tensors(g):
    n = g.dim(1, 3)
    A, y, cut = g.sym(n), g.vec(n), [g.cut() for _ in range(n)]
    for kw in ({}, {"renorm": True}, {"modified": True}, {"C": 0.5}):
        T = tw.hermite_multidimensional(A, cut, y=y, **kw)
        yield f"flattened Hermite polynomials {kw}", tw.hermite_multidimensional(A, cut, y=y, make_tensor=False, **kw), np.asarray(T).ravel()
    yield "Hermite polynomials, modified form", tw.hermite_multidimensional(A, cut, y=y), tw.hermite_multidimensional(A, cut, y=A @ y, modified=True)
    yield "one cutoff for all", tw.hermite_multidimensional(A, 3, y=y), tw.hermite_multidimensional(A, [3] * n, y=y)
    f = np.array([np.prod([float(np.prod(np.arange(1.0, k + 1))) for k in i]) for i in np.ndindex(*cut)]).reshape(cut)
    yield "renormalised Hermite polynomials", tw.hermite_multidimensional(A, cut, y=y, renorm=True) * np.sqrt(f), tw.hermite_multidimensional(A, cut, y=y)
    yield "flattened batched hafnians", tw.hafnian_batched(A, cut, mu=y, make_tensor=False), np.asarray(tw.hafnian_batched(A, cut, mu=y)).ravel()
    U = g.haar(n)
    K = -np.block([[np.zeros((n, n)), U], [U.T, np.zeros((n, n))]])
    I = tw.interferometer(K, 3)
    yield "flattened interferometer", tw.interferometer(K, 3, make_tensor=False), np.asarray(I).ravel()
    yield "interferometer, Hermite polynomials", I, tw.hermite_multidimensional(K, 3, y=np.zeros(2 * n), renorm=True)


@route
def torontonians(g):
    n = g.dim(1, 4)
    A = g.tor(n)
    v = g.normal(2 * n)
    yield "tor recursive", tw.tor(A, recursive=True), tw.tor(A, recursive=False)
    yield "ltor recursive", tw.ltor(A, v, recursive=True), tw.ltor(A, v, recursive=False)
    yield "ltor without loops", tw.ltor(A, np.zeros(2 * n)), tw.tor(A)
    yield "rec_torontonian", tw.rec_torontonian(A), tw.tor(A)
    yield "numba_tor", tw.numba_tor(A), tw.tor(A)
    yield "numba_ltor", tw.numba_ltor(A, v), tw.ltor(A, v)
    yield "rec_ltorontonian", tw.rec_ltorontonian(A, v), tw.ltor(A, v)
    M = g.sym(2 * g.dim(1, 3)).astype(complex)
    yield "lmtl without loops", tw.lmtl(M, np.zeros(len(M), dtype=complex)), tw.mtl(M)


@route
def moments(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n)
    h = {"hbar": g.hb}
    mean = q.photon_number_mean_vector(mu, cov, **h)
    C = q.photon_number_covmat(mu, cov, **h)
    yield "mean vector entries", np.array([q.photon_number_mean(mu, cov, j, **h) for j in range(n)]), mean
    j = int(g.rng.integers(n))
    yield "mean and variance of one mode", np.array(sy.mean_photon_number(*q.reduced_gaussian(mu, cov, [j]), **h)), np.array([mean[j], C[j, j]])
    yield "covariance entries", np.array([[q.photon_number_covar(mu, cov, j, k, **h) for k in range(n)] for j in range(n)]), C
    j, k = g.rng.integers(0, n, 2).tolist()
    yield "first cumulant", q.photon_number_cumulant(mu, cov, [j], **h), mean[j]
    yield "second cumulant", q.photon_number_cumulant(mu, cov, [j, k], **h), C[j, k]
    yield "first moment", q.photon_number_moment(mu, cov, {j: 1}, **h), mean[j]
    yield "second moment", q.photon_number_moment(mu, cov, {j: 2}, **h), C[j, j] + mean[j] ** 2
    modes = g.modes(n)
    yield "expectation as a moment", q.photon_number_expectation(mu, cov, modes, **h), q.photon_number_moment(mu, cov, {m: 1 for m in modes}, **h)
    yield "squared expectation as a moment", q.photon_number_squared_expectation(mu, cov, modes, **h), q.photon_number_moment(mu, cov, {m: 2 for m in modes}, **h)
    one = [int(m in modes) for m in range(n)]
    yield "expectation in normal order", q.photon_number_expectation(mu, cov, modes, **h), q.normal_ordered_expectation(mu, cov, one + one, **h)
    rpt = g.reps(2 * n)
    yield "normal order", q.normal_ordered_expectation(mu, cov, rpt, **h), q.s_ordered_expectation(mu, cov, rpt, s=1, **h)
    for u in [cov]:
        clicks = np.array([mv.click_cumulant(0 * mu, u, [m], **h) for m in range(n)])
        yield "mean clicks", q.mean_clicks(u, **h), np.sum(clicks)
        pairs = [mv.click_cumulant(0 * mu, u, [a, b], **h) if a != b else clicks[a] - clicks[a] ** 2 for a in range(n) for b in range(n)]
        yield "variance of clicks", q.variance_clicks(u, **h), np.sum(pairs)


@route
def fock(g):
    n = g.dim(1, 2)
    c = 3
    h = {"hbar": g.hb}
    mu, cov, _ = g.state(n, pure=True, r=0.3)
    p = q.probabilities(mu, cov, c, **h)
    psi = q.state_vector(mu, cov, cutoff=c, check_purity=False, **h)
    rho = np.asarray(q.density_matrix(mu, cov, cutoff=c, **h))
    yield "probabilities of a pure state", p, np.abs(psi) ** 2
    ix = list(np.ndindex(*(c,) * n))
    yield "state vector entries", psi, np.array([q.pure_state_amplitude(mu, cov, list(i), check_purity=False, **h) for i in ix]).reshape((c,) * n)
    r = {(i, j): rho[tuple(v for ij in zip(i, j) for v in ij)] for i in ix for j in ix}
    yield "density matrix of a pure state", np.array(list(r.values())), np.array([psi[i] * np.conj(psi[j]) for i in ix for j in ix])
    mu, cov, _ = g.state(n)
    p = q.probabilities(mu, cov, c, **h)
    rho = np.asarray(q.density_matrix(mu, cov, cutoff=c, **h))
    yield "probabilities of a mixed state", p, np.array([rho[tuple(np.repeat(i, 2))] for i in ix]).real.reshape((c,) * n)
    yield "density matrix elements", p, np.array([q.density_matrix_element(mu, cov, list(i), list(i), **h) for i in ix]).real.reshape((c,) * n)
    i, j = ix[g.rng.integers(len(ix))], ix[g.rng.integers(len(ix))]
    vac = q.density_matrix_element(mu, cov, [0] * n, [0] * n, **h)
    yield "prefactor of an element", q.density_matrix_element(mu, cov, list(i), list(j), include_prefactor=False, **h) * vac, q.density_matrix_element(mu, cov, list(i), list(j), **h)
    _, cov, S = g.state(n, pure=True, r=0.3)
    al = g.vec(n, "c") * 0.3
    T = q.fock_tensor(S, al, 3)
    yield "Strawberry Fields order", q.fock_tensor(S, al, 3, sf_order=True), np.transpose(T, [a for m in range(n) for a in (m, n + m)])
    yield "fock_tensor without the check", q.fock_tensor(S, al, 3, check_symplectic=False), T


@route
def states(g):
    n = g.dim(2, 4)
    mu, cov, S = g.state(n)
    h = {"hbar": g.hb}
    m = g.modes(n, n)
    for a, b in zip(q.reduced_gaussian(mu, cov, m), sy.reduced_state(mu, cov, m)):
        yield "reduced states", a, b
    for T in (S, S * 1.01, S.T, S + 0.1):
        yield "is_symplectic", bool(q.is_symplectic(T)), bool(sy.is_symplectic(T))
    Q = q.Qmat(cov, **h)
    yield "Covmat of Qmat", q.Covmat(Q, **h), cov
    yield "Amat of Qmat", q.Amat(Q, cov_is_qmat=True), q.Amat(cov, **h)
    yield "displacements", q.complex_to_real_displacements(mu, **h)[:n], sm.mu_to_alpha(mu, **h)
    k = int(g.rng.integers(1, n))
    yield "negativity, split", q.log_negativity(cov, split=k, **h), q.log_negativity(cov, modes_A=list(range(k)), **h)
    yield "negativity, one mode", q.log_negativity(cov, modes_A=k, **h), q.log_negativity(cov, modes_A=[k], **h)
    pure = g.state(n, pure=True)[1]
    yield "entropy, split", q.entanglement_entropy(pure, split=k, **h), q.entanglement_entropy(pure, modes_A=list(range(k)), **h)
    yield "entropy of the reduced state", q.entanglement_entropy(pure, split=k, **h), q.vonneumann_entropy(q.reduced_gaussian(mu, pure, list(range(k)))[1], **h)
    yield "pure entropy", q.vonneumann_entropy(pure, **h), 0.0
    yield "fidelity with itself", q.fidelity(mu, pure, mu, pure, **h), 1.0


@route
def optics(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n)
    h = {"hbar": g.hb}
    U = g.haar(n)
    I = sy.interferometer(U)
    a = sy.passive_transformation(mu, cov, U, **h)
    yield "unitary transformation of the means", a[0], I @ mu
    yield "unitary transformation of the covariance", a[1], I @ cov @ I.T
    t = g.rng.random()
    j = int(g.rng.integers(n))
    D = np.eye(n)
    D[j, j] = np.sqrt(t)
    for x, y in zip(sy.loss(mu, cov, t, j, **h), sy.passive_transformation(mu, cov, D, **h)):
        yield "loss as a passive transformation", x, y
    th, ph = g.rng.uniform(-3, 3, 2)
    yield "rotation", sy.rotation(th), sy.interferometer(np.array([[np.exp(1j * th)]]))
    c, s = np.cos(th), np.sin(th)
    yield "beam splitter", sy.beam_splitter(th, ph), sy.interferometer(np.array([[c, -np.exp(-1j * ph) * s], [np.exp(1j * ph) * s, c]]))
    r = g.vec(n, "f") * 0.5
    f = g.vec(n, "f")
    yield "squeezing without phases", sy.squeezing(r), sy.squeezing(r, np.zeros(n))
    sq = np.zeros((2 * n, 2 * n))
    for k in range(n):
        sq[np.ix_([k, n + k], [k, n + k])] = sy.squeezing(r[k : k + 1], f[k : k + 1])
    yield "squeezing, one mode at a time", sy.squeezing(r, f), sq
    yield "expanded squeezing", sy.expand(sy.squeezing(r[:1], f[:1]), [0], 2), sy.squeezing(np.array([r[0], 0]), np.array([f[0], 0]))
    v, c0 = sy.vacuum_state(n, **h)
    yield "vacuum means", v, np.zeros(2 * n)
    yield "vacuum covariance", c0, np.eye(2 * n) * g.hb / 2
    yield "orderings", sy.xpxp_to_xxpp(sy.xxpp_to_xpxp(cov)), cov


@route
def batches(g):
    n = g.dim(2, 4)
    A, D = g.sym(n, "c"), g.vec(n, "c")
    reps, cut = np.array(g.reps(n - 1), dtype=int), 4
    one = loop_hafnian_batch(A, D, reps, cut)
    many = loop_hafnian_batch_gamma(A, np.array([D, D * 0.5]), reps, cut)
    yield "a batch of diagonals", many[0], one
    yield "second diagonal", many[1], loop_hafnian_batch(A, D * 0.5, reps, cut)
    # the batched mode is the last one
    order = list(range(n))
    yield "one at a time", one, np.array([tw.loop_hafnian(A[np.ix_(order, order)], D=D, reps=[*reps.tolist(), k]) for k in range(cut + 1)])


@route
def adjacency(g):
    n = g.dim(2, 4)
    X = g.normal((n, n))
    A = X @ X.T + 0.1 * np.eye(n)
    m = g.rng.uniform(0.2, 2)
    for a, b in zip(cs.rescale_adjacency_matrix_thermal(A, m), cs.rescale_adjacency_matrix(A, m, 1.0)):
        yield "thermal rescaling", a, b
    x = q.adj_scaling(A, m)
    Q = q.adj_to_qmat(A, m)
    yield "mean photon number of a scaled graph", float(np.real(np.trace(Q) / 2 - n)), m
    yield "hafnian matrix of a scaled graph", q.Amat(Q, cov_is_qmat=True), np.kron(np.eye(2), A * x)
    r = g.normal(n) * 0.3
    T = np.ascontiguousarray(g.haar(n))
    for a, b in zip(grouped_click_probabilities(np.sinh(r) ** 2, np.sinh(2 * r) / 2, T, 12, 3), grouped_click_probabilities_squeezed(r, T, 12, 3)):
        yield "squeezed light", a, b


# relative and absolute accuracy of comparisons that are not exact rearrangements
LOOSE = {"pure entropy": 1e-5, "fidelity with itself": 1e-4, "mean photon number of a scaled graph": 1e-6, "squeezed light": 1e-7, "entropy of the reduced state": 1e-6, "entropy, split": 1e-6}


@sub(P, route_case(R), quick=1000, thorough=50000, threads=1)
def routes(case, ctx):
    """the same quantity through two public entry points; non-trivial: a generic (not degenerate) input"""
    what = case["what"]
    g = calls.G(case["n"], case["seed"], case["edge"])
    ctx.label(what, "edge " + case["edge"])
    ctx.nontrivial(case["edge"] == "none")
    for name, x, y in R[what](g):
        x, y = np.asarray(x), np.asarray(y)
        ctx.require(x.shape == y.shape, lambda: f"{name}: shapes {x.shape} and {y.shape}")
        tol = LOOSE.get(name, 1e-8)
        if x.dtype == bool:
            ctx.require(np.array_equal(x, y), lambda: f"{name}: {x} and {y}")
        else:
            ctx.close(x, y, name, tol, tol, 1 + np.max(np.abs(y), initial=0))


# ------------------------------------------------------------------ tolerances


@st.composite
def tolerance_case(draw):
    tol = draw(st.sampled_from([None, (1e-3, 1e-9), (0.0, 1e-2), (1e-9, 1e-6), (1e-2, 1e-9), (0.0, 1e-5), (1e-7, 1e-4)]))
    return dict(what=draw(st.sampled_from(["hafnian", "loop hafnian", "repeated", "batched", "hermite", "interferometer", "banded", "williamson", "rescale", "thermal", "valid", "valid physical", "pure", "classical", "prefix",
                                           "sampler", "click sampler", "symplectic", "quantum symplectic"])), n=draw(st.sampled_from([2, 1, 3])), seed=draw(gen.seeds), tol=tol, hbar=draw(st.sampled_from([2.0, 1.0, 4.0])), cplx=draw(st.booleans()))


def tolerance_inputs(c):
    """(call taking a matrix, matrix at x times the limit) and whether rejection is an exception."""
    n, rng, hb, what = c["n"], np.random.default_rng(c["seed"]), c["hbar"], c["what"]
    rtol, atol = c["tol"] or (1e-5, 1e-8)
    kw = {} if c["tol"] is None else {"rtol": rtol, "atol": atol}
    absolute = {} if c["tol"] is None else {"atol": atol}
    h = {"hbar": hb}

    def skew(A, complex_ok=False):
        A = A.astype(complex) if complex_ok and c["cplx"] else A
        i, j = rng.choice(len(A), 2, replace=False)
        u = rng.choice([1, -1, 1j, -1j]) if complex_ok and c["cplx"] else rng.choice([1, -1])

        def at(x):
            B = A.copy()
            B[i, j] += u * x * (atol + rtol * abs(A[i, j]))
            return B

        return at

    A = rng.normal(size=(2 * n, 2 * n))
    A = A + A.T
    X = rng.normal(size=(2 * n, 2 * n))
    g = calls.G(n, c["seed"], "none")
    g.hb = hb
    _, V, S = g.state(n)
    V = V + hb / 2 * np.eye(2 * n)  # well inside the classical states
    cl = V - np.eye(2 * n) * np.linalg.eigvalsh(V)[0] + hb / 2 * np.eye(2 * n)  # on the boundary
    sq = V - np.eye(2 * n) * np.linalg.eigvalsh(V + 0.5j * hb * sy.sympmat(n))[0]  # on the boundary of the physical states
    lower = lambda B: (lambda x: B - x * atol * np.eye(2 * n))  # noqa: E731
    table = {
        "hafnian": (lambda B: tw.hafnian(B, **kw), lambda: skew(A, True)),
        "loop hafnian": (lambda B: tw.hafnian(B, loop=True, **kw), lambda: skew(A, True)),
        "repeated": (lambda B: tw.hafnian_repeated(B, [1] * (2 * n), **kw), lambda: skew(A, True)),
        "batched": (lambda B: tw.hafnian_batched(B, 2, **kw), lambda: skew(A, True)),
        "hermite": (lambda B: tw.hermite_multidimensional(B, 2, **kw), lambda: skew(A, True)),
        "interferometer": (lambda B: tw.interferometer(B, 2, **kw), lambda: skew(A, True)),
        "banded": (lambda B: tw.hafnian_banded(B, **kw), lambda: skew(A, True)),
        "williamson": (lambda B: dc.williamson(B, **kw), lambda: skew(V)),
        "rescale": (lambda B: cs.rescale_adjacency_matrix(B, 0.5, 2.0, **kw), lambda: skew(X @ X.T + np.eye(2 * n))),
        "thermal": (lambda B: cs.rescale_adjacency_matrix_thermal(B, 0.5, **kw), lambda: skew(X @ X.T + np.eye(2 * n))),
        "valid": (lambda B: q.is_valid_cov(B, **h, **kw), lambda: skew(V)),
        "valid physical": (lambda B: q.is_valid_cov(B, **h, **kw), lambda: lower(sq)),
        "pure": (lambda B: q.is_pure_cov(B, **h, **kw), lambda: (lambda x: (S @ S.T) * hb / 2 * (1 - x * (atol + rtol)) ** (-1 / n))),
        "classical": (lambda B: q.is_classical_cov(B, **h, **absolute), lambda: lower(cl)),
        "prefix": (lambda B: q.find_classical_subsystem(B, **h, **absolute) == n, lambda: lower(cl)),
        "sampler": (lambda B: sm.hafnian_sample_classical_state(B, 1, **h, **absolute), lambda: lower(cl)),
        "click sampler": (lambda B: sm.torontonian_sample_classical_state(B, 1, **h, **absolute), lambda: lower(cl)),
        "symplectic": (lambda B: sy.is_symplectic(B, **kw), lambda: (lambda x: S * np.sqrt(1 + x * (atol + rtol)))),
        "quantum symplectic": (lambda B: q.is_symplectic(B, **kw), lambda: (lambda x: S * np.sqrt(1 + x * (atol + rtol)))),
    }
    f, mk = table[what]
    return f, mk()


@sub(P, tolerance_case(), quick=700, thorough=30000, group="a", threads=1)
def tolerances(case, ctx):
    """deviations of half the documented or requested tolerance are accepted and of twice the tolerance rejected; non-trivial: an explicit tolerance"""
    f, at = tolerance_inputs(case)
    ctx.label(case["what"], "default" if case["tol"] is None else "explicit")
    ctx.nontrivial(case["tol"] is not None)
    for x, good in ((0.0, True), (0.5, True), (2.0, False), (10.0, False)):
        how, v = outcome(f, [at(x)], {}, case["seed"])
        ok = how == "value" and not (isinstance(v, (bool, np.bool_)) and not v)
        ctx.require(ok == good, lambda: f"{case['what']} with a deviation of {x} times the tolerance {case['tol'] or 'default'}: {how} {v}, expected it to be {'accepted' if good else 'rejected'}")
