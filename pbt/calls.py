"""Generator of valid calls of (nearly) every public function: used by the argument-preservation,
repeatability and memory-safety checks.  ``build(name, n, seed, edge)`` gives (function, args, kwargs)."""
import numba
import numpy as np

import thewalrus as tw
import thewalrus._hafnian as hf
import thewalrus._permanent as pm
import thewalrus._torontonian as tt
from thewalrus import charpoly as cp, csamples as cs, decompositions as dc, fock_gradients as fg, quantum as q
from thewalrus import random as tr, reference as ref, samples as sm, symplectic as sy
from thewalrus.grouped_click_probabilities import grouped_click_probabilities, grouped_click_probabilities_squeezed
from thewalrus.loop_hafnian_batch import loop_hafnian_batch
from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
from thewalrus.quantum import distinguishable_squeezers as ds
from pbt import gen, oracle


@numba.njit
def nb_seed(s):
    np.random.seed(s)


def seed_all(s):
    np.random.seed(s % 2**32)
    nb_seed(s % 2**32)


class G:
    """Random ingredients; ``edge`` asks for degenerate choices."""

    def __init__(self, n, seed, edge):
        self.n, self.rng, self.edge, self.seed = n, np.random.default_rng(seed), edge, seed
        self.hb = [2.0, 1.0, 0.5][self.rng.integers(3)]

    def pick(self, *xs):
        return xs[self.rng.integers(len(xs))]

    def dim(self, lo, hi):
        return min(max(self.n, lo), hi)

    def sym(self, n, dts="fci"):
        dt = self.pick(*dts)
        A = gen._vals(self.rng, (n, n), dt, 1.0)
        A = np.triu(A) + np.triu(A, 1).T
        if self.edge == "zero":
            A = A * 0
        elif self.edge == "sparse":
            M = np.triu(self.rng.random((n, n)) < 0.4)
            A = A * (M | M.T)
        return np.ascontiguousarray(A)

    def mat(self, m, n, dts="fc"):
        A = gen._vals(self.rng, (m, n), self.pick(*dts), 1.0)
        return A * 0 if self.edge == "zero" else A

    def vec(self, n, dts="fc"):
        return gen._vals(self.rng, n, self.pick(*dts), 1.0)

    def normal(self, size):
        return self.rng.normal(size=size)

    def haar(self, n, real=False):
        return gen.haar(n, self.rng, real=real)

    def reps(self, n, hi=3):
        if self.edge == "zero":
            return [0] * n
        return self.rng.integers(0, hi, n).tolist()

    def tor(self, n):
        X = self.rng.normal(size=(2 * n, 2 * n))
        A = X @ X.T
        return A / (1.2 * np.linalg.norm(A, 2)) if n else A

    def state(self, n, pure=False, r=0.5):
        s = self.rng.uniform(-r, r, n) * (self.edge != "zero")
        nu = np.ones(n) if pure else self.rng.uniform(1, 2, n)
        S = oracle.passive(gen.haar(n, self.rng)) @ np.diag(np.exp(np.concatenate([s, -s]))) @ oracle.passive(gen.haar(n, self.rng))
        V = S @ np.diag(np.tile(nu, 2)) @ S.T * self.hb / 2
        mu = self.rng.normal(size=2 * n) * 0.5 * (self.edge != "zero")
        return mu, (V + V.T) / 2, S

    def modes(self, n, hi=3, repeat=False):
        k = int(self.rng.integers(1, hi + 1))
        return self.rng.integers(0, n, k).tolist() if repeat else self.rng.choice(n, min(k, n), replace=False).tolist()

    def cut(self):
        return 1 if self.edge == "one" else int(self.rng.integers(2, 5))


C = {}


class Integers(G):
    """The same ingredients with integer entries (states from integer symplectic matrices)."""

    def sym(self, n, dts="fci"):
        dt = self.pick(*[d for d in dts if d != "i"] or ["f"])
        A = super().sym(n, "i").astype(float)
        return A + 1j * super().sym(n, "i") if dt == "c" else A

    def mat(self, m, n, dts="fc"):
        dt = self.pick(*[d for d in dts if d != "i"] or ["f"])
        A = super().mat(m, n, "i").astype(float)
        return A + 1j * super().mat(m, n, "i") if dt == "c" else A

    def vec(self, n, dts="fc"):
        dt = self.pick(*[d for d in dts if d != "i"] or ["f"])
        x = super().vec(n, "i").astype(float)
        return x + 1j * super().vec(n, "i") if dt == "c" else x

    def normal(self, size):
        return self.rng.integers(-2, 3, size=size).astype(float)

    def haar(self, n, real=False):
        P = np.eye(n)[self.rng.permutation(n)]
        d = self.rng.choice([1, -1] if real else [1, -1, 1j, -1j], size=n)
        return P * d

    def state(self, n, pure=False, r=0.5):
        self.hb = 2.0
        S = np.eye(2 * n)
        for _ in range(0 if self.edge == "zero" else int(self.rng.integers(1, 4))):
            T = np.eye(2 * n)
            i, j = self.rng.integers(0, n, 2)
            k = self.rng.integers(3)
            if k == 0 or i == j:  # shear
                T[n + i, i] = self.rng.choice([-1, 1])
            elif k == 1:  # controlled phase
                T[n + i, j] = T[n + j, i] = self.rng.choice([-1, 1])
            else:  # Fourier gate
                T[[i, n + i]] = T[[n + i, i]] * np.array([[1], [-1]])
            S = T @ S
        nu = np.ones(n) if pure else self.rng.integers(1, 3, n)
        V = S @ np.diag(np.tile(nu, 2)) @ S.T
        mu = self.rng.integers(-1, 2, 2 * n) * float(self.edge != "zero")
        return mu, V, S


def call(*tags):
    def deco(f):
        C[f.__name__] = (f, set(tags))
        return f

    return deco


# ------------------------------------------------------------------ hafnians


@call("kernel")
def hafnian(g):
    return tw.hafnian, [g.sym(g.dim(0, 8))], g.pick({}, {"loop": True}, {"method": "inclexcl"}, {"method": "recursive"}, {"loop": True, "method": "inclexcl"})


@call("kernel")
def hafnian_repeated(g):
    n = g.dim(1, 5)
    A, kw = g.sym(n), g.pick({}, {"loop": True}, {"glynn": False}, {"loop": True, "glynn": False})
    if kw.get("loop") and g.rng.random() < 0.6:
        kw = dict(kw, mu=g.vec(n))
    rpt = g.reps(n)
    return tw.hafnian_repeated, [A, g.pick(rpt, np.array(rpt), tuple(rpt))], kw


@call("kernel")
def loop_hafnian(g):
    n = g.dim(1, 6)
    return tw.loop_hafnian, [g.sym(n)], {"D": g.vec(n), "reps": g.reps(n)} if g.rng.random() < 0.7 else {}


@call()
def reduction(g):
    n = g.dim(1, 5)
    return tw.reduction, [g.sym(n), g.reps(n)], {}


@call()
def hafnian_sparse(g):
    return tw.hafnian_sparse, [g.sym(g.dim(1, 6))], g.pick({}, {"loop": True}, {"D": {0}}, {"D": set()})


@call()
def hafnian_banded(g):
    n = g.dim(1, 6)
    A = g.sym(n)
    w = int(g.rng.integers(0, n))
    A = A * (np.abs(np.subtract.outer(range(n), range(n))) <= w)
    return tw.hafnian_banded, [A], g.pick({}, {"loop": True})


@call("kernel")
def recursive_hafnian(g):
    return hf.recursive_hafnian, [g.sym(2 * g.dim(1, 4), "fc")], {}


@call("kernel", "random")
def hafnian_approx(g):
    A = np.abs(g.sym(2 * g.dim(1, 4), "f"))
    return tw.hafnian, [A], {"approx": True, "num_samples": 7}


@call()
def matched_reps(g):
    return tw.matched_reps, [np.array(g.reps(g.dim(1, 8), 4))], {}


@call()
def low_rank_hafnian(g):
    return tw.low_rank_hafnian, [g.mat(g.dim(1, 4), g.pick(1, 2), "fc")], {}


@call("kernel")
def loop_hafnian_batch_(g):
    n = g.dim(1, 4)
    return loop_hafnian_batch, [g.sym(n, "c"), g.vec(n, "c"), np.array(g.reps(n - 1), dtype=int), g.pick(1, 2, 5, 4)], {"glynn": bool(g.rng.integers(2))}


@call("kernel")
def loop_hafnian_batch_gamma_(g):
    n = g.dim(1, 4)
    return loop_hafnian_batch_gamma, [g.sym(n, "c"), g.mat(g.pick(3, 1), n, "c"), np.array(g.reps(n - 1), dtype=int), g.pick(1, 2, 5, 4)], {"glynn": bool(g.rng.integers(2))}


# ------------------------------------------------------------------ batches, Hermite polynomials


@call("kernel")
def hafnian_batched(g):
    n = g.dim(1, 3)
    cut = g.pick(g.cut(), [g.cut() for _ in range(n)])
    kw = {"renorm": bool(g.rng.integers(2)), "make_tensor": bool(g.rng.integers(2))}
    if g.rng.random() < 0.6:
        kw["mu"] = g.vec(n)
    return tw.hafnian_batched, [g.sym(n), cut], kw


@call("kernel")
def hermite_multidimensional(g):
    n = g.dim(1, 3)
    kw = {"renorm": bool(g.rng.integers(2)), "make_tensor": bool(g.rng.integers(2)), "modified": bool(g.rng.integers(2)), "C": g.pick(1, 0.5, 1j)}
    if g.rng.random() < 0.7:
        kw["y"] = g.vec(n)
    return tw.hermite_multidimensional, [g.sym(n), g.pick(g.cut(), [g.cut() for _ in range(n)])], kw


@call("kernel")
def interferometer_tensor(g):
    n = g.dim(1, 3)
    U = g.haar(n)
    R = np.block([[np.zeros((n, n)), U], [U.T, np.zeros((n, n))]])
    return tw.interferometer, [-R, 1 if g.edge == "one" else 3], {"renorm": bool(g.rng.integers(2)), "make_tensor": bool(g.rng.integers(2))}


@call("kernel")
def grad_hermite(g):
    n = g.dim(1, 2)
    R, y, rn = g.sym(n, "c"), g.vec(n, "c"), bool(g.rng.integers(2))
    T = tw.hermite_multidimensional(R, [g.cut() for _ in range(n)], y=y, modified=True, renorm=rn)
    return tw.grad_hermite_multidimensional, [T, R, y], {"renorm": rn}


# ------------------------------------------------------------------ permanents, torontonians, montrealers


@call("kernel")
def perm(g):
    n = g.dim(0, 7)
    return tw.perm, [g.mat(n, n, "fci")], {"method": g.pick("bbfg", "ryser")}


@call("kernel")
def permanent_repeated(g):
    n = g.dim(1, 4)
    return tw.permanent_repeated, [g.mat(n, n), g.reps(n)], {}


@call("kernel")
def brs(g):
    m, n = g.dim(0, 5), int(g.rng.integers(0, 5))
    X = g.mat(n, n, "c")
    return tw.brs, [g.mat(m, n, "c"), X @ X.conj().T], {}


@call("kernel")
def ubrs(g):
    return tw.ubrs, [g.mat(g.dim(0, 5), int(g.rng.integers(0, 5)), "c")], {}


@call("kernel")
def fock_prob(g):
    n = g.dim(1, 4)
    i = g.reps(n)
    return pm.fock_prob, [i, g.rng.permutation(i).tolist(), g.haar(n)], {}


@call("kernel")
def fock_threshold_prob(g):
    n = g.dim(1, 4)
    m = int(g.rng.integers(1, n + 1))
    return pm.fock_threshold_prob, [g.reps(n), g.rng.integers(0, 2, m).tolist(), g.haar(n)[:m] * g.pick(1, 0.8)], {}


def tor_case(fs, loops):
    def f(g):
        A = g.tor(g.dim(0 if fs[0] in (tw.tor, tw.ltor) else 1, 4))
        kw = {"recursive": bool(g.rng.integers(2))} if fs[0] in (tw.tor, tw.ltor) else {}
        if fs[0] in (tw.mtl, tw.lmtl) or g.rng.random() < 0.3:
            A = A.astype(complex)
        return g.pick(*fs), [A] + ([g.normal(len(A)).astype(A.dtype)] if loops else []), kw

    return f


for _n, _fs, _l in (("tor", [tw.tor], False), ("ltor", [tw.ltor], True), ("tor_kernels", [tw.numba_tor, tw.rec_torontonian], False), ("ltor_kernels", [tw.numba_ltor, tw.rec_ltorontonian], True),
                    ("mtl", [tw.mtl], False), ("lmtl", [tw.lmtl], True)):
    C[_n] = (tor_case(_fs, _l), {"kernel"})


@call("kernel")
def threshold_detection_prob(g):
    n = g.dim(1, 4)
    mu, cov, _ = g.state(n)
    if g.rng.random() < 0.4:
        mu = mu * 0
    d = g.rng.integers(0, 2, n) * (g.edge != "zero")
    return tw.threshold_detection_prob, [mu, cov, g.pick(d, d.tolist())], {"hbar": g.hb}


# ------------------------------------------------------------------ charpoly, gradients


@call("kernel", "inplace")
def charpoly(g):
    n = g.dim(1, 6)
    return cp.charpoly, [g.mat(n, n, "fc")], {}


@call("kernel", "inplace")
def powertrace(g):
    n = g.dim(1, 6)
    return cp.powertrace, [g.mat(n, n, "fc"), g.pick(1, 2, 3, n + 3)], {}


@call("kernel", "inplace")
def hessenberg(g):
    n = g.dim(1, 6)
    return cp.reduce_matrix_to_hessenberg, [g.mat(n, n, "fc")], {}


@call("kernel")
def reflection(g):
    n = g.dim(2, 6)
    return cp.get_reflection_vector, [g.mat(n, n, "fc"), int(g.rng.integers(1, n))], {}


@call("kernel")
def gates(g):
    name = g.pick("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate")
    return getattr(fg, name), [float(g.rng.uniform(0, 0.8)), float(g.rng.normal()), g.cut()], {"dtype": g.pick(np.complex128, np.complex64)} if g.rng.random() < 0.3 else {}


@call("kernel")
def gate_gradients(g):
    name = g.pick("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate")
    r, phi = float(g.rng.uniform(0.1, 0.8)), float(g.rng.normal())
    return getattr(fg, "grad_" + name), [getattr(fg, name)(r, phi, g.cut()), r, phi], {}


# ------------------------------------------------------------------ quantum: Fock space


@call("kernel")
def pure_state_amplitude(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n, pure=True)
    return q.pure_state_amplitude, [mu, cov, g.reps(n)], {"hbar": g.hb, "include_prefactor": bool(g.rng.integers(2))}


@call("kernel")
def state_vector(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n, pure=True)
    kw = {"hbar": g.hb, "cutoff": g.cut(), "normalize": bool(g.rng.integers(2))}
    if n > 1 and g.rng.random() < 0.6:
        kw["post_select"] = {int(g.rng.integers(n)): 0}
    return q.state_vector, [mu, cov], kw


@call("kernel")
def density_matrix_element(g):
    n = g.dim(1, 2)
    mu, cov, _ = g.state(n)
    return q.density_matrix_element, [mu, cov, g.reps(n), g.reps(n)], {"hbar": g.hb, "include_prefactor": bool(g.rng.integers(2))}


@call("kernel")
def density_matrix(g):
    n = g.dim(1, 2)
    mu, cov, _ = g.state(n)
    kw = {"hbar": g.hb, "cutoff": g.cut(), "normalize": bool(g.rng.integers(2))}
    if n > 1 and g.rng.random() < 0.6:
        kw["post_select"] = {int(g.rng.integers(n)): 0}
    return q.density_matrix, [mu, cov], kw


@call("kernel")
def fock_tensor(g):
    n = g.dim(1, 2)
    _, _, S = g.state(n, pure=True)
    return q.fock_tensor, [S, g.vec(n, "c") * 0.3, g.cut()], {"sf_order": bool(g.rng.integers(2))}


@call("kernel")
def probabilities(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n, pure=g.rng.random() < 0.5)
    return q.probabilities, [mu, cov, g.cut()], {"hbar": g.hb}


@call("kernel")
def loss_mat(g):
    return q.loss_mat, [g.pick(0.0, 1.0, 0.4), g.cut()], {}


@call("kernel")
def update_probabilities_with_loss(g):
    n = g.dim(1, 3)
    c = g.cut()
    return q.update_probabilities_with_loss, [g.rng.random(n).tolist(), g.rng.random((c,) * n)], {}


@call("kernel")
def update_probabilities_with_noise(g):
    n = g.dim(1, 3)
    c = g.cut()
    return q.update_probabilities_with_noise, [[g.rng.random(int(g.rng.integers(1, 6))) for _ in range(n)], g.rng.random((c,) * n)], {}


@call()
def find_classical_subsystem(g):
    n = g.dim(1, 4)
    return q.find_classical_subsystem, [g.state(n)[1] + g.pick(0, 0.3, 1) * g.hb * np.eye(2 * n)], {"hbar": g.hb}


@call()
def tvd_cutoff_bounds(g):
    mu, cov, _ = g.state(g.dim(1, 3))
    return q.tvd_cutoff_bounds, [mu, cov, g.cut()], {"hbar": g.hb}


@call("kernel")
def n_body_marginals(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n)
    return q.n_body_marginals, [mu, cov, g.cut(), int(g.rng.integers(1, n + 1))], {"hbar": g.hb}


# ------------------------------------------------------------------ quantum: moments


def moment_call(f, how):
    def build_(g):
        n = g.dim(1, 3)
        mu, cov, _ = g.state(n)
        a = {"j": [int(g.rng.integers(n))], "jk": g.rng.integers(0, n, 2).tolist(), "": [], "modes": [g.modes(n)], "rep": [g.modes(n, repeat=True)],
             "rpt": [g.rng.integers(0, 3, 2 * n).tolist()], "dict": [{m: int(g.rng.integers(1, 3)) for m in g.modes(n)}]}[how]
        return f, [mu, cov] + a, {"hbar": g.hb}

    return build_


for _f, _h in ((q.photon_number_mean, "j"), (q.photon_number_mean_vector, ""), (q.photon_number_covar, "jk"), (q.photon_number_covmat, ""), (q.photon_number_expectation, "modes"),
               (q.photon_number_squared_expectation, "modes"), (q.normal_ordered_expectation, "rpt"), (q.s_ordered_expectation, "rpt"), (q.photon_number_moment, "dict"),
               (q.photon_number_cumulant, "rep"), (q.means_and_variances.click_cumulant, "rep"), (sy.mean_photon_number, "")):
    C[_f.__name__] = (moment_call(_f, _h), {"kernel"} if _h not in ("j", "", "jk") else set())


@call()
def click_moments(g):
    return g.pick(q.mean_clicks, q.variance_clicks), [g.state(g.dim(1, 4))[1]], {"hbar": g.hb}


@call()
def pure_state_distribution(g):
    return q.pure_state_distribution, [g.state(g.dim(1, 3), pure=True)[1]], {"hbar": g.hb, "cutoff": g.pick(10, 5)}


@call()
def total_distribution(g):
    if g.rng.random() < 0.5:
        return q.characteristic_function, [int(g.rng.integers(1, 4)), 0.4, 0.7, -0.1], {"poly_corr": g.pick(None, 1, 2)}
    return q.total_photon_number_distribution, [int(g.rng.integers(0, 6)), int(g.rng.integers(1, 4)), 0.5, g.pick(1.0, 0.6, 0.0)], {}


# ------------------------------------------------------------------ quantum: states


@call()
def checks(g):
    f = g.pick(q.is_valid_cov, q.is_pure_cov, q.is_classical_cov, q.vonneumann_entropy, dc.symplectic_eigenvals)
    return f, [g.state(g.dim(1, 4), pure=bool(g.rng.integers(2)))[1]], {} if f is dc.symplectic_eigenvals else {"hbar": g.hb}


@call()
def fidelity(g):
    n = g.dim(1, 3)
    (m1, c1, _), (m2, c2, _) = g.state(n), g.state(n, pure=bool(g.rng.integers(2)))
    return q.fidelity, [m1, c1, m2, c2], {"hbar": g.hb}


@call()
def entanglement(g):
    n = g.dim(2, 4)
    f = g.pick(q.entanglement_entropy, q.log_negativity)
    kw = g.pick({"split": 1}, {"modes_A": [n - 1, 0]}, {"modes_A": np.array([0])}, {"modes_A": 1})
    return f, [g.state(n, pure=f is q.entanglement_entropy)[1]], dict(kw, hbar=g.hb)


@call()
def conversions(g):
    n = g.dim(1, 3)
    mu, cov, S = g.state(n)
    Q = q.Qmat(cov, hbar=g.hb)
    return g.pick((q.Qmat, [cov], {"hbar": g.hb}), (q.Amat, [cov], {"hbar": g.hb}), (q.Amat, [Q], {"cov_is_qmat": True}), (q.Covmat, [Q], {"hbar": g.hb}),
                  (q.complex_to_real_displacements, [mu], {"hbar": g.hb}), (q.real_to_complex_displacements, [q.complex_to_real_displacements(mu, hbar=g.hb)], {"hbar": g.hb}), (q.Xmat, [n], {}), (q.is_symplectic, [S], {}))


@call()
def reductions(g):
    n = g.dim(1, 4)
    mu, cov, _ = g.state(n)
    m = g.modes(n, n)
    return g.pick(q.reduced_gaussian, sy.reduced_state), [mu, cov, g.pick(m, np.array(m), m[0])], {}


@call()
def adjacency(g):
    n = g.dim(2, 4)
    A = np.abs(g.normal((n, n)))
    A = A + A.T
    return g.pick(q.adj_scaling, q.adj_to_qmat, q.adj_scaling_torontonian), [A, 0.6], {}


# ------------------------------------------------------------------ symplectic, decompositions


@call()
def symplectic_update(g):
    n = g.dim(1, 4)
    mu, cov, S = g.state(n)
    T = g.haar(n) * g.pick(0.8, 1.0)
    m = int(g.rng.integers(n))
    k = int(g.rng.integers(1, n + 1))
    return g.pick((sy.passive_transformation, [mu, cov, T], {"hbar": g.hb}), (sy.passive_transformation, [mu, cov, T[:k]], {"hbar": g.hb}),
                  (sy.loss, [mu, cov, g.pick(0.0, 0.5, 1.0), m], {"hbar": g.hb, "nbar": g.pick(0, 0.5)}), (sy.expand, [S, g.modes(n + 2, 1) if n == 1 else g.rng.permutation(n + 1)[:n].tolist(), n + 2], {}),
                  (sy.expand_vector, [complex(g.rng.normal(), g.rng.normal()), m, n], {"hbar": g.hb}), (sy.expand_passive, [T[:k, :k], g.rng.choice(n, k, replace=False).tolist(), n], {}))


@call()
def symplectic_gates(g):
    n = g.dim(1, 4)
    r = g.vec(n, "f")
    S = g.state(n)[2]
    return g.pick((sy.squeezing, [r], {}), (sy.squeezing, [r, r * 2], {}), (sy.two_mode_squeezing, [0.3, 0.2], {}), (sy.interferometer, [g.haar(n)], {}), (sy.beam_splitter, [0.3, 0.4], {}), (sy.rotation, [0.3], {}),
                  (sy.sympmat, [n], {}), (sy.vacuum_state, [n], {"hbar": g.hb}), (sy.xxpp_to_xpxp, [S], {}), (sy.xpxp_to_xxpp, [S], {}), (sy.xxpp_to_xpxp, [S[0].copy()], {}), (sy.is_symplectic, [S], {}))


@call()
def decompositions(g):
    n = g.dim(1, 4)
    mu, cov, _ = g.state(n)
    S = g.state(n, pure=True)[2]
    return g.pick((dc.williamson, [cov], {}), (dc.blochmessiah, [S], {}), (dc.takagi, [g.sym(n, "fc")], {"svd_order": bool(g.rng.integers(2))}), (dc.pre_iwasawa, [S], {}), (dc.iwasawa, [S], {}))


# ------------------------------------------------------------------ samplers


@call("kernel", "random")
def sample_states(g):
    n = g.dim(1, 2)
    mu, cov, _ = g.state(n)
    if g.rng.random() < 0.5:
        return sm.hafnian_sample_state, [cov, 2], {"mean": mu, "hbar": g.hb, "cutoff": 6}
    return sm.torontonian_sample_state, [cov, 2], {"mu": mu, "hbar": g.hb}


@call("kernel", "random")
def sample_graphs(g):
    n = g.dim(2, 3)
    A = np.abs(g.normal((n, n)))
    A = A + A.T
    return g.pick(sm.hafnian_sample_graph, sm.torontonian_sample_graph), [A, 0.4], {"samples": 2}


@call("random")
def sample_classical(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n)
    # distinct eigenvalues: the eigenbasis numpy's multivariate_normal uses is then stable under rounding
    cov = cov + g.hb * np.diag(1 + np.arange(2 * n) / 3)
    return g.pick(sm.hafnian_sample_classical_state, sm.torontonian_sample_classical_state), [cov, 3], {"mean": mu, "hbar": g.hb}


@call("random")
def sample_misc(g):
    n = g.dim(1, 3)
    p = g.rng.random((3,) * n)
    O = g.haar(n, real=True)
    return g.pick((sm.photon_number_sampler, [p / p.sum(), 3], {"out_of_bounds": g.pick(False, -1)}), (sm.hafnian_sample_graph_rank_one, [g.normal(n), 0.7], {"samples": 3}),
                  (cs.generate_thermal_samples, [g.rng.random(n) / 2, O], {"num_samples": 3}), (ds.sample, [g.haar(n) * 0.9, g.normal(n) / 2], {"n_samples": 3}),
                  (ds.number_means, [g.haar(n), g.normal(n)], {}), (ds.number_cov, [g.haar(n), g.normal(n)], {}))


@call()
def rescale(g):
    n = g.dim(1, 3)
    X = g.normal((n, n))
    return g.pick((cs.rescale_adjacency_matrix_thermal, [X @ X.T + 0.1 * np.eye(n), 0.8], {}), (cs.rescale_adjacency_matrix, [X @ X.T + 0.1 * np.eye(n), 0.8, 2.0], {}))


@call("random")
def sampler_parts(g):
    n = g.dim(1, 3)
    mu, cov, _ = g.state(n)
    return g.pick((sm.decompose_cov, [cov], {"hbar": g.hb}), (sm.mu_to_alpha, [mu], {"hbar": g.hb}), (sm.invert_permutation, [g.rng.permutation(n)], {}), (sm.photon_means_order, [mu, cov], {"hbar": g.hb}),
                  (sm.get_heterodyne_fanout, [g.vec(n, "c"), 3], {}))


@call("kernel", "random")
def grouped(g):
    n = g.dim(1, 4)
    m = int(g.rng.integers(1, n + 1))
    T = np.ascontiguousarray(g.haar(n)[:, :m])
    r = g.normal(m) * 0.3
    return g.pick((grouped_click_probabilities, [np.sinh(r) ** 2, np.sinh(2 * r) / 2, T, 12, 3], {"seed": g.seed % 1000}), (grouped_click_probabilities_squeezed, [r, T, 12, 3], {}))


# ------------------------------------------------------------------ reference, random


@call()
def reference(g):
    n = g.dim(2, 4)
    return g.pick((ref.hafnian, [g.sym(n)], {"loop": bool(g.rng.integers(2))}), (ref.mtl, [g.sym(2 * (n // 2))], {"loop": bool(g.rng.integers(2))}),
                  (lambda s: sorted(map(str, ref.rpmp(s))), [list("abcd")], {}), (lambda s: sorted(map(str, ref.rspm(s))), [list("abcd")], {}))


@call("random")
def generators(g):
    n = g.dim(1, 4)
    return g.pick((tr.random_covariance, [n], {"pure": bool(g.rng.integers(2))}), (tr.random_symplectic, [n], {}), (tr.random_interferometer, [n], {}), (tr.random_block_interferometer, [n], {}), (tr.random_banded_interferometer, [n, n // 2], {}))


def build(name, n, seed, edge, ingredients=G):
    f, tags = C[name]
    fn, args, kw = f(ingredients(n, seed, edge))
    return fn, args, kw, tags


def names(tag=None):
    return sorted(k for k, (_, t) in C.items() if tag is None or tag in t)
