"""C34: invalid arguments are rejected with an error instead of a number."""
import numpy as np
from hypothesis import strategies as st

import thewalrus as tw
from thewalrus import decompositions as dc, quantum as q, random as tr, reference as ref, samples as sm, symplectic as sy
import thewalrus._permanent
from pbt import gen, oracle
from pbt.core import sub, repo_exception

P = "C34"

DELTAS = [1.0, 0.1, 1e-3, 5.0, 1e-2]


class Entry:
    """A valid call and single-fault variants of it: {name: (args, kwargs, exception types)}."""

    def __init__(self, f, args, kw=None):
        self.f, self.args, self.kw, self.faults = f, list(args), dict(kw or {}), {}

    def fault(self, name, pos, value, exc=ValueError):
        a, k = list(self.args), dict(self.kw)
        if isinstance(pos, int):
            a[pos] = value
        else:
            k[pos] = value
        self.faults[name] = (a, k, exc)
        return self


def widen(A, rng):
    n = len(A)
    if n and abs(A.flat[0]) > 0 and int(abs(A.flat[0]) * 1e6) % 4 == 0:
        # a single row of equal entries: compared with its transpose by broadcasting it looks symmetric
        row = np.full((1, 2 + n % 3), A.flat[0], dtype=A.dtype)
        return row if n % 2 else row.T.copy()
    extra = rng.normal(size=(n, int(rng.integers(1, 3)))).astype(A.dtype)
    return np.concatenate([A, extra], axis=1) if rng.random() < 0.5 or n == 0 else np.concatenate([A, extra], axis=1).T.copy()


def with_nan(A, rng, symmetric=True):
    A = A.astype(complex if np.iscomplexobj(A) else float)
    i, j = rng.integers(len(A)), rng.integers(len(A))
    v = complex(0, np.nan) if np.iscomplexobj(A) and rng.random() < 0.5 else np.nan
    A[i, j] = v
    if symmetric:
        A[j, i] = v
    return A


def skewed(A, rng, c):
    A = A.astype(complex if np.iscomplexobj(A) else float)
    i, j = rng.choice(len(A), 2, replace=False)
    A[i, j] += c["delta"] * max(1, abs(A[i, j])) * rng.choice([-1, 1, 1j, -1j] if np.iscomplexobj(A) else [-1, 1])
    return A


def square(E, pos, A, rng, nan=True, exc=ValueError):
    """Faults of a square matrix argument."""
    E.fault("rectangular", pos, widen(A, rng), exc)
    if nan:
        E.fault("nan", pos, with_nan(A, rng), exc)
    return E


def nonarray(E, pos, A, rng):
    E.fault("not an array", pos, [A.tolist(), tuple(map(tuple, A.tolist())), "A", None, 3.0][rng.integers(5)], TypeError)
    return E


def symm(n, rng, c, positive=False):
    A = rng.random((n, n)) + 0.05 if positive else rng.normal(size=(n, n))
    if c["cplx"] and not positive:
        A = A + 1j * rng.normal(size=(n, n))
    return A + A.T


def e_hafnian(n, rng, c):
    A = symm(n, rng, c)
    kw = [{}, {"loop": True}, {"method": "recursive"}, {"method": "inclexcl"}, {"loop": True, "method": "inclexcl"}][rng.integers(5)]
    E = nonarray(square(Entry(tw.hafnian, [A], kw), 0, A, rng), 0, A, rng)
    if n > 1:
        E.fault("asymmetric", 0, skewed(A, rng, c))
    return E


def e_hafnian_approx(n, rng, c):
    n = [6, 8][n % 2]
    A = symm(n, rng, c, positive=True)
    E = nonarray(square(Entry(tw.hafnian, [A], {"approx": True, "num_samples": 5}), 0, A, rng), 0, A, rng)
    E.fault("asymmetric", 0, skewed(A, rng, c))
    i, j = rng.integers(n), rng.integers(n)
    B = A.copy()
    B[i, j] = B[j, i] = -c["delta"]
    E.fault("negative", 0, B)
    B = A.astype(complex)
    B[i, j] = B[j, i] = B[i, j] + 1j * c["delta"]
    return E.fault("complex", 0, B)


def e_hafnian_repeated(n, rng, c):
    n = min(n, 4)
    A = symm(n, rng, c)
    if rng.random() < 0.15:
        A = A * 0
    rpt = rng.integers(0, 3, n).tolist()
    kw = {}
    if rng.random() < 0.5:
        kw = {"loop": True, "mu": rng.normal(size=n)}
    elif rng.random() < 0.5:
        kw = {"loop": True}
    E = nonarray(square(Entry(tw.hafnian_repeated, [A, rpt], kw), 0, A, rng), 0, A, rng)
    if n > 1:
        E.fault("asymmetric", 0, skewed(A, rng, c))
    k = rng.integers(n)
    E.fault("short repetitions", 1, rpt[:-1])
    E.fault("long repetitions", 1, rpt + [int(rng.integers(0, 3))])
    E.fault("negative repetition", 1, rpt[:k] + [-1 - int(rng.integers(3))] + rpt[k + 1 :])
    E.fault("fractional repetition", 1, rpt[:k] + [rpt[k] + [0.5, 0.25, 1e-3, 0.999][rng.integers(4)]] + rpt[k + 1 :])
    if n > 1:
        pair = rng.choice(n, 2, replace=False)  # the repetitions still add up to an integer
        E.fault("fractional repetitions", 1, [r + 0.5 if i in pair else r for i, r in enumerate(rpt)])
    E.fault("nan repetition", 1, rpt[:k] + [np.nan] + rpt[k + 1 :])
    if "mu" in kw:
        E.fault("long means", "mu", rng.normal(size=n + 1))
        E.fault("short means", "mu", rng.normal(size=n - 1))
    return E


def e_hafnian_batched(n, rng, c):
    n = min(n, 3)
    A = symm(n, rng, c)
    mu = rng.normal(size=n)
    E = nonarray(square(Entry(tw.hafnian_batched, [A, 3], {"mu": mu}), 0, A, rng), 0, A, rng)
    if n > 1:
        E.fault("asymmetric", 0, skewed(A, rng, c))
    return E.fault("long means", "mu", rng.normal(size=n + 1), Exception)


def e_hermite(n, rng, c):
    n = min(n, 3)
    A = symm(n, rng, c)
    y = rng.normal(size=n)
    E = nonarray(square(Entry(tw.hermite_multidimensional, [A, 3], {"y": y, "modified": bool(rng.integers(2))}), 0, A, rng), 0, A, rng)
    if n > 1:
        E.fault("asymmetric", 0, skewed(A, rng, c))
        E.fault("short vector", "y", y[:-1])
    return E.fault("long vector", "y", rng.normal(size=n + 1))


def e_grad(n, rng, c):
    n = min(n, 2)
    A = symm(n, rng, dict(cplx=False))
    y = rng.normal(size=n)
    G = tw.hermite_multidimensional(A, 3, y=y, modified=True, renorm=True)
    E = Entry(tw.grad_hermite_multidimensional, [G, A, y])
    if n > 1:
        E.fault("short vector", 2, y[:-1])
    return E.fault("long vector", 2, rng.normal(size=n + 1))


def e_perm(n, rng, c):
    A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if c["cplx"] else 0)
    kw = [{}, {"method": "ryser"}, {"method": "bbfg"}][rng.integers(3)]
    E = nonarray(Entry(tw.perm, [A], kw), 0, A, rng)
    E.fault("rectangular", 0, widen(A, rng))
    return E.fault("nan", 0, with_nan(A, rng, False))


def tor_matrix(n, rng):
    X = rng.normal(size=(2 * n, 2 * n)) + 0.1 * np.eye(2 * n)
    A = X @ X.T
    return A / (1.3 * np.linalg.norm(A, 2))


def e_tor(n, rng, c):
    n = min(n, 3)
    A = tor_matrix(n, rng)
    f, loops = [(tw.tor, False), (tw.ltor, True), (tw.mtl, False), (tw.lmtl, True)][rng.integers(4)]
    if f in (tw.mtl, tw.lmtl):
        A = A.astype(complex)
    z = rng.normal(size=2 * n).astype(A.dtype)
    kw = {"recursive": False} if f in (tw.tor, tw.ltor) and rng.random() < 0.5 else {}
    E = Entry(f, [A, z] if loops else [A], kw)
    E.fault("rectangular", 0, widen(A, rng))
    nonarray(E, 0, A, rng)
    B = tor_matrix(n + 1, rng).astype(A.dtype)[:-1, :-1]
    if loops:
        a = [B, np.ones(len(B), A.dtype)]
        E.faults["odd"] = (a, kw, ValueError)
        E.fault("short vector", 1, z[:-1])
        E.fault("long vector", 1, np.concatenate([z, z[:1]]))
        E.fault("vector not an array", 1, z.tolist(), TypeError)
    else:
        E.fault("odd", 0, B)
    return E


def valid_cov(n, rng, hb=2.0, pure=False, squeeze=0.5):
    r = rng.uniform(0.1, squeeze, n)
    S = oracle.passive(gen.haar(n, rng)) @ np.diag(np.exp(np.concatenate([r, -r]))) @ oracle.passive(gen.haar(n, rng))
    V = S @ np.diag(np.tile(np.ones(n) if pure else rng.uniform(1.1, 2, n), 2)) @ S.T
    return (V + V.T) * hb / 4, S


def e_decomp(n, rng, c):
    n = min(n, 4)
    V, S = valid_cov(n, rng)
    k = rng.integers(5)
    odd = np.delete(np.delete(V, -1, 0), -1, 1)
    if k == 0:
        E = square(Entry(dc.williamson, [V]), 0, V, rng).fault("asymmetric", 0, skewed(V, rng, c)).fault("odd", 0, odd)
        lam = np.linalg.eigvalsh(V)
        E.fault("indefinite", 0, V - np.eye(2 * n) * (lam[0] + c["delta"] * (lam[-1] - lam[0])))
        return E
    if k == 1:
        A = symm(n, rng, c)
        return Entry(dc.takagi, [A]).fault("rectangular", 0, widen(A, rng))
    f = [dc.pre_iwasawa, dc.iwasawa, dc.blochmessiah][k - 2]
    E = square(Entry(f, [S]), 0, S, rng)
    E.fault("not symplectic", 0, S * (1 + c["delta"]))
    B = S.copy()
    B[rng.integers(2 * n), rng.integers(2 * n)] += c["delta"] * 3
    E.fault("not symplectic in one entry", 0, B)
    return E.fault("odd", 0, np.eye(2 * n - 1))


def unphysical(V, hb, c):
    nu = oracle.symp_eigs(V * 2 / hb).min()
    return V / nu * (1 - min(c["delta"], 0.9))


def e_entropy(n, rng, c):
    n = min(max(n, 2), 4)
    hb = c["hbar"]
    f = [q.vonneumann_entropy, q.entanglement_entropy, q.log_negativity][rng.integers(3)]
    V, _ = valid_cov(n, rng, hb, pure=f is q.entanglement_entropy)
    if f is q.vonneumann_entropy:
        E = Entry(f, [V], {"hbar": hb})
    else:
        E = Entry(f, [V], {"hbar": hb, "modes_A": [int(rng.integers(n))]})
        for name, m in {"mode too large": n + int(rng.integers(3)), "negative mode": -1 - int(rng.integers(2)), "one mode too large": [0, n], "one negative mode": [-1, 0], "fractional mode": [0.5], "float mode": [1.0]}.items():
            E.fault(name, "modes_A", m)
        E.fault("modes of a wrong type", "modes_A", ["0", {0}, 0.0, {0: 1}][rng.integers(4)], TypeError)
        E.faults["no partition"] = ([V], {"hbar": hb}, TypeError)
        for name, s in {"split too large": n + int(rng.integers(2)), "negative split": -1 - int(rng.integers(n)), "float split": 1.0}.items():
            E.faults[name] = ([V], {"hbar": hb, "split": s}, ValueError)
    square(E, 0, V, rng).fault("asymmetric", 0, skewed(V, rng, c)).fault("unphysical", 0, unphysical(V, hb, c)).fault("odd", 0, V[:-1, :-1])
    if f is q.entanglement_entropy:
        E.fault("mixed", 0, V * (1 + c["delta"]))
    return E


def e_fock(n, rng, c):
    n, hb = min(n, 2), c["hbar"]
    V, S = valid_cov(n, rng, hb, pure=True, squeeze=0.4)
    mu = rng.normal(size=2 * n)
    k = rng.integers(6)
    if k == 0:
        return square(Entry(q.state_vector, [mu, V], {"hbar": hb, "cutoff": 3}), 1, V, rng).fault("mixed", 1, V * (1 + c["delta"]))
    if k == 1:
        E = Entry(q.pure_state_amplitude, [mu, V, [1] * n], {"hbar": hb, "check_purity": True})
        return E.fault("mixed", 1, V * (1 + c["delta"]))
    if k == 2:
        E = Entry(q.fock_tensor, [S, np.zeros(n), 3])
        E.fault("not symplectic", 0, S * (1 + c["delta"]))
        E.fault("nan", 0, with_nan(S, rng))
        return E.fault("long displacement", 1, np.zeros(n + 1)).fault("short displacement", 1, np.zeros(n - 1))
    if k == 3:
        W, _ = valid_cov(n, rng, hb)
        cut = 4
        E = Entry(q.tvd_cutoff_bounds, [mu, W, cut], {"hbar": hb})
        return square(E, 1, W, rng).fault("unphysical", 1, unphysical(W, hb, c)).fault("asymmetric", 1, skewed(W, rng, c))
    if k == 4:
        W, _ = valid_cov(n, rng, hb)
        E = Entry(q.n_body_marginals, [mu, W, 3, 1], {"hbar": hb})
        E.fault("short means", 0, mu[:-1]).fault("long means", 0, np.zeros(2 * n + 2)).fault("order too high", 3, n + 1 + int(rng.integers(2)))
        E.fault("rectangular", 1, widen(W, rng))
        E.faults["odd"] = ([mu[:-1], W[:-1, :-1], 3, 1], {"hbar": hb}, ValueError)
        return E
    W, _ = valid_cov(n, rng, hb)
    E = Entry(q.fidelity, [mu, V, mu, W], {"hbar": hb})
    big = np.eye(2 * n + 2) * hb / 2
    E.fault("other number of modes", 3, big).fault("long means", 0, np.zeros(2 * n + 1)).fault("short means", 2, mu[:-1])
    E.faults["different states sizes"] = ([np.zeros(2 * n + 2), big, mu, W], {"hbar": hb}, ValueError)
    return E.fault("rectangular", 1, np.concatenate([V, V[:, :1]], axis=1), ValueError)


def e_pure_distribution(n, rng, c):
    n, hb = min(n, 3), c["hbar"]
    V, _ = valid_cov(n, rng, hb, pure=True)
    E = Entry(q.pure_state_distribution, [V], {"hbar": hb, "cutoff": 10})
    return E.fault("mixed", 0, V * (1 + c["delta"])).fault("unphysical", 0, unphysical(V, hb, c)).fault("nan", 0, with_nan(V, rng))


def e_loss(n, rng, c):
    n = min(n, 3)
    P_ = rng.random((3,) * n)
    etas = rng.uniform(0, 1, n).tolist()
    j = rng.integers(n)
    k = rng.integers(3)
    bad = [1 + c["delta"], -c["delta"], 1 + 1e-9, -1e-9][rng.integers(4)]
    if k == 0:
        return Entry(q.loss_mat, [etas[0], 4]).fault("transmission outside [0,1]", 0, bad)
    if k == 1:
        E = Entry(q.update_probabilities_with_loss, [etas, P_])
        E.fault("transmission outside [0,1]", 0, etas[:j] + [bad] + etas[j + 1 :])
        return E.fault("short transmissions", 0, etas[:-1]).fault("long transmissions", 0, etas + [0.5])
    noise = [rng.random(3) for _ in range(n)]
    E = Entry(q.update_probabilities_with_noise, [noise, P_])
    return E.fault("short noise", 0, noise[:-1]).fault("long noise", 0, noise + noise[:1])


def e_modes(n, rng, c):
    V, _ = valid_cov(n, rng)
    mu = rng.normal(size=2 * n)
    k = rng.integers(4)
    if k < 2:
        f = [sy.reduced_state, q.reduced_gaussian][k]
        good = sorted(rng.choice(n, int(rng.integers(1, n + 1)), replace=False).tolist())
        E = Entry(f, [mu, V, good])
        E.fault("mode too large", 2, n + int(rng.integers(3))).fault("negative mode", 2, -1 - int(rng.integers(n)))
        return E.fault("one mode too large", 2, good[:-1] + [n]).fault("one negative mode", 2, [-1] + good[1:])
    if k == 2:
        m = int(rng.integers(1, n + 1))
        T = gen.haar(m, rng)
        good = rng.choice(n, m, replace=False).tolist()
        E = Entry(sy.expand_passive, [T, good, n])
        E.fault("rectangular", 0, widen(T, rng)).fault("short modes", 1, good[:-1]).fault("long modes", 1, good + [0])
        return E.fault("mode too large", 1, good[:-1] + [n], Exception)
    f = [sy.xxpp_to_xpxp, sy.xpxp_to_xxpp][rng.integers(2)]
    E = Entry(f, [V]).fault("rectangular", 0, np.concatenate([V, V], axis=1)).fault("odd", 0, V[:-1, :-1])
    return E.fault("odd vector", 0, mu[:-1])


def e_clicks(n, rng, c):
    A = symm(n, rng, dict(cplx=False))
    k = rng.integers(2)
    if k == 0 and n > 1:
        E = Entry(q.adj_scaling_torontonian, [A, 0.5])
        return E.fault("negative mean", 1, -c["delta"]).fault("mean above the number of modes", 1, n + c["delta"])
    i = rng.integers(0, 3, n).tolist()
    o = rng.permutation(i).tolist()
    U = gen.haar(n, rng)
    if k == 0:
        return Entry(tw._permanent.fock_prob, [i, o, U]).fault("photon numbers differ", 1, o[:-1] + [o[-1] + 1 + int(rng.integers(3))])
    m = int(rng.integers(1, n + 1))
    T = U[:m]
    d = rng.integers(0, 2, m).tolist()
    E = Entry(tw._permanent.fock_threshold_prob, [i, d, T])
    E.fault("short input", 0, i[:-1]).fault("long input", 0, i + [0]).fault("short outcome", 1, d[:-1]).fault("long outcome", 1, d + [1])
    tall = rng.normal(size=(n + 1, n))
    E.faults["more outputs than inputs"] = ([i, d + [0] * (n + 1 - m), tall], {}, ValueError)
    return E


def e_labudde(n, rng, c):
    A = symm(n, rng, dict(cplx=False))
    k = rng.integers(2)
    if k == 0:
        m = 2 * min(n, 3)
        G = symm(m, rng, c)
        E = Entry(tw._hafnian.recursive_hafnian, [G])
        return E.fault("odd", 0, symm(m - 1, rng, c)).fault("rectangular", 0, np.ascontiguousarray(np.concatenate([G, G], axis=1)))
    n = min(n, 4)
    A = symm(n, rng, dict(cplx=False))
    E = Entry(ref.hafnian, [A], {"loop": bool(rng.integers(2))})
    return E.fault("rectangular", 0, widen(A, rng))


def e_adjacency(n, rng, c):
    A = symm(n, rng, dict(cplx=False))
    E = Entry(q.gen_Qmat_from_graph, [A, 0.7])
    return E.fault("rectangular", 0, widen(A, rng)).fault("too small", 0, A * 1e-13)


def e_samples(n, rng, c):
    n, hb = min(n, 2), c["hbar"]
    V, _ = valid_cov(n, rng, hb)
    f = [sm.hafnian_sample_state, sm.torontonian_sample_state][rng.integers(2)]
    E = nonarray(square(Entry(f, [V, 1], {"hbar": hb}), 0, V, rng), 0, V, rng)
    E.fault("odd", 0, V[:-1, :-1])
    return E.fault("unphysical", 0, unphysical(V, hb, dict(delta=max(c["delta"], 0.1))), Exception)


def e_classical(n, rng, c):
    n, hb = min(n, 3), c["hbar"]
    V, _ = valid_cov(n, rng, hb, squeeze=0.2)
    V = V + hb / 2 * np.eye(2 * n)
    f = [sm.hafnian_sample_classical_state, sm.torontonian_sample_classical_state][rng.integers(2)]
    mu = rng.normal(size=2 * n)
    E = square(Entry(f, [V, 2], {"hbar": hb, "mean": mu}), 0, V, rng).fault("asymmetric", 0, skewed(V, rng, c)).fault("odd", 0, V[:-1, :-1])
    lam = np.linalg.eigvalsh(V)[0] * 2 / hb
    E.fault("nonclassical", 0, V / lam * (1 - min(c["delta"], 0.9)))
    return E.fault("short means", "mean", mu[:-1]).fault("long means", "mean", np.zeros(2 * n + 1))


def e_random(n, rng, c):
    return Entry(tr.random_banded_interferometer, [n, n - 1]).fault("bandwidth too large", 1, n + int(rng.integers(3)))


ENTRIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("e_")}


@st.composite
def case(draw):
    return dict(what=draw(st.sampled_from(sorted(ENTRIES))), n=draw(st.sampled_from([4, 3, 2, 1, 6, 5])), seed=draw(gen.seeds), delta=draw(st.sampled_from(DELTAS)), cplx=draw(st.booleans()), hbar=draw(gen.hbars))


@sub(P, case(), quick=2000, thorough=80000, shards=2, threads=1)
def single_faults(case, ctx):
    """every single-fault variant of a valid call raises, while the valid call returns; non-trivial: at least two faults of the function"""
    E = ENTRIES[case["what"]](case["n"], np.random.default_rng(case["seed"]), case)
    name = getattr(E.f, "__name__", str(E.f))
    ctx.label(name, *(f"fault: {k}" for k in E.faults))
    ctx.nontrivial(len(E.faults) > 1)
    np.random.seed(case["seed"] % 2**32)
    E.f(*E.args, **E.kw)
    for fault, (a, k, exc) in E.faults.items():
        try:
            r = E.f(*a, **k)
        except Exception as e:  # noqa: BLE001
            if not repo_exception(e):
                raise
            ctx.require(isinstance(e, exc), lambda: f"{name}, {fault}: raises {type(e).__name__} ({str(e)[:80]}) instead of {exc}")
        else:
            ctx.fail(f"{name} returns {str(r)[:120]} although its input is invalid: {fault}")


@st.composite
def valid_case(draw):
    return dict(n=draw(st.sampled_from([2, 1, 3])), seed=draw(gen.seeds), delta=draw(st.sampled_from(DELTAS)), hbar=draw(gen.hbars), cplx=False)


@sub(P, valid_case(), quick=1500, thorough=60000, group="v", threads=1)
def predicates(case, ctx):
    """the validity predicates answer False (without an exception) for every kind of broken covariance or symplectic matrix and True for the intact one; non-trivial: several modes"""
    n, hb, rng, d = case["n"], case["hbar"], np.random.default_rng(case["seed"]), case["delta"]
    ctx.nontrivial(n > 1)
    ctx.label(f"n={n}", f"delta={d}")
    V, S = valid_cov(n, rng, hb)
    W, _ = valid_cov(n, rng, hb, pure=True)
    C = V + hb / 2 * np.eye(2 * n)
    lam = np.linalg.eigvalsh(C)[0]
    broken = [("rectangular", lambda X: np.concatenate([X, X[:, :1]], axis=1)), ("asymmetric", lambda X: skewed(X, rng, case)), ("odd", lambda X: X[:-1, :-1]), ("nan", lambda X: with_nan(X, rng))]
    for f, X, own in ((q.is_valid_cov, V, ("unphysical", lambda X: unphysical(X, hb, case))), (q.is_pure_cov, W, ("mixed", lambda X: X * (1 + d))),
                      (q.is_pure_cov, W, ("unphysical", lambda X: unphysical(X, hb, case))), (q.is_classical_cov, C, ("squeezed", lambda X: X / lam * hb / 2 * (1 - min(d, 0.9))))):
        ctx.require(bool(f(X, hbar=hb)), f"{f.__name__} rejects a good matrix")
        for name, g in broken + [own]:
            ctx.require(not f(g(X), hbar=hb), f"{f.__name__} accepts a matrix that is {name}")
    B = S.copy()
    B[rng.integers(2 * n), rng.integers(2 * n)] += 3 * d
    ctx.require(bool(sy.is_symplectic(S)), "is_symplectic rejects a symplectic matrix")
    for name, X in (("scaled", S * (1 + d)), ("changed", B), ("rectangular", S[:-1]), ("odd", np.eye(2 * n - 1)), ("nan", with_nan(S, rng)), ("diagonal", np.diag(np.linspace(2, 3, 2 * n)))):
        ctx.require(not sy.is_symplectic(X), f"is_symplectic accepts a matrix that is {name}")
