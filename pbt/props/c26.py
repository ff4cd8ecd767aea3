"""C26: graph encodings are scaled to exactly the requested mean photon or click number."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import adj_scaling, adj_scaling_torontonian, adj_to_qmat, Amat, mean_clicks, photon_number_mean_vector, Covmat
from thewalrus.csamples import rescale_adjacency_matrix, rescale_adjacency_matrix_thermal
from pbt import gen
from pbt.core import sub, raises

P = "C26"


@st.composite
def case_a(draw):
    n = draw(st.sampled_from([3, 2, 4, 1, 5, 6, 8, 12]))
    return dict(n=n, kind=draw(st.sampled_from(["graph", "weighted", "complex", "signed", "lowrank", "complete", "diag", "isolated", "degenerate", "psd"])),
                seed=draw(gen.seeds), scale=draw(st.sampled_from([1.0, 1.0, 0.01, 50.0, 1000.0])), int=draw(st.booleans()),
                target=draw(st.one_of(st.sampled_from([1.0, 2.0, 0.1, 5.0, 0.001, 30.0, 0.5]), st.floats(0.01, 20))), x=draw(st.sampled_from([0.5, 0.05, 0.8, 0.95, 0.3])),
                sq=draw(st.sampled_from([1.0, 2.0, 1.0, 0.7])))


def mk(c):
    n, k = c["n"], c["kind"]
    rng = np.random.default_rng(c["seed"])
    if k == "graph":
        A = np.triu(rng.random((n, n)) < 0.6, 1).astype(int)
        A = A + A.T
    elif k == "weighted":
        A = rng.random((n, n))
    elif k == "complex":
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    elif k == "signed":
        A = rng.integers(-3, 4, (n, n))
    elif k == "lowrank":
        v = rng.normal(size=n)
        A = np.outer(v, v)
    elif k == "complete":
        A = np.ones((n, n), int) - np.eye(n, dtype=int) * int(rng.integers(0, 2)) if n > 1 else np.ones((1, 1), int)
    elif k == "diag":
        A = np.diag(rng.integers(1, 5, n))
    elif k == "isolated":
        A = rng.random((n, n))
        A = A + A.T
        z = rng.random(n) < 0.4
        A[z] = 0
        A[:, z] = 0
    elif k == "degenerate":
        U = gen.haar(n, rng)
        A = U @ np.diag(rng.choice([1.0, 0.5], n)) @ U.T
    else:
        B = rng.normal(size=(n, max(1, n - 1)))
        A = B @ B.T
    A = np.triu(A) + np.triu(A, 1).T
    if not np.abs(A).max() > 1e-3:
        A = A + np.ones((n, n), dtype=A.dtype)
    if c["scale"] != 1.0 and not (c["int"] and A.dtype.kind == "i"):
        A = A * c["scale"]
    return A


def q_of(A):
    n = len(A)
    B = np.block([[A, np.zeros((n, n))], [np.zeros((n, n)), A.conj()]])
    X = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    return np.linalg.inv(np.eye(2 * n) - X @ B)


def clicks(A):
    Q, n = q_of(A), len(A)
    return sum(1 - 1 / np.sqrt(np.linalg.det(Q[np.ix_([i, i + n], [i, i + n])]).real) for i in range(n))


@sub(P, case_a, quick=3000, thorough=60000, group="a")
def photons(case, ctx):
    """adj_scaling and adj_to_qmat give a physical state with the requested mean photon number that encodes the scaled matrix; non-trivial: a matrix with several different singular values"""
    A = mk(case)
    n, t = len(A), case["target"]
    sv = np.linalg.svd(A, compute_uv=False)
    ctx.label(case["kind"], f"scale={case['scale']}", "mean>5" if t > 5 else "mean<=5")
    ctx.nontrivial(n > 1 and sv[0] - sv[-1] > 1e-9 * sv[0])
    x = adj_scaling(A, t)
    s = x * sv
    ctx.require(np.isscalar(x) and 0 < x and s.max() < 1, lambda: f"scaling {x} of a matrix with largest singular value {sv[0]} is not physical")
    # the root finder stops at an absolute accuracy of 2e-12 in x
    dn = 2 * np.sum(sv**2 * x / (1 - s**2) ** 2) * 8e-12
    ctx.close(np.sum(s**2 / (1 - s**2)), t, "mean photon number of the scaled graph", 1e-9, dn + 1e-12)
    Q = adj_to_qmat(A, t)
    W = q_of(x * A)
    sc = np.abs(W).max()
    ctx.close(Q, W, "adj_to_qmat", 1e-9, 1e-9 * sc)
    ctx.close(np.trace(Q).real / 2 - n, t, "mean photon number of the Husimi matrix", 1e-9, dn + 1e-9 * sc)
    ctx.close(Q, Q.conj().T, "Husimi matrix is Hermitian", 0, 1e-9 * sc)
    B = Amat(Q, cov_is_qmat=True)
    want = [x * A, x * A.conj()]
    got = B[:n, :n]
    tol = 1e-8 * sc
    ctx.require(min(np.abs(got - w).max() for w in want) < tol, lambda: f"the Husimi matrix encodes {got} instead of the scaled adjacency matrix")
    ctx.close(B[:n, n:], np.zeros((n, n)), "off-diagonal block (pure state)", 0, tol)
    cov = Covmat(Q, hbar=2)
    ctx.close(np.sum(photon_number_mean_vector(np.zeros(2 * n), cov, hbar=2)), t, "photon_number_mean_vector of the graph state", 1e-8, dn + 1e-9 * sc)


@sub(P, case_a, quick=1500, thorough=30000, group="a")
def threshold(case, ctx):
    """adj_scaling_torontonian gives a physical state with the requested mean number of clicks; non-trivial: at least two modes"""
    A = mk(case)
    n = len(A)
    sv = np.linalg.svd(A, compute_uv=False)
    x0 = case["x"]
    t = clicks(x0 / sv[0] * A)
    ctx.label(case["kind"], f"x={x0}", f"scale={case['scale']}")
    ctx.nontrivial(n > 1)
    x = adj_scaling_torontonian(A, t)
    ctx.require(0 < x and x * sv[0] < 1, lambda: f"scaling {x} of a matrix with largest singular value {sv[0]} is not physical")
    ctx.close(clicks(x * A), t, "mean number of clicks", 1e-8, 1e-9)
    ctx.close(x * sv[0], x0, "relative scaling", 1e-6, 1e-8)
    ctx.close(mean_clicks(Covmat(q_of(x * A), hbar=2), hbar=2), t, "mean_clicks of the graph state", 1e-8, 1e-8)
    for bad in (-0.1, n + 0.1):
        ctx.require(isinstance(raises(adj_scaling_torontonian, A, bad), ValueError), f"{bad} clicks on {n} modes are accepted")


@sub(P, case_a, quick=1500, thorough=30000, group="a")
def point_process(case, ctx):
    """rescale_adjacency_matrix and its thermal version return a spectrum proportional to that of A with the requested mean, and its eigenvectors; non-trivial: at least two different eigenvalues"""
    A = mk(dict(case, kind="psd" if case["kind"] in ("complex", "graph", "weighted", "signed", "isolated") else case["kind"]))
    if case["kind"] in ("complete", "degenerate"):
        A = (A @ A.conj()).real
        A = (A + A.T) / 2
    n = len(A)
    ev = np.linalg.eigvalsh(A)
    t = case["target"]
    ctx.label(case["kind"], f"scale={case['sq']}", f"magnitude={case['scale']}")
    ctx.nontrivial(n > 1 and ev[-1] - ev[0] > 1e-9 * ev[-1])
    if ev.min() < -1e-9:  # only reachable through rounding of large matrices
        ctx.nontrivial(False)
        return
    for f, a, sc in ((rescale_adjacency_matrix_thermal, (), 1.0), (rescale_adjacency_matrix, (case["sq"],), case["sq"])):
        ls, O = f(A, t, *a)
        w = f.__name__
        ctx.require(ls.shape == (n,) and O.shape == (n, n), lambda: f"{w}: shapes {ls.shape}, {O.shape}")
        v = sc * ls
        ctx.require(ls.min() >= 0 and v.max() < 1, lambda: f"{w}: unphysical spectrum {ls}")
        x = ls.max() / ev.max()
        dn = np.sum(sc * ev / (1 - v) ** 2) * 8e-12
        ctx.close(np.sum(v / (1 - v)), t, f"{w}: mean photon number", 1e-9, dn + 1e-12)
        ctx.close(O.T @ O, np.eye(n), f"{w}: orthogonality", 0, 1e-9)
        ctx.close(O @ np.diag(ls) @ O.T, x * A, f"{w}: rescaled matrix", 0, 1e-8)
    ctx.require(isinstance(raises(rescale_adjacency_matrix, A - 2 * ev.max() * np.eye(n), t, 1.0), (AssertionError, ValueError)), "a matrix that is not positive is accepted")
    if n > 1:
        D = A.astype(float)
        D[0, 1] += ev.max()
        ctx.require(isinstance(raises(rescale_adjacency_matrix_thermal, D, t), (AssertionError, ValueError)), "an asymmetric matrix is accepted")
