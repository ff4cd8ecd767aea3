"""C24: matrix decompositions reconstruct their input with the promised factors."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.decompositions import williamson, blochmessiah, takagi, pre_iwasawa, iwasawa, symplectic_eigenvals
from thewalrus.symplectic import sympmat
from pbt import gen, oracle
from pbt.core import sub

P = "C24"


def clifford_like(n, rng, steps=6):
    """Unitary made of few beamsplitters with angles that are multiples of pi/4: exact degeneracies and zeros."""
    W = np.eye(n, dtype=complex)
    for _ in range(steps if n > 1 else 0):
        i, j = rng.choice(n, 2, replace=False)
        th, ph = rng.integers(0, 8) * np.pi / 4, rng.integers(0, 4) * np.pi / 2
        G = np.eye(n, dtype=complex)
        G[i, i] = G[j, j] = np.cos(th)
        G[i, j], G[j, i] = -np.exp(-1j * ph) * np.sin(th), np.exp(1j * ph) * np.sin(th)
        W = G @ W
    return W


def uni(n, how, rng):
    if how == "clifford":
        return clifford_like(n, rng)
    if how == "real":
        return gen.haar(n, rng, real=True).astype(complex)
    if how == "perm":
        return np.eye(n)[rng.permutation(n)].astype(complex)
    if how == "id":
        return np.eye(n, dtype=complex)
    return gen.haar(n, rng)


SPEC = ["generic", "degenerate", "zeros", "pairs", "equal", "allzero"]
UK = ["clifford", "haar", "real", "perm", "id"]


def spectrum(n, how, rng, hi):
    x = hi * rng.uniform(0.05, 1, n)
    if how == "degenerate":
        x = rng.choice([hi, hi / 2, 0.0], n)
    elif how == "zeros":
        x[: max(1, n // 2)] = 0
    elif how == "pairs":
        x = np.repeat(x[: (n + 1) // 2], 2)[:n]
    elif how == "equal":
        x = np.full(n, hi)
    elif how == "allzero":
        x = np.zeros(n)
    return rng.permutation(x)


@st.composite
def case_t(draw):
    n = draw(st.sampled_from([3, 2, 4, 1, 5, 6, 8]))
    kind = draw(st.sampled_from(["udu", "udu", "entries", "entries", "gauss", "real-entries", "imag-entries", "neardiag"]))
    d = dict(n=n, kind=kind, order=draw(st.booleans()), lower=draw(st.sampled_from([False, False, True])), phase=draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0.3])))
    if "entries" in kind and n <= 4:
        m = n * (n + 1) // 2
        d["ent"] = draw(st.lists(st.integers(-2, 2), min_size=2 * m, max_size=2 * m))
    else:
        d["seed"], d["spec"], d["uk"] = draw(gen.seeds), draw(st.sampled_from(SPEC)), draw(st.sampled_from(UK))
        d["hi"] = draw(st.sampled_from([1.0, 0.01, 300.0, 2.0]))
    return d


def mk_t(c):
    n = c["n"]
    if "ent" in c:
        m = n * (n + 1) // 2
        e = np.array(c["ent"][:m]) + 1j * np.array(c["ent"][m:])
        if c["kind"] == "real-entries":
            e = e.real.astype(int)
        if c["kind"] == "imag-entries":
            e = 1j * e.imag
        A = np.zeros((n, n), dtype=e.dtype)
        A[np.triu_indices(n)] = e
    else:
        rng = np.random.default_rng(c["seed"])
        if c["kind"] == "udu":
            U = uni(n, c["uk"], rng)
            A = U @ np.diag(spectrum(n, c["spec"], rng, c["hi"])) @ U.T * np.exp(1j * np.pi * c["phase"])
            if c["phase"] == 0 and c["uk"] in ("real", "perm", "id"):
                A = A.real
        elif c["kind"] == "neardiag":
            A = spectrum(n, c["spec"], rng, c["hi"]) * np.exp(1j * np.pi * c["phase"] * rng.integers(0, 4, n))
            A = np.diag(A) + c["hi"] * 10.0 ** -rng.uniform(2, 9) * (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
        else:
            A = c["hi"] * np.array([0, 1, -1, 1j, -1j, 1 + 1j])[rng.integers(0, 6, (n, n))] if "entries" in c["kind"] else c["hi"] * (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    A = np.triu(A) + np.triu(A, 1).T
    return A


@sub(P, case_t, quick=2500, thorough=60000, group="a")
def autonne_takagi(case, ctx):
    """takagi: unitary factor, non-negative ordered values, U diag(r) U^T = A; non-trivial: complex matrix of size at least two"""
    A = mk_t(case)
    n = len(A)
    given = A.copy()
    if case["lower"]:  # only the upper triangle counts
        given = given + np.tril(np.ones((n, n)), -1)
    s = np.abs(A).max()
    sv = np.linalg.svd(A, compute_uv=False)
    deg = bool(n > 1 and np.diff(sv).size and np.abs(np.diff(sv)).min() < 1e-9 * max(s, 1))
    ctx.label("complex" if np.iscomplexobj(A) else "real", "degenerate" if deg else "simple", "ascending" if not case["order"] else "descending",
              "singular" if sv.min() < 1e-9 else "regular")
    ctx.nontrivial(np.iscomplexobj(A) and n > 1)
    r, U = takagi(given, svd_order=case["order"])
    ctx.require(r.shape == (n,) and U.shape == (n, n), lambda: f"shapes {r.shape}, {U.shape}")
    ctx.require(np.isrealobj(r) and r.min() >= 0, lambda: f"singular values {r}")
    ctx.require((np.diff(r) <= 1e-9 * max(s, 1)).all() if case["order"] else (np.diff(r) >= -1e-9 * max(s, 1)).all(), lambda: f"values {r} not in {'descending' if case['order'] else 'ascending'} order")
    ctx.close(U.conj().T @ U, np.eye(n), "unitarity of the Takagi factor", 0, 1e-7)
    ctx.close(U @ np.diag(r) @ U.T, A, "U diag(r) U^T", 0, 1e-7 * max(1, s) + 1e-8)
    ctx.close(np.sort(r), np.sort(sv), "singular values", 0, 1e-7 * max(1, s) + 1e-8)


@st.composite
def case_s(draw):
    return dict(N=draw(st.sampled_from([2, 3, 1, 4, 6])), seed=draw(gen.seeds), u=draw(st.sampled_from(UK)), v=draw(st.sampled_from(UK + ["inverse"])),
                spec=draw(st.sampled_from(SPEC)), hi=draw(st.sampled_from([0.8, 0.2, 1.6, 2.5, 3e-3, 3e-4, 1e-5])), shear=draw(st.sampled_from([None, None, "x", "p"])),
                sgn=draw(st.booleans()))


def mk_s(c):
    rng = np.random.default_rng(c["seed"])
    N = c["N"]
    U = uni(N, c["u"], rng)
    V = U.conj().T if c["v"] == "inverse" else uni(N, c["v"], rng)
    r = spectrum(N, c["spec"], rng, c["hi"])
    if c["sgn"]:
        r = r * rng.choice([-1, 1], N)
    S = oracle.sympl_of(U, r, V)
    if c["shear"]:
        X = rng.integers(-1, 2, (N, N)).astype(float)
        X = np.triu(X) + np.triu(X, 1).T
        E = np.eye(2 * N)
        if c["shear"] == "p":
            E[N:, :N] = X
        else:
            E[:N, N:] = X
        S = E @ S
    return S


def sympl(ctx, M, what, tol):
    O = oracle.sympform(len(M) // 2)
    s = max(1, np.abs(M).max() ** 2)
    ctx.close(M.T @ O @ M, O, f"{what} is symplectic", 0, tol * s)


def orth(ctx, M, what, tol=1e-7):
    ctx.close(M @ M.T, np.eye(len(M)), f"{what} is orthogonal", 0, tol)


@sub(P, case_s, quick=1200, thorough=30000, group="a")
def bloch_messiah(case, ctx):
    """blochmessiah: S = O D Q with orthogonal symplectic O, Q and D = diag(d, 1/d) positive; non-trivial: active S of several modes"""
    S = mk_s(case)
    N = case["N"]
    ctx.nontrivial(N > 1 and np.abs(S @ S.T - np.eye(2 * N)).max() > 1e-6)
    ctx.label(case["spec"], case["u"], case["v"], f"shear={case['shear']}")
    s = max(1, np.abs(S).max())
    O, D, Q = blochmessiah(S)
    ctx.require(all(M.shape == S.shape and np.isrealobj(M) for M in (O, D, Q)), "shapes or types of the factors")
    ctx.close(O @ D @ Q, S, "O D Q", 0, 1e-7 * s)
    for M, w in ((O, "O"), (Q, "Q")):
        sympl(ctx, M, w, 1e-7 * s)
        orth(ctx, M, w, 1e-7 * s)
    d = np.diag(D)
    ctx.close(D, np.diag(d), "D is diagonal", 0, 1e-12)
    ctx.require(d.min() > 0, lambda: f"D has entries {d}")
    ctx.close(d[:N] * d[N:], np.ones(N), "D pairs", 0, 1e-8 * s**2)


@sub(P, case_s, quick=1200, thorough=30000, group="a")
def iwasawas(case, ctx):
    """pre_iwasawa and iwasawa: E D F = S with the promised block, triangular, diagonal and orthogonal structure; non-trivial: active S of several modes"""
    S = mk_s(case)
    N = case["N"]
    ctx.nontrivial(N > 1 and np.abs(S @ S.T - np.eye(2 * N)).max() > 1e-6)
    ctx.label(case["spec"], f"shear={case['shear']}")
    s = max(1, np.abs(S).max())
    t = 1e-8 * s**3
    for f in (pre_iwasawa, iwasawa):
        n = f.__name__
        E, D, F = f(S)
        ctx.require(all(np.isrealobj(M) and M.shape == S.shape for M in (E, D, F)), lambda: f"{n}: shapes or types of the factors")
        ctx.close(E @ D @ F, S, f"{n}: E D F", 0, t)
        for M, w in ((E, "E"), (D, "D"), (F, "F")):
            sympl(ctx, M, f"{n}: {w}", t)
        orth(ctx, F, f"{n}: F", t)
        A, B, C, G = E[:N, :N], E[:N, N:], E[N:, :N], E[N:, N:]
        ctx.close(B, np.zeros((N, N)), f"{n}: top right block of E", 0, t)
        ctx.close(np.diag(E), np.ones(2 * N), f"{n}: diagonal of E", 0, t)
        ctx.close(D[:N, N:], np.zeros((N, N)), f"{n}: D is block diagonal", 0, t)
        ctx.close(D[:N, :N] @ D[N:, N:].T, np.eye(N), f"{n}: blocks of D are inverse", 0, t)
        if f is pre_iwasawa:
            ctx.close(A, np.eye(N), f"{n}: E", 0, t)
            ctx.close(C, C.T, f"{n}: symmetric block of E", 0, t * s)
            ctx.close(D[:N, :N], D[:N, :N].T, f"{n}: D is symmetric", 0, t)
        else:
            ctx.close(A, np.tril(A), f"{n}: E is triangular", 0, t)
            ctx.close(A @ G.T, np.eye(N), f"{n}: inverse block of E", 0, t * s)
            ctx.close(A.T @ C, C.T @ A, f"{n}: A^T C is symmetric", 0, t * s)
            ctx.close(D, np.diag(np.diag(D)), f"{n}: D is diagonal", 0, t)
            ctx.require(np.diag(D).min() > 0, lambda: f"{n}: D has entries {np.diag(D)}")


@st.composite
def case_v(draw):
    return dict(draw(case_s()), nk=draw(st.sampled_from(["generic", "degenerate", "pure", "equal", "partial"])), hb=draw(st.sampled_from([1.0, 0.5, 2.0, 40.0, 1e-4, 1e4])))


def mk_v(c):
    S = mk_s(c)
    rng = np.random.default_rng(c["seed"] + 1)
    N = c["N"]
    nu = {"generic": 1 + rng.uniform(0.1, 3, N), "degenerate": rng.choice([1.0, 2.0, 3.0], N), "pure": np.ones(N),
          "equal": np.full(N, 2.5), "partial": np.where(np.arange(N) < (N + 1) // 2, 1.0, 1 + rng.uniform(0.1, 2, N))}[c["nk"]] * c["hb"]
    V = S @ np.diag(np.tile(nu, 2)) @ S.T
    return (V + V.T) / 2, nu


@sub(P, case_v, quick=1200, thorough=30000, group="a")
def williamsons(case, ctx):
    """williamson: V = S D S^T with symplectic S and paired positive D; symplectic_eigenvals are the moduli of the spectrum of Omega V; non-trivial: several modes"""
    V, nu = mk_v(case)
    N = case["N"]
    ctx.nontrivial(N > 1)
    ctx.label(case["nk"], case["spec"], f"shear={case['shear']}")
    s = max(1.0, np.abs(V).max() / case["hb"])
    D, S = williamson(V)
    ctx.require(np.isrealobj(S) and np.isrealobj(D) and S.shape == V.shape and D.shape == V.shape, "shapes or types of the factors")
    d = np.diag(D)
    ctx.close(D, np.diag(d), "D is diagonal", 0, 1e-12 * case["hb"])
    ctx.close(d[:N], d[N:], "D is paired", 1e-9, 0)
    ctx.close(S @ D @ S.T, V, "S D S^T", 0, 1e-8 * s * case["hb"])
    sympl(ctx, S, "S", 1e-8 * s)
    ctx.close(np.sort(d[:N]), np.sort(nu), "symplectic eigenvalues in D", 1e-8 * s, 1e-9)
    got = symplectic_eigenvals(V)
    ctx.require(np.shape(got) == (N,) and np.isrealobj(got), lambda: f"symplectic_eigenvals returned {got!r}")
    ctx.close(np.sort(got), np.sort(nu), "symplectic_eigenvals", 1e-7 * s, 1e-9)
    w = np.sort(np.abs(np.linalg.eigvals(1j * sympmat(N) @ V)))
    ctx.close(np.repeat(np.sort(got), 2), w, "moduli of the eigenvalues of Omega V", 1e-6 * s, 1e-9)


@st.composite
def case_diag(draw):
    N = draw(st.sampled_from([2, 1, 3]))
    return dict(N=N, d=draw(st.lists(st.sampled_from([1, 2, 4, 3]), min_size=2 * N, max_size=2 * N)), int=draw(st.booleans()))


@sub(P, case_diag, quick=200, thorough=1000, group="a")
def diagonal(case, ctx):
    """diagonal positive matrices, also of integers; non-trivial: N >= 2"""
    N, d = case["N"], case["d"]
    V = np.diag(d) if case["int"] else np.diag(np.array(d, float))
    ctx.nontrivial(N >= 2)
    D, S = williamson(V)
    ctx.close(S @ D @ S.T, V, "S D S^T", 1e-9, 1e-10)
    sympl(ctx, S, "S", 1e-9)
    want = np.sqrt(np.array(d[:N]) * np.array(d[N:]))
    ctx.close(np.sort(np.diag(D)[:N]), np.sort(want), "symplectic eigenvalues in D", 1e-9)
    ctx.close(np.sort(symplectic_eigenvals(V)), np.sort(want), "symplectic_eigenvals", 1e-8)
    x = np.array(d[:N], float)
    for f in (blochmessiah, pre_iwasawa, iwasawa):
        T = np.diag(np.concatenate([x, 1 / x]))
        A, B, C = f(T)
        ctx.close(A @ B @ C, T, f"{f.__name__} of a diagonal matrix", 1e-8, 1e-8)


@st.composite
def case_id(draw):
    return dict(N=draw(st.sampled_from([2, 3, 4, 5])), seed=draw(gen.seeds), nu=draw(st.sampled_from([1.25, 1.0, 0.5, 3.0])), real=draw(st.sampled_from([True, True, False])))


@sub(P, case_id, quick=1500, thorough=40000, group="a")
def identity_up_to_rounding(case, ctx):
    """states proportional to the identity up to rounding errors (a thermal state behind an interferometer); non-trivial: not exactly proportional to it"""
    N, nu = case["N"], case["nu"]
    O = oracle.passive(gen.haar(N, np.random.default_rng(case["seed"]), real=case["real"]).astype(complex))
    V = O @ (nu * O.T)
    V = (V + V.T) / 2
    ctx.nontrivial(np.abs(V - nu * np.eye(2 * N)).max() > 0)
    ctx.close(symplectic_eigenvals(V), np.full(N, nu), "symplectic_eigenvals", 1e-7)
    D, S = williamson(V)
    ctx.close(S @ D @ S.T, V, "S D S^T", 1e-9, 1e-9)
    sympl(ctx, S, "S", 1e-9)
    ctx.close(np.diag(D), np.full(2 * N, nu), "D", 1e-9)
    for f in (blochmessiah, pre_iwasawa, iwasawa):
        A, B, C = f(V / nu)
        ctx.close(A @ B @ C, V / nu, f"{f.__name__}", 1e-8, 1e-8)
        orth(ctx, C, f"{f.__name__}: last factor")
        ctx.close(B, np.eye(2 * N), f"{f.__name__}: diagonal factor", 0, 1e-7)
