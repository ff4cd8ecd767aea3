"""C20: validity predicates and fidelity characterise Gaussian states correctly."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import is_valid_cov, is_pure_cov, is_classical_cov, is_symplectic, fidelity
from thewalrus import symplectic as sp
from pbt import gen, oracle
from pbt.core import sub

P = "C20"


def analysis(cov, hb):
    """(symmetric, positive, smallest symplectic eigenvalue, purity, smallest eigenvalue minus vacuum) in vacuum units"""
    n, m = cov.shape
    if n != m or n % 2:
        return None
    V = cov * 2 / hb
    asym = np.abs(V - V.T).max()
    Vs = (V + V.T) / 2
    unc = np.linalg.eigvalsh(Vs + 1j * oracle.sympform(n // 2)).min()
    return asym, unc, np.linalg.eigvalsh(Vs).min() - 1, np.linalg.det(Vs)


KINDS = ["valid", "pure", "classical", "scaled", "shrunk", "asym", "noise", "thin", "partial-transpose", "squeezed-noise"]


@st.composite
def case_p(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3, 4])), seed=draw(gen.seeds), kind=draw(st.sampled_from(KINDS)), hbar=draw(gen.hbars),
                x=draw(st.sampled_from([0.5, 0.9, 0.99, 1.2, 0.1, 1.01, 2.0])))


def mk(c):
    rng = np.random.default_rng(c["seed"])
    N, k, x = c["N"], c["kind"], c["x"]
    S = gen.symplectic(N, c["seed"], 1.0)
    nb = rng.uniform(0.05, 1, N)
    nu = np.tile(2 * nb + 1, 2)
    if k == "valid":
        V = S @ np.diag(nu) @ S.T
    elif k == "pure":
        V = S @ S.T
    elif k == "classical":
        G = rng.normal(size=(2 * N, 2 * N)) * x
        V = np.eye(2 * N) + G @ G.T + 0.01 * np.eye(2 * N)
    elif k == "scaled":
        V = x * S @ S.T
    elif k == "shrunk":  # one symplectic eigenvalue too small
        nu[0] = nu[N] = x
        V = S @ np.diag(nu) @ S.T
    elif k == "asym":
        V = S @ np.diag(nu) @ S.T
        i, j = rng.choice(2 * N, 2, replace=False)
        V[i, j] += x * 0.1
        return c["hbar"] / 2 * V
    elif k == "noise":
        G = rng.normal(size=(2 * N, 2 * N))
        V = G @ G.T * x
    elif k == "thin":  # indefinite
        V = S @ np.diag(nu) @ S.T - x * np.eye(2 * N)
    elif k == "partial-transpose":
        F = np.eye(2 * N)
        F[N, N] = -1
        V = F @ S @ S.T @ F
    else:
        V = S @ S.T + x * np.eye(2 * N)
    return c["hbar"] / 2 * (V + V.T) / 2


@sub(P, case_p, quick=1500, thorough=30000, group="a")
def predicates(case, ctx):
    """valid, pure and classical predicates against the symplectic spectrum, away from the boundary; non-trivial: a matrix failing at least one predicate"""
    cov, hb = mk(case), case["hbar"]
    asym, unc, cl, det = analysis(cov, hb)
    ctx.label(case["kind"])
    far = 1e-4
    if 1e-7 < asym < 1e-2 or -far < unc < -1e-10 * np.abs(cov).max() or -far < cl < -1e-10 or 1e-6 < abs(det - 1) < 1e-3:
        ctx.nontrivial(False)
        ctx.label("boundary")
        return
    valid = asym <= 1e-7 and unc > -1e-9 * np.abs(cov).max()
    pure = valid and abs(det - 1) < 1e-6
    classical = valid and cl > -1e-9
    ctx.nontrivial(not (valid and pure and classical))
    ctx.label("valid" if valid else "invalid", "pure" if pure else "-", "classical" if classical else "non-classical")
    for f, want in ((is_valid_cov, valid), (is_pure_cov, pure), (is_classical_cov, classical)):
        got = f(cov, hbar=hb)
        ctx.require(bool(got) == want, lambda: f"{f.__name__} = {got}, expected {want} (asymmetry {asym:.2g}, uncertainty margin {unc:.2g}, classical margin {cl:.2g}, det {det:.6g}, hbar {hb})")


@st.composite
def case_t(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3, 5, 8])), seed=draw(gen.seeds), hbar=draw(gen.hbars), tol=draw(st.sampled_from([1e-5, 1e-2, 1e-3, 1e-7, None])),
                which=draw(st.sampled_from(["purity", "asymmetry", "uncertainty", "classical"])), rel=draw(st.booleans()), by=draw(st.sampled_from([0.2, 0.4, 2.5, 5.0])))


@sub(P, case_t, quick=900, thorough=16000, group="a")
def tolerances(case, ctx):
    """states at a fraction or a multiple of the tolerance from the boundary: rtol and atol are what decides; non-trivial: always"""
    N, hb, by = case["N"], case["hbar"], case["by"]
    rng = np.random.default_rng(case["seed"])
    S = gen.symplectic(N, case["seed"], 0.4)
    t = case["tol"]
    if case["which"] == "purity":
        # purity 1 - by*tol spread over the modes, as the sum of what rtol and atol allow
        t = 1e-5 + 1e-8 if t is None else t
        kw = {} if case["tol"] is None else dict(rtol=t, atol=1e-10) if case["rel"] else dict(rtol=1e-12, atol=t)
        w = rng.dirichlet(np.ones(N))
        nu = (1 - min(by * t, 0.5)) ** (-w)
        cov = hb / 2 * S @ np.diag(np.tile(nu, 2)) @ S.T
        cov = (cov + cov.T) / 2
        if not case["rel"] and t < 1e-5 and case["tol"] is not None:
            cov = hb / 2 * np.diag(np.tile(nu, 2))  # rounding below the tolerance
        got, want, what = is_pure_cov(cov, hbar=hb, **kw), by < 1, f"is_pure_cov at purity 1-{by * t:.3g}"
    elif case["which"] == "asymmetry":
        t = 1e-8 if t is None else t
        cov = hb / 2 * (S @ S.T + np.eye(2 * N))
        cov = (cov + cov.T) / 2
        i, j = rng.choice(2 * N, 2, replace=False)
        if case["rel"]:
            # allclose: |a - b| <= atol + rtol |b|, from either side
            if abs(cov[j, i]) < 1e-3:
                ctx.nontrivial(False)
                return
            kw = dict(rtol=t, atol=1e-12)
            cov[i, j] *= 1 + by * t
        else:
            kw = dict(rtol=1e-14, atol=t)
            cov[i, j] += by * t
            if abs(cov[i, j]) * 1e-14 > 0.1 * t:
                ctx.nontrivial(False)
                return
        got, want, what = is_valid_cov(cov, hbar=hb, **kw), by < 1, f"is_valid_cov with an asymmetry of {by} tolerances"
    elif case["which"] == "uncertainty":
        t = 1e-8 if t is None else t
        # nu + 1 - eps: eigenvalue of V + i hbar/2 Omega is hbar/2 (nu - 1)
        nu = np.tile(1 + rng.uniform(0.1, 1, N), 2)
        nu[0] = nu[N] = 1 - by * t * 2 / hb
        U = sp.interferometer(gen.haar(N, rng))
        cov = hb / 2 * U @ np.diag(nu) @ U.T
        cov = (cov + cov.T) / 2
        kw = dict(atol=t)
        got, want, what = is_valid_cov(cov, hbar=hb, **kw), by < 1, f"is_valid_cov with an eigenvalue of -{by} tolerances"
    else:
        t = 1e-8 if t is None else t
        U = sp.interferometer(gen.haar(N, rng))
        nu = 1 + rng.uniform(0.1, 1, 2 * N)
        nu[0] = 1 - by * t * 2 / hb
        nu[N] = 3.0  # squeezed along one quadrature, valid
        cov = hb / 2 * U @ np.diag(nu) @ U.T
        cov = (cov + cov.T) / 2
        kw = dict(atol=t)
        got, want, what = is_classical_cov(cov, hbar=hb, **kw), by < 1, f"is_classical_cov with an eigenvalue of -{by} tolerances"
    ctx.nontrivial(True)
    ctx.label(case["which"], str(want), f"tol={case['tol']}")
    ctx.require(bool(got) == want, lambda: f"{what}, {kw}: {got}, N={N}, hbar={hb}")


@st.composite
def case_shape(draw):
    return dict(r=draw(st.integers(1, 5)), c=draw(st.integers(1, 5)), seed=draw(gen.seeds))


@sub(P, case_shape, quick=60, thorough=300, group="a")
def shapes(case, ctx):
    """non-square and odd-dimensional matrices are neither valid states nor symplectic; non-trivial: always"""
    r, c = case["r"], case["c"]
    if r == c and r % 2 == 0:
        ctx.nontrivial(False)
        return
    A = 5 * np.eye(r, c)
    for f in (is_valid_cov, is_pure_cov, is_classical_cov, is_symplectic, sp.is_symplectic):
        ctx.require(not f(A), lambda: f"{f.__name__} accepts shape {A.shape}")


@st.composite
def case_s(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3, 5])), seed=draw(gen.seeds), kind=draw(st.sampled_from(["sympl", "entry", "scale", "orth", "random", "swap", "flip", "antisympl", "block"])),
                x=draw(st.sampled_from([0.1, 0.01, -0.3, 1.0])))


@sub(P, case_s, quick=800, thorough=16000, group="a")
def symplectic(case, ctx):
    """both is_symplectic predicates against S^T Omega S = Omega, away from the boundary; non-trivial: N >= 2"""
    N, k, x = case["N"], case["kind"], case["x"]
    rng = np.random.default_rng(case["seed"])
    S = gen.symplectic(N, case["seed"], 0.8)
    if k == "entry":
        i, j = rng.integers(0, 2 * N, 2)
        S[i, j] += x
    elif k == "scale":
        S = S * (1 + x)
    elif k == "orth":
        S = gen.haar(2 * N, rng, real=True)
    elif k == "random":
        S = rng.normal(size=(2 * N, 2 * N))
    elif k == "swap":
        S = S[rng.permutation(2 * N)]
    elif k == "flip":
        S[rng.integers(0, 2 * N)] *= -1
    elif k == "antisympl":
        S = np.diag(np.concatenate([np.ones(N), -np.ones(N)])) @ S
    elif k == "block":  # A^T D = 1 but not symplectic
        A = rng.normal(size=(N, N)) + 2 * np.eye(N)
        Z, B = np.zeros((N, N)), rng.normal(size=(N, N))
        S = np.block([[A, B if x > 0 else Z], [Z if x > 0 else B, np.linalg.inv(A).T]])
    O = oracle.sympform(N)
    dev = np.abs(S.T @ O @ S - O).max()
    if 1e-9 < dev < 1e-3:
        ctx.nontrivial(False)
        return
    want = dev <= 1e-9
    ctx.nontrivial(N >= 2)
    ctx.label(k, str(want))
    for f in (is_symplectic, sp.is_symplectic):
        ctx.require(bool(f(S)) == want, lambda: f"{f.__module__}.{f.__name__} = {not want} although S^T Omega S deviates by {dev:.3g}")


@st.composite
def case_fine(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3])), seed=draw(gen.seeds), base=draw(st.sampled_from(["identity", "squeezer", "passive", "random", "permutation"])),
                what=draw(st.sampled_from(["entry", "entry", "scale", "dense", "none"])), logx=draw(st.sampled_from([-4.0, -5.0, -6.0, -3.0, -2.0])), logt=draw(st.sampled_from([None, -8.0, -7.0, -5.5, -4.5, -3.0, -10.0])))


@sub(P, case_fine, quick=1500, thorough=30000, group="a")
def symplectic_tolerance(case, ctx):
    """both is_symplectic predicates compare S^T Omega S with Omega to the given tolerance and no coarser; non-trivial: a matrix close to symplectic that is not"""
    N = case["N"]
    rng = np.random.default_rng(case["seed"])
    b = case["base"]
    if b == "identity":
        S = np.eye(2 * N)
    elif b == "squeezer":
        r = rng.uniform(-1, 1, N)
        S = np.diag(np.exp(np.concatenate([-r, r])))
    elif b == "passive":
        S = oracle.passive(gen.haar(N, rng))
    elif b == "permutation":
        S = oracle.passive(np.eye(N)[rng.permutation(N)] * np.exp(0.5j * np.pi * rng.integers(0, 4, N)))
    else:
        S = gen.symplectic(N, case["seed"], 0.5)
    x = 10 ** case["logx"]
    if case["what"] == "entry":
        S[tuple(rng.integers(0, 2 * N, 2))] += x * rng.choice([-1, 1])
    elif case["what"] == "scale":
        S = S * (1 + x)
    elif case["what"] == "dense":
        S = S + x * rng.normal(size=S.shape)
    O = oracle.sympform(N)
    E, F = np.abs(S.T @ O @ S - O), np.abs(S @ O @ S.T - O)
    big = np.abs(S).max() ** 2
    t = case["logt"]
    kw = {} if t is None else dict(rtol=0, atol=10**t)
    # what rtol can allow: relative to the entries of the products compared
    low, high = (1e-8, 1e-8 + 1e-5 * max(1, 2 * N * big)) if t is None else (10**t, 10**t)
    if max(E.max(), F.max()) < low / 3 and low > 1e-13 * big:
        want = True
    elif min(E.max(), F.max()) > 3 * high:
        want = False
    elif t is None and min(E[:N, :N].max(), F[:N, :N].max()) > 1e-6 and b in ("identity", "squeezer", "permutation") and case["what"] == "entry":
        # entries compared with zero: only atol counts
        X, Y = S[:N, :N].T @ S[N:, :N], S[:N, N:].T @ S[N:, N:]
        if max(np.abs(X * X.T).max(), np.abs(Y * Y.T).max()) > 0:
            return
        want = False
    else:
        return
    ctx.nontrivial(not want)
    ctx.label(b, case["what"], str(want), f"tolerance={t}")
    for f in (is_symplectic, sp.is_symplectic):
        ctx.require(bool(f(S, **kw)) == want, lambda: f"{f.__module__}.{f.__name__}({kw}) = {not want} although S^T Omega S deviates by {E.max():.3g}")


@st.composite
def pair(draw):
    N = draw(st.sampled_from([2, 1, 3, 4]))
    hb = draw(gen.hbars)
    return dict(a=draw(gen.state(N, N, max_r=0.8, max_nb=1.0, max_a=1.0, hbar=hb)), b=draw(gen.state(N, N, max_r=0.8, max_nb=1.0, max_a=1.0, hbar=hb)),
                seed=draw(gen.seeds), hb2=draw(gen.hbars), same=draw(st.sampled_from([False, False, True])))


@sub(P, pair, quick=500, thorough=10000, group="b")
def fid(case, ctx):
    """fidelity is real, in [0,1], symmetric, one only for equal states, invariant and multiplicative; non-trivial: different mixed states"""
    mu1, c1, hb = gen.mat_state(case["a"])
    mu2, c2, _ = gen.mat_state(case["b"])
    if case["same"]:
        mu2, c2 = mu1.copy(), c1.copy()
    N = len(mu1) // 2
    pure = gen.is_pure(case["a"]) or (gen.is_pure(case["b"]) and not case["same"])
    ctx.label("same" if case["same"] else "different", "one pure" if pure else "mixed", f"N={N}")
    ctx.nontrivial(not pure and not case["same"])
    tol = 2e-6
    f = fidelity(mu1, c1, mu2, c2, hbar=hb)
    ctx.require(np.isrealobj(f) and np.isfinite(f), lambda: f"fidelity is {f!r}")
    ctx.require(-1e-9 <= f <= 1 + tol, lambda: f"fidelity {f} outside [0, 1]")
    ctx.close(fidelity(mu2, c2, mu1, c1, hbar=hb), f, "symmetry", tol, tol)
    dist = max(np.abs(mu1 - mu2).max() / np.sqrt(hb), np.abs(c1 - c2).max() / hb)
    if dist < 1e-12:
        ctx.close(f, 1.0, "fidelity of equal states", 0, tol)
    elif dist > 0.05:
        ctx.require(f < 1 - 1e-5, lambda: f"fidelity {f} of states at distance {dist}")
    if pure:
        # Tr(rho sigma) when one state is pure
        s, d = (c1 + c2) / hb, (mu1 - mu2) / np.sqrt(hb)
        ov = np.exp(-0.5 * d @ np.linalg.solve(s, d)) / np.sqrt(np.linalg.det(s))
        ctx.close(f, ov, "overlap with a pure state", tol, tol)
    S = gen.symplectic(N, case["seed"], 0.5)
    t = np.random.default_rng(case["seed"]).normal(size=2 * N)
    ctx.close(fidelity(S @ mu1 + t, S @ c1 @ S.T, S @ mu2 + t, S @ c2 @ S.T, hbar=hb), f, "invariance under a common Gaussian unitary", 10 * tol, 10 * tol)
    k = case["hb2"] / hb
    ctx.close(fidelity(mu1 * np.sqrt(k), c1 * k, mu2 * np.sqrt(k), c2 * k, hbar=case["hb2"]), f, "invariance under rescaling hbar", tol, tol)


@st.composite
def case_near(draw):
    N = draw(st.sampled_from([2, 1, 3]))
    nb = st.lists(st.sampled_from([1e-3, 3e-3, 1e-2, 3e-2, 0.3]), min_size=N, max_size=N)
    return dict(N=N, n1=draw(nb), n2=draw(nb), seed=draw(gen.seeds), hbar=draw(gen.hbars), d=draw(st.sampled_from([0.0, 0.3, 1.0])), r=draw(st.sampled_from([0.5, 0.0, 0.9])))


@sub(P, case_near, quick=500, thorough=8000, group="b")
def nearly_pure(case, ctx):
    """two weakly mixed states with common modes against the closed form for thermal states; non-trivial: different, displaced states"""
    N, hb = case["N"], case["hbar"]
    n1, n2 = np.array(case["n1"]), np.array(case["n2"])
    S = gen.symplectic(N, case["seed"], case["r"])
    c1, c2 = (hb / 2 * S @ np.diag(np.tile(2 * n + 1, 2)) @ S.T for n in (n1, n2))
    c1, c2 = (c1 + c1.T) / 2, (c2 + c2.T) / 2
    d = case["d"] * np.sqrt(hb) * np.random.default_rng(case["seed"]).normal(size=2 * N)
    want = np.prod((np.sqrt((n1 + 1) * (n2 + 1)) - np.sqrt(n1 * n2)) ** -2.0) * np.exp(-0.5 * d @ np.linalg.solve(c1 + c2, d))
    ctx.nontrivial(case["d"] > 0 and (n1 != n2).any())
    ctx.label(f"N={N}", f"smallest nb {min(n1.min(), n2.min())}")
    ctx.close(fidelity(d, c1, np.zeros(2 * N), c2, hbar=hb), want, "fidelity of weakly mixed states", 1e-5, 1e-5)


@st.composite
def prod(draw):
    hb = draw(gen.hbars)
    n1, n2 = draw(st.sampled_from([1, 2])), draw(st.sampled_from([1, 2]))
    g = lambda n: gen.state(n, n, max_r=0.8, max_nb=1.0, max_a=1.0, hbar=hb)  # noqa: E731
    return dict(a=draw(g(n1)), b=draw(g(n2)), c=draw(g(n1)), d=draw(g(n2)))


def tensor(s1, s2):
    m1, c1, hb = gen.mat_state(s1)
    m2, c2, _ = gen.mat_state(s2)
    a, b = len(m1) // 2, len(m2) // 2
    mu, V = np.concatenate([m1[:a], m2[:b], m1[a:], m2[b:]]), np.zeros((2 * (a + b),) * 2)
    i1, i2 = np.r_[0:a, a + b : 2 * a + b], np.r_[a : a + b, 2 * a + b : 2 * (a + b)]
    V[np.ix_(i1, i1)], V[np.ix_(i2, i2)] = c1, c2
    return mu, V, hb


@sub(P, prod, quick=250, thorough=5000, group="b")
def products(case, ctx):
    """fidelity multiplies over products of states; single-mode factors match the known closed form; non-trivial: mixed states"""
    m1, v1, hb = tensor(case["a"], case["b"])
    m2, v2, _ = tensor(case["c"], case["d"])
    f = fidelity(m1, v1, m2, v2, hbar=hb)
    fs = 1.0
    for x, y in (("a", "c"), ("b", "d")):
        mx, cx, _ = gen.mat_state(case[x])
        my, cy, _ = gen.mat_state(case[y])
        fx = fidelity(mx, cx, my, cy, hbar=hb)
        if len(mx) == 2:  # Scutaru's single-mode formula
            A, B, d = cx / hb, cy / hb, (mx - my) / np.sqrt(hb)
            D = np.linalg.det(A + B)
            L = max(0.0, 4 * (np.linalg.det(A) - 0.25) * (np.linalg.det(B) - 0.25))
            want = np.exp(-0.5 * d @ np.linalg.solve(A + B, d)) / (np.sqrt(D + L) - np.sqrt(L))
            ctx.close(fx, want, "single-mode fidelity", 1e-5, 2e-6)
            ctx.label("single-mode factor")
        fs *= fx
    ctx.nontrivial(not any(gen.is_pure(case[k]) for k in "abcd"))
    ctx.close(f, fs, "product of fidelities", 5e-6, 5e-6)


def sqrtm(M):
    w, U = np.linalg.eigh((M + M.conj().T) / 2)
    return (U * np.sqrt(np.maximum(w, 0))) @ U.conj().T


@st.composite
def case_uhl(draw):
    N = draw(st.sampled_from([1, 2]))
    hb = draw(gen.hbars)
    g = lambda: gen.state(N, N, max_r=0.35, max_nb=0.25, max_a=0.35, hbar=hb)  # noqa: E731
    return dict(a=draw(g()), b=draw(g()))


@sub(P, case_uhl, quick=300, thorough=6000, group="a")
def uhlmann(case, ctx):
    """fidelity of weakly excited states against Tr(sqrt(sqrt(rho) sigma sqrt(rho)))^2 of their density matrices; non-trivial: both mixed"""
    mu1, c1, hb = gen.mat_state(case["a"])
    mu2, c2, _ = gen.mat_state(case["b"])
    N = len(mu1) // 2
    cut = {1: 30, 2: 9}[N]
    r1, r2 = (oracle.fock_rho(m, c, cut, hb).reshape(cut**N, cut**N) for m, c in ((mu1, c1), (mu2, c2)))
    tail = max(1 - np.trace(r1).real, 1 - np.trace(r2).real, 0)
    R = sqrtm(r1)
    want = np.trace(sqrtm(R @ r2 @ R)).real ** 2
    ctx.nontrivial(not gen.is_pure(case["a"]) and not gen.is_pure(case["b"]) and tail < 1e-4)
    ctx.label(f"N={N}", "tail<1e-6" if tail < 1e-6 else "tail<1e-4" if tail < 1e-4 else "large tail")
    if tail < 1e-4:
        # the missing part contributes at most sqrt(tail1 tail2) to the trace of the square root
        ctx.close(fidelity(mu1, c1, mu2, c2, hbar=hb), want, "fidelity against the truncated density matrices", 0, 1e-5 + 5 * tail)
