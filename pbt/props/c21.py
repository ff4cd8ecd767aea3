"""C21: entanglement measures equal their spectral definitions and invariances."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import vonneumann_entropy, entanglement_entropy, log_negativity
from pbt import gen, oracle
from pbt.core import sub

P = "C21"
TOL = 2e-3  # code treats symplectic eigenvalues within 1e-5 of one as exactly one: error below 1e-4 per mode


def nus(V):
    """Symplectic eigenvalues of V (vacuum = 1) through the symmetric matrix sqrt(V) (i Omega) sqrt(V)."""
    n = len(V) // 2
    w, U = np.linalg.eigh(V)
    R = (U * np.sqrt(w)) @ U.T
    return np.sort(np.abs(np.linalg.eigvalsh(1j * R @ oracle.sympform(n) @ R)))[::2]


def entropy(V):
    nu = np.maximum(nus(V), 1)
    nb = (nu - 1) / 2
    return sum((x + 1) * np.log(x + 1) - (x * np.log(x) if x > 1e-14 else 0) for x in nb)


def negativity(V, A):
    n = len(V) // 2
    F = np.ones(2 * n)
    F[[a + n for a in A]] = -1
    nu = nus(V * np.outer(F, F))
    return -np.log(np.minimum(nu, 1)).sum()


def part(V, A):
    n = len(V) // 2
    ix = list(A) + [a + n for a in A]
    return V[np.ix_(ix, ix)]


@sub(P, lambda: gen.state(1, 5, max_r=1.5, max_nb=3.0), quick=500, thorough=10000, group="a")
def vonneumann(case, ctx):
    """von Neumann entropy from the symplectic spectrum and the thermal populations; zero on pure states; non-trivial: mixed, N >= 2"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N = case["N"]
    ctx.nontrivial(N >= 2 and not gen.is_pure(case))
    S = vonneumann_entropy(cov, hbar=hb)
    ctx.require(np.isrealobj(S) and S >= -1e-9, lambda: f"entropy {S!r}")
    ctx.close(S, entropy(cov * 2 / hb), "vonneumann_entropy", 1e-6, TOL / 10)
    if "gseed" not in case:
        nb = np.array(case["nb"])
        ctx.close(S, sum((x + 1) * np.log(x + 1) - x * np.log(x) for x in nb if x), "entropy from thermal populations", 1e-6, TOL / 10)
    W = gen.symplectic(N, case["useed"], 0.5)
    ctx.close(vonneumann_entropy(W @ cov @ W.T, hbar=hb), S, "invariance under Gaussian unitaries", 1e-5, TOL)
    if gen.is_pure(case):
        ctx.close(S, 0.0, "entropy of a pure state", 0, TOL / 10)


FORMS = ["list", "tuple", "array", "range", "int", "split"]


@st.composite
def bip(draw, pure):
    s = draw(gen.state(2, 5, max_r=1.2, max_nb=1.0, pure=pure, displaced=False))
    N = s["N"]
    form = draw(st.sampled_from(FORMS))
    k = draw(st.integers(1, N - 1))
    if form in ("range", "split"):
        A = list(range(k))
    elif form == "int":
        A = [draw(st.integers(0, N - 1))]
    else:
        A = draw(st.permutations(list(range(N))))[:k]
    return dict(s=s, A=A, form=form, seed=draw(gen.seeds), prod=draw(st.sampled_from([False, False, False, True])))


def call(f, cov, A, form, hb):
    if form == "split":
        return f(cov, split=len(A), hbar=hb)
    a = {"list": list, "tuple": tuple, "array": np.array, "range": lambda x: range(len(x)), "int": lambda x: x[0]}[form](A)
    return f(cov, modes_A=a, hbar=hb)


def local(N, A, seed):
    """Random Gaussian unitary acting separately on A and on the rest."""
    B = [m for m in range(N) if m not in A]
    S = np.eye(2 * N)
    for k, X in enumerate((A, B)):
        ix = list(X) + [x + N for x in X]
        S[np.ix_(ix, ix)] = gen.symplectic(len(X), seed + k, 0.5)
    return S


def common(case, ctx, f, oracle_fn, mixed, TOL=TOL):
    mu, cov, hb = gen.mat_state(case["s"])
    N, A, form = case["s"]["N"], case["A"], case["form"]
    gen.label_state(ctx, case["s"])
    ctx.label(form, f"|A|={len(A)}")
    B = [m for m in range(N) if m not in A]
    if case["prod"]:
        # product state: reduced pieces put back together
        W = np.zeros_like(cov)
        for X in (A, B):
            ix = list(X) + [x + N for x in X]
            if mixed:
                W[np.ix_(ix, ix)] = cov[np.ix_(ix, ix)]
            else:
                S = gen.symplectic(len(X), case["seed"], 0.7)
                W[np.ix_(ix, ix)] = hb / 2 * S @ S.T
        cov = W
        ctx.label("product")
    V = cov * 2 / hb
    E = call(f, cov, A, form, hb)
    want = oracle_fn(V, A)
    ctx.nontrivial(want > 1e-3)
    ctx.require(np.isrealobj(E) and E >= -1e-9, lambda: f"{f.__name__} = {E!r}")
    ctx.close(E, want, f"{f.__name__}(A={A} as {form}) of {N} modes", 1e-6, TOL / 4)
    if case["prod"]:
        ctx.close(E, 0.0, f"{f.__name__} of a product state", 0, TOL / 4)
    ctx.close(f(cov, modes_A=B, hbar=hb), E, "exchange of the parties", 1e-5, TOL)
    ctx.close(f(cov, modes_A=list(A)[::-1], hbar=hb), E, "order of modes inside a party", 1e-6, TOL / 10)
    L = local(N, A, case["seed"])
    ctx.close(f(L @ cov @ L.T, modes_A=list(A), hbar=hb), E, "invariance under local Gaussian unitaries", 1e-4, TOL)
    p = list(np.random.default_rng(case["seed"]).permutation(N))
    ix = p + [x + N for x in p]
    ctx.close(f(cov[np.ix_(ix, ix)], modes_A=[p.index(a) for a in A], hbar=hb), E, "relabelling of the modes", 1e-5, TOL)


@sub(P, lambda: bip(True), quick=400, thorough=8000, group="a")
def ent_entropy(case, ctx):
    """entanglement entropy of pure states: entropy of either reduced state, invariances; non-trivial: entangled"""
    common(case, ctx, entanglement_entropy, lambda V, A: entropy(part(V, A)), False)


@sub(P, lambda: bip(None), quick=400, thorough=8000, group="a")
def negativities(case, ctx):
    """logarithmic negativity from the partially transposed spectrum, invariances; non-trivial: entangled"""
    common(case, ctx, log_negativity, negativity, True, 4e-6)


@st.composite
def case_w(draw):
    N = draw(st.integers(2, 5))
    k = draw(st.integers(1, N - 1))
    A = draw(st.permutations(list(range(N))))[:k]
    return dict(N=N, A=A, logr=draw(st.lists(st.sampled_from([-3.0, -4.0, -6.0, -2.0, -1.0, 0.0, 0.3, 0.5, -8.0, None]), min_size=min(k, N - k), max_size=min(k, N - k))),
                nb=draw(st.sampled_from([0.0, 0.0, 1e-4, 1e-6, 0.1])), seed=draw(gen.seeds), hbar=draw(gen.hbars), loc=draw(st.sampled_from([0.0, 0.5, 1.5])))


@sub(P, case_w, quick=600, thorough=20000, group="a")
def two_mode_squeezed(case, ctx):
    """weak and strong two-mode squeezing shared between the parties: negativity and entropy equal their closed forms; non-trivial: at least one pair squeezed by less than a hundredth or more than one"""
    N, A, hb, nb = case["N"], list(case["A"]), case["hbar"], case["nb"]
    B = [m for m in range(N) if m not in A]
    V = (1 + 2 * nb) * np.eye(2 * N)
    rs = [0.0 if x is None else 10**x for x in case["logr"]]
    for a, b, r in zip(A, B, rs):
        c, s = np.cosh(2 * r), np.sinh(2 * r)
        for o, sg in ((0, 1), (N, -1)):
            V[a + o, a + o] = V[b + o, b + o] = c * (1 + 2 * nb)
            V[a + o, b + o] = V[b + o, a + o] = sg * s * (1 + 2 * nb)
    if case["loc"]:
        L = np.eye(2 * N)
        for k, X in enumerate((A, B)):
            ix = X + [x + N for x in X]
            L[np.ix_(ix, ix)] = gen.symplectic(len(X), case["seed"] + k, case["loc"])
        V = L @ V @ L.T
    V = (V + V.T) / 2
    ctx.nontrivial(any(0 < r < 0.01 or r > 1 for r in rs))
    ctx.label(f"loc={case['loc']}", f"nb={nb}", *(f"r={r:.0e}" for r in rs))
    eps = 1e-14 * np.abs(V).max() ** 2
    want = sum(max(0.0, 2 * r - np.log(1 + 2 * nb)) for r in rs)
    E = log_negativity(V * hb / 2, modes_A=A, hbar=hb)
    # each of the N eigenvalues can lie below one by rounding
    ctx.close(E, want, "log_negativity of two-mode squeezed pairs", 1e-9, N * (eps + 1e-13) * 20)
    ctx.close(log_negativity(V * hb / 2, modes_A=B, hbar=hb), want, "log_negativity of the other party", 1e-9, N * (eps + 1e-13) * 20)
    if nb == 0:
        g = lambda n: (n + 1) * np.log1p(n) - (n * np.log(n) if n > 0 else 0)  # noqa: E731
        # symplectic eigenvalues within about 1e-5 of one count as one
        cut = sum(g(np.sinh(r) ** 2) for r in rs if np.sinh(r) ** 2 < 5.2e-6)
        want = sum(g(np.sinh(r) ** 2) for r in rs)
        S = entanglement_entropy(V * hb / 2, modes_A=A, hbar=hb)
        ctx.close(S, want, "entanglement_entropy of two-mode squeezed pairs", 1e-8, cut + N * 40 * (eps + 1e-13))
