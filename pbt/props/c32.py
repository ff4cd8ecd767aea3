"""C32: random generators return objects of the promised class."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats as sps

from thewalrus import random as tr
from pbt import gen, oracle
from pbt.core import sub, raises

P = "C32"


def twice(f, seed):
    np.random.seed(seed % 2**32)
    a = f()
    np.random.seed(seed % 2**32)
    b = f()
    np.random.seed((seed + 1) % 2**32)
    return a, b, f()


def reproducible(ctx, f, seed, what, distinct=True):
    a, b, c = twice(f, seed)
    ctx.require(np.array_equal(a, b), f"{what}: the same seed gives different matrices")
    if distinct:
        ctx.require(not np.array_equal(a, c), f"{what}: different seeds give the same matrix")
    return a


@st.composite
def case_v(draw):
    return dict(N=draw(st.sampled_from([2, 3, 1, 5, 4, 8])), hbar=draw(gen.hbars), pure=draw(st.booleans()), block=draw(st.booleans()), passive=draw(st.booleans()),
                scale=draw(st.sampled_from([1.0, 0.0, 0.3, 2.0])), seed=draw(gen.seeds), defaults=draw(st.booleans()))


@sub(P, case_v(), quick=1500, thorough=60000, group="g", threads=1)
def covariance(case, ctx):
    """random covariance matrices are physical (pure, block diagonal) for any hbar; non-trivial: several modes"""
    N, hb = case["N"], case["hbar"]
    kw = dict(hbar=hb, pure=case["pure"], block_diag=case["block"])
    if case["defaults"]:
        hb = 2
        kw = {k: v for k, v in kw.items() if v and k != "hbar"}
    ctx.nontrivial(N > 1)
    ctx.label(f"N={N}", *(k for k, v in kw.items() if v), "hbar=2" if hb == 2 else "hbar!=2")
    V = reproducible(ctx, lambda: tr.random_covariance(N, **kw), case["seed"], "random_covariance")
    ctx.require(V.shape == (2 * N, 2 * N) and V.dtype == float, lambda: f"shape {V.shape}, type {V.dtype}")
    big = np.abs(V).max()
    ctx.close(V, V.T, "transpose", 0, 1e-12 * big)
    ctx.require(np.linalg.eigvalsh(V).min() > 0, "not positive")
    eps = 1e-13 * (big * 2 / hb) ** 2 + 1e-9
    if eps < 1e-2:
        nu = np.sort(np.abs(np.linalg.eigvals(1j * oracle.sympform(N) @ V * 2 / hb)))
        ctx.require(nu.min() >= 1 - eps, lambda: f"symplectic eigenvalues {nu} violate the uncertainty relation")
        if case["pure"] and "pure" in kw:
            ctx.require(nu.max() <= 1 + eps, lambda: f"symplectic eigenvalues {nu} of a pure state")
        else:
            ctx.require(nu.max() > 1 + 1e-7, lambda: "a mixed state was asked for")
    if kw.get("block_diag"):
        ctx.require(np.all(V[:N, N:] == 0) and np.all(V[N:, :N] == 0), "positions and momenta are mixed")
    elif N > 1:
        ctx.require(np.abs(V[:N, N:]).max() > 0, "positions and momenta are not mixed")


@sub(P, case_v(), quick=1500, thorough=60000, group="g", threads=1)
def symplectic(case, ctx):
    """random symplectic matrices are symplectic (orthogonal, block diagonal) and their squeezing scales; non-trivial: several modes"""
    N = case["N"]
    kw = dict(passive=case["passive"], block_diag=case["block"], scale=case["scale"])
    kw = {k: v for k, v in kw.items() if not (case["defaults"] and (v is False or k == "scale" and v == 1.0))}
    ctx.nontrivial(N > 1)
    ctx.label(f"N={N}", *(f"{k}={v}" for k, v in kw.items() if v))
    S = reproducible(ctx, lambda: tr.random_symplectic(N, **kw), case["seed"], "random_symplectic", distinct=not (N == 1 and case["block"]))
    ctx.require(S.shape == (2 * N, 2 * N) and S.dtype == float, lambda: f"shape {S.shape}, type {S.dtype}")
    Om = oracle.sympform(N)
    big = np.abs(S).max()
    ctx.close(S @ Om @ S.T, Om, "S Omega S^T", 0, 1e-12 * big**2)
    active = not case["passive"] and case["scale"] > 0
    sv = np.linalg.svd(S, compute_uv=False)
    if not active:
        ctx.close(S @ S.T, np.eye(2 * N), "a passive transformation", 0, 1e-11)
    else:
        ctx.require(sv.max() > 1 + 1e-9, "no squeezing in an active transformation")
        np.random.seed(case["seed"] % 2**32)
        S2 = tr.random_symplectic(N, **dict(kw, scale=case["scale"] / 2))
        ctx.close(np.log(np.linalg.svd(S2, compute_uv=False)[:N]), np.log(sv[:N]) / 2, "squeezing parameters at half the scale", 1e-7, 1e-9)
    if case["block"]:
        ctx.require(np.all(S[:N, N:] == 0) and np.all(S[N:, :N] == 0), "positions and momenta are mixed")
    elif N > 1:
        ctx.require(np.abs(S[:N, N:]).max() > 0, "positions and momenta are not mixed")


@st.composite
def case_u(draw):
    N = draw(st.sampled_from([4, 5, 3, 2, 1, 6, 7, 10]))
    return dict(N=N, w=draw(st.integers(0, N + 1)), top=draw(st.sampled_from([None, True, False])), real=draw(st.booleans()), seed=draw(gen.seeds),
                kind=draw(st.sampled_from(["banded", "block", "plain"])))


@sub(P, case_u(), quick=2500, thorough=100000, group="g", threads=1)
def interferometers(case, ctx):
    """random interferometers are unitary (real) with exactly the promised block or band structure; non-trivial: block or banded with at least three modes"""
    N, w, kind, real, top = case["N"], case["w"], case["kind"], case["real"], case["top"]
    ctx.nontrivial(kind != "plain" and N > 2)
    ctx.label(kind, "real" if real else "complex", f"N={N}", *([f"w={w}"] if kind == "banded" else []), f"top={top}")
    kw = {"real": True} if real else {}
    tiny = real and (N == 1 or (kind == "banded" and w == 0))
    if kind == "plain":
        U = reproducible(ctx, lambda: tr.random_interferometer(N, **kw), case["seed"], "random_interferometer", not tiny)
        allowed, needed = np.ones((N, N), bool), np.ones((N, N), bool)
    elif kind == "block":
        if top is not None:
            kw["top_one"] = top
        U = reproducible(ctx, lambda: tr.random_block_interferometer(N, **kw), case["seed"], "random_block_interferometer", not tiny and not (real and N <= 2))
        start = 1 if top is not False else 0
        allowed = np.eye(N, dtype=bool)
        for k in range(start, N - 1, 2):
            allowed[k : k + 2, k : k + 2] = True
        needed = allowed
    else:
        if top is not None:
            kw["top_one_init"] = top
        if w >= N:
            ctx.require(isinstance(raises(tr.random_banded_interferometer, N, w, **kw), ValueError), f"bandwidth {w} accepted for {N} modes")
            return
        U = reproducible(ctx, lambda: tr.random_banded_interferometer(N, w, **kw), case["seed"], "random_banded_interferometer", not tiny and N > 3)
        d = np.abs(np.subtract.outer(range(N), range(N)))
        allowed = d <= w
        needed = np.zeros((N, N), bool)
        ctx.require(np.abs(U[d == w]).max() > 1e-12, f"the bandwidth is less than {w}")
    ctx.require(U.shape == (N, N), lambda: f"shape {U.shape}")
    ctx.close(U @ U.conj().T, np.eye(N), "U U^dagger", 0, 1e-11)
    if real:
        ctx.require(U.dtype == float, f"type {U.dtype} of a real matrix")
    else:
        ctx.require(np.iscomplexobj(U) and np.abs(U.imag).max() > 0, "no imaginary part")
    ctx.require(np.all(U[~allowed] == 0), lambda: f"entries outside the promised structure: {np.argwhere((U != 0) & ~allowed).tolist()}")
    if kind == "block":
        ends = [k for k in range(start, N - 1, 2)]
        ones = [k for k in range(N) if allowed[k].sum() == 1]
        twos = [U[k : k + 2, k : k + 2] for k in ends] if not (real and N <= 2) else []
        for name, bl in (("one-mode", [] if real else [U[k : k + 1, k : k + 1] for k in ones]), ("two-mode", twos)):
            for i, j in itertools.combinations(range(len(bl)), 2):
                ctx.require(np.abs(bl[i] - bl[j]).max() > 1e-12, lambda: f"{name} blocks {i} and {j} are equal, not independent")
    ctx.require(np.all(U[needed] != 0), lambda: f"vanishing entries inside the blocks: {np.argwhere((U == 0) & needed).tolist()}")


@st.composite
def case_h(draw):
    return dict(N=draw(st.sampled_from([2, 3, 1, 4, 6])), real=draw(st.booleans()), seed=draw(gen.seeds), via=draw(st.sampled_from(["plain", "passive", "block", "banded"])))


def gof(ctx, x, cdf, what, bins=12):
    """Values x against a continuous law: equal-probability bins."""
    c = np.bincount(np.clip((cdf(np.asarray(x)) * bins).astype(int), 0, bins - 1), minlength=bins)
    b = oracle.gof_log10(c, np.full(bins, 1 / bins))
    if b < -11:
        ctx.fail(f"{what}: {len(x)} values do not follow the exact law (false-alarm probability 1e{b:.0f}); counts in equally likely bins {c.tolist()}")


@sub(P, case_h(), quick=60, thorough=2500, group="h", threads=1)
def haar(case, ctx):
    """random interferometers follow the Haar measure: entries, rotated entries, determinants and traces; non-trivial: several modes"""
    N, real, via = case["N"], case["real"], case["via"]
    ctx.nontrivial(N > 1)
    ctx.label(f"N={N}", "real" if real else "complex", via)
    num = 3000

    def one():
        if via == "passive":
            S = tr.random_symplectic(N, passive=True, block_diag=real)
            return S[:N, :N] if real else S[:N, :N] - 1j * S[:N, N:]
        if via == "block":  # a block of size two
            return tr.random_block_interferometer(4, top_one=False, real=real)[2:, 2:]
        if via == "banded":
            return tr.random_banded_interferometer(N, N - 1, real=real)
        return tr.random_interferometer(N, real=real)

    np.random.seed(case["seed"] % 2**32)
    U = np.array([one() for _ in range(num)])
    n = U.shape[1]
    rng = np.random.default_rng(case["seed"])
    W1, W2 = (gen.haar(n, rng, real=real) for _ in range(2))
    for name, X in (("U", U), ("W U", W1 @ U), ("U W", U @ W1), ("W U W'", W1 @ U @ W2)):
        for i, j in {(0, 0), (n - 1, 0), (0, n - 1), (n - 1, n - 1)}:
            e = X[:, i, j]
            if n > 1:
                a, b = (0.5, (n - 1) / 2) if real else (1, n - 1)
                gof(ctx, np.abs(e) ** 2, lambda x: sps.beta.cdf(x, a, b), f"|{name}[{i},{j}]|^2")
            if not real:
                gof(ctx, np.angle(e), lambda x: (x + math.pi) / (2 * math.pi), f"phase of {name}[{i},{j}]")
            else:
                k = int(np.sum(e > 0))
                b = oracle.gof_log10(np.array([k, num - k]), np.array([0.5, 0.5]))
                ctx.require(b > -11, f"{k} of {num} values of {name}[{i},{j}] are positive")
    d = np.linalg.det(U)
    if real:
        k = int(np.sum(d > 0))
        ctx.require(oracle.gof_log10(np.array([k, num - k]), np.array([0.5, 0.5])) > -11, f"{k} of {num} determinants are positive")
    else:
        gof(ctx, np.angle(d), lambda x: (x + math.pi) / (2 * math.pi), "phase of the determinant")
        gof(ctx, np.angle(d * np.conj(U[:, 0, 0] ** n)) if n > 1 else np.angle(d), lambda x: (x + math.pi) / (2 * math.pi), "phase of the determinant relative to an entry")
    # |tr U^k|^2 has mean min(k, N) for unitaries (and is bounded by N^2)
    if not real:
        for k in (1, 2):
            t = np.abs(np.trace(np.linalg.matrix_power(U, k), axis1=1, axis2=2)) ** 2
            ctx.require(abs(t.mean() - min(k, n)) <= 8 * t.std() / math.sqrt(num) + 1e-9, lambda: f"mean |tr U^{k}|^2 is {t.mean():.3f} instead of {min(k, n)}")
