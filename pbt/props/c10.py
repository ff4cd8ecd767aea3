"""C10: characteristic polynomials and power traces are exact functions of the matrix."""
from fractions import Fraction
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus.charpoly import charpoly, powertrace
from pbt import gen
from pbt.core import sub

P = "C10"


@st.composite
def mats(draw, hi=8):
    n = draw(st.sampled_from(list(range(hi + 1))))
    dt = draw(st.sampled_from(["f", "c"]))
    kind = draw(st.sampled_from(["explicit", "dense", "nilpotent", "hessenberg", "diag", "jordan", "lowrank", "sparse", "blockdiag", "zero",
                                 "companion", "unitary", "triangular", "symmetric", "graded", "neardiag"]))
    d = dict(n=n, dt=dt, kind=kind, seed=draw(gen.seeds), scale=draw(st.sampled_from([1.0, 0.2, 3.0, 2.0**-24, 2.0**-12, 2.0**10])))
    if kind == "explicit":
        m = n * n * (2 if dt == "c" else 1)
        d["ent"] = draw(st.lists(st.integers(-3, 3), min_size=m, max_size=m))
    return d


def build(d):
    n, dt = d["n"], d["dt"]
    typ = complex if dt == "c" else float
    rng = np.random.default_rng(d["seed"])
    X = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if dt == "c" else 0)
    k = d["kind"]
    if k == "explicit":
        e = np.array(d["ent"], dtype=float)
        X = (e[0::2] + 1j * e[1::2] if dt == "c" else e).reshape(n, n)
        return np.ascontiguousarray(X, dtype=typ)
    if k == "nilpotent":
        X = np.triu(X, 1)
        p = rng.permutation(n)
        X = X[np.ix_(p, p)]
    elif k == "hessenberg":
        X = np.triu(X, -1)
    elif k == "diag":
        X = np.diag(np.diag(X))
    elif k == "jordan":
        X = np.eye(n) * (X[0, 0] if n else 0) + np.diag(np.ones(max(0, n - 1)), 1)[:n, :n]
    elif k == "lowrank" and n:
        X = X[:, :1] @ X[:1, :]
    elif k == "sparse":
        X = X * (rng.random((n, n)) < 0.3)
    elif k == "blockdiag":
        h = int(rng.integers(0, n + 1))
        X[:h, h:] = 0
        X[h:, :h] = 0
    elif k == "zero":
        X = np.zeros((n, n))
    elif k == "companion":
        X = np.diag(np.ones(max(0, n - 1)), -1)[:n, :n] + 0 * X
        if n:
            X[:, -1] = rng.integers(-3, 4, n)
    elif k == "unitary" and n:
        X = gen.haar(n, rng, real=dt == "f")
    elif k == "triangular":
        X = np.tril(X)
    elif k == "graded":  # ever smaller entries below the diagonal
        X = X * 2.0 ** (-9 * np.maximum(0, np.arange(n)[:, None] - np.arange(n)[None, :]))
    elif k == "neardiag":
        X = np.diag(np.diag(X)) + X * 2.0 ** -rng.integers(8, 36, (n, n))
    elif k == "symmetric":
        X = X + X.T
    return np.ascontiguousarray(X * d["scale"], dtype=typ)


def exact(H):
    """Coefficients of det(xI - H) after the leading one, and the list of powers' traces, in rational arithmetic."""
    n = len(H)

    class Z:  # noqa: D101 - Gaussian rationals
        pass

    Hr = [[(Fraction(float(np.real(x))), Fraction(float(np.imag(x)))) for x in row] for row in H]

    def mul(a, b):
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    def matmul(A, B):
        out = []
        for i in range(n):
            row = []
            for j in range(n):
                re = im = Fraction(0)
                for k in range(n):
                    p = mul(A[i][k], B[k][j])
                    re += p[0]
                    im += p[1]
                row.append((re, im))
            out.append(row)
        return out

    # Faddeev-LeVerrier
    M = [[(Fraction(int(i == j)), Fraction(0)) for j in range(n)] for i in range(n)]
    cs = []
    for k in range(1, n + 1):
        AM = matmul(Hr, M)
        tr = (sum((AM[i][i][0] for i in range(n)), Fraction(0)), sum((AM[i][i][1] for i in range(n)), Fraction(0)))
        c = (-tr[0] / k, -tr[1] / k)
        cs.append(complex(float(c[0]), float(c[1])))
        M = [[(AM[i][j][0] + (c[0] if i == j else 0), AM[i][j][1] + (c[1] if i == j else 0)) for j in range(n)] for i in range(n)]
    return cs


def dyadic(H):
    """Round to 16 bits below the largest entry so that rational arithmetic stays cheap."""
    if not H.size or not np.abs(H).max():
        return H
    q = 2.0 ** (16 - math.ceil(math.log2(np.abs(H).max())))
    return np.round(H * q) / q


@sub(P, mats, quick=500, thorough=10000, group="a")
def polynomial(case, ctx):
    """charpoly against Faddeev-LeVerrier in exact rational arithmetic; non-trivial: n >= 3"""
    H = build(case)
    if case["kind"] not in ("graded", "neardiag"):
        H = np.ascontiguousarray(dyadic(H))
    n = len(H)
    want = exact(H)
    ctx.nontrivial(n >= 3)
    ctx.label("n=%d" % n, case["kind"], case["dt"])
    got = charpoly(H.copy())
    ctx.require(len(got) == n, lambda: f"{len(got)} coefficients for size {n}")
    nrm = max(np.linalg.norm(H), 1e-30) if n else 1.0
    for k in range(n):
        ctx.close(got[k], want[k], f"coefficient {k + 1} of {n} ({case['kind']})", 1e-10, 0, math.comb(n, k + 1) * nrm ** (k + 1))


@st.composite
def case_trace(draw):
    return dict(draw(mats()), order=draw(st.integers(0, 14)))


@sub(P, case_trace, quick=500, thorough=10000, group="a")
def traces(case, ctx):
    """powertrace(H, n)[k] = Tr H^k for k < n; non-trivial: size >= 2 and order >= 3"""
    H, o = build(case), case["order"]
    n = len(H)
    ctx.nontrivial(n >= 2 and o >= 3)
    ctx.label("above" if o > n + 1 else ("at" if o >= n else "below"), case["kind"])
    got = powertrace(H.copy(), o)
    ctx.require(len(got) == o, lambda: f"{len(got)} traces for order {o}, size {n}")
    B = np.eye(n, dtype=complex)
    nrm = (np.linalg.norm(H) if n else 0.0) + 1e-30
    for k in range(o):
        # Newton's identities lose digits like (1 + |H|_F)^k with a combinatorial factor
        ctx.close(got[k], np.trace(B), f"trace of power {k} of size {n} ({case['kind']})", 1e-9, 0, 2.0 ** min(k, 12) * n * nrm**k)
        B = B @ H


@st.composite
def case_law(draw):
    return dict(draw(mats(6)), seed2=draw(gen.seeds))


@sub(P, case_law, quick=150, thorough=3000, group="a")
def similarity(case, ctx):
    """similarity invariance and Cayley-Hamilton: the coefficients annihilate the matrix"""
    H = build(case)
    n = len(H)
    ctx.nontrivial(n >= 3)
    W = gen.haar(n, np.random.default_rng(case["seed2"]), real=case["dt"] == "f") if n else np.zeros((0, 0))
    G = np.ascontiguousarray(W @ H @ W.conj().T, dtype=H.dtype)
    c = np.array(charpoly(H.copy()))
    d = np.array(charpoly(G.copy()))
    nrm = (np.linalg.norm(H) if n else 0) + 1e-30
    for k in range(n):
        ctx.close(d[k], c[k], f"coefficient {k + 1} after a similarity", 1e-9, 0, math.comb(n, k + 1) * nrm ** (k + 1))
    X = np.linalg.matrix_power(H, n) + sum(c[k] * np.linalg.matrix_power(H, n - 1 - k) for k in range(n)) if n else H
    ctx.close(X, np.zeros_like(H), "Cayley-Hamilton", 1e-9, 0, (2 * nrm) ** n)
