"""Hypothesis strategies producing JSON-serialisable case specifications, and their materialisers.

Matrices are given either by explicit small entries (so shrinking reaches the smallest readable
example) or by a kind and a seed (so that generic values are reached).  The seed is drawn by
Hypothesis: a case is a pure function of its JSON.
"""
import numpy as np
from hypothesis import strategies as st

from . import oracle

seeds = st.integers(0, 2**32 - 1)
HBARS = [2.0, 1.0, 0.5, 1.7, 4.0, 15.0]
hbars = st.sampled_from(HBARS)


@st.composite
def sym(draw, min_n=1, max_n=6, kinds=None, dts="fci", even=None):
    """Spec of a symmetric matrix."""
    n = draw(st.sampled_from(list(range(min_n, max_n + 1))))
    if even is True and n % 2:
        n += 1 if n < max_n else -1
    kinds = kinds or ["dense", "explicit", "explicit", "sparse", "block", "lowrank", "banded", "diag", "const", "offdiag", "graph"]
    kind = draw(st.sampled_from(kinds))
    dt = draw(st.sampled_from(list(dts)))
    d = dict(n=n, kind=kind, dt=dt, layout=draw(st.sampled_from(["C", "C", "F", "strided"])))
    if kind == "explicit":
        m = n * (n + 1) // 2
        d["ent"] = draw(st.lists(st.integers(-4, 4), min_size=m * (2 if dt == "c" else 1), max_size=m * (2 if dt == "c" else 1)))
    else:
        d["seed"] = draw(seeds)
        d["scale"] = draw(st.sampled_from([1.0, 1.0, 0.3, 2.5]))
        if dt == "c":
            d["cm"] = draw(st.sampled_from(COMPLEX))
        if kind == "banded":
            d["w"] = draw(st.integers(0, max(0, n - 1)))
        if kind == "lowrank":
            d["rank"] = draw(st.integers(1, max(1, n - 1)))
    return d


COMPLEX = ["full", "full", "full", "imag", "real", "weak", "mix", "band", "phase"]


def _vals(rng, shape, dt, scale):
    if dt == "i":
        return rng.integers(-3, 4, size=shape)
    x = rng.normal(size=shape) * scale
    if dt == "c":
        x = x + 1j * rng.normal(size=shape) * scale
    return x


def _cpattern(A, how, rng):
    """Purely real/imaginary entries, whole bands of one kind, a global phase: complex matrices that are not generic."""
    if how == "full" or not A.size:
        return A
    m = np.abs(A) * np.sign(A.real + (A.real == 0))
    if how == "imag":
        return 1j * m
    if how == "real":
        return m + 0j
    if how == "weak":
        return A.real + 1j * A.imag * 10.0 ** rng.integers(-8, -3)
    if how == "phase":
        return m * np.exp(1j * rng.uniform(0, 2 * np.pi))
    if how == "mix" or A.ndim != 2 or A.shape[0] != A.shape[1]:
        t = rng.integers(0, 3, size=A.shape)
        if A.ndim == 2 and A.shape[0] == A.shape[1]:
            t = np.triu(t) + np.triu(t, 1).T
    else:
        i, j = np.indices(A.shape)
        t = rng.integers(0, 2, size=A.shape[0])[np.abs(i - j)]
    return np.where(t == 0, m + 0j, np.where(t == 1, 1j * m, A))


def layout(A, how):
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided" and A.ndim == 2 and A.size:
        B = np.full((2 * A.shape[0], 3 * A.shape[1]), 77, dtype=A.dtype)
        B[::2, 1::3] = A
        return B[::2, 1::3]
    return np.ascontiguousarray(A)


def mat_sym(d):
    n, dt = d["n"], d["dt"]
    typ = {"f": float, "c": complex, "i": np.int64}[dt]
    A = np.zeros((n, n), dtype=typ)
    if d["kind"] == "explicit":
        it = iter(d["ent"])
        for i in range(n):
            for j in range(i, n):
                x = next(it)
                if dt == "c":
                    x = (x + 1j * next(it)) / 2
                elif dt == "f":
                    x = x / 2
                A[i, j] = A[j, i] = x
        return layout(A, d["layout"])
    rng = np.random.default_rng(d["seed"])
    s = d["scale"]
    k = d["kind"]
    X = _vals(rng, (n, n), dt, s)
    S = np.triu(X) + np.triu(X, 1).T
    if k == "dense":
        A = S
    elif k == "sparse":
        m = np.triu(rng.random((n, n)) < 0.4)
        m = m | m.T
        A = S * m
    elif k == "block":
        h = int(rng.integers(0, n + 1))
        m = np.zeros((n, n), dtype=bool)
        m[:h, :h] = True
        m[h:, h:] = True
        p = rng.permutation(n)
        A = (S * m)[np.ix_(p, p)]
    elif k == "lowrank":
        G = _vals(rng, (n, d["rank"]), dt, np.sqrt(s))
        A = G @ G.T
    elif k == "banded":
        i, j = np.indices((n, n))
        A = S * (np.abs(i - j) <= d["w"])
    elif k == "diag":
        A = np.diag(np.diag(S))
    elif k == "const":
        A = np.full((n, n), _vals(rng, (), dt, s))
    elif k == "offdiag":
        A = S - np.diag(np.diag(S))
    elif k == "graph":
        m = np.triu(rng.random((n, n)) < 0.6, 1)
        A = (m | m.T).astype(typ)
    elif k == "zero":
        A = np.zeros((n, n))
    elif k == "pos":
        A = np.abs(S)
    else:
        raise ValueError(k)
    A = np.asarray(A).astype(typ)
    if dt == "c" and k != "lowrank":
        A = _cpattern(A, d.get("cm", "full"), rng)
    return layout(A, d["layout"])


@st.composite
def gen_mat(draw, rows, cols, dts="fci", kinds=("dense", "explicit", "sparse", "lowrank", "const")):
    """Spec of a general rows x cols matrix."""
    kind = draw(st.sampled_from(list(kinds)))
    dt = draw(st.sampled_from(list(dts)))
    d = dict(r=rows, c=cols, kind=kind, dt=dt, layout=draw(st.sampled_from(["C", "C", "F", "strided"])))
    if kind == "explicit":
        m = rows * cols * (2 if dt == "c" else 1)
        d["ent"] = draw(st.lists(st.integers(-4, 4), min_size=m, max_size=m))
    else:
        d["seed"] = draw(seeds)
        d["scale"] = draw(st.sampled_from([1.0, 1.0, 0.3, 2.5]))
        if dt == "c":
            d["cm"] = draw(st.sampled_from([c for c in COMPLEX if c != "band"]))
    return d


def mat_gen(d):
    r, c, dt = d["r"], d["c"], d["dt"]
    typ = {"f": float, "c": complex, "i": np.int64}[dt]
    if d["kind"] == "explicit":
        e = np.array(d["ent"])
        if dt == "c":
            e = (e[0::2] + 1j * e[1::2]) / 2
        elif dt == "f":
            e = e / 2
        return layout(e.reshape(r, c).astype(typ), d["layout"])
    rng = np.random.default_rng(d["seed"])
    X = _vals(rng, (r, c), dt, d["scale"])
    if d["kind"] == "sparse":
        X = X * (rng.random((r, c)) < 0.4)
    elif d["kind"] == "lowrank":
        X = _vals(rng, (r, 1), dt, d["scale"]) @ _vals(rng, (1, c), dt, 1.0)
    elif d["kind"] == "const":
        X = np.full((r, c), _vals(rng, (), dt, d["scale"]))
    elif d["kind"] == "special":  # square matrices with a symmetry or a triangular pattern
        how = rng.integers(0, 7)
        X = {0: lambda: X + X.T, 1: lambda: X + X.conj().T, 2: lambda: X - X.conj().T, 3: lambda: X - X.T, 4: lambda: np.tril(X),
             5: lambda: np.diag(np.diag(X)), 6: lambda: haar(r, rng, real=dt != "c") if r and dt != "i" else X}[int(how)]()
        return layout(np.asarray(X).astype(typ), d["layout"])
    X = np.asarray(X).astype(typ)
    if dt == "c":
        X = _cpattern(X, d.get("cm", "full"), rng)
    return layout(X, d["layout"])


@st.composite
def vec(draw, n, dts="fc", zero=True):
    dt = draw(st.sampled_from(list(dts)))
    kind = draw(st.sampled_from(["dense", "explicit"] + (["zero", "sparse"] if zero else [])))
    d = dict(n=n, dt=dt, kind=kind)
    if kind == "explicit":
        m = n * (2 if dt == "c" else 1)
        d["ent"] = draw(st.lists(st.integers(-4, 4), min_size=m, max_size=m))
    else:
        d["seed"] = draw(seeds)
        if dt == "c":
            d["cm"] = draw(st.sampled_from([c for c in COMPLEX if c not in ("band", "phase")]))
    return d


def mat_vec(d):
    n, dt = d["n"], d["dt"]
    typ = {"f": float, "c": complex, "i": np.int64}[dt]
    if d["kind"] == "zero":
        return np.zeros(n, dtype=typ)
    if d["kind"] == "explicit":
        e = np.array(d["ent"])
        if dt == "c":
            e = (e[0::2] + 1j * e[1::2]) / 2
        elif dt == "f":
            e = e / 2
        return e.reshape(n).astype(typ)
    rng = np.random.default_rng(d["seed"])
    x = _vals(rng, (n,), dt, 1.0)
    if d["kind"] == "sparse":
        x = x * (rng.random(n) < 0.5)
    x = x.astype(typ)
    return _cpattern(x, d.get("cm", "full"), rng) if dt == "c" else x


# ------------------------------------------------------------------ unitaries and Gaussian states


def haar(n, rng, real=False):
    X = rng.normal(size=(n, n)) + (0 if real else 1j * rng.normal(size=(n, n)))
    Q, R = np.linalg.qr(X)
    return Q * (np.diag(R) / np.abs(np.diag(R)))


def unitary(n, kind, seed):
    rng = np.random.default_rng(seed)
    if kind == "haar":
        return haar(n, rng)
    if kind == "real":
        return haar(n, rng, real=True).astype(complex)
    if kind == "perm":
        return np.eye(n)[rng.permutation(n)].astype(complex)
    if kind == "phases":
        return np.diag(np.exp(2j * np.pi * rng.random(n)))
    if kind == "block":
        h = int(rng.integers(0, n + 1))
        U = np.eye(n, dtype=complex)
        U[:h, :h] = haar(h, rng) if h else U[:h, :h]
        U[h:, h:] = haar(n - h, rng) if n - h else U[h:, h:]
        return U
    return np.eye(n, dtype=complex)


UKINDS = ["haar", "haar", "real", "perm", "phases", "block", "id"]


@st.composite
def state(draw, min_n=1, max_n=3, max_r=0.8, max_nb=0.8, max_a=0.8, pure=None, displaced=None, hbar=None,
          distinct=False):
    """Spec of a Gaussian state: thermal -> (passive, squeeze, passive) -> displacement."""
    N = draw(st.sampled_from(list(range(min_n, max_n + 1))))
    q = lambda m: st.integers(-8, 8).map(lambda k: round(k * m / 8, 6))  # noqa: E731
    qp = lambda m: st.integers(0, 8).map(lambda k: round(k * m / 8, 6))  # noqa: E731
    is_pure = draw(st.sampled_from([False, True, False])) if pure is None else pure
    is_disp = draw(st.sampled_from([True, False, True])) if displaced is None else displaced
    generic = distinct or draw(st.sampled_from([False, True, True]))
    d = dict(N=N, uk=draw(st.sampled_from(UKINDS)), useed=draw(seeds), hbar=draw(hbars) if hbar is None else hbar)
    if is_disp and not distinct:
        # all quadratures, only positions or momenta, a single mode, or a weak displacement
        d["dp"] = draw(st.sampled_from(["all"] * 5 + ["x", "p", "one", "weak"]))
    if generic:
        d["gseed"] = draw(seeds)
        # generic parameters, equal squeezing, one squeezed mode, weak squeezing
        if not distinct:
            d["sp"] = draw(st.sampled_from(["all"] * 5 + ["equal", "one", "weak"]))
        if not distinct and not is_pure:
            # classical noise that correlates positions only, momenta only, or a few quadratures
            d["cn"] = draw(st.sampled_from(["none"] * 5 + ["x", "p", "pair"]))
        d["mr"], d["mn"], d["ma"] = max_r, (0.0 if is_pure else max_nb), (max_a if is_disp else 0.0)
    else:
        d["r"] = draw(st.lists(q(max_r), min_size=N, max_size=N))
        d["nb"] = [0.0] * N if is_pure else draw(st.lists(qp(max_nb), min_size=N, max_size=N))
        d["alpha"] = [[0.0, 0.0]] * N if not is_disp else draw(st.lists(st.lists(q(max_a), min_size=2, max_size=2), min_size=N, max_size=N))
    return d


@st.composite
def extreme(draw, min_n=1, max_n=3, strong=(1.8, 3.0, 3.5), pure=None, faint=(1e-2, 1e-3, 1e-4)):
    """A state far outside the usual ranges: strong squeezing, noise and displacement (the three given
    maxima), or all of them at most one of the magnitudes in `faint`. Same spec format as state()."""
    N = draw(st.sampled_from(list(range(min_n, max_n + 1))))
    d = dict(N=N, uk=draw(st.sampled_from(UKINDS)), useed=draw(seeds), hbar=draw(hbars), gseed=draw(seeds))
    is_pure = draw(st.sampled_from([False, True, False])) if pure is None else pure
    on = draw(st.sampled_from([(1, 1), (1, 1), (1, 0), (0, 1)]))  # squeezed, displaced
    sc = draw(st.sampled_from(list(faint))) if faint and (not strong or draw(st.booleans())) else 0
    r, n, a = (sc, sc, sc) if sc else strong
    d["mr"], d["mn"], d["ma"] = r * on[0], 0.0 if is_pure else n, a * on[1]
    d["ex"] = sc or "strong"
    if sc and not is_pure:
        d["cn"] = "x"  # at least 0.3 of the magnitude, so that the state counts as mixed
    return d


def mat_state(d, hbar=None):
    """(mu, cov, hbar) in xxpp ordering."""
    N = d["N"]
    hb = d["hbar"] if hbar is None else hbar
    if "gseed" in d:
        rng = np.random.default_rng(d["gseed"])
        r = rng.uniform(-d["mr"], d["mr"], N)
        nb = rng.uniform(0, 1, N) * d["mn"]
        al = d["ma"] * (rng.uniform(-1, 1, N) + 1j * rng.uniform(-1, 1, N)) / np.sqrt(2)
        sp = d.get("sp", "all")
        if sp == "equal":
            r, nb = np.full(N, r[0]), np.full(N, nb[0])
        elif sp == "one":
            r[1:] = 0
        elif sp == "weak":
            r *= 1e-2
        V = oracle.passive(haar(N, rng))
    else:
        r, nb = np.array(d["r"], float), np.array(d["nb"], float)
        al = np.array([complex(*a) for a in d["alpha"]])
        V = np.eye(2 * N)
    dp = d.get("dp", "all")
    if dp == "x":
        al = al.real + 0j
    elif dp == "p":
        al = 1j * al.imag
    elif dp == "one":
        al = al * (np.arange(N) == d["useed"] % N)
    elif dp == "weak":
        al = al * 1e-3
    U = oracle.passive(unitary(N, d["uk"], d["useed"]))
    S = U @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ V
    cov = hb / 2 * S @ np.diag(np.tile(2 * nb + 1, 2)) @ S.T
    cn = d.get("cn", "none")
    if cn != "none":
        i, j = (rng.permutation(N)[:2] if N > 1 else (0, 0))
        g = np.zeros(2 * N)
        if cn == "pair":
            g[[i + N * rng.integers(2), j + N * rng.integers(2)]] = 1, rng.choice([-1, 1])
        else:
            g[[i + N * (cn == "p"), j + N * (cn == "p")]] = 1, rng.choice([-1, 1])
        cov = cov + hb / 2 * d["mn"] * rng.uniform(0.3, 1) * np.outer(g, g)
    cov = (cov + cov.T) / 2
    mu = np.sqrt(2 * hb) * np.concatenate([al.real, al.imag])
    return mu, cov, hb


def is_displaced(d):
    return bool(d["ma"]) if "gseed" in d else any(x for a in d["alpha"] for x in a)


def is_pure(d):
    return not d["mn"] if "gseed" in d else not any(d["nb"])


def symplectic(N, seed, max_r=0.8, kind="generic"):
    """Random symplectic matrix built from passive-squeeze-passive."""
    rng = np.random.default_rng(seed)
    U, V = oracle.passive(haar(N, rng)), oracle.passive(haar(N, rng))
    r = rng.uniform(-max_r, max_r, N)
    if kind == "degenerate":
        r = np.full(N, 0.4)
    elif kind == "passive":
        r = np.zeros(N)
    elif kind == "partial":
        r[: N // 2 + 1] = 0.0
    elif kind == "pairs":
        r = np.repeat(r[: (N + 1) // 2], 2)[:N]
    elif kind == "squeezers":
        U = V = np.eye(2 * N)
    return U @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ V


def label_state(ctx, d):
    ctx.label("pure" if is_pure(d) else "mixed", "displaced" if is_displaced(d) else "centred", f"N={d['N']}",
              "hbar=2" if d["hbar"] == 2 else "hbar!=2")
