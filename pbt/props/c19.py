"""C19: phase-space conversions are mutually inverse and reductions keep mode order."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import (Qmat, Covmat, Amat, Xmat, complex_to_real_displacements, real_to_complex_displacements,
                               reduced_gaussian)
from thewalrus.symplectic import reduced_state
from pbt import gen
from pbt.core import sub, raises

P = "C19"


@sub(P, lambda: st.one_of(gen.state(1, 7, max_r=1.5, max_nb=2.0, max_a=3.0), gen.state(1, 7, max_r=1.5, max_nb=2.0, max_a=3.0), gen.extreme(1, 7)), quick=900, thorough=16000, group="a")
def conversions(case, ctx):
    """Q, A, Covmat and displacement conversions against their definitions in terms of ladder operators; non-trivial: N >= 2"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N = case["N"]
    ctx.nontrivial(N >= 2)
    # (a, a^dag) = R (x, p) / sqrt(2 hbar)
    R = np.block([[np.eye(N), 1j * np.eye(N)], [np.eye(N), -1j * np.eye(N)]]) / np.sqrt(2 * hb)
    m = R @ mu
    ctx.close(complex_to_real_displacements(mu, hbar=hb), m, "complex displacements", 1e-10, 1e-12)
    ctx.close(real_to_complex_displacements(m, hbar=hb), mu, "real displacements", 1e-10, 1e-12)
    # symmetrised covariance of (a, a^dag): S_ij = <{d zeta_i, d zeta_j^dag}>/2 ; Husimi adds 1/2
    S = R @ cov @ R.conj().T
    Q = (S + np.eye(2 * N) / 2).conj()  # rows and columns in the order (a^dag, a)
    s = np.abs(Q).max()
    got = Qmat(cov, hbar=hb)
    ctx.close(got, Q, "Qmat", 1e-10, 1e-11, scale=s)
    ctx.close(got, got.conj().T, "Hermiticity of Q", 1e-12, 1e-12, scale=s)
    ctx.close(Covmat(got, hbar=hb), cov, "Covmat(Qmat(cov))", 1e-10, 1e-11, scale=np.abs(cov).max())
    ctx.close(Qmat(Covmat(Q, hbar=hb), hbar=hb), Q, "Qmat(Covmat(Q))", 1e-10, 1e-11, scale=s)
    X = np.block([[np.zeros((N, N)), np.eye(N)], [np.eye(N), np.zeros((N, N))]])
    ctx.close(Xmat(N), X, "Xmat", 0, 0)
    A = X @ (np.eye(2 * N) - np.linalg.inv(Q)).conj()
    ctx.close(Amat(cov, hbar=hb), A, "Amat", 1e-7, 1e-8)
    ctx.close(Amat(Q, cov_is_qmat=True), A, "Amat of the Husimi matrix", 1e-7, 1e-8)
    ctx.close(np.linalg.inv(np.eye(2 * N) - (X @ Amat(cov, hbar=hb)).conj()), Q, "Q recovered from A", 1e-6, 1e-7, scale=s)


@st.composite
def case_r(draw):
    s = draw(gen.state(1, 7, max_a=2.0, distinct=True))
    N = s["N"]
    k = draw(st.sampled_from([N, max(1, N - 1), max(1, N // 2), 1, 2 if N > 1 else 1]))
    order = draw(st.permutations(list(range(N))))
    kind = draw(st.sampled_from(["any", "any", "sorted", "full", "reversed"]))
    modes = list(range(N)) if kind == "full" else list(order[:k])
    if kind == "sorted":
        modes = sorted(modes)
    if kind == "reversed":
        modes = list(range(N))[::-1]
    return dict(s=s, modes=modes, form=draw(st.sampled_from(["list", "tuple", "array", "int"])))


def give(modes, form):
    if form == "int":
        return modes[0]
    return {"list": list, "tuple": tuple, "array": np.array}[form](modes)


@sub(P, case_r, quick=1000, thorough=20000, group="a")
def reduction(case, ctx):
    """reduced_gaussian and reduced_state return the means and covariances of the listed modes in the listed order; non-trivial: unsorted modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, form = case["s"]["N"], case["form"]
    modes = case["modes"][:1] if form == "int" else case["modes"]
    ctx.nontrivial(modes != sorted(modes))
    ctx.label(form, "sorted" if modes == sorted(modes) else "unsorted", "full" if len(modes) == N else "proper")
    wm = np.array([mu[m + q * N] for q in (0, 1) for m in modes])
    wc = np.array([[cov[i + a * N, j + b * N] for b in (0, 1) for j in modes] for a in (0, 1) for i in modes])
    for f in (reduced_gaussian, reduced_state):
        m, c = f(mu, cov, give(modes, form))
        ctx.close(m, wm, f"{f.__name__}({modes} as {form}) means", 0, 0)
        ctx.close(c, wc, f"{f.__name__}({modes} as {form}) covariance", 0, 0)


@st.composite
def case_bad(draw):
    c = draw(case_r())
    N = c["s"]["N"]
    c["bad"] = draw(st.sampled_from([N, N + 1, -1, 2 * N, -N, 5 * N, N + 2]))
    c["pos"] = draw(st.integers(0, len(c["modes"]) - 1))
    return c


@sub(P, case_bad, quick=400, thorough=8000, group="a")
def rejected(case, ctx):
    """modes outside 0..N-1 raise, whatever the position, order and sequence type; non-trivial: several modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    modes = list(case["modes"])
    if case["form"] == "int":
        modes = modes[:1]
        modes[0] = case["bad"]
    else:
        modes[case["pos"]] = case["bad"]
    ctx.nontrivial(len(modes) > 1)
    ctx.label(case["form"], "negative" if case["bad"] < 0 else "large")
    for f in (reduced_gaussian, reduced_state):
        e = raises(f, mu, cov, give(modes, case["form"]))
        ctx.require(isinstance(e, (ValueError, IndexError)), lambda: f"{f.__name__} with modes {modes} of {case['s']['N']} raised {e!r}")
