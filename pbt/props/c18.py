"""C18: n-body marginals, truncation bounds and the classical prefix match the state."""
import itertools

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import n_body_marginals, tvd_cutoff_bounds, find_classical_subsystem
from pbt import gen, oracle
from pbt.core import sub

P = "C18"


def reduce(mu, cov, modes):
    N = len(mu) // 2
    ix = list(modes) + [m + N for m in modes]
    return mu[ix], cov[np.ix_(ix, ix)]


@st.composite
def case_m(draw):
    n = draw(st.sampled_from([3, 2, 1]))
    N = draw(st.sampled_from({3: [3, 4], 2: [3, 2, 4, 5], 1: [2, 1, 6, 4]}[n]))
    s = draw(gen.state(N, N, max_r=0.8, max_nb=0.8, max_a=0.8))
    return dict(s=s, n=n, cut=draw(st.sampled_from({3: [2, 3], 2: [3, 2, 4, 1], 1: [4, 6, 2, 1]}[n])))


@sub(P, case_m, quick=120, thorough=2500, group="a")
def marginals(case, ctx):
    """every n-body marginal is the distribution of the reduced state on those modes in that order; non-trivial: n >= 2"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, n, cut = case["s"]["N"], case["n"], case["cut"]
    ctx.nontrivial(n >= 2 and cut >= 2)
    ctx.label(f"n={n}")
    out = n_body_marginals(mu, cov, cut, n, hbar=hb)
    ctx.require(len(out) == n, f"{len(out)} tensors instead of {n}")
    for k, T in enumerate(out, 1):
        ctx.require(T.shape == (N,) * k + (cut,) * k, lambda: f"{k}-body tensor has shape {T.shape}")
        for S in itertools.combinations(range(N), k):
            p = oracle.fock_probs(*reduce(mu, cov, S), cut, hb)
            for o in itertools.permutations(range(k)):
                modes = tuple(S[i] for i in o)
                want = p.transpose(o)
                got = T[modes]
                if np.abs(got - want).max() > 1e-8:
                    inv = tuple(np.argsort(o))
                    if inv != o and np.abs(got - p.transpose(inv)).max() <= 1e-8 and ctx.known("n-body-marginals-inverse-permutation", P):
                        continue
                    ctx.close(got, want, f"marginal of modes {modes}", 1e-7, 1e-9)


@st.composite
def case_big(draw):
    s = draw(gen.state(9, 12, max_r=0.6, max_nb=0.5, max_a=0.6))
    return dict(s=s, n=draw(st.sampled_from([2, 1])), pick=draw(st.lists(st.permutations(list(range(s["N"]))).map(lambda x: x[:2]), min_size=6, max_size=6)))


@sub(P, case_big, quick=12, thorough=250, group="a")
def many_modes(case, ctx):
    """one- and two-body marginals of states with nine or more modes; non-trivial: always"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, n, cut = case["s"]["N"], case["n"], 2
    out = n_body_marginals(mu, cov, cut, n, hbar=hb)
    for m in range(N):
        ctx.close(out[0][m], oracle.fock_probs(*reduce(mu, cov, [m]), cut, hb), f"marginal of mode {m}", 1e-7, 1e-9)
    if n == 2:
        for i, j in case["pick"]:
            ctx.close(out[1][i, j], oracle.fock_probs(*reduce(mu, cov, [i, j]), cut, hb), f"marginal of modes {i}, {j}", 1e-7, 1e-9)


@st.composite
def case_t(draw):
    s = draw(st.one_of(*[gen.state(1, 4, max_r=1.0, max_nb=1.0, max_a=1.2)] * 3, gen.extreme(1, 3, strong=(1.8, 2.0, 2.5))))
    return dict(s=s, cut=draw(st.sampled_from({1: [8, 15, 3, 1], 2: [7, 4, 2], 3: [4, 3, 2], 4: [3, 2]}[s["N"]])))


@sub(P, case_t, quick=200, thorough=4000, group="b")
def bounds(case, ctx):
    """tvd_cutoff_bounds dominates the mass outside each cutoff and decreases; non-trivial: at least two modes and mass outside"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, cut = case["s"]["N"], case["cut"]
    b = tvd_cutoff_bounds(mu, cov, cut, hbar=hb)
    ctx.require(np.shape(b) == (cut,), lambda: f"shape {np.shape(b)}")
    ctx.require(np.isrealobj(b) and np.isfinite(b).all(), lambda: f"bounds {b}")
    p = oracle.fock_probs(mu, cov, cut, hb)
    missing = np.array([1 - p[(slice(0, i + 1),) * N].sum() for i in range(cut)])
    ctx.nontrivial(N >= 2 and missing.max() > 0.01)
    i = int(np.argmax(missing - b))
    ctx.require((b >= missing - 1e-8).all(), lambda: f"bound {b[i]} below the missing mass {missing[i]} at cutoff {i + 1}")
    ctx.require((np.diff(b) <= 1e-9).all(), lambda: f"bounds increase: {b}")
    if N == 1:
        ctx.close(b, missing, "single-mode bound is the exact missing mass", 1e-7, 1e-8)


@st.composite
def case_c(draw):
    N = draw(st.sampled_from([3, 4, 2, 5, 1]))
    return dict(N=N, seed=draw(gen.seeds), first=draw(st.integers(0, N)), kind=draw(st.sampled_from(["noisy", "prefix", "prefix-mixed", "vacuum-prefix", "random"])),
                hbar=draw(gen.hbars), atol=draw(st.sampled_from([None, None, 1e-4, 1e-2, 0.1])))


def mk(c):
    rng = np.random.default_rng(c["seed"])
    N, k, hb = c["N"], c["first"], c["hbar"]
    if c["kind"] == "random":
        S = gen.symplectic(N, c["seed"], 0.6)
        cov = S @ np.diag(np.tile(1 + 2 * rng.uniform(0, 1, N), 2)) @ S.T
    elif c["kind"] == "noisy":
        S = gen.symplectic(N, c["seed"], 0.5)
        cov = S @ S.T + np.diag(np.tile(np.where(np.arange(N) < k, 1.7, 0.0), 2))
    else:
        # classical on the first k modes, squeezed on the others, correlated across
        r = np.where(np.arange(N) < k, 0, rng.uniform(0.2, 0.8, N))
        nb = np.where(np.arange(N) < k, rng.uniform(0.1, 1.0, N), 0) * (c["kind"] != "vacuum-prefix")
        cov = np.diag(np.concatenate([(1 + 2 * nb) * np.exp(-2 * r), (1 + 2 * nb) * np.exp(2 * r)]))
        if k:
            U = np.eye(N, dtype=complex)
            U[:k, :k] = gen.haar(k, rng)
            if N - k:
                U[k:, k:] = gen.haar(N - k, rng)
            R = oracle.passive(U)
            cov = R @ cov @ R.T
        if c["kind"] == "prefix-mixed":
            U = gen.haar(N, rng)
            R = oracle.passive(U)
            cov = R @ cov @ R.T
    return hb / 2 * (cov + cov.T) / 2


@sub(P, case_c, quick=500, thorough=10000, group="b")
def prefix(case, ctx):
    """find_classical_subsystem is the largest prefix whose reduced state is classical; non-trivial: proper non-empty prefix"""
    cov, N, hb = mk(case), case["N"], case["hbar"]
    margins = [(np.linalg.eigvalsh(reduce(np.zeros(2 * N), cov, range(k))[1]).min() * 2 / hb - 1) for k in range(1, N + 1)]
    lim = 1e-8 if case.get("atol") is None else case["atol"]
    lim = 2 * lim / hb
    if any(-10 * lim < m < -1e-3 * lim for m in margins) if case.get("atol") is None else any(-1.5 * lim < m < -0.7 * lim for m in margins):
        ctx.nontrivial(False)
        ctx.label("boundary")
        return
    want = max([0] + [k + 1 for k, m in enumerate(margins) if m > -(1e-2 if case.get("atol") is None else 1) * lim])
    ctx.nontrivial(0 < want < N)
    ctx.label(f"{want} of {N}", case["kind"])
    got = find_classical_subsystem(cov, hbar=hb, **({} if case.get("atol") is None else {"atol": case["atol"]}))
    ctx.require(got == want, f"classical prefix {got}, exact {want}; margins {margins}")
