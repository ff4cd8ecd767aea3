"""C31: grouped click probabilities estimate the exact distribution of the number of clicks."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.grouped_click_probabilities import grouped_click_probabilities, grouped_click_probabilities_squeezed
from pbt import gen, oracle
from pbt.core import sub

P = "C31"


@st.composite
def setup(draw, sizes=(3, 2, 4, 1, 5)):
    M = draw(st.sampled_from(list(sizes)))
    return dict(M=M, K=draw(st.integers(1, M)) if draw(st.booleans()) else M, seed=draw(gen.seeds), light=draw(st.sampled_from(["squeezed", "mixed", "thermal", "none"])),
                net=draw(st.sampled_from(["lossy", "unitary", "real", "columns", "identity", "float"])))


def build(c):
    """Transfer matrix, squeezings, mean photon numbers and coherences."""
    M, K, rng = c["M"], c["K"], np.random.default_rng(c["seed"])
    if c["net"] == "unitary":
        T = gen.haar(M, rng)[:, :K]
    elif c["net"] in ("real", "float"):
        T = gen.haar(M, rng, real=True)[:, :K]
    elif c["net"] == "columns":
        T = gen.haar(M, rng)[:, :K] * np.sqrt(rng.uniform(0, 1, K))
    elif c["net"] == "identity":
        T = np.eye(M)[:, :K]
    else:
        T = (gen.haar(M, rng) * np.sqrt(rng.uniform(0.2, 1, M))) @ gen.haar(M, rng)[:, :K]
    T = T.real.astype(float) if c["net"] == "float" else T.astype(complex)
    r = rng.uniform(-0.4, 0.4, K)
    n, m = np.sinh(r) ** 2, np.sinh(2 * r) / 2
    if c["light"] == "mixed":
        v = rng.uniform(1, 1.6, K)
        n, m = (v * np.cosh(2 * r) - 1) / 2, v * np.sinh(2 * r) / 2
    elif c["light"] == "thermal":
        n, m = rng.uniform(0, 0.5, K), np.zeros(K)
    elif c["light"] == "none":
        n, m = np.zeros(K), np.zeros(K)
    return T, r, n, m


def law(T, n, m):
    M, K = T.shape
    R = np.block([[T.real, -T.imag], [T.imag, T.real]])
    V = np.eye(2 * M) + R @ np.diag(np.concatenate([2 * n + 2 * m, 2 * n - 2 * m])) @ R.T
    D = oracle.click_distribution(np.zeros(2 * M), V, 2)
    return np.array([sum(D[i] for i in np.ndindex(D.shape) if sum(i) == k) for k in range(M + 1)])


@sub(P, setup(), quick=160, thorough=5000, shards=2, threads=1)
def accuracy(case, ctx):
    """estimates agree with the exact distribution of the total number of clicks; non-trivial: a mixing network with light in it"""
    T, r, n, m = build(case)
    M, K = T.shape
    ctx.nontrivial(M > 1 and case["net"] != "identity" and case["light"] != "none")
    ctx.label(case["net"], case["light"], "square" if M == K else "rectangular", f"M={M}")
    G, per = 50, 600
    s = case["seed"] % 2**32
    if case["light"] == "squeezed" and case["seed"] % 2:
        prob, err = grouped_click_probabilities_squeezed(r, T, G * per, G, s)
    else:
        prob, err = grouped_click_probabilities(n, m, T, G * per, G, s)
    ctx.require(np.shape(prob) == (M + 1,) and np.shape(err) == (M + 1,), lambda: f"shapes {np.shape(prob)}, {np.shape(err)} instead of {(M + 1,)}")
    want = law(T, n, m)
    se = err / np.sqrt(G)
    ctx.require(np.all(np.abs(prob - want) <= 10 * se + 1e-3), lambda: f"estimates {prob} with standard errors {se} of the exact probabilities {want}")


@sub(P, setup((6, 8, 9, 10)), quick=16, thorough=500, threads=1)
def many_modes(case, ctx):
    """six to ten modes: estimates agree with the exact distribution; non-trivial: a mixing network with light in it"""
    accuracy(case, ctx)


@st.composite
def group_case(draw):
    d = draw(setup())
    d.update(G=draw(st.sampled_from([4, 2, 1, 7])), per=draw(st.sampled_from([5, 1, 2, 30])), left=draw(st.sampled_from([0, 1, 3])), s=draw(st.sampled_from([None, 0, 1990, 7]) | gen.seeds))
    return d


@sub(P, group_case(), quick=700, thorough=30000, threads=1)
def groups(case, ctx):
    """normalisation, group means and their spread, seeds, and the squeezed variant; non-trivial: several groups"""
    T, r, n, m = build(case)
    M = len(T)
    G, per = case["G"], case["per"]
    left = min(case["left"], G - 1)
    ctx.nontrivial(G > 1 and case["light"] != "none")
    ctx.label(f"groups={G}", f"left over={left}", case["light"], "default seed" if case["s"] is None else "seeded")
    kw = {} if case["s"] is None else {"seed": case["s"]}

    def run(num, g):
        return grouped_click_probabilities(n, m, T, num, g, **kw)

    prob, err = run(G * per + left, G)
    ctx.require(np.shape(prob) == (M + 1,) and np.shape(err) == (M + 1,), lambda: f"shapes {np.shape(prob)}, {np.shape(err)}")
    ctx.require(np.asarray(prob).dtype.kind == "f" and np.asarray(err).dtype.kind == "f" and np.all(np.isfinite(prob)) and np.all(err >= 0), lambda: f"estimates {prob} and errors {err}")
    ctx.close(prob.sum(), 1.0, "sum of the probabilities", 0, 1e-9 * (1 + np.abs(prob).max()))
    # the first k groups consume the same random numbers as a run with k groups
    tot = np.array([np.zeros(M + 1)] + [run(k * per, k)[0] * k for k in range(1, G + 1)])
    means = np.diff(tot, axis=0)
    scale = 1 + np.abs(means).max()
    ctx.close(prob, means.mean(axis=0), "mean over the groups", 0, 1e-9 * scale)
    ctx.close(err, means.std(axis=0), "spread between the groups", 1e-6, 1e-7 * scale)
    # a group of one sample each: refining the groups does not change the mean
    ctx.close(run(G * per, G * per)[0], prob, "mean over finer groups", 0, 1e-9 * scale)
    again = run(G * per + left, G)
    ctx.require(np.array_equal(prob, again[0]) and np.array_equal(err, again[1]), "the same seed gives different estimates")
    if case["light"] == "squeezed":
        sq = grouped_click_probabilities_squeezed(r, T, G * per + left, G, **kw)
        ctx.close(sq[0], prob, "squeezed variant", 1e-6, 1e-9 * scale)
        ctx.close(sq[1], err, "errors of the squeezed variant", 1e-6, 1e-6 * scale)
    if case["light"] in ("squeezed", "thermal") and np.any(np.abs(T) > 0.1) and n.max() > 1e-3:
        other = grouped_click_probabilities(n, m, T, G * per, G, 12345 if case["s"] != 12345 else 54321)[0]
        ctx.require(not np.array_equal(other, prob), "different seeds give the same estimates")
    if case["light"] == "none":
        ctx.close(prob, np.eye(M + 1)[0], "no light", 0, 1e-9)
