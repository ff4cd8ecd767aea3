"""C29: special-purpose samplers and estimators draw from their exact laws."""
import itertools
import math

import numba
import numpy as np
from hypothesis import strategies as st

from thewalrus import samples as sm, csamples, hafnian
from thewalrus._hafnian import hafnian_approx
from thewalrus.quantum import distinguishable_squeezers as ds
from pbt import gen, oracle, stats
from pbt.core import sub, raises

P = "C29"


@st.composite
def case_c(draw):
    return dict(N=draw(st.sampled_from([2, 1, 3])), rank=draw(st.sampled_from(["full", "low", "thermal", "zero"])), seed=draw(gen.seeds), hbar=draw(gen.hbars),
                amp=draw(st.sampled_from([0.8, 0.0, 1.2])), bright=draw(st.sampled_from([0.5, 0.2, 1.0])), form=draw(st.booleans()))


@sub(P, case_c, quick=70, thorough=3000, shards=2, group="a", threads=1)
def classical(case, ctx):
    """hafnian_ and torontonian_sample_classical_state follow the exact photon and click laws of states with positive P function; non-trivial: correlated modes"""
    N, hb = case["N"], case["hbar"]
    rng = np.random.default_rng(case["seed"])
    if case["rank"] == "zero":
        W = np.zeros((2 * N, 2 * N))
    elif case["rank"] == "thermal":
        W = np.diag(np.tile(rng.uniform(0, 2, N), 2))
    else:
        X = rng.normal(size=(2 * N, 2 * N if case["rank"] == "full" else 1))
        W = X @ X.T / X.shape[1]
    cov = hb / 2 * (np.eye(2 * N) + case["bright"] * W)
    mu = np.sqrt(2 * hb) * case["amp"] * rng.uniform(-1, 1, 2 * N)
    ctx.label(case["rank"], "displaced" if case["amp"] else "centred", f"N={N}", "hbar=2" if hb == 2 else "hbar!=2")
    ctx.nontrivial(case["rank"] in ("full", "low") and N > 1)
    n = 8000
    kw = {} if hb == 2 else {"hbar": hb}
    if case["amp"] or case["form"]:
        kw["mean"] = mu
    cut = {1: 20, 2: 12, 3: 6}[N]
    p = oracle.fock_probs(mu, cov, cut, hb)
    t = {i: max(0.0, float(p[i])) for i in np.ndindex(p.shape)}
    np.random.seed(case["seed"] % 2**32)
    smp = sm.hafnian_sample_classical_state(cov, n, **kw)
    ctx.require(np.shape(smp) == (n, N), lambda: f"shape {np.shape(smp)}")
    stats.compare_all(ctx, smp, t, "hafnian_sample_classical_state")
    D = oracle.click_distribution(mu, cov, hb)
    smp = sm.torontonian_sample_classical_state(cov, n, **kw)
    ctx.require(np.shape(smp) == (n, N), lambda: f"shape {np.shape(smp)}")
    stats.compare_all(ctx, smp, {i: float(D[i]) for i in np.ndindex(D.shape)}, "torontonian_sample_classical_state")
    S = oracle.passive(gen.haar(N, rng)) @ np.diag(np.exp(np.repeat([-0.3, 0.3], N)))
    for f in (sm.hafnian_sample_classical_state, sm.torontonian_sample_classical_state):
        ctx.require(isinstance(raises(f, hb / 2 * S @ S.T, 2, hbar=hb), ValueError), f"{f.__name__} accepts a squeezed state")
        ctx.require(isinstance(raises(f, cov, 2, mean=mu[:-1], hbar=hb), ValueError), f"{f.__name__} accepts a short vector of means")


@st.composite
def case_r(draw):
    return dict(n=draw(st.sampled_from([2, 1, 3, 5])), seed=draw(gen.seeds), mean=draw(st.sampled_from([0.7, 0.2, 2.0])), kind=draw(st.sampled_from(["real", "complex", "complex", "signed", "zeros", "int"])))


@sub(P, case_r, quick=70, thorough=2000, shards=2, group="a", threads=1)
def rank_one(case, ctx):
    """hafnian_sample_graph_rank_one distributes a squeezed-vacuum photon number multinomially with weights |G|^2; non-trivial: several vertices"""
    n, rng = case["n"], np.random.default_rng(case["seed"])
    k = case["kind"]
    G = rng.random(n) + 0.05
    if k == "complex":
        G = G * np.exp(2j * np.pi * rng.random(n))
    elif k == "signed":
        G = G * rng.choice([-1, 1], n)
    elif k == "zeros" and n > 1:
        G[rng.integers(0, n)] = 0
    elif k == "int":
        G = rng.integers(1, 4, n)
    ctx.nontrivial(n > 1)
    ctx.label(k, f"n={n}", f"mean={case['mean']}")
    num = 15000
    np.random.seed(case["seed"] % 2**32)
    smp = sm.hafnian_sample_graph_rank_one(G, case["mean"], samples=num)
    ctx.require(np.shape(smp) == (num, n) and np.all(smp == np.round(smp)), lambda: f"shape {np.shape(smp)} or fractional samples")
    w = np.abs(G) ** 2 / np.sum(np.abs(G) ** 2)
    m = case["mean"]
    th2 = m / (1 + m)
    top = {1: 60, 2: 12, 3: 8, 5: 4}[n]
    t = {}
    for i in itertools.product(range(top + 1), repeat=n):
        N = sum(i)
        if N <= top:
            p = 0.0 if N % 2 else math.comb(N, N // 2) * (th2 / 4) ** (N // 2) / math.sqrt(1 + m)
            t[i] = p * math.factorial(N) * math.prod(x**k / math.factorial(k) for x, k in zip(w, i))
    stats.compare_all(ctx, smp, t, "hafnian_sample_graph_rank_one")
    tot = {N: (0.0 if N % 2 else math.comb(N, N // 2) * (th2 / 4) ** (N // 2) / math.sqrt(1 + m)) for N in range(200)}
    stats.compare(ctx, [int(sum(s)) for s in smp], tot, "hafnian_sample_graph_rank_one, total")
    # given the totals, every single photon goes to a vertex independently
    c = np.array([sum(int(s[j]) for s in smp) for j in range(n)], float)
    keep = w * c.sum() >= 8
    if n > 1 and c.sum() > 200 and keep.sum() > 1:
        cc, ww = np.append(c[keep], c[~keep].sum()), np.append(w[keep], w[~keep].sum())
        bound = oracle.gof_log10(cc, ww / ww.sum())
        ctx.require(bound > stats.LIMIT, lambda: f"hafnian_sample_graph_rank_one: the photons go to the vertices with frequencies {c / c.sum()} instead of {w} (false-alarm probability 1e{bound:.0f})")


@st.composite
def case_p(draw):
    return dict(n=draw(st.sampled_from([2, 1, 3])), seed=draw(gen.seeds), mean=draw(st.sampled_from([0.8, 0.3, 1.5])), via=draw(st.booleans()), zero=draw(st.booleans()))


@sub(P, case_p, quick=50, thorough=2000, shards=2, group="a", threads=1)
def thermal_points(case, ctx):
    """generate_thermal_samples follows the photon law of thermal states behind the orthogonal interferometer; non-trivial: several modes"""
    n, rng = case["n"], np.random.default_rng(case["seed"])
    O = gen.haar(n, rng, real=True)
    nb = case["mean"] * rng.random(n)
    if case["zero"] and n > 1:
        nb[0] = 0.0
    ls = nb / (1 + nb)
    if case["via"]:
        K = O @ np.diag(rng.uniform(0.2, 1, n)) @ O.T
        ls, O = csamples.rescale_adjacency_matrix_thermal((K + K.T) / 2, case["mean"])
        nb = ls / (1 - ls)
    ctx.nontrivial(n > 1)
    ctx.label("rescaled kernel" if case["via"] else "explicit", f"n={n}")
    num = 4000
    np.random.seed(case["seed"] % 2**32)
    smp = csamples.generate_thermal_samples(ls, O, num_samples=num)
    ctx.require(len(smp) == num and np.shape(smp) == (num, n), lambda: f"shape {np.shape(smp)}")
    M = O @ np.diag(nb) @ O.T
    cov = np.kron(np.eye(2), 2 * M + np.eye(n))
    p = oracle.fock_probs(np.zeros(2 * n), cov, {1: 24, 2: 12, 3: 6}[n], 2)
    stats.compare_all(ctx, smp, {i: max(0.0, float(p[i])) for i in np.ndindex(p.shape)}, "generate_thermal_samples")


@st.composite
def case_d(draw):
    return dict(n=draw(st.sampled_from([2, 3, 1, 4])), seed=draw(gen.seeds), kind=draw(st.sampled_from(["lossy", "unitary", "real", "zero-column", "id"])),
                r=draw(st.sampled_from([0.7, 0.4, 1.0])), equal=draw(st.booleans()))


def mat_d(case):
    n, rng = case["n"], np.random.default_rng(case["seed"])
    U = gen.haar(n, rng)
    k = case["kind"]
    if k == "lossy":
        T = U @ np.diag(rng.uniform(0.3, 1, n)) @ gen.haar(n, rng)
    elif k == "real":
        T = gen.haar(n, rng, real=True)
    elif k == "zero-column":
        T = U.copy()
        T[:, 0] = 0
    elif k == "id":
        T = np.eye(n)
    else:
        T = U
    rs = np.full(n, case["r"]) if case["equal"] else case["r"] * rng.uniform(-1, 1, n)
    return T, rs


def squeezed(r, top):
    t2 = math.tanh(r) ** 2
    return [0.0 if m % 2 else math.comb(m, m // 2) * (t2 / 4) ** (m // 2) / math.cosh(r) for m in range(top)]


@sub(P, case_d, quick=40, thorough=1500, shards=2, group="a", threads=1)
def distinguishable(case, ctx):
    """distinguishable-squeezer samples follow the convolution of independent squeezers, each photon routed with |T|^2; non-trivial: a mixing network"""
    T, rs = mat_d(case)
    n = case["n"]
    ctx.nontrivial(n > 1 and case["kind"] != "id")
    ctx.label(case["kind"], f"n={n}")
    num = 3000
    np.random.seed(case["seed"] % 2**32)
    with np.errstate(all="ignore"):
        smp = ds.sample(T, rs, n_samples=num)
    ctx.require(np.shape(smp) == (num, n) and smp.dtype.kind in "iu", lambda: f"shape {np.shape(smp)}, type {smp.dtype}")
    q = np.abs(T) ** 2
    top = {1: 30, 2: 9, 3: 6, 4: 4}[n]
    idx = [i for i in itertools.product(range(top + 1), repeat=n) if sum(i) <= top]
    law = {(0,) * n: 1.0}
    for k in range(n):
        lost = max(0.0, 1 - q[:, k].sum())
        pn = squeezed(rs[k], 60)
        one = {}
        for i in idx:
            N = sum(i)
            # multinomial coefficient of m photons: i detected, m - N lost
            w = math.prod(float(q[a, k]) ** i[a] / math.factorial(i[a]) for a in range(n))
            one[i] = w * sum(pn[m] * math.factorial(m) / math.factorial(m - N) * lost ** (m - N) for m in range(N, 60))
        new = {}
        for i, a in law.items():
            for j, b in one.items():
                s = tuple(x + y for x, y in zip(i, j))
                if sum(s) <= top and b:
                    new[s] = new.get(s, 0.0) + a * b
        law = new
    stats.compare_all(ctx, smp, law, "distinguishable_squeezers.sample")


@sub(P, case_d, quick=800, thorough=20000, group="b", threads=1)
def distinguishable_moments(case, ctx):
    """number_means and number_cov are the exact means and covariances of distinguishable squeezers; non-trivial: a mixing network"""
    T, rs = mat_d(case)
    n = case["n"]
    ctx.nontrivial(n > 1 and case["kind"] != "id")
    ctx.label(case["kind"], f"n={n}")
    q = np.abs(T) ** 2
    m = np.array([sum(q[i, k] * math.sinh(rs[k]) ** 2 for k in range(n)) for i in range(n)])
    C = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            for k in range(n):
                nk = math.sinh(rs[k]) ** 2
                C[i, j] += q[i, k] * q[j, k] * (2 * nk * (nk + 1) - nk)  # factorial cumulant of a squeezed vacuum
        C[i, i] += m[i]
    ctx.close(ds.number_means(T, rs), m, "number_means", 1e-10, 1e-12)
    ctx.close(ds.number_cov(T, rs), C, "number_cov", 1e-10, 1e-12)


@numba.njit
def nb_seed(s):
    np.random.seed(s)


@st.composite
def case_h(draw):
    return dict(n=draw(st.sampled_from([6, 4, 2, 8, 6, 5])), seed=draw(gen.seeds), kind=draw(st.sampled_from(["weighted", "graph", "int", "sparse"])), diag=draw(st.sampled_from([0.0, 0.0, 0.5])), via=draw(st.booleans()))


def barvinok(A, rng, k):
    n = len(A)
    G = rng.normal(size=(k, n, n)) * np.sqrt(A)
    G = np.triu(G, 1)
    D = rng.normal(size=(k, n)) * np.sqrt(np.diag(A))
    M = G - np.transpose(G, (0, 2, 1))
    M[:, range(n), range(n)] = D
    return np.linalg.det(M)


@sub(P, case_h, quick=40, thorough=1500, group="b", threads=1)
def estimator(case, ctx):
    """the Monte Carlo hafnian estimator averages to the hafnian; non-trivial: size at least six with a non-zero hafnian"""
    n, rng = case["n"], np.random.default_rng(case["seed"])
    k = case["kind"]
    A = rng.random((n, n)) if k == "weighted" else (rng.random((n, n)) < 0.8).astype(float) if k == "graph" else rng.integers(0, 4, (n, n)) if k == "int" else rng.random((n, n)) * (rng.random((n, n)) < 0.7)
    A = np.triu(A, 1)
    A = A + A.T
    if case["diag"]:
        A = A + np.diag(rng.integers(0, 2, n)).astype(A.dtype)
    want = float(np.real(oracle.haf(A))) if n % 2 == 0 else 0.0
    num = 60000
    ref = barvinok(A.astype(float), rng, 60000)
    sd = ref.std() / math.sqrt(num)
    ctx.nontrivial(n >= 6 and want > 0)
    ctx.label(k, f"n={n}", "through hafnian" if case["via"] else "direct")
    nb_seed(case["seed"] % 2**32)
    if case["via"]:
        got = hafnian(A, approx=True, num_samples=num)
    else:
        got = hafnian_approx(A, num_samples=num)
    ctx.require(np.isfinite(got) and abs(got - want) <= 9 * sd + 1e-9 * max(1, want), lambda: f"estimate {got} of the hafnian {want} from {num} samples, standard error {sd:.3g}")
    nb_seed(case["seed"] % 2**32)
    again = hafnian(A, approx=True, num_samples=num) if case["via"] else hafnian_approx(A, num_samples=num)
    ctx.require(again == got, "the estimate depends on more than the seed and the matrix")
