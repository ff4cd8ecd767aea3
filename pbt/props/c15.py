"""C15: photon-number moments, cumulants and ordered expectation values are those of the state."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus.quantum import (photon_number_mean, photon_number_mean_vector, photon_number_covar, photon_number_covmat,
                               photon_number_expectation, photon_number_squared_expectation, photon_number_moment,
                               photon_number_cumulant, s_ordered_expectation, normal_ordered_expectation)
from thewalrus.symplectic import mean_photon_number
from pbt import gen, oracle
from pbt.core import sub

P = "C15"


def moms(mu, cov, hb):
    """E[prod of n_j over a list with repetitions], memoised."""
    N = len(mu) // 2
    memo = {}

    def f(items):
        p = tuple(items.count(j) for j in range(N))
        if p not in memo:
            memo[p] = oracle.moment(mu, cov, p, hb)
        return memo[p]

    return f


@st.composite
def case1(draw):
    s = draw(gen.state(1, 5, max_r=1.2, max_nb=2.0, max_a=2.0))
    N = s["N"]
    return dict(s=s, j=draw(st.integers(0, N - 1)), k=draw(st.integers(0, N - 1)))


@sub(P, case1, quick=300, thorough=6000, group="a")
def first_two(case, ctx):
    """means, covariances and total mean/variance; non-trivial: displaced state of at least two modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N = case["s"]["N"]
    ctx.nontrivial(N > 1 and gen.is_displaced(case["s"]))
    E = moms(mu, cov, hb)
    m = np.array([E([j]) for j in range(N)])
    C = np.array([[E([j, k]) - m[j] * m[k] for k in range(N)] for j in range(N)])
    ctx.close(photon_number_mean_vector(mu, cov, hbar=hb), m, "photon_number_mean_vector", 1e-9, 1e-10)
    ctx.close([photon_number_mean(mu, cov, j, hbar=hb) for j in range(N)], m, "photon_number_mean", 1e-9, 1e-10)
    s = max(1.0, np.abs(C).max())
    ctx.close(photon_number_covmat(mu, cov, hbar=hb), C, "photon_number_covmat", 1e-8, 1e-10, scale=s)
    j, k = case["j"], case["k"]
    ctx.close(photon_number_covar(mu, cov, j, k, hbar=hb), C[j, k], f"photon_number_covar({j}, {k})", 1e-8, 1e-10, scale=s)
    ix = [j, j + N]
    tot, var = mean_photon_number(mu[ix], cov[np.ix_(ix, ix)], hbar=hb)
    ctx.close(tot, m[j], "one-mode mean_photon_number", 1e-9, 1e-10)
    ctx.close(var, C[j, j], "one-mode variance from mean_photon_number", 1e-8, 1e-10, scale=s)


@st.composite
def case2(draw):
    s = draw(gen.state(1, 5, max_r=1.0, max_nb=1.2, max_a=1.2))
    N = s["N"]
    k = draw(st.sampled_from([min(3, N), min(2, N), 1, min(4, N)]))
    return dict(s=s, modes=draw(st.permutations(list(range(N))))[:k], form=draw(st.sampled_from(["list", "tuple", "array"])))


def give(modes, form):
    return {"list": list, "tuple": tuple, "array": np.array}[form](modes)


@sub(P, case2, quick=200, thorough=4000, group="b")
def products(case, ctx):
    """expectation of products of n and of n^2 over distinct modes in any order; non-trivial: unsorted or non-adjacent modes"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    md = case["modes"]
    ctx.nontrivial(len(md) >= 2)
    ctx.label("k=%d" % len(md))
    E = moms(mu, cov, hb)
    w = E(md)
    ctx.close(photon_number_expectation(mu, cov, give(md, case["form"]), hbar=hb), w, f"E[prod n] over {md}", 1e-7, 1e-9, scale=1)
    if len(md) <= 3:
        w = E(md + md)
        ctx.close(photon_number_squared_expectation(mu, cov, list(md), hbar=hb), w, f"E[prod n^2] over {md}", 1e-7, 1e-9, scale=1)


@st.composite
def case3(draw):
    s = draw(gen.state(1, 4, max_r=0.9, max_nb=1.0, max_a=1.0))
    N = s["N"]
    k = draw(st.sampled_from([min(2, N), min(3, N), 1, N]))
    modes = draw(st.permutations(list(range(N))))[:k]
    tot = 6 if k <= 2 else 5
    pw = []
    for _ in modes:
        p = draw(st.sampled_from([x for x in [2, 1, 3, 4, 0, 5] if x <= tot]))
        tot -= p
        pw.append(p)
    return dict(s=s, modes=modes, pw=pw)


@sub(P, case3, quick=200, thorough=4000, group="b")
def moments(case, ctx):
    """photon_number_moment of arbitrary mixed powers; non-trivial: at least two modes or a power above two"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, md, pw = case["s"]["N"], case["modes"], case["pw"]
    ctx.nontrivial(sum(1 for p in pw if p) >= 2 or max(pw) > 2)
    ctx.label("order=%d" % sum(pw), "zero power" if 0 in pw else "positive powers")
    full = [0] * N
    for m, p in zip(md, pw):
        full[m] = p
    want = oracle.moment(mu, cov, tuple(full), hb)
    got = photon_number_moment(mu, cov, dict(zip(md, pw)), hbar=hb)
    ctx.close(got, want, f"photon_number_moment({dict(zip(md, pw))})", 1e-7, 1e-9, scale=1)


@st.composite
def case4(draw):
    s = draw(gen.state(1, 4, max_r=0.7, max_nb=0.7, max_a=0.8))
    N = s["N"]
    size = draw(st.sampled_from([3, 4, 2, 1]))
    return dict(s=s, modes=draw(st.lists(st.integers(0, N - 1), min_size=size, max_size=size)), form=draw(st.sampled_from(["list", "array"])))


@sub(P, case4, quick=150, thorough=3000, group="c")
def cumulants(case, ctx):
    """photon_number_cumulant of a multiset of modes is the joint cumulant; non-trivial: third order or higher"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    md = case["modes"]
    ctx.nontrivial(len(md) >= 3)
    ctx.label("order=%d" % len(md), "repeated" if len(set(md)) < len(md) else "distinct")
    E = moms(mu, cov, hb)
    want = oracle.cumulant(E, md)
    scale = max(1.0, E(md))
    ctx.close(photon_number_cumulant(mu, cov, give(md, case["form"]), hbar=hb), want, f"photon_number_cumulant({md})", 1e-7, 1e-9, scale=scale)


@st.composite
def case5(draw):
    s = draw(gen.state(1, 4, max_r=0.9, max_nb=1.0, max_a=1.0))
    N = s["N"]
    rpt = draw(st.lists(st.sampled_from([1, 0, 2, 0, 3] if N <= 2 else [1, 0, 0, 2]), min_size=2 * N, max_size=2 * N))
    while sum(rpt) > 9:
        rpt[rpt.index(max(rpt))] -= 1
    return dict(s=s, rpt=rpt, sp=draw(st.sampled_from([1, 0, -1, 0.5, -0.3])), form=draw(st.sampled_from(["list", "tuple", "array"])))


@sub(P, case5, quick=300, thorough=6000, group="c")
def ordered(case, ctx):
    """s-ordered expectation of prod a^dag^n a^m for unequal powers; non-trivial: total order above two"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, rpt, s = case["s"]["N"], case["rpt"], case["sp"]
    R = np.block([[np.eye(N), -1j * np.eye(N)], [np.eye(N), 1j * np.eye(N)]]) / np.sqrt(2 * hb)  # (a^dag, a)
    S = R @ (cov - s * hb / 2 * np.eye(2 * N)) @ R.T
    want = oracle.rep_haf(S, rpt, R @ mu)
    ctx.nontrivial(sum(rpt) > 2 and rpt[:N] != rpt[N:])
    ctx.label("s=%g" % s, "order=%d" % sum(rpt), "complex" if abs(complex(want).imag) > 1e-6 else "real")
    scale = max(1.0, oracle.haf_scale(S, rpt, R @ mu, True))
    got = s_ordered_expectation(mu, cov, give(rpt, case["form"]), hbar=hb, s=s)
    ctx.close(got, want, f"s_ordered_expectation({rpt}, s={s})", 1e-9, 1e-10, scale=scale)
    if s == 1:
        ctx.close(normal_ordered_expectation(mu, cov, give(rpt, case["form"]), hbar=hb), want, f"normal_ordered_expectation({rpt})", 1e-9, 1e-10, scale=scale)


@st.composite
def case6(draw):
    s = draw(gen.state(1, 2, max_r=0.35, max_nb=0.2, max_a=0.4))
    N = s["N"]
    return dict(s=s, rpt=draw(st.lists(st.sampled_from([1, 0, 2]), min_size=2 * N, max_size=2 * N)), sp=draw(st.sampled_from([1, -1, 0])))


@sub(P, case6, quick=150, thorough=3000, group="c")
def operators(case, ctx):
    """ordered expectations and moments against traces with ladder operators on the exact density matrix; non-trivial: unequal powers"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N, rpt, s = case["s"]["N"], case["rpt"], case["sp"]
    cut = {1: 26, 2: 13}[N]
    rho = oracle.fock_rho(mu, cov, cut, hb).reshape(cut**N, cut**N)
    tail = 1 - np.trace(rho).real
    big = cut + 8
    a = oracle.ladder(big)
    ad = a.conj().T
    op = np.eye(1)
    for k in range(N):
        n, m = rpt[k], rpt[N + k]
        if s == 1:
            o = np.linalg.matrix_power(ad, n) @ np.linalg.matrix_power(a, m)
        elif s == -1:
            o = np.linalg.matrix_power(a, m) @ np.linalg.matrix_power(ad, n)
        else:  # symmetric: average over all orderings
            o, cnt = 0, 0
            for pos in itertools.combinations(range(n + m), n):
                w = np.eye(big)
                for i in range(n + m):
                    w = w @ (ad if i in pos else a)
                o, cnt = o + w, cnt + 1
            o = o / cnt
        op = np.kron(op, o[:cut, :cut])
    want = np.trace(rho @ op)
    ctx.nontrivial(rpt[:N] != rpt[N:])
    ctx.label("s=%g" % s, "order=%d" % sum(rpt), f"tail<{10**math.ceil(math.log10(max(tail, 1e-12))):.0e}")
    if tail > 1e-9:
        ctx.nontrivial(False)
        return
    tol = 1e-7 + 1e3 * cut ** 3 * max(tail, 0) + 1e-7 * abs(want)
    ctx.close(s_ordered_expectation(mu, cov, rpt, hbar=hb, s=s), want, f"<{rpt}> at s={s}", 0, tol)


@sub(P, lambda: gen.extreme(1, 3, faint=(1e-1, 1e-2, 1e-3)), quick=150, thorough=3000, group="a")
def extremes(case, ctx):
    """means, covariances and low moments of strong states and of nearly vacuum states; non-trivial: at least two modes"""
    mu, cov, hb = gen.mat_state(case)
    gen.label_state(ctx, case)
    N, strong = case["N"], case["ex"] == "strong"
    ctx.label(str(case["ex"]))
    ctx.nontrivial(N > 1)
    E = moms(mu, cov, hb)
    m = np.array([E([j]) for j in range(N)])
    C = np.array([[E([j, k]) - m[j] * m[k] for k in range(N)] for j in range(N)])
    at = 1e-9 if strong else 1e-14
    ah = 1e-9 if strong else 2e-8  # hafnian() rounds matrices with off-diagonal entries below its atol = 1e-8 to diagonal ones
    ctx.close(photon_number_mean_vector(mu, cov, hbar=hb), m, "photon_number_mean_vector", 1e-9, at)
    sc = max(np.abs(C).max(), m.max() ** 2)
    ctx.close(photon_number_covmat(mu, cov, hbar=hb), C, "photon_number_covmat", 1e-9, at, scale=sc)
    md = list(range(N))
    w = E(md)
    ctx.close(photon_number_expectation(mu, cov, md, hbar=hb), w, f"E[prod n] over {md}", 1e-8, ah, scale=np.prod(m) if strong else None)
    pw = {0: 3} if N == 1 else {0: 2, N - 1: 1}
    full = tuple(pw.get(j, 0) for j in range(N))
    w = oracle.moment(mu, cov, full, hb)
    ctx.close(photon_number_moment(mu, cov, pw, hbar=hb), w, f"photon_number_moment({pw})", 1e-8, ah)
    cm = [0, N - 1]
    ctx.close(photon_number_cumulant(mu, cov, cm, hbar=hb), C[0, N - 1], f"photon_number_cumulant({cm})", 1e-8, ah, scale=sc)
    rp = [1] + [0] * (N - 1) + [0] * (N - 1) + [1]
    R = np.block([[np.eye(N), -1j * np.eye(N)], [np.eye(N), 1j * np.eye(N)]]) / np.sqrt(2 * hb)
    S = R @ (cov - hb / 2 * np.eye(2 * N)) @ R.T
    ctx.close(normal_ordered_expectation(mu, cov, rp, hbar=hb), oracle.rep_haf(S, rp, R @ mu), f"normal_ordered_expectation({rp})", 1e-9, ah,
              scale=oracle.haf_scale(S, rp, R @ mu, True))


@st.composite
def case_high(draw):
    s = draw(gen.state(1, 2, max_r=0.9, max_nb=1.0, max_a=1.0))
    pw = [draw(st.sampled_from([6, 7, 8, 9]))] if s["N"] == 1 else list(draw(st.sampled_from([(6, 0), (0, 7), (6, 1), (1, 7), (4, 4), (3, 5)])))
    return dict(s=s, pw=pw)


@sub(P, case_high, quick=40, thorough=1500, group="d")
def high_moments(case, ctx):
    """photon_number_moment of total order six to nine; non-trivial: every case"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    pw = case["pw"]
    ctx.nontrivial(True)
    ctx.label("powers=" + ",".join(map(str, pw)))
    want = oracle.moment(mu, cov, tuple(pw), hb)
    got = photon_number_moment(mu, cov, {j: p for j, p in enumerate(pw)}, hbar=hb)
    ctx.close(got, want, f"photon_number_moment of powers {pw}", 1e-7, 1e-7)


@st.composite
def case_high_order(draw):
    s = draw(gen.state(1, 4, max_r=0.6, max_nb=0.6, max_a=1.0))
    N = s["N"]
    size = draw(st.sampled_from([5, 6, 5]))
    some = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=3, unique=True)) if size == 6 else list(range(N))
    return dict(s=s, modes=draw(st.lists(st.sampled_from(some), min_size=size, max_size=size)), form=draw(st.sampled_from(["list", "array"])))


@sub(P, case_high_order, quick=60, thorough=1200, group="c")
def high_order(case, ctx):
    """photon_number_cumulant of orders five and six; non-trivial: at least two different modes or a displaced one"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    md = case["modes"]
    ctx.nontrivial(len(set(md)) >= 2 or bool(np.abs(mu).max() > 0))
    ctx.label("order=%d" % len(md), "modes=%d" % len(set(md)))
    E = moms(mu, cov, hb)
    want = oracle.cumulant(E, md)
    ctx.close(photon_number_cumulant(mu, cov, give(md, case["form"]), hbar=hb), want, f"photon_number_cumulant({md})", 1e-7, 1e-9, scale=max(1.0, E(md)))
