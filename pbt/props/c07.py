"""C07: Fock-state detection probabilities follow the bosonic scattering law."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import brs, ubrs
from thewalrus._permanent import fock_prob, fock_threshold_prob
from pbt import gen, oracle
from pbt.core import sub

P = "C07"
SEQ = {"list": list, "tuple": tuple, "array": np.array}


@st.composite
def fock(draw, n, tot):
    out, left = [], tot
    for _ in range(n):
        k = min(left, draw(st.sampled_from([0, 1, 1, 2, 3])))
        left -= k
        out.append(k)
    return list(draw(st.permutations(out)))


@st.composite
def net(draw, max_in=4):
    """M_out x M_in network: rows of a unitary, or lossy."""
    n = draw(st.sampled_from(list(range(1, max_in + 1))))
    m = draw(st.integers(1, n)) if draw(st.booleans()) else n
    return dict(n=n, m=m, uk=draw(st.sampled_from(gen.UKINDS)), seed=draw(gen.seeds),
                lossy=draw(st.sampled_from([False, False, True])), eta=draw(st.sampled_from(["random", "weak", 0.5, 0.0, 1.0, "weak"])))


def mat_net(d):
    U = gen.unitary(d["n"], d["uk"], d["seed"])
    if d["lossy"]:
        rng = np.random.default_rng(d["seed"] + 1)
        if d["eta"] == "weak":  # losses of similar size in all modes, from 1e-2 down to 1e-6
            eta = 1 - 10.0 ** -(rng.uniform(2, 5) + rng.uniform(0, 1, d["n"]))
        else:
            eta = rng.uniform(0, 1, d["n"]) if d["eta"] == "random" else np.full(d["n"], d["eta"])
        U = gen.haar(d["n"], rng) @ np.diag(np.sqrt(eta)) @ U
    return np.ascontiguousarray(U[: d["m"], :])


def dilate(T):
    """A unitary whose first rows and columns are T."""
    m, n = T.shape
    W, s, Vh = np.linalg.svd(T)
    s = np.clip(np.concatenate([s, np.zeros(max(0, n - len(s)))])[: n], 0, 1)
    E = Vh.conj().T @ np.diag(np.sqrt(1 - s**2)) @ Vh  # E^dag E = 1 - T^dag T
    return np.vstack([T, E])  # an isometry n -> m+n


def outcomes(modes, total):
    if modes == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in outcomes(modes - 1, total - k):
            yield (k,) + r


def fock_law(n, m, U):
    """|perm(U[m|n])|^2 / (prod n! prod m!)"""
    rows = [i for i, k in enumerate(m) for _ in range(k)]
    cols = [i for i, k in enumerate(n) for _ in range(k)]
    v = oracle.perm(np.asarray(U)[np.ix_(rows, cols)]) if rows else 1.0
    return abs(v) ** 2 / (math.prod(map(math.factorial, n)) * math.prod(map(math.factorial, m)))


@st.composite
def case_fock(draw):
    d = draw(net())
    d = dict(d, m=d["n"])
    return dict(net=d, n=draw(fock(d["n"], 5)), m=draw(fock(d["n"], 5)), seq=draw(st.sampled_from(sorted(SEQ))))


@sub(P, case_fock, quick=250, thorough=5000, group="a")
def counting(case, ctx):
    """fock_prob against the squared-permanent law for all outputs; unitary networks sum to one. Non-trivial: >= 2 photons"""
    U, n = mat_net(case["net"]), case["n"]
    tot = sum(n)
    ctx.nontrivial(tot >= 2)
    ctx.label("photons=%d" % tot, "lossy" if case["net"]["lossy"] else "unitary", "bunched" if max(n) > 1 else "unbunched")
    conv = SEQ[case["seq"]]
    s = 0.0
    for m in outcomes(len(n), tot):
        w = fock_law(n, m, U)
        g = fock_prob(conv(n), conv(list(m)), U)
        ctx.close(g, w, f"fock_prob({n}, {m})", 1e-9, 1e-10)
        s += g
    if not case["net"]["lossy"]:
        ctx.close(s, 1.0, f"sum of fock_prob over outputs of {n}", 1e-9, 1e-9)
    ctx.require(s <= 1 + 1e-9, lambda: f"probabilities of {n} sum to {s}")


@st.composite
def case_thr(draw):
    d = draw(net(4))
    return dict(net=d, n=draw(fock(d["n"], 4)), seq=draw(st.sampled_from(sorted(SEQ))))


@sub(P, case_thr, quick=250, thorough=5000, group="b", shards=2)
def threshold(case, ctx):
    """fock_threshold_prob for all click patterns against the sum over outcomes of the dilated network; the patterns sum to one"""
    T, n = mat_net(case["net"]), case["n"]
    D = dilate(T)
    m, tot = len(T), sum(n)
    want = {}
    for o in outcomes(len(D), tot):
        d = tuple(int(x > 0) for x in o[:m])
        want[d] = want.get(d, 0.0) + fock_law(n, o, D)
    conv = SEQ[case["seq"]]
    ctx.nontrivial(tot >= 2)
    square = T.shape[0] == T.shape[1]
    ctx.label("photons=%d" % tot, "lossy" if case["net"]["lossy"] else ("unitary" if square else "rectangular"))
    s = 0.0
    for d in itertools.product(range(2), repeat=m):
        g = fock_threshold_prob(conv(n), conv(list(d)), T)
        ctx.close(g, want.get(d, 0.0), f"fock_threshold_prob({n}, {d}), T {T.shape}", 1e-8, 1e-9)
        s += g
    ctx.close(s, 1.0, f"sum over click patterns of {n}", 1e-8, 1e-9)


@st.composite
def case_brs(draw):
    m, n = draw(st.integers(0, 4)), draw(st.integers(1, 4))
    A = draw(gen.gen_mat(m, n, dts="fc", kinds=("dense", "explicit", "sparse"))) if m else None
    return dict(m=m, n=n, A=A, E=draw(gen.gen_mat(n, n, dts="fc", kinds=("dense", "explicit", "lowrank"))))


@sub(P, case_brs, quick=200, thorough=4000, group="a")
def bristolians(case, ctx):
    """brs(A, E), ubrs(A) against the signed sum of permanents over row subsets; brs(A, 0) = ubrs(A)"""
    A = gen.mat_gen(case["A"]) if case["m"] else np.zeros((0, case["n"]), dtype=complex)
    A = np.ascontiguousarray(A, dtype=complex)
    E = np.ascontiguousarray(gen.mat_gen(case["E"]), dtype=complex)
    m = len(A)

    def law(E):
        tot, mag = 0.0, 0.0
        for S in oracle.subsets(m):
            B = A[list(S)]
            M = B.conj().T @ B + E
            tot += (-1) ** (m - len(S)) * oracle.perm(M)
            mag += abs(oracle.perm(np.abs(M)))
        return tot, mag

    ctx.nontrivial(m >= 2 and A.shape[1] >= 2)
    ctx.label("m=%d" % m, "n=%d" % A.shape[1])
    w, mag = law(E)
    ctx.close(brs(A, E), w, "brs", 1e-9, 1e-9, mag)
    w, mag = law(0 * E)
    ctx.close(ubrs(A), w, "ubrs", 1e-9, 1e-9, mag)
    ctx.close(brs(A, 0 * E), w, "brs(A, 0)", 1e-9, 1e-9, mag)
