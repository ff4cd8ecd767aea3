"""C06: permanents equal the sum over permutations."""
import numpy as np
from hypothesis import strategies as st

from thewalrus import perm, permanent_repeated
from thewalrus._permanent import perm_ryser, perm_bbfg
from pbt import gen, oracle
from pbt.core import sub

P = "C06"
TOL = 1e-9
KINDS = ("dense", "explicit", "explicit", "sparse", "lowrank", "const", "special", "special")


def scale(M):
    M = np.abs(np.asarray(M)).astype(float)
    if not M.size:
        return 1.0
    return float(min(np.prod(M.sum(0) + 1e-300), np.prod(M.sum(1) + 1e-300)) + abs(oracle.perm(M + M.mean())))


@st.composite
def case(draw, lo=0, hi=8):
    n = draw(st.integers(lo, hi))
    return dict(A=draw(gen.gen_mat(n, n, kinds=KINDS if n else ("dense",))), method=draw(st.sampled_from(["ryser", "bbfg", "default"])))


@sub(P, case, quick=700, thorough=15000, group="a")
def permanents(case, ctx):
    """perm(A, method) against the subset recursion; non-trivial: n >= 4"""
    A = gen.mat_gen(case["A"])
    kw = {} if case["method"] == "default" else dict(method=case["method"])
    want = oracle.perm(A)
    got = perm(A, **kw)
    ctx.nontrivial(len(A) >= 4)
    ctx.label("n=%d" % len(A), case["method"], case["A"]["dt"], "zero" if want == 0 else "nonzero")
    ctx.close(got, want, f"perm(n={len(A)}, {case['method']})", TOL, 1e-9, scale(A))


@sub(P, lambda: case(9, 11), quick=60, thorough=800, group="a")
def larger(case, ctx):
    """as permanents, sizes 9-11"""
    permanents(case, ctx)


@sub(P, lambda: case(1, 7), quick=250, thorough=5000, group="b")
def kernels(case, ctx):
    """the two Gray-code kernels directly, for every size from one"""
    A = gen.mat_gen(case["A"])
    want = oracle.perm(A)
    ctx.nontrivial(len(A) >= 2)
    ctx.label("n=%d" % len(A), case["A"]["dt"])
    ctx.close(perm_ryser(A), want, "perm_ryser", TOL, 1e-9, scale(A))
    ctx.close(perm_bbfg(A), want, "perm_bbfg", TOL, 1e-9, scale(A))


@st.composite
def case_inv(draw):
    c = draw(case(2, 8))
    n = c["A"]["r"]
    return dict(c, p=draw(st.permutations(list(range(n)))), q=draw(st.permutations(list(range(n)))))


@sub(P, case_inv, quick=200, thorough=4000, group="b")
def invariance(case, ctx):
    """row/column permutation and transposition leave the permanent unchanged, for both methods"""
    A = np.array(gen.mat_gen(case["A"]), dtype=complex)
    p, q = case["p"], case["q"]
    ctx.nontrivial(len(A) >= 4 and (p != sorted(p) or q != sorted(q)))
    ref = perm(A, method="ryser")
    for B, what in ((A[p], "row permutation"), (A[:, q], "column permutation"), (A[np.ix_(p, q)].T, "transposition")):
        for m in ("bbfg", "ryser"):
            ctx.close(perm(B, method=m), ref, what + " " + m, TOL, 1e-9, scale(A))


SEQ = {"list": list, "tuple": tuple, "array": np.array}


@st.composite
def case_rep(draw):
    n = draw(st.integers(1, 4))
    tot, r = 6, []
    for _ in range(n):
        k = min(tot, draw(st.sampled_from([0, 1, 1, 2, 3])))
        tot -= k
        r.append(k)
    return dict(A=draw(gen.gen_mat(n, n, kinds=KINDS)), reps=list(draw(st.permutations(r))), seq=draw(st.sampled_from(sorted(SEQ))))


@sub(P, case_rep, quick=350, thorough=7000, group="c")
def repeated(case, ctx):
    """permanent_repeated(A, rpt) against the permanent of the expanded matrix"""
    A, r = gen.mat_gen(case["A"]), case["reps"]
    ix = np.repeat(np.arange(len(A)), r)
    B = np.asarray(A)[np.ix_(ix, ix)]
    want = oracle.perm(B)
    ctx.nontrivial(sum(r) >= 2 and max(r) >= 2)
    ctx.label("total=%d" % sum(r), case["seq"], "zero-rep" if 0 in r else "all-pos")
    m = len(A)
    big = np.block([[np.zeros((m, m)), np.asarray(A)], [np.asarray(A).T, np.zeros((m, m))]])
    ctx.close(permanent_repeated(A, SEQ[case["seq"]](r)), want, f"permanent_repeated({r})", 1e-8, 1e-8, oracle.haf_scale(big, r + r))


@st.composite
def case_scaled(draw):
    return dict(A=draw(gen.gen_mat(*[draw(st.integers(1, 8))] * 2, kinds=("dense", "dense", "sparse", "lowrank"))), method=draw(st.sampled_from(["ryser", "bbfg", "default"])),
                k=draw(st.sampled_from([-30, -20, -40, 10, 25, 40, -12])))


@sub(P, case_scaled, quick=300, thorough=6000, group="b")
def homogeneous(case, ctx):
    """matrices with very small or very large entries: perm(s A) = s^n perm(A), to full relative accuracy; non-trivial: n >= 2 and a non-zero permanent"""
    A = np.array(gen.mat_gen(case["A"]))
    A = A if A.dtype.kind == "c" else A.astype(float)
    n, s = len(A), 2.0 ** case["k"]
    kw = {} if case["method"] == "default" else dict(method=case["method"])
    want = oracle.perm(A)
    ctx.nontrivial(n >= 2 and want != 0)
    ctx.label("n=%d" % n, case["method"], "small" if s < 1 else "large")
    ctx.close(perm(s * A, **kw) / s**n, want, f"perm of {s:.0e} times a matrix, n={n}, {case['method']}", TOL, 1e-9, scale(A))
