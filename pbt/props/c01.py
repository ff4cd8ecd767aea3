"""C01: every hafnian algorithm equals the sum over (loop) perfect matchings."""
import numpy as np
from hypothesis import strategies as st

from thewalrus import hafnian, hafnian_sparse, hafnian_banded, low_rank_hafnian
from thewalrus._hafnian import loop_hafnian
from thewalrus.reference import hafnian as haf_reference
from pbt import gen, oracle
from pbt.core import sub

P = "C01"
TOL = 1e-8


@st.composite
def case_methods(draw, max_n=10):
    A = draw(gen.sym(0, max_n))
    return dict(A=A, loop=draw(st.booleans()), method=draw(st.sampled_from(["glynn", "inclexcl", "recursive", "default"])))


def nontriv(ctx, A, want):
    ctx.nontrivial(A.shape[0] >= 4 and np.count_nonzero(A) > A.shape[0])
    ctx.label("n=%d" % len(A), "zero" if want == 0 else "nonzero")


def scale_of(A, loop):
    return oracle.haf_scale(A, loop=loop)


@sub(P, case_methods, quick=700, thorough=12000, group="a")
def methods(case, ctx):
    """hafnian(A, loop, method) against the matching sum; non-trivial: n >= 4 with off-diagonal entries"""
    A = gen.mat_sym(case["A"])
    loop, m = case["loop"], case["method"]
    want = oracle.haf(A, loop)
    kw = {} if m == "default" else dict(method=m)
    got = hafnian(A, loop=loop, **kw)
    nontriv(ctx, A, want)
    ctx.label(m, "loop" if loop else "haf", case["A"]["kind"], case["A"]["dt"])
    ctx.close(got, want, f"hafnian(n={len(A)}, loop={loop}, {m})", TOL, 1e-7, scale_of(A, loop))


@st.composite
def case_big(draw):
    n = draw(st.sampled_from([11, 12, 13, 14]))
    A = draw(gen.sym(n, n, kinds=["dense", "sparse", "block", "offdiag", "graph", "lowrank"]))
    return dict(A=A, loop=draw(st.booleans()), method=draw(st.sampled_from(["glynn", "inclexcl", "recursive"])))


@sub(P, case_big, quick=40, thorough=800, group="big", threads=4)
def larger(case, ctx):
    """as methods, sizes 11-14"""
    methods(case, ctx)


@st.composite
def case_direct(draw):
    A = draw(gen.sym(1, 8))
    return dict(A=A, glynn=draw(st.booleans()), D=draw(st.one_of(st.none(), gen.vec(A["n"], dts="fci"))))


@sub(P, case_direct, quick=300, thorough=6000, group="c")
def loop_direct(case, ctx):
    """loop_hafnian(A, D, glynn) against the matching sum with loops D (default: the diagonal)"""
    A = gen.mat_sym(case["A"])
    D = None if case["D"] is None else gen.mat_vec(case["D"])
    mu = np.diag(A) if D is None else D
    want = oracle.rep_haf(A, [1] * len(A), mu)
    got = loop_hafnian(A, D=D, glynn=case["glynn"])
    nontriv(ctx, A, want)
    ctx.label("D" if D is not None else "diag", "odd" if len(A) % 2 else "even")
    ctx.close(got, want, "loop_hafnian", TOL, 1e-7, oracle.haf_scale(A, None, mu, True))


@st.composite
def case_sparse(draw):
    A = draw(gen.sym(1, 8))
    D = draw(st.one_of(st.none(), st.lists(st.integers(0, A["n"] - 1), unique=True)))
    return dict(A=A, loop=draw(st.booleans()), D=D, as_=draw(st.sampled_from(["set", "list", "frozenset"])))


@sub(P, case_sparse, quick=400, thorough=8000, group="d")
def sparse(case, ctx):
    """hafnian_sparse on the whole matrix or a subset of indices"""
    A = gen.mat_sym(case["A"])
    D = case["D"]
    idx = list(range(len(A))) if D is None else sorted(D)
    want = oracle.haf(A[np.ix_(idx, idx)], case["loop"])
    arg = None if D is None else {"set": set, "list": list, "frozenset": frozenset}[case["as_"]](D)
    got = hafnian_sparse(A, D=arg, loop=case["loop"])
    ctx.nontrivial(len(idx) >= 4 and want != 0)
    ctx.label("whole" if D is None else "subset", "loop" if case["loop"] else "haf", "odd" if len(idx) % 2 else "even")
    ctx.close(got, want, f"hafnian_sparse(D={D}, loop={case['loop']})", TOL, 1e-7, scale_of(A[np.ix_(idx, idx)], case["loop"]))


@st.composite
def case_banded(draw):
    A = draw(gen.sym(0, 9, kinds=["banded", "banded", "banded", "explicit", "diag", "dense", "block", "offdiag"]))
    return dict(A=A, loop=draw(st.booleans()))


@sub(P, case_banded, quick=400, thorough=8000, group="d")
def banded(case, ctx):
    """hafnian_banded for every bandwidth"""
    A = gen.mat_sym(case["A"])
    want = oracle.haf(A, case["loop"])
    got = hafnian_banded(A, loop=case["loop"])
    nontriv(ctx, A, want)
    ctx.label("w=%s" % case["A"].get("w", "-"), "loop" if case["loop"] else "haf")
    ctx.close(got, want, "hafnian_banded", TOL, 1e-7, scale_of(A, case["loop"]))


@st.composite
def case_lowrank(draw):
    n = draw(st.integers(1, 8))
    r = draw(st.integers(1, 3))
    return dict(G=draw(gen.gen_mat(n, r, dts="fc")))


@sub(P, case_lowrank, quick=150, thorough=3000, group="d")
def low_rank(case, ctx):
    """low_rank_hafnian(G) = haf(G G^T)"""
    G = gen.mat_gen(case["G"])
    A = G @ G.T
    want = oracle.haf(A)
    got = low_rank_hafnian(G)
    ctx.nontrivial(len(A) >= 4 and len(A) % 2 == 0)
    ctx.label("r=%d" % G.shape[1], "odd" if len(A) % 2 else "even")
    ctx.close(got, want, "low_rank_hafnian", TOL, 1e-7, oracle.haf_scale(np.abs(G) @ np.abs(G).T))


@st.composite
def case_ref(draw):
    return dict(A=draw(gen.sym(1, 6)), loop=draw(st.booleans()))


@sub(P, case_ref, quick=150, thorough=2000, group="d")
def reference(case, ctx):
    """the brute-force reference hafnian against the independent recursion"""
    A = gen.mat_sym(case["A"])
    want = oracle.haf(A, case["loop"])
    got = haf_reference(A, loop=case["loop"])
    nontriv(ctx, A, want)
    ctx.close(got, want, "reference.hafnian", TOL, 1e-7, scale_of(A, case["loop"]))


@st.composite
def case_meta(draw):
    A = draw(gen.sym(4, 9))
    n = A["n"]
    return dict(A=A, loop=draw(st.booleans()), perm=draw(st.permutations(list(range(n)))), c=draw(st.sampled_from(["0.04", "30", "0.3j"])), row=draw(st.integers(0, n - 1)),
                s=draw(st.sampled_from([-2.0, 0.5, 3.0, 0.0])), B=draw(gen.sym(1, 4)))


@sub(P, case_meta, quick=150, thorough=3000, group="c")
def algebraic_laws(case, ctx):
    """permutation invariance, row scaling (loops scale once), homogeneity at small and large scales, block factorisation"""
    A = np.array(gen.mat_sym(case["A"]), dtype=complex)
    loop, n = case["loop"], len(A)
    sc = scale_of(A, loop)
    h = hafnian(A, loop=loop)
    p = case["perm"]
    ctx.nontrivial(p != sorted(p) and abs(h) > 1e-9)
    ctx.close(hafnian(A[np.ix_(p, p)], loop=loop), h, "permutation invariance", TOL, 1e-7, sc)
    i, s = case["row"], case["s"]
    B = A.copy()
    B[i, :] *= s
    B[:, i] *= s
    B[i, i] = A[i, i] * s
    ctx.close(hafnian(B, loop=loop), s * h, "row scaling", TOL, 1e-7, sc * max(1, abs(s)))
    c = complex(case["c"])
    E = A * c**2
    E[np.arange(n), np.arange(n)] = np.diag(A) * c
    ctx.close(hafnian(E, loop=loop), c**n * h, f"homogeneity (c={c})", TOL, 0, sc * abs(c) ** n)
    C = np.array(gen.mat_sym(case["B"]), dtype=complex)
    m = len(C)
    D = np.block([[A, np.zeros((n, m))], [np.zeros((m, n)), C]])
    want = h * hafnian(C, loop=loop)
    ctx.close(hafnian(D, loop=loop), want, "block factorisation", TOL, 1e-7, scale_of(D, loop))


@st.composite
def case_graded(draw):
    A = draw(gen.sym(2, 8))
    return dict(A=A, loop=draw(st.booleans()), e=draw(st.lists(st.integers(-16, 16), min_size=A["n"], max_size=A["n"])), bal=draw(st.booleans()))


@sub(P, case_graded, quick=250, thorough=5000, group="d")
def graded(case, ctx):
    """entries of very different sizes: scaling row and column k by 2^e_k (the loop once) scales the result by the product of the factors exactly, for the algorithms that only add products of entries; non-trivial: n >= 4, non-zero"""
    A = np.array(gen.mat_sym(case["A"]))
    A = A.astype(complex if np.iscomplexobj(A) else float)
    loop, n = case["loop"], len(A)
    e = np.array(case["e"])
    if case["bal"]:
        e[-1] -= e.sum()
    d = 2.0**e
    B = A * np.outer(d, d)
    B[np.arange(n), np.arange(n)] = np.diag(A) * d
    f = float(np.prod(d))
    want = oracle.haf(A, loop) * f
    sc = scale_of(A, loop) * f
    ctx.nontrivial(n >= 4 and want != 0)
    ctx.label("loop" if loop else "haf", "balanced" if case["bal"] else "free", "range 2^%d" % (8 * ((e.max() - e.min()) // 8)))
    ctx.close(hafnian_sparse(B, loop=loop), want, "hafnian_sparse of a graded matrix", TOL, 0, sc)
    ctx.close(hafnian_banded(B, loop=loop), want, "hafnian_banded of a graded matrix", TOL, 0, sc)


@st.composite
def case_empty(draw):
    return dict(n=draw(st.sampled_from([0, 2, 4, 1, 3])), dt=draw(st.sampled_from(["float64", "complex128", "int64", "bool", "float32"])))


@sub(P, case_empty, quick=25, thorough=25, group="d")
def vanishing(case, ctx):
    """the empty matrix has (loop) hafnian one and the zero matrix zero, for every algorithm and type; non-trivial: always"""
    n = case["n"]
    A = np.zeros((n, n), dtype=case["dt"])
    ctx.nontrivial(True)
    ctx.label(f"n={n}", case["dt"])
    want = 1.0 if n == 0 else 0.0
    for loop in (False, True):
        got = [hafnian(A, loop=loop, method=m) for m in ("glynn", "inclexcl", "recursive")] + [hafnian_sparse(A, loop=loop), hafnian_banded(A, loop=loop)]
        ctx.close(np.array(got, dtype=complex), np.full(5, want), f"hafnian of zeros({n}, {n}), loop={loop}", 0, 0)
    for r in (0, 1, 2):
        ctx.close(complex(low_rank_hafnian(np.zeros((n, r), dtype="float64" if case["dt"] == "bool" else case["dt"]))), want, f"low_rank_hafnian of zeros({n}, {r})", 0, 0)
