"""C03: batched Hermite / hafnian tensors agree entrywise with single evaluations."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import hafnian_batched, hermite_multidimensional, interferometer, hafnian_repeated
from pbt import gen, oracle
from pbt.core import sub

P = "C03"


@st.composite
def cutoffs(draw, n, max_size=300):
    if draw(st.booleans()):
        top = {1: 12, 2: 7, 3: 5, 4: 4}.get(n, 3)
        return draw(st.sampled_from(list(range(1, top + 1))))
    out = []
    size = 1
    for _ in range(n):
        c = draw(st.sampled_from([1, 2, 3, 4, 6]))
        c = max(1, min(c, max_size // size))
        size *= c
        out.append(c)
    return out


def cut_tuple(c, n):
    return (c,) * n if isinstance(c, int) else tuple(c)


def pass_cut(c, how):
    if isinstance(c, int):
        return np.array(c) if how == "array" else c
    return {"tuple": tuple, "list": list, "array": np.array}[how](c)


HOW = ["tuple", "tuple", "list", "array"]


def compare(ctx, got, R, mu, C, cuts, renorm, what, sign):
    """entry k must equal C * lhaf(sign*R expanded by k, loops mu) [/ sqrt(k!)]"""
    R = np.asarray(R)
    for k in itertools.product(*[range(c) for c in cuts]):
        w = C * oracle.rep_haf(sign * R, k, mu)
        s = abs(C) * oracle.haf_scale(R, k, mu, True)
        f = math.sqrt(math.prod(math.factorial(x) for x in k)) if renorm else 1.0
        ctx.close(got[k], w / f, f"{what} entry {k}", 1e-9, 1e-9, s / f)


@st.composite
def case_haf(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    A = draw(gen.sym(n, n))
    return dict(A=A, cut=draw(cutoffs(n)), how=draw(st.sampled_from(HOW)), renorm=draw(st.booleans()), flat=draw(st.booleans()),
                mu=draw(st.one_of(st.none(), gen.vec(n, dts="fci"))))


@sub(P, case_haf, quick=250, thorough=6000, group="a")
def batched_hafnians(case, ctx):
    """hafnian_batched entries against the matching sum; non-trivial: at least 8 entries"""
    A = gen.mat_sym(case["A"])
    mu = None if case["mu"] is None else gen.mat_vec(case["mu"])
    cuts = cut_tuple(case["cut"], len(A))
    got = hafnian_batched(A, pass_cut(case["cut"], case["how"]), mu=mu, renorm=case["renorm"], make_tensor=not case["flat"])
    shape = (math.prod(cuts),) if case["flat"] else cuts
    ctx.require(np.shape(got) == shape, lambda: f"shape {np.shape(got)} instead of {shape}")
    ctx.nontrivial(math.prod(cuts) >= 8)
    ctx.label("renorm" if case["renorm"] else "plain", "flat" if case["flat"] else "tensor", case["A"]["dt"],
              "mu" if mu is not None else "no-mu", "uneven" if len(set(cuts)) > 1 else "even")
    compare(ctx, np.reshape(got, cuts), A, mu if mu is not None else None, 1, cuts, case["renorm"], "hafnian_batched", 1)


@st.composite
def case_herm(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    A = draw(gen.sym(n, n))
    return dict(A=A, cut=draw(cutoffs(n)), how=draw(st.sampled_from(HOW)), renorm=draw(st.booleans()), flat=draw(st.booleans()),
                modified=draw(st.booleans()), C=draw(st.sampled_from([1, 1, 0.5, [0.3, -0.7], 2])),
                y=draw(st.one_of(st.none(), gen.vec(n, dts="fci"))))


@sub(P, case_herm, quick=300, thorough=6000, group="a")
def hermite(case, ctx):
    """hermite_multidimensional against its generating function"""
    R = gen.mat_sym(case["A"])
    y = None if case["y"] is None else gen.mat_vec(case["y"])
    C = complex(*case["C"]) if isinstance(case["C"], list) else case["C"]
    cuts = cut_tuple(case["cut"], len(R))
    got = hermite_multidimensional(R, pass_cut(case["cut"], case["how"]), y=y, C=C, renorm=case["renorm"],
                                   make_tensor=not case["flat"], modified=case["modified"])
    shape = (math.prod(cuts),) if case["flat"] else cuts
    ctx.require(np.shape(got) == shape, lambda: f"shape {np.shape(got)} instead of {shape}")
    mu = None if y is None else (y if case["modified"] else R @ y)
    ctx.nontrivial(math.prod(cuts) >= 8)
    ctx.label("modified" if case["modified"] else "standard", "y" if y is not None else "no-y", case["A"]["dt"], "C=%s" % (C,))
    compare(ctx, np.reshape(got, cuts), R, mu, C, cuts, case["renorm"], "hermite_multidimensional", -1)


@st.composite
def case_seed(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, seed=draw(gen.seeds), real=draw(st.sampled_from([True, True, False])), re=draw(st.sampled_from([1.0, 0.0, -0.3, 1e-12, 1e100, 1e-200, 5.0])),
                im=draw(st.sampled_from([1e-11, 1e-14, 1e-7, 0.0, 0.7, 1e-3, -1e60])), cut=draw(st.integers(2, 5)), renorm=draw(st.booleans()), modified=draw(st.booleans()),
                y=draw(st.booleans()), f=draw(st.sampled_from(["hermite", "interferometer"])))


@sub(P, case_seed, quick=300, thorough=6000, group="b")
def seed_constant(case, ctx):
    """the tensor is proportional to its first entry C, real and imaginary parts of very different size included; non-trivial: C with two non-zero parts"""
    n, C = case["n"], complex(case["re"], case["im"])
    if C == 0:
        C = 1j
    rng = np.random.default_rng(case["seed"])
    R = rng.normal(size=(n, n)) * 0.7
    if not case["real"]:
        R = R + 1j * rng.normal(size=(n, n)) * 0.7
    R = R + R.T
    kw = dict(renorm=case["renorm"])
    f, cut = hermite_multidimensional, case["cut"]
    if case["f"] == "hermite":
        kw.update(y=rng.normal(size=n) if case["y"] else None, modified=case["modified"])
    else:
        f, R, n = interferometer, np.block([[np.zeros((n, n)), R], [R, np.zeros((n, n))]]), 2 * n
        cut = min(cut, 3)
    ctx.nontrivial(C.real != 0 and C.imag != 0)
    ctx.label(case["f"], "real" if case["real"] else "complex", f"Re={case['re']:g}", f"Im={case['im']:g}")
    one = f(R, cut, C=1, **kw)
    got = f(R, cut, C=C, **kw)
    tol = 1e-13 * max(1, np.abs(one).max()) * (1e3 if not case["real"] else 10)
    if case["real"]:
        ctx.close(np.real(got), C.real * one, f"real part for C={C}", 0, tol * abs(C.real))
        ctx.close(np.imag(got), C.imag * one, f"imaginary part for C={C}", 0, tol * abs(C.imag))
    else:
        ctx.close(got, C * one, f"C={C}", 0, tol * abs(C))


@st.composite
def case_single(draw):
    n = draw(st.sampled_from([2, 3]))
    A = draw(gen.sym(n, n, dts="fc"))
    return dict(A=A, k=draw(st.lists(st.sampled_from([0, 1, 2, 3, 5]), min_size=n, max_size=n)),
                mu=draw(st.one_of(st.none(), gen.vec(n, dts="fc"))))


@sub(P, case_single, quick=150, thorough=3000, group="b")
def against_repeated(case, ctx):
    """one entry of the tensor against hafnian_repeated of the library"""
    A, k = gen.mat_sym(case["A"]), tuple(case["k"])
    mu = None if case["mu"] is None else gen.mat_vec(case["mu"])
    T = hafnian_batched(A, max(k) + 1, mu=mu)
    B = hafnian_repeated(A, k, mu=mu, loop=mu is not None)
    ctx.nontrivial(sum(k) >= 4)
    ctx.close(T[k], B, f"hafnian_batched{k} against hafnian_repeated", 1e-8, 1e-8, oracle.haf_scale(A, k, mu, mu is not None))


WEAK = st.fixed_dictionaries(dict(n=st.integers(1, 3), seed=gen.seeds, eps=st.integers(5, 11), what=st.sampled_from(["mu", "A", "both"]), f=st.sampled_from(["hafnian_batched", "hermite"]),
                                  renorm=st.booleans(), sparse=st.booleans()))


@sub(P, WEAK, quick=400, thorough=10000, group="b")
def weak_imaginary(case, ctx):
    """imaginary parts of 1e-5 to 1e-11 in the matrix or the vector enter linearly and are not dropped; non-trivial: more than one mode"""
    n, eps = case["n"], 10.0 ** -case["eps"]
    rng = np.random.default_rng(case["seed"])
    A, E = [X + X.T for X in rng.uniform(-1, 1, (2, n, n))]
    a, b = rng.uniform(-1, 1, (2, n))
    if case["sparse"]:
        b, E = b * (np.arange(n) == rng.integers(n)), E * (rng.integers(n) == np.arange(n))[:, None]
        E = (E + E.T) / 2
    if case["what"] == "mu":
        E = E * 0
    elif case["what"] == "A":
        b = b * 0
    cut = {1: 7, 2: 5, 3: 3}[n]
    if case["f"] == "hermite":
        got = hermite_multidimensional(-A - 1j * eps * E, cut, y=a + 1j * eps * b, modified=True, renorm=case["renorm"])
    else:
        got = hafnian_batched(A + 1j * eps * E, cut, mu=a + 1j * eps * b, renorm=case["renorm"])
    ctx.nontrivial(n > 1)
    ctx.label(case["what"], "eps=1e-%d" % case["eps"], case["f"])
    up = lambda k, *d: tuple(x - sum(j == i for j in d) for i, x in enumerate(k))  # noqa: E731
    for k in itertools.product(range(cut), repeat=n):
        v = s = 0.0
        for i in range(n):
            for j in range(i, n):
                m = k[i] * k[j] if i != j else k[i] * (k[i] - 1) / 2
                if m:
                    v += m * E[i, j] * oracle.rep_haf(A, up(k, i, j), a)
                    s += m * abs(E[i, j]) * oracle.rep_haf(abs(A), up(k, i, j), abs(a))
            if k[i]:
                v += k[i] * b[i] * oracle.rep_haf(A, up(k, i), a)
                s += k[i] * abs(b[i]) * oracle.rep_haf(abs(A), up(k, i), abs(a))
        f = math.sqrt(math.prod(math.factorial(x) for x in k)) if case["renorm"] else 1.0
        ctx.close(np.imag(got[k]) / eps, v / f, f"{case['f']} entry {k}: imaginary part over {eps:.0e}", 1e-4, 1e-12, scale=s / f)


@st.composite
def case_int(draw):
    n = draw(st.sampled_from([1, 2]))
    return dict(B=draw(gen.gen_mat(n, n)), cut=draw(st.sampled_from([1, 2, 3, 4, 5])) if n == 2 else draw(st.sampled_from([1, 4, 9])),
                tup=draw(st.booleans()), renorm=draw(st.booleans()), flat=draw(st.booleans()), C=draw(st.sampled_from([1, 0.5, [0.3, -0.7]])))


@sub(P, case_int, quick=150, thorough=2000, group="b")
def interferometers(case, ctx):
    """interferometer([[0,B],[B^T,0]]) against the general definition"""
    B = gen.mat_gen(case["B"])
    n = len(B)
    Z = np.zeros((n, n), dtype=B.dtype)
    R = np.block([[Z, B], [B.T, Z]])
    C = complex(*case["C"]) if isinstance(case["C"], list) else case["C"]
    cut = (case["cut"],) * (2 * n) if case["tup"] else case["cut"]
    got = interferometer(R, cut, C=C, renorm=case["renorm"], make_tensor=not case["flat"])
    cuts = (case["cut"],) * (2 * n)
    shape = (math.prod(cuts),) if case["flat"] else cuts
    ctx.require(np.shape(got) == shape, lambda: f"shape {np.shape(got)} instead of {shape}")
    ctx.nontrivial(case["cut"] > 1)
    ctx.label(case["B"]["dt"], "n=%d" % n)
    compare(ctx, np.reshape(got, cuts), R, None, C, cuts, case["renorm"], "interferometer", -1)


@st.composite
def case_long(draw):
    return dict(x=draw(st.integers(-9, 9)) / 10, y=draw(st.integers(-5, 5)) / 10, cut=draw(st.sampled_from([40, 170, 999, 1001, 1500, 2300])))


@sub(P, case_long, quick=40, thorough=400, group="b")
def long_recursion(case, ctx):
    """single-mode normalised polynomials to high order against a scaled recurrence in Python floats"""
    x, y, cut = case["x"], case["y"], case["cut"]
    want = [1.0]
    for k in range(1, cut):
        v = y * want[-1] - (x * math.sqrt(k - 1) * want[-2] if k > 1 else 0.0)
        want.append(v / math.sqrt(k))
    got = hermite_multidimensional(np.array([[x]]), cut, y=np.array([y]), renorm=True, modified=True)
    ctx.nontrivial(cut > 900)
    ctx.label("cut=%d" % cut)
    ctx.close(got, want, "normalised Hermite polynomials", 1e-7, 1e-12, float(np.max(np.abs(want))) * 1e-4)
