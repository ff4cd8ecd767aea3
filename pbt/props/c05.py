"""C05: analytic gradients are the derivatives of the quantities they differentiate."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import hermite_multidimensional, grad_hermite_multidimensional
from thewalrus import fock_gradients as fg
from pbt import gen, oracle
from pbt.core import sub

P = "C05"
GATES = {"displacement": (-1.6, 1.6), "squeezing": (-1.1, 1.1), "two_mode_squeezing": (-1.0, 1.0),
         "beamsplitter": (-6.5, 6.5), "mzgate": (-6.5, 6.5)}


@st.composite
def case_gate(draw):
    g = draw(st.sampled_from(sorted(GATES)))
    lo, hi = GATES[g]
    two = g in ("two_mode_squeezing", "beamsplitter", "mzgate")
    special = draw(st.booleans())
    if special:
        a = draw(st.sampled_from([0.0, 0.25, 1.0, -0.5] if hi < 3 else [0.0, math.pi / 4, math.pi / 2, math.pi, -0.4]))
        b = draw(st.sampled_from([0.0, math.pi / 2, math.pi, -0.3]))
    else:
        a = round(lo + (hi - lo) * draw(st.integers(0, 1000)) / 1000, 6)
        b = round(draw(st.integers(-6283, 6283)) / 1000, 6)
    return dict(gate=g, a=a, b=b, cut=draw(st.sampled_from([4, 3, 2, 5, 6, 1] if two else [5, 8, 3, 12, 2, 4, 6, 10, 1])))


@sub(P, case_gate, quick=400, thorough=8000, group="a", shards=2)
def gates(case, ctx):
    """every entry of grad_<gate> against a fourth-order central difference of <gate>; non-trivial: cutoff >= 2"""
    g, a, b, c = case["gate"], case["a"], case["b"], case["cut"]
    f, gf = getattr(fg, g), getattr(fg, "grad_" + g)
    T = f(a, b, c)
    ga, gb = gf(T, a, b)
    h = 2e-3

    def diff(u):
        return (8 * (u(h) - u(-h)) - (u(2 * h) - u(-2 * h))) / (12 * h)

    ctx.nontrivial(c >= 2)
    ctx.label(g, "c=%d" % c, "zero-first" if a == 0 else "a!=0")
    for nm, got, want in (("first", ga, diff(lambda t: f(a + t, b, c))), ("second", gb, diff(lambda t: f(a, b + t, c)))):
        ctx.close(got, want, f"grad_{g}({a}, {b}, cutoff {c}), {nm} parameter", 1e-6, 1e-6)


@st.composite
def case_herm(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    kinds = ["dense", "explicit", "sparse", "diag", "offdiag"]
    cuts = draw(st.lists(st.sampled_from({1: [5, 9, 3, 2, 4, 7, 1], 2: [3, 5, 4, 2, 1], 3: [3, 2, 1]}[n]), min_size=n, max_size=n))
    return dict(R=draw(gen.sym(n, n, kinds=kinds, dts="fc")), S=draw(gen.sym(n, n, kinds=kinds, dts="fc")), y=draw(gen.vec(n, dts="fc")),
                C=draw(st.sampled_from([1.0, 0.5, -1.3, [0.3, -0.7]])), cuts=cuts, renorm=draw(st.booleans()), dtype=draw(st.booleans()))


@sub(P, case_herm, quick=200, thorough=4000, group="b")
def hermite(case, ctx):
    """grad_hermite_multidimensional: dG/dC, dG/dy and the directional derivative in R along a symmetric direction, exact formulas"""
    R, S, y = gen.mat_sym(case["R"]), gen.mat_sym(case["S"]), gen.mat_vec(case["y"])
    C = complex(*case["C"]) if isinstance(case["C"], list) else case["C"]
    cuts, rn, n = tuple(case["cuts"]), case["renorm"], len(R)
    G = hermite_multidimensional(R, cuts, y=y, C=C, renorm=rn, modified=True)
    kw = dict(dtype=np.complex128) if case["dtype"] else {}
    dC, dR, dy = grad_hermite_multidimensional(G, R, y, C, renorm=rn, **kw)
    ctx.nontrivial(math.prod(cuts) >= 4)
    ctx.label("n=%d" % n, "renorm" if rn else "plain", "uneven" if len(set(cuts)) > 1 else "even")
    ctx.require(dR.shape == cuts + (n, n) and dy.shape == cuts + (n,) and dC.shape == cuts, lambda: f"shapes {dC.shape} {dR.shape} {dy.shape}")

    def H(k):
        return 0.0 if min(k) < 0 else complex(oracle.rep_haf(-R, k, y))

    def e(k, *js):
        k = list(k)
        for j in js:
            k[j] -= 1
        return tuple(k)

    for k in itertools.product(*[range(c) for c in cuts]):
        f = math.sqrt(math.prod(math.factorial(x) for x in k)) if rn else 1.0
        sc = abs(C) * oracle.haf_scale(R, k, y, True) * (1 + sum(k)) ** 2 / f * (1 + np.abs(S).max())
        ctx.close(dC[k], H(k) / f, f"dG/dC at {k}", 1e-9, 1e-9, sc / abs(C))
        for j in range(n):
            ctx.close(dy[k][j], C * k[j] * H(e(k, j)) / f, f"dG/dy_{j} at {k}", 1e-9, 1e-9, sc)
        want = -0.5 * C * sum(S[i, j] * k[i] * (k[j] - (i == j)) * H(e(k, i, j)) for i in range(n) for j in range(n)) / f
        ctx.close(np.sum(dR[k] * S), want, f"directional derivative in R at {k}", 1e-9, 1e-9, sc)
