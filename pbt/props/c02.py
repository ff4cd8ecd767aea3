"""C02: repeated-index (loop) hafnians equal the hafnian of the expanded matrix."""
import math

import numpy as np
from hypothesis import strategies as st

from thewalrus import hafnian_repeated, hafnian, reduction
from thewalrus._hafnian import loop_hafnian
from pbt import gen, oracle
from pbt.core import sub

P = "C02"
TOL = 1e-8


@st.composite
def reps_for(draw, n, max_total=14):
    style = draw(st.sampled_from(["free", "free", "big", "sparse", "ones"]))
    out = []
    left = max_total
    for _ in range(n):
        if style == "ones":
            r = draw(st.sampled_from([0, 1, 1, 1, 2]))
        elif style == "sparse":
            r = draw(st.sampled_from([0, 0, 1, 3]))
        elif style == "big":
            r = draw(st.sampled_from([0, 1, 5, 7, 8, 11]))
        else:
            r = draw(st.sampled_from([0, 1, 2, 3, 4]))
        r = min(r, left)
        left -= r
        out.append(r)
    return list(draw(st.permutations(out)))


SEQ = {"list": list, "tuple": tuple, "array": np.array}


@st.composite
def case(draw):
    A = draw(gen.sym(1, 6))
    return dict(A=A, reps=draw(reps_for(A["n"])), seq=draw(st.sampled_from(sorted(SEQ))), loop=draw(st.booleans()),
                glynn=draw(st.booleans()), mu=draw(st.one_of(st.none(), gen.vec(A["n"], dts="fci"))))


def labels(ctx, reps, loop, want):
    t = sum(reps)
    ctx.nontrivial(t >= 4 and sum(1 for r in reps if r) >= 2 and want != 0)
    ctx.label("odd-total" if t % 2 else "even-total", "has-zero-rep" if 0 in reps else "all-positive",
              "odd-counts=%d" % sum(r % 2 for r in reps), "loop" if loop else "haf", "max>=5" if max(reps) >= 5 else "max<5")


@sub(P, case, quick=1200, thorough=25000, group="a", shards=2, threads=2)
def repeated(case, ctx):
    """hafnian_repeated(A, rpt, mu, loop, glynn); non-trivial: total >= 4 over >= 2 modes, non-zero value"""
    A = gen.mat_sym(case["A"])
    mu = None if case["mu"] is None else gen.mat_vec(case["mu"])
    loop, reps = case["loop"], case["reps"]
    m = np.diag(A) if mu is None else mu
    want = oracle.rep_haf(A, reps, m if loop else None)
    kw = dict(mu=mu) if mu is not None else {}
    got = hafnian_repeated(A, SEQ[case["seq"]](reps), loop=loop, glynn=case["glynn"], **kw)
    labels(ctx, reps, loop, want)
    ctx.label("mu" if mu is not None else "diag", "glynn" if case["glynn"] else "inclexcl")
    ctx.close(got, want, f"hafnian_repeated(rpt={reps}, loop={loop})", TOL, 1e-7, oracle.haf_scale(A, reps, m, loop))


@st.composite
def case_direct(draw):
    A = draw(gen.sym(1, 5))
    return dict(A=A, reps=draw(reps_for(A["n"])), glynn=draw(st.booleans()), D=draw(st.one_of(st.none(), gen.vec(A["n"], dts="fci"))),
                seq=draw(st.sampled_from(sorted(SEQ))))


@sub(P, case_direct, quick=600, thorough=12000, group="b", shards=2)
def loop_direct(case, ctx):
    """loop_hafnian(A, D, reps, glynn)"""
    A = gen.mat_sym(case["A"])
    D = None if case["D"] is None else gen.mat_vec(case["D"])
    mu = np.diag(A) if D is None else D
    reps = case["reps"]
    want = oracle.rep_haf(A, reps, mu)
    got = loop_hafnian(A, D=D, reps=SEQ[case["seq"]](reps), glynn=case["glynn"])
    labels(ctx, reps, True, want)
    ctx.close(got, want, f"loop_hafnian(reps={reps})", TOL, 1e-7, oracle.haf_scale(A, reps, mu, True))


@st.composite
def case_exp(draw):
    A = draw(gen.sym(1, 4))
    return dict(A=A, reps=draw(reps_for(A["n"], 8)), mu=draw(gen.vec(A["n"], dts="fc")), loop=draw(st.booleans()))


@sub(P, case_exp, quick=250, thorough=5000, group="b")
def expansion(case, ctx):
    """reduction(A, rpt) is the expanded matrix and its hafnian is the repeated hafnian (library against itself and the oracle)"""
    A, mu, reps = gen.mat_sym(case["A"]), gen.mat_vec(case["mu"]), case["reps"]
    B = reduction(A, reps)
    ctx.close(B, oracle.expand(A, reps), "reduction", 0, 0)
    ctx.close(reduction(mu, reps), np.repeat(mu, reps), "reduction of a vector", 0, 0)
    if case["loop"]:
        B = oracle.expand(A, reps, mu)
    want = oracle.rep_haf(A, reps, mu if case["loop"] else None)
    labels(ctx, reps, case["loop"], want)
    ctx.close(hafnian(B, loop=case["loop"]), want, "hafnian of the expanded matrix", TOL, 1e-7,
              oracle.haf_scale(A, reps, mu, case["loop"]))


@st.composite
def case_large(draw):
    n = draw(st.integers(1, 3))
    top = draw(st.integers(16, 80))
    glynn = draw(st.sampled_from([True, True, True, False]))
    if not glynn:
        top = min(top, 24)  # alternating sums: inclusion/exclusion loses all digits beyond
    elif n == 3:
        top = min(top, 45)
    k = draw(st.lists(st.integers(0, top), min_size=n - 1, max_size=n - 1))
    cuts = [0] + sorted(k) + [top]
    return dict(n=n, reps=[b - a for a, b in zip(cuts, cuts[1:])], glynn=glynn, loop=draw(st.booleans()), sign=draw(st.booleans()), seed=draw(gen.seeds))


@sub(P, case_large, quick=250, thorough=5000, group="b")
def many_repetitions(case, ctx):
    """one to three modes with up to 80 repetitions against exact integer arithmetic; non-trivial: a total of 40 or more"""
    n, reps = case["n"], case["reps"]
    rng = np.random.default_rng(case["seed"])
    A = rng.integers(1, 4, (n, n))
    A = np.triu(A) + np.triu(A, 1).T
    mu = rng.integers(1, 4, n)
    B, v = A, mu
    if case["sign"]:
        s = np.triu(rng.choice([-1, 1], (n, n)))
        B, v = A * (s + np.triu(s, 1).T), mu * rng.choice([-1, 1], n)
    want = oracle.int_rep_haf(B, reps, v if case["loop"] else None)
    scale = oracle.int_rep_haf(A, reps, mu if case["loop"] else None)
    ctx.nontrivial(sum(reps) >= 40)
    ctx.label("n=%d" % n, "total>=66" if sum(reps) >= 66 else "total<66", "loop" if case["loop"] else "haf", "glynn" if case["glynn"] else "inclexcl")
    got = hafnian_repeated(B.astype(float), reps, mu=v.astype(float), loop=case["loop"], glynn=case["glynn"])
    ctx.close(got, float(want), f"hafnian_repeated(rpt={reps}, loop={case['loop']})", 0, 1e-6 * float(scale) + 1e-9)


@st.composite
def case_hundreds(draw):
    return dict(e=draw(st.integers(58, 82)), one=draw(st.booleans()), abc=draw(st.lists(st.integers(1, 4), min_size=3, max_size=3)),
                glynn=draw(st.just(True)))


@sub(P, case_hundreds, quick=60, thorough=1000, group="b")
def above_hundred(case, ctx):
    """one pair of modes (or one mode with itself) repeated 116 to 164 times, positive matrix, against exact integers. The Glynn
    sum loses digits by cancellation; the tolerance is 1000 times the rounding error of that sum, computed from its terms.
    Non-trivial: every case"""
    e = case["e"]
    a, b, c = case["abc"]
    A = np.array([[a, b], [b, c]])
    reps = [2 * e, 0] if case["one"] else [e, e]
    want = oracle.int_rep_haf(A, reps, None)
    loss = sum(math.comb(e, k) * abs(e - 2 * k) ** e for k in range(e + 1)) / (2**e * math.factorial(e))
    tol = max(1e-6, 1000 * loss * 2.0**-52)
    ctx.nontrivial(True)
    ctx.label("e>=67" if e >= 67 else "e<67", "one mode" if case["one"] else "two modes")
    got = hafnian_repeated(A.astype(float), reps)
    ctx.require(abs(got / float(want) - 1) < tol, f"hafnian_repeated(rpt={reps}) is {got / float(want)} times the exact value (tolerance {tol:.1e})")
