"""C04: the batched loop hafnians equal one loop hafnian per photon number of the last mode."""
import numpy as np
from hypothesis import strategies as st

from thewalrus.loop_hafnian_batch import loop_hafnian_batch
from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
from pbt import gen, oracle
from pbt.core import sub

P = "C04"
TOL = 1e-8
SEQ = {"list": list, "tuple": tuple, "array": np.array}


@st.composite
def reps(draw, n, max_total=9):
    style = draw(st.sampled_from(["free", "ones", "zeros", "big"]))
    pool = {"free": [0, 1, 2, 3], "ones": [0, 1, 1], "zeros": [0, 0, 0, 1, 2], "big": [0, 1, 4, 5, 7]}[style]
    out, left = [], max_total
    for _ in range(n):
        r = min(draw(st.sampled_from(pool)), left)
        left -= r
        out.append(r)
    return list(draw(st.permutations(out)))


@st.composite
def case(draw):
    A = draw(gen.sym(1, 5))
    n = A["n"]
    nd = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(A=A, reps=draw(reps(n - 1)), D=[draw(gen.vec(n, dts="fci")) for _ in range(nd)],
                cut=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 0])), glynn=draw(st.booleans()), seq=draw(st.sampled_from(sorted(SEQ))))


def labels(ctx, c, A):
    t = sum(c["reps"])
    ctx.nontrivial(len(A) >= 2 and t >= 1 and c["cut"] >= 2)
    ctx.label("odd-fixed" if t % 2 else "even-fixed", "zero-fixed" if t == 0 else "some-fixed", "cut-odd" if c["cut"] % 2 else "cut-even",
              "glynn" if c["glynn"] else "inclexcl", "odd-counts=%d" % sum(r % 2 for r in c["reps"]))


def seq(c):
    r = SEQ[c["seq"]](c["reps"])
    return np.zeros(0, dtype=int) if c["seq"] == "array" and not c["reps"] else r


@sub(P, case, quick=500, thorough=10000, group="a", shards=2)
def single(case, ctx):
    """loop_hafnian_batch entry k against the matching sum; non-trivial: >= 1 fixed photon and cutoff >= 2"""
    A, D = gen.mat_sym(case["A"]), gen.mat_vec(case["D"][0])
    labels(ctx, case, A)
    got = loop_hafnian_batch(A, D, seq(case), case["cut"], glynn=case["glynn"])
    ctx.require(np.shape(got) == (case["cut"] + 1,), lambda: f"shape {np.shape(got)} for cutoff {case['cut']}")
    for k in range(case["cut"] + 1):
        r = case["reps"] + [k]
        ctx.close(got[k], oracle.rep_haf(A, r, D), f"loop_hafnian_batch fixed={case['reps']} entry {k}", TOL, 1e-7, oracle.haf_scale(A, r, D, True))


@sub(P, case, quick=500, thorough=10000, group="b", shards=2)
def gamma(case, ctx):
    """loop_hafnian_batch_gamma entry (j, k) against the matching sum with the j-th loop vector"""
    A = gen.mat_sym(case["A"])
    Ds = np.array([gen.mat_vec(d) for d in case["D"]])
    labels(ctx, case, A)
    ctx.label("nD=%d" % len(Ds))
    got = loop_hafnian_batch_gamma(A, Ds, seq(case), case["cut"], glynn=case["glynn"])
    ctx.require(np.shape(got) == (len(Ds), case["cut"] + 1), lambda: f"shape {np.shape(got)} for cutoff {case['cut']}, {len(Ds)} vectors")
    for j, D in enumerate(Ds):
        for k in range(case["cut"] + 1):
            r = case["reps"] + [k]
            ctx.close(got[j, k], oracle.rep_haf(A, r, D), f"loop_hafnian_batch_gamma fixed={case['reps']} vector {j} entry {k}", TOL,
                      1e-7, oracle.haf_scale(A, r, D, True))


@st.composite
def case_large(draw):
    n = draw(st.integers(1, 2))
    top = draw(st.sampled_from([40, 16, 25, 55, 63, 64, 66, 70, 75, 80] if n == 1 else [30, 17, 40, 50, 60]))
    a = draw(st.integers(0, top))
    return dict(reps=[top] if n == 1 else [a, top - a], cut=draw(st.integers(0, 5)), sign=draw(st.booleans()), seed=draw(gen.seeds), form=draw(st.sampled_from(["list", "tuple", "array"])))


@sub(P, case_large, quick=60, thorough=1500, group="a")
def many_repetitions(case, ctx):
    """one or two fixed modes with up to 80 photons, both batch functions against exact integer arithmetic; non-trivial: 40 photons or more"""
    reps, cut = case["reps"], case["cut"]
    n = len(reps) + 1
    rng = np.random.default_rng(case["seed"])
    A = rng.integers(1, 4, (n, n))
    A = np.triu(A) + np.triu(A, 1).T
    D = rng.integers(1, 4, n)
    B, v = A, D
    if case["sign"]:
        s = np.triu(rng.choice([-1, 1], (n, n)))
        B, v = A * (s + np.triu(s, 1).T), D * rng.choice([-1, 1], n)
    ctx.nontrivial(sum(reps) >= 40)
    ctx.label(f"{n - 1} fixed", "total>=66" if sum(reps) >= 66 else "total<66", case["form"])
    r = {"list": list, "tuple": tuple, "array": np.array}[case["form"]](reps)
    got = loop_hafnian_batch(B.astype(float), v.astype(float), r, cut)
    gotg = loop_hafnian_batch_gamma(B.astype(float), np.array([v, v]).astype(float), r, cut)
    ctx.require(np.shape(got) == (cut + 1,) and np.shape(gotg) == (2, cut + 1), lambda: f"shapes {np.shape(got)}, {np.shape(gotg)}")
    for k in range(cut + 1):
        want = float(oracle.int_rep_haf(B, reps + [k], v))
        # alternating sums lose about one digit for every ten photons beyond fifty
        tol = 1e-3 * float(oracle.int_rep_haf(A, reps + [k], D)) + 1e-9
        ctx.close(got[k], want, f"loop_hafnian_batch fixed={reps} entry {k}", 0, tol)
        ctx.close(gotg[1, k], want, f"loop_hafnian_batch_gamma fixed={reps} entry {k}", 0, tol)
