"""C38: results depend on the values of the arguments, not on how they are represented."""
import copy

import numpy as np
from hypothesis import strategies as st

import thewalrus as tw
from thewalrus import reference as ref
from pbt import calls, gen, oracle
from pbt.core import repo_exception, sub

P = "C38"
LAYOUTS = ["F", "strided", "reversed", "readonly"]
TYPES = ["int64", "int32"]
SEQUENCES = ["npscalar", "intfloat", "tuple", "seqarray", "i32array"]

# Functions that, on the documented interface, take floating-point matrices only (compiled kernels typed for
# float or complex input, in-place kernels): they may reject integer or read-only arrays, but not misread them.
FLOAT_ONLY = {"brs", "ubrs", "fock_threshold_prob", "lmtl", "lmtl_", "charpoly", "powertrace", "hessenberg", "reflection"}
IN_PLACE = {"charpoly", "powertrace", "hessenberg"}
# Plain Python integers or sequences are asked for by name (rejected with an error otherwise).
PLAIN_INT = {"entanglement", "reductions"}
ARRAY_ONLY = {"matched_reps", "sampler_parts"}


def has(x, cond):
    if isinstance(x, np.ndarray):
        return cond(x)
    return False


def integral(x):
    return x.size > 0 and bool(np.all(np.isfinite(x)) and np.all(np.imag(x) == 0) and np.all(np.real(x) == np.round(np.real(x))))


def represent(x, how):
    """The same argument, represented differently."""
    if isinstance(x, np.ndarray):
        if how == "F":
            return np.asfortranarray(x)
        if how == "readonly":
            y = x.copy()
            y.flags.writeable = False
            return y
        if how == "reversed" and x.ndim:
            return x[::-1].copy()[::-1]
        if how == "strided" and x.ndim:
            y = np.full(tuple(2 * k for k in x.shape), 7, dtype=x.dtype)
            s = tuple(slice(None, None, 2) for _ in x.shape)
            y[s] = x
            return y[s]
        if how in TYPES and x.dtype.kind in "iuf" and integral(x):
            return x.astype(how)
        return x
    if how == "npscalar":
        if type(x) in (int, float, complex):
            return np.asarray(x)[()]
        if type(x) is list:
            return [represent(i, how) for i in x]
        if type(x) is dict:
            return {represent(k, how): represent(v, how) for k, v in x.items()}
    if how == "intfloat" and type(x) is float and x == int(x):
        return int(x)
    if how == "tuple" and type(x) is list:
        return tuple(x)
    if how in ("seqarray", "i32array") and type(x) in (list, tuple) and x and all(type(i) is int for i in x):
        return np.array(x, dtype=np.int64 if how == "seqarray" else np.int32)
    return x


def describe(x):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.strides, x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(describe(i) for i in x))
    if isinstance(x, dict):
        return tuple((describe(k), describe(v)) for k, v in x.items())
    return type(x).__name__


def flat(r):
    if isinstance(r, (tuple, list)):
        return [z for i in r for z in flat(i)]
    if isinstance(r, dict):
        return [z for k in sorted(r) for z in flat(r[k])]
    return [np.asarray(r)]


def same(a, b):
    A, B = flat(a), flat(b)
    if len(A) != len(B):
        return False
    for x, y in zip(A, B):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "biufc" and y.dtype.kind in "biufc":
            x, y = x.astype(complex), y.astype(complex)
            s = float(np.max(np.abs(x[np.isfinite(x)]), initial=0.0))
            if not np.allclose(x, y, rtol=1e-7, atol=1e-8 * (1 + s), equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def case_for(names, hows):
    return st.fixed_dictionaries(dict(name=st.sampled_from(names), n=st.sampled_from([3, 2, 1, 4, 6, 0]), seed=gen.seeds, edge=st.sampled_from(["none", "none", "zero", "sparse", "one"]),
                                      how=st.sampled_from(hows)))


def may_reject(name, how):
    return (name in FLOAT_ONLY and how in TYPES) or (name in IN_PLACE and how == "readonly") or (name in PLAIN_INT and how == "npscalar") or (name in ARRAY_ONLY and how in ("tuple", "intfloat"))


def check(case, ctx):
    name, how = case["name"], case["how"]
    ing = calls.Integers if how in TYPES else calls.G
    f, args, kw, tags = calls.build(name, case["n"], case["seed"], case["edge"], ing)
    _, args2, kw2, _ = calls.build(name, case["n"], case["seed"], case["edge"], ing)
    label = getattr(f, "__name__", name)
    args2 = [represent(a, how) for a in args2]
    kw2 = {k: represent(v, how) for k, v in kw2.items()}
    ctx.label(name, how)
    ctx.nontrivial(describe([args, kw]) != describe([args2, kw2]))
    try:
        calls.seed_all(case["seed"])
        want = copy.deepcopy(f(*args, **kw))
    except Exception as e:  # noqa: BLE001
        if ing is calls.G:
            raise
        ctx.nontrivial(False)  # a degenerate integer input that the function rejects
        ctx.label("rejected " + type(e).__name__)
        return
    try:
        calls.seed_all(case["seed"])
        got = f(*args2, **kw2)
    except Exception as e:  # noqa: BLE001
        if may_reject(name, how):
            ctx.label("rejected " + type(e).__name__)
            return
        if repo_exception(e):
            ctx.fail(f"{label} fails with {type(e).__name__} ({str(e)[:120]}) when its arguments are given as {how} (the same values): it returns {str(want)[:120]} otherwise")
        raise
    ctx.require(same(want, got), lambda: f"{label} with arguments given as {how} (the same values): {str(got)[:200]} instead of {str(want)[:200]}")


KERNELS = calls.names("kernel")
PLAIN = [n for n in calls.names() if n not in KERNELS]
PARTS = {"plain": PLAIN}
for _i in range(6):
    PARTS[f"kernels{_i}"] = KERNELS[_i::6]

for _name, _names in PARTS.items():
    sub(P, case_for(_names, LAYOUTS + SEQUENCES + TYPES * 2), quick=6000 if _name == "plain" else 450, thorough=100000 if _name == "plain" else 12000, threads=1, name=_name,
        rule="same values in another memory layout, numeric type or sequence type give the same result; non-trivial: the representation really differs")(check)


# ------------------------------------------------------------------ narrow integers: no wrap-around

NARROW = ["bool", "uint8", "int8", "uint16", "int16", "int32", "uint32", "uint64", "int64"]


@st.composite
def narrow(draw):
    f = draw(st.sampled_from(["hafnian", "hafnian", "recursive", "loop", "inclexcl", "sparse", "banded", "repeated", "repeated_loop", "batched", "ryser", "bbfg", "permanent_repeated", "hermite", "interferometer"]))
    n = draw(st.integers(1, 8))
    if f in ("batched", "hermite", "permanent_repeated"):
        n = min(n, 4)
    if f == "interferometer":
        n = min(n + n % 2, 4)
    return dict(f=f, n=n, dt=draw(st.sampled_from(NARROW)), top=draw(st.sampled_from([1, 1, 3, 7, 40, 127])), dense=draw(st.booleans()), seed=draw(gen.seeds))


@sub(P, narrow, quick=1500, thorough=40000, threads=1, group="narrow")
def narrow_integers(case, ctx):
    """adjacency matrices of booleans, unsigned and short integers: no product, sum or negation wraps around; non-trivial: the value does not fit the type or the matrix has four or more rows"""
    n, f, dt = case["n"], case["f"], np.dtype(case["dt"])
    rng = np.random.default_rng(case["seed"])
    top = 1 if dt.kind == "b" else case["top"]
    low = 0 if dt.kind in "bu" else -top
    A = rng.integers(low, top + 1, (n, n)) * (1 if case["dense"] else rng.integers(0, 2, (n, n)))
    if f not in ("ryser", "bbfg", "permanent_repeated"):
        A = np.triu(A) + np.triu(A, 1).T
    F, X = A.astype(float), A.astype(dt)
    reps = rng.integers(0, 3, n).tolist()
    cut = 3
    z = {
        "hafnian": (lambda M: tw.hafnian(M), lambda: oracle.haf(F)), "recursive": (lambda M: tw.hafnian(M, method="recursive"), lambda: oracle.haf(F)),
        "loop": (lambda M: tw.hafnian(M, loop=True), lambda: oracle.haf(F, loop=True)), "inclexcl": (lambda M: tw.hafnian(M, method="inclexcl"), lambda: oracle.haf(F)),
        "sparse": (lambda M: tw.hafnian_sparse(M, loop=bool(case["seed"] % 2)), lambda: oracle.haf(F, loop=bool(case["seed"] % 2))),
        "banded": (lambda M: tw.hafnian_banded(M, loop=bool(case["seed"] % 2)), lambda: oracle.haf(F, loop=bool(case["seed"] % 2))),
        "repeated": (lambda M: tw.hafnian_repeated(M, reps), lambda: oracle.rep_haf(F, reps)),
        "repeated_loop": (lambda M: tw.hafnian_repeated(M, reps, loop=True), lambda: oracle.rep_haf(F, reps, mu=np.diag(F))),
        "ryser": (lambda M: tw.perm(M, method="ryser"), lambda: oracle.perm(F)), "bbfg": (lambda M: tw.perm(M, method="bbfg"), lambda: oracle.perm(F)),
        "permanent_repeated": (lambda M: tw.permanent_repeated(M, reps), lambda: oracle.perm(F[np.ix_(np.repeat(range(n), reps), np.repeat(range(n), reps))])),
        "batched": (lambda M: tw.hafnian_batched(M, cut), lambda: tw.hafnian_batched(F, cut)), "hermite": (lambda M: tw.hermite_multidimensional(M, cut), lambda: tw.hermite_multidimensional(F, cut)),
        "interferometer": (lambda M: tw.interferometer(M, cut), lambda: tw.interferometer(F, cut)),
    }[f]
    ctx.label(f, case["dt"])
    want = np.asarray(z[1]())
    bound = np.iinfo(dt).max if dt.kind != "b" else 1
    big = float(np.max(np.abs(want), initial=0.0))
    s = float(np.abs(F).sum(0).max(initial=1.0)) ** max(1, n / 2 if f in ("hafnian", "recursive", "inclexcl") else n)
    if s > 2.0**50:
        ctx.label("beyond 2**50")
        ctx.nontrivial(False)
        return
    ctx.nontrivial(n >= 4 or big > bound)
    ctx.close(z[0](X), want, f"{f} of a {n}x{n} {case['dt']} matrix against its value", 1e-8, 1e-8, scale=max(big, s * 1e-4))
