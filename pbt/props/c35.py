"""C35: public functions never modify their arguments."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import calls, gen
from pbt.core import sub

P = "C35"


def snap(x):
    """A hashable value that distinguishes any two states of an argument."""
    if isinstance(x, np.ndarray):
        b = x.base if isinstance(x.base, np.ndarray) else x
        return ("array", x.shape, x.dtype.str, x.strides, x.flags.writeable, x.tobytes(), b.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(i) for i in x))
    if isinstance(x, dict):
        return ("dict", tuple((snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    return (type(x).__name__, repr(x))


def same(a, b):
    """Equality of results (up to rounding: alignment of temporaries may change summation orders)."""
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes() or (a.dtype.kind in "fc" and bool(np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True))) or bool(np.array_equal(a, b)))
    if isinstance(a, (float, complex, np.number)):
        return np.asarray(a).tobytes() == np.asarray(b).tobytes() or bool(np.isclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True))
    return type(a) is type(b) and (a == b)


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for i in x:
            yield from arrays(i)
    elif isinstance(x, dict):
        for i in x.values():
            yield from arrays(i)


def relayout(x, how):
    if isinstance(x, np.ndarray) and x.ndim == 2:
        return gen.layout(x, how)
    if isinstance(x, np.ndarray) and x.ndim == 1 and how == "strided":
        b = np.full(2 * len(x) + 1, 55, dtype=x.dtype)
        b[1::2] = x
        return b[1::2]
    return x


def case_for(names):
    return st.fixed_dictionaries(dict(name=st.sampled_from(names), n=st.sampled_from([3, 2, 1, 4, 6, 0]), seed=gen.seeds, edge=st.sampled_from(["none", "none", "zero", "sparse", "one"]),
                                      layout=st.sampled_from(["C", "C", "F", "strided"]), var=st.sampled_from([3, 1, 2, 0, 4, 5])))


def check(case, ctx):
    name = case["name"]
    f, args, kw, tags = calls.build(name, case["n"], case["seed"], case["edge"])
    if "kernel" not in tags:
        args = [relayout(a, case["layout"]) for a in args]
        kw = {k: relayout(v, case["layout"]) for k, v in kw.items()}
        ctx.label("layout " + case["layout"])
    label = getattr(f, "__name__", name)
    ctx.label(name)
    given = [args, kw]
    ctx.nontrivial(any(a.size for a in arrays(given)) or any(isinstance(x, (list, dict, set)) for x in args + list(kw.values())))
    before = snap(given)
    parts = [snap(a) for a in args] + [snap(v) for v in kw.values()]

    def changed(when):
        if snap(given) != before:
            now = [snap(a) for a in args] + [snap(v) for v in kw.values()]
            who = [str(i) if i < len(args) else list(kw)[i - len(args)] for i in range(len(parts)) if parts[i] != now[i]]
            ctx.fail(f"{label} modified its argument(s) {', '.join(who)} {when}")

    calls.seed_all(case["seed"])
    first = f(*args, **kw)
    if "inplace" not in tags:
        changed("in place")
    else:
        ctx.label("in-place kernel")
        return
    kept = copy.deepcopy(first)
    # the caller owns the result: overwriting it must not change later results
    mine = list(arrays(given))
    for r in arrays(first):
        if r.flags.writeable and not any(np.shares_memory(r, a) for a in mine):
            r[...] = 3
    calls.seed_all(case["seed"])
    second = f(*args, **kw)
    changed("in the second call")
    ctx.require(same(kept, second), lambda: f"{label} gives {str(kept)[:150]} and, called again with the same arguments, {str(second)[:150]}")
    # copies of the arguments give the same result
    calls.seed_all(case["seed"])
    third = f(*copy.deepcopy(args), **copy.deepcopy(kw))
    if case["layout"] != "strided" or "kernel" in tags:
        ctx.require(same(kept, third), lambda: f"{label} depends on the identity of its arguments: {str(kept)[:150]} or {str(third)[:150]}")
    one_changed(case, ctx, f, args, kw, label, kept)
    # the caller reuses its own arrays for other contents: results follow the contents
    f2, args2, kw2, _ = calls.build(name, case["n"], case["seed"] + 1, case["edge"])
    old, new = list(args) + [kw[k] for k in sorted(kw)], list(args2) + [kw2[k] for k in sorted(kw2)]
    if f2 is f and sorted(kw) == sorted(kw2) and [shape(x) for x in old] == [shape(x) for x in new]:
        ctx.label("buffers reused")
        calls.seed_all(case["seed"])
        want = copy.deepcopy(f(*copy.deepcopy(args2), **copy.deepcopy(kw2)))
        fill = [refill(a, b) for a, b in zip(old, new)]
        calls.seed_all(case["seed"])
        got = f(*fill[: len(args)], **dict(zip(sorted(kw), fill[len(args):])))
        ctx.require(same(want, got), lambda: f"{label}: after the caller overwrites its arrays with other values the result is {str(got)[:150]} instead of {str(want)[:150]}")


def scaled(x, e):
    """Floating-point arrays multiplied by 1 + e: other contents, the same result up to rounding."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        return x * (1 + e)
    return copy.deepcopy(x)


def shaken(x, seed):
    """Floating-point arrays with independent rounding-size changes of their entries (symmetric ones stay so)."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        S = np.random.default_rng(seed).normal(size=x.shape)
        if x.ndim == 2 and x.shape[0] == x.shape[1]:
            S = S + S.T
        return x * (1 + 1e-13 * S)
    return copy.deepcopy(x)


def outcome(f, args, kw, seed):
    calls.seed_all(seed)
    try:
        return copy.deepcopy(f(*args, **kw))
    except Exception as e:  # noqa: BLE001
        return "raises " + type(e).__name__


def near(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, complex, np.number)) and isinstance(b, (np.ndarray, float, complex, np.number)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
            s = float(np.abs(a[np.isfinite(a)]).max(initial=0)) if a.size else 0.0
            return bool(np.allclose(a, b, rtol=1e-6, atol=1e-7 * (1 + s), equal_nan=True))
        return bool(np.array_equal(a, b))
    return type(a) is type(b) and (a == b)


def one_changed(case, ctx, f, args, kw, label, kept):
    """Change a single argument after a call: the result is that of the new arguments, not of the remembered ones."""
    f2, args2, kw2, _ = calls.build(case["name"], case["n"], case["seed"] + 1 + case["var"], case["edge"])
    if f2 is not f or sorted(kw) != sorted(kw2) or len(args) != len(args2):
        return
    keys = list(range(len(args))) + sorted(kw)
    k = keys[case["var"] % len(keys)] if keys else None
    if k is None:
        return
    a, b = (args[k], args2[k]) if isinstance(k, int) else (kw[k], kw2[k])
    size = lambda x: (x.shape if isinstance(x, np.ndarray) else len(x) if isinstance(x, (list, tuple, dict, str)) else None)  # noqa: E731
    if type(a) is not type(b) or size(a) != size(b) or snap(a) == snap(b):
        return
    A, K = copy.deepcopy(args), copy.deepcopy(kw)
    if isinstance(k, int):
        A[k] = b
    else:
        K[k] = b
    ctx.label("one argument changed", f"{label}({k})")
    got = outcome(f, copy.deepcopy(A), copy.deepcopy(K), case["seed"])
    refs = [outcome(f, [scaled(x, e) for x in A], {i: scaled(x, e) for i, x in K.items()}, case["seed"]) for e in (1e-13,)]
    if not near(got, refs[0]):
        refs += [outcome(f, [scaled(x, e) for x in A], {i: scaled(x, e) for i, x in K.items()}, case["seed"]) for e in (3e-14, 3e-13, 1e-12)]
        refs += [outcome(f, [shaken(x, i) for x in A], {j: shaken(x, i) for j, x in K.items()}, case["seed"]) for i in (1, 2, 3)]
        if not all(near(refs[0], r) for r in refs):
            ctx.label("inconclusive: not continuous here")
            return
        ctx.fail(f"{label}, called with argument {k} = {str(b)[:60]} after a call with {str(a)[:60]}, gives {str(got)[:150]} instead of {str(refs[0])[:150]}")
    again = outcome(f, args, kw, case["seed"])
    ctx.require(same(kept, again), lambda: f"{label} gives {str(again)[:150]} instead of {str(kept)[:150]} after a call with another argument {k}")


def shape(x):
    return (x.shape, x.dtype.str) if isinstance(x, np.ndarray) else None


def refill(a, b):
    """The caller's array ``a`` holding the values of ``b`` (other arguments: simply ``b``)."""
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = b
        return a
    return b


KERNELS = calls.names("kernel")
PLAIN = [n for n in calls.names() if n not in KERNELS]
PARTS = {"plain": PLAIN}
for _i in range(6):
    PARTS[f"kernels{_i}"] = KERNELS[_i::6]

for _name, _names in PARTS.items():
    sub(P, case_for(_names), quick=4000 if _name == "plain" else 350, thorough=60000 if _name == "plain" else 10000, threads=1, name=_name,
        rule="arguments are bitwise unchanged, results repeatable and independent of overwritten earlier results; non-trivial: a mutable non-empty argument")(check)
