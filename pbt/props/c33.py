"""C33: the reference enumerators list every matching exactly once in any call history."""
import functools
import itertools
import math
from collections import Counter
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from thewalrus import reference as ref
from pbt import gen
from pbt.core import sub, raises

P = "C33"


@functools.lru_cache(None)
def model(n, singles, pairs):
    """Partitions of range(n) into singles and pairs, by assigning the partner of the last element."""
    if n == 0:
        return [()]
    out = []
    if singles:
        out += [p + ((n - 1,),) for p in model(n - 1, singles, pairs)]
    if pairs:
        for k in range(n - 1):
            relabel = [i for i in range(n - 1) if i != k]
            out += [tuple(tuple(relabel[i] for i in b) for b in p) + ((k, n - 1),) for p in model(n - 2, singles, pairs)] if n >= 2 else []
    return out


@functools.lru_cache(None)
def cycles(n):
    """Perfect matchings of range(n) that close into one cycle with the pairs (i, i + n/2)."""
    m, out = n // 2, []
    for p in model(n, False, True):
        nxt = {a: b for x, y in p for a, b in ((x, y), (y, x))}
        at, seen = 0, 0
        while True:
            at = (nxt[at] + m) % n
            seen += 1
            if at == 0:
                break
        if seen == m:
            out.append(p)
    return out


def paths(n):
    out = []
    for p in cycles(n):
        out.append(p)
        for k in range(len(p)):
            out.append(p[:k] + p[k + 1 :] + tuple((i, i) for i in p[k]))
    return out


def expected(kind, n):
    if kind == "pmp":
        return model(n, False, True)
    if kind == "spm":
        return [tuple(b if len(b) == 2 else b * 2 for b in p) for p in model(n, True, True)]
    if kind == "singles":
        return model(n, True, False)
    if kind == "partitions":
        return model(n, True, True)
    return cycles(n) if kind == "rpmp" else paths(n)


def start(kind, s):
    if kind == "singles":
        return ref.partitions(s, True, False)
    return getattr(ref, kind)(s)


def count(kind, n):
    double = lambda k: math.prod(range(k, 0, -2))  # noqa: E731
    if kind == "pmp":
        return double(n - 1) if n % 2 == 0 else 0
    if kind in ("spm", "partitions"):
        return sum(math.comb(n, 2 * k) * double(2 * k - 1) for k in range(n // 2 + 1))
    if kind == "singles":
        return 1
    m = n // 2
    return math.factorial(m - 1) * 2 ** (m - 1) * (1 if kind == "rpmp" else m + 1)


def canon(p):
    return tuple(sorted(tuple(sorted(((type(i).__name__, i) for i in b), key=repr)) for b in p))


LABELS = {"int": lambda n: tuple(range(n)), "shift": lambda n: tuple(range(5, 5 + n)), "rev": lambda n: tuple(range(n - 1, -1, -1)), "str": lambda n: tuple("abcdefghij"[:n]),
          "words": lambda n: tuple(f"m{i}" for i in range(n)), "float": lambda n: tuple(float(i) for i in range(n)), "even": lambda n: tuple(2 * i for i in range(n)),
          "range": lambda n: range(n), "list": lambda n: list("abcdefghij"[:n]), "multi": lambda n: tuple([0] * 2 + list(range(1, n - 1))),
          "equal": lambda n: (0,) * n, "pairs": lambda n: tuple(i // 2 for i in range(n)), "tail": lambda n: tuple(range(n - 2)) + (n, n)}


@st.composite
def request(draw):
    kind = draw(st.sampled_from(["spm", "pmp", "rpmp", "rspm", "partitions", "singles"]))
    if kind in ("rpmp", "rspm"):
        return [kind, draw(st.sampled_from([6, 4, 2, 8])), draw(st.sampled_from(["int", "str", "rev", "words", "range", "list", "shift", "float"]))]
    return [kind, draw(st.sampled_from([6, 4, 5, 3, 7, 8] if kind == "pmp" else [5, 4, 6, 3])), draw(st.sampled_from(["int", "str", "rev", "words", "shift", "even", "float", "multi", "equal", "pairs", "tail"]))]


@st.composite
def history(draw):
    reqs = draw(st.lists(request(), min_size=1, max_size=6))
    if draw(st.booleans()):
        reqs = reqs + [list(r) for r in reqs]
    return dict(reqs=reqs, seed=draw(gen.seeds), abandon=draw(st.booleans()), step=draw(st.sampled_from([1, 3, 20])))


def check(ctx, kind, n, lab, items, what):
    s = LABELS[lab](n)
    want = Counter(canon([[s[i] for i in b] for b in p]) for p in expected(kind, n))
    got = Counter(canon(p) for p in items)
    if want != got:
        extra, missing = got - want, want - got
        ctx.fail(f"{what}: {kind}({s!r}) gives {sum(got.values())} matchings instead of {sum(want.values())}; surplus {list(extra.items())[:2]}, missing {list(missing.items())[:2]}")
    ctx.require(len(items) == count(kind, n), lambda: f"{kind}({s!r}) has {len(items)} elements instead of {count(kind, n)}")


@sub(P, history(), quick=1200, thorough=60000, group="h", threads=1)
def interleaved(case, ctx):
    """generators consumed in an interleaved order, some abandoned, then repeated from the start; non-trivial: at least two generators share a tuple"""
    reqs = case["reqs"]
    keys = Counter((k if k in ("rpmp", "rspm") else "p", n, lab) for k, n, lab in reqs)
    ctx.nontrivial(max(keys.values()) > 1 or len({lab for _, _, lab in reqs}) < len(reqs))
    ctx.label(*sorted({k for k, _, _ in reqs}), "abandoned" if case["abandon"] else "all drained", f"{len(reqs)} generators")
    rng = np.random.default_rng(case["seed"])
    live = {i: (start(k, LABELS[lab](n)), []) for i, (k, n, lab) in enumerate(reqs) if rng.random() < 0.7}
    pending = [i for i in range(len(reqs)) if i not in live]
    quit_ = {i for i in range(len(reqs)) if case["abandon"] and rng.random() < 0.4}
    while live or pending:
        if pending and (not live or rng.random() < 0.1):
            i = pending.pop()
            k, n, lab = reqs[i]
            live[i] = (start(k, LABELS[lab](n)), [])
        i = list(live)[rng.integers(len(live))]
        g, items = live[i]
        if i in quit_ and items:
            del live[i], g
            continue
        more = list(itertools.islice(g, int(rng.integers(1, case["step"] + 1))))
        items += more
        if not more:
            del live[i]
            check(ctx, *reqs[i], items, "interleaved")
    for k, n, lab in reqs:
        check(ctx, k, n, lab, list(start(k, LABELS[lab](n))), "repeated")


@st.composite
def nested(draw):
    return dict(outer=draw(request().filter(lambda r: r[1] <= 5)), inner=draw(request().filter(lambda r: r[1] <= 5)), depth3=draw(st.booleans()), recurse=draw(st.booleans()))


@sub(P, nested(), quick=400, thorough=20000, group="h", threads=1)
def nesting(case, ctx):
    """generators started and drained inside the loop over another (or the same) one; non-trivial: both share a tuple or a sub-tuple"""
    (k1, n1, l1), (k2, n2, l2) = case["outer"], case["inner"]
    if case["recurse"]:
        k2, n2, l2 = k1, n1, l1
    ctx.nontrivial(l1 == l2)
    ctx.label(f"{k1} over {k2}", "same" if case["recurse"] else "any")
    outer = []
    for x in start(k1, LABELS[l1](n1)):
        outer.append(x)
        inner = []
        for y in start(k2, LABELS[l2](n2)):
            inner.append(y)
            if case["depth3"] and len(outer) < 3:
                check(ctx, k1, n1, l1, list(start(k1, LABELS[l1](n1))), "innermost")
        check(ctx, k2, n2, l2, inner, "inner")
    check(ctx, k1, n1, l1, outer, "outer")


@sub(P, st.lists(st.integers(0, 60), min_size=1, max_size=6), quick=300, thorough=10000, group="h", threads=1)
def telephone(case, ctx):
    """telephone numbers count the single-pair matchings, in any call order; non-trivial: n of at least four"""
    ctx.nontrivial(max(case) > 3)
    ctx.label("repeated" if len(set(case)) < len(case) else "distinct")
    for n in case:
        want = sum(math.factorial(n) // (math.factorial(n - 2 * k) * 2**k * math.factorial(k)) for k in range(n // 2 + 1))
        got = ref.T(n)
        ctx.require(got == want, lambda: f"T({n}) = {got} instead of {want}")


class Poly:
    """Polynomials in non-negative integer exponents of named symbols: exact symbolic entries."""

    def __init__(self, terms):
        self.t = {k: v for k, v in terms.items() if v}

    def _lift(self, o):
        return o if isinstance(o, Poly) else Poly({(): o})

    def __add__(self, o):
        r = Counter(self.t)
        for k, v in self._lift(o).t.items():
            r[k] += v
        return Poly(r)

    def __mul__(self, o):
        r = Counter()
        for a, x in self.t.items():
            for b, y in self._lift(o).t.items():
                r[tuple(sorted(a + b))] += x * y
        return Poly(r)

    __radd__, __rmul__ = __add__, __mul__

    def __eq__(self, o):
        return self.t == self._lift(o).t

    def __repr__(self):
        return repr(self.t)


@st.composite
def matrix(draw):
    return dict(n=draw(st.sampled_from([4, 6, 2, 3, 5, 1, 0])), kind=draw(st.sampled_from(["symbols", "ints", "huge", "fractions", "floats", "complex", "sympy"])), seed=draw(gen.seeds),
                history=draw(st.lists(request(), max_size=3)), eat=draw(st.integers(0, 30)))


@sub(P, matrix(), quick=700, thorough=30000, group="h", threads=1)
def functions(case, ctx):
    """reference hafnian, loop hafnian and montrealer against sums over independently enumerated matchings, on exact types, after arbitrary generator use; non-trivial: size at least four"""
    n, rng, kind = case["n"], np.random.default_rng(case["seed"]), case["kind"]
    ctx.nontrivial(n >= 4)
    ctx.label(kind, f"n={n}", "after other calls" if case["history"] else "fresh")
    left = []
    for k, m, lab in case["history"]:
        g = start(k, LABELS[lab](m))
        list(itertools.islice(g, case["eat"]))
        left.append(g)
    # mixed types of the upper triangle; the matrix is symmetric
    A = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i, n):
            if kind == "symbols":
                v = Poly({((i, j),): 1})
            elif kind == "huge":
                v = int(rng.integers(-9, 10)) * 10**30 + int(rng.integers(0, 10**9))
            elif kind == "fractions":
                v = Fraction(int(rng.integers(-9, 10)), int(rng.integers(1, 9)))
            elif kind == "floats":
                v = float(rng.normal())
            elif kind == "complex":
                v = complex(rng.normal(), rng.normal())
            else:
                v = int(rng.integers(-9, 10))
            A[i, j] = A[j, i] = v
    M = A
    exact = kind not in ("floats", "complex")
    if kind in ("floats", "complex"):
        M = A.astype(float if kind == "floats" else complex)
    elif kind == "sympy":
        import sympy

        A = np.array([[sympy.Symbol(f"x{min(i, j)}_{max(i, j)}") for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)
        M = sympy.Matrix(n, n, lambda i, j: A[i, j])

    def total(ms):
        return functools.reduce(lambda a, b: a + b, (functools.reduce(lambda a, b: a * b, (A[i, j] for i, j in p), 1) for p in ms), 0)

    def same(got, want, what):
        if kind == "sympy":
            import sympy

            ctx.require(sympy.expand(got - want) == 0, lambda: f"{what}: {got} instead of {want}")
        elif exact:
            ctx.require(got == want, lambda: f"{what}: {got} instead of {want}")
        else:
            ctx.close(got, want, what, 1e-10, 1e-10 * 20**n)

    same(ref.hafnian(M), total(expected("pmp", n)), "hafnian")
    same(ref.hafnian(M, loop=True), total(expected("spm", n)), "loop hafnian")
    if n >= 2 and n % 2 == 0 and kind != "sympy" or n == 4:
        same(ref.mtl(M), total(cycles(n)), "montrealer")
        same(ref.mtl(M, loop=True), total(paths(n)), "loop montrealer")
    if n > 0 and kind != "sympy":
        ctx.require(isinstance(raises(ref.hafnian, np.zeros((n, n + 1))), ValueError), "a rectangular matrix is accepted")
    for g in left:
        list(itertools.islice(g, 5))


@st.composite
def crowd(draw):
    return dict(num=draw(st.integers(900, 1300)), base=draw(st.integers(0, 50)), n=draw(st.sampled_from([4, 2, 3])), reqs=draw(st.lists(request(), min_size=1, max_size=4)), again=draw(st.integers(2, 3)))


@sub(P, crowd, quick=8, thorough=300, group="h", threads=1)
def crowded(case, ctx):
    """around a thousand different label tuples first, then some tuples several times; non-trivial: always"""
    ctx.nontrivial(True)
    ctx.label(f"{case['num'] // 100 * 100} tuples")
    for i in range(case["num"]):
        t = tuple((case["base"], i, j) for j in range(case["n"]))
        k = sum(1 for _ in start(("spm", "pmp")[i % 2 if case["n"] % 2 == 0 else 0], t))
        w = count(("spm", "pmp")[i % 2 if case["n"] % 2 == 0 else 0], case["n"])
        ctx.require(k == w, lambda: f"tuple {i} of size {case['n']} has {k} matchings instead of {w}")
    for _ in range(case["again"]):
        for k, n, lab in case["reqs"]:
            check(ctx, k, n, lab, list(start(k, LABELS[lab](n))), "after many other tuples")
