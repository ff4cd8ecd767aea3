"""Sub-check registry, violation reporting and the per-case context."""
import json
import os
import traceback
from collections import Counter

import numpy as np

from . import env


class Violation(Exception):
    """The property does not hold for the current case."""


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, shards, group, threads, extra_env, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.group, self.threads, self.extra_env, self.rule = group, threads, extra_env, rule


REGISTRY = {}


def sub(prop, strategy, quick=200, thorough=None, shards=1, group=None, threads=2, extra_env=None,
        rule="", name=None):
    """Register ``fn(case, ctx)`` as a sub-check of ``prop``.

    ``strategy`` is a Hypothesis strategy (or a zero-argument function returning one) whose values
    are JSON-serialisable; ``quick``/``thorough`` are example counts per shard-set.
    """

    def deco(fn):
        n = name or fn.__name__
        s = Sub(prop, n, strategy, fn, quick, thorough or quick * 25, shards, group or n, threads,
                extra_env, rule or (fn.__doc__ or "").strip())
        REGISTRY.setdefault(prop, {})
        assert n not in REGISTRY[prop], n
        REGISTRY[prop][n] = s
        return fn

    return deco


KNOWN_FILE = os.path.join(env.VERIF, "known_findings.txt")


def load_known():
    """Open findings: {key: (property, text)}; lines 'KNOWN-FINDING: property=ID [key] text'."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                rest = line[len("KNOWN-FINDING:"):].strip()
                prop = rest.split()[0].split("=", 1)[1]
                key = rest.split("[", 1)[1].split("]", 1)[0]
                text = rest.split("]", 1)[1].strip()
                out[key] = (prop, text)
    return out


class Ctx:
    """Handed to every check: labels, non-triviality, comparisons, known findings."""

    def __init__(self):
        self.known_list = load_known()
        self.reset()

    def reset(self):
        self.labels = []
        self.nontriv = True
        self.known_hits = set()

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond):
        self.nontriv = bool(cond)

    def known(self, key, prop):
        """True if misbehaviour ``key`` is a listed finding (then it is recorded, not raised)."""
        if key in self.known_list and self.known_list[key][0] == prop:
            self.known_hits.add(key)
            return True
        return False

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def require(cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    @staticmethod
    def close(got, want, what, rtol=1e-7, atol=1e-9, scale=None):
        """|got - want| <= atol + rtol * max(|want|, scale), elementwise, shapes equal, finite."""
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object:
            g = g.astype(complex)
        if w.dtype == object:
            w = w.astype(complex)
        if g.dtype == bool and w.dtype == bool:
            g, w = g.astype(int), w.astype(int)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape} instead of {w.shape}")
        if g.size == 0:
            return
        s = np.abs(w) if scale is None else np.maximum(np.abs(w), scale)
        err = np.abs(g - w)
        bad = ~(err <= atol + rtol * s)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - rtol * s)), g.shape)
            raise Violation(
                f"{what}: got {g[i]!r} instead of {w[i]!r} at index {tuple(int(k) for k in i)} "
                f"(|diff| {err[i]:.3g}, {int(bad.sum())} of {g.size} entries differ)")


def repo_exception(exc):
    """True if the exception passed through the code under test (or numba compiling it)."""
    for fr in traceback.extract_tb(exc.__traceback__):
        f = fr.filename
        if f.startswith(env.REPO + "/thewalrus") or "/site-packages/numba/" in f:
            return True
    # errors set inside compiled code surface as SystemError in our own frame
    return isinstance(exc, SystemError)


def run_case(subc, case, ctx):
    """Run one case; returns None or a violation message."""
    ctx.reset()
    try:
        with np.errstate(all="ignore"):
            subc.fn(case, ctx)
    except Violation as v:
        return str(v)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if repo_exception(e):
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(env.REPO)]
            where = f" at {os.path.relpath(loc[-1].filename, env.REPO)}:{loc[-1].lineno}" if loc else ""
            return f"unexpected {type(e).__name__} on a valid input{where}: {str(e)[:300]}"
        raise
    return None


def raises(fn, *a, **k):
    """The exception raised by fn (None if it returns)."""
    try:
        fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return e
    return None
