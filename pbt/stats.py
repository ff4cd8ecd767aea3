"""Comparison of samples with exact distributions, with rigorous false-alarm bounds."""
from collections import Counter

import numpy as np

from . import oracle

LIMIT = -11.0  # log10 of the false-alarm probability of one comparison


def compare(ctx, samples, table, what, kmax=40, emin=8.0):
    """``samples``: list of hashable outcomes; ``table``: {outcome: probability} (may omit a tail, which is pooled)."""
    n = len(samples)
    c, p = oracle.merge_cells(Counter(samples), table, n, emin, kmax)
    b = oracle.gof_log10(c, p)
    if b < LIMIT:
        i = int(np.argmax(np.abs(c / n - p) / np.sqrt(p + 1 / n)))
        keep = sorted((k for k in table if n * table[k] >= emin), key=lambda k: -table[k])[:kmax]
        name = keep[i] if i < len(keep) else "any other outcome"
        ctx.fail(f"{what}: {n} samples do not follow the exact law (false-alarm probability 1e{b:.0f}); "
                 f"{name} has frequency {c[i] / n:.4f} instead of {p[i]:.4f}")


def fold(table, key):
    """Push a table forward through ``key``."""
    out = {}
    for i, p in table.items():
        k = key(i)
        out[k] = out.get(k, 0.0) + p
    return out


def compare_all(ctx, samples, table, what, keys=()):
    """Joint law, the law of every mode, of the total and of further functions."""
    samples = [tuple(int(x) for x in s) for s in samples]
    compare(ctx, samples, table, what)
    m = len(samples[0])
    complete = sum(table.values()) > 1 - 1e-6
    for name, key in list(keys) + ([(f"mode {j}", (lambda j: lambda s: s[j])(j)) for j in range(m)] + [("total", sum)] if m > 1 and complete else []):
        compare(ctx, [key(s) for s in samples], fold(table, key), f"{what}, {name}")


