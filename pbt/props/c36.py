"""C36: the multithreaded kernels do not depend on the number of threads or the schedule."""
import contextlib

import numba
import numpy as np
from hypothesis import strategies as st

import thewalrus as tw
from thewalrus import _permanent as pm, _torontonian as tt, quantum as q
from thewalrus.loop_hafnian_batch import loop_hafnian_batch
from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
from pbt import calls, gen
from pbt.core import sub

P = "C36"
MAXT = 8


@contextlib.contextmanager
def schedule(threads, chunk):
    """numba's thread count and the chunk size of its parallel loops."""
    old = numba.get_num_threads()
    numba.set_num_threads(min(threads, numba.config.NUMBA_NUM_THREADS))
    oldc = numba.set_parallel_chunksize(chunk)
    try:
        yield
    finally:
        numba.set_parallel_chunksize(oldc)
        numba.set_num_threads(old)


schedules = st.lists(st.tuples(st.integers(2, MAXT), st.sampled_from([0, 0, 1, 2, 7])).map(list), min_size=2, max_size=4)


def compare(f, case, ctx, scale):
    with schedule(1, 0):
        want = np.asarray(f())
    s = max(float(np.max(np.abs(scale()))), float(np.max(np.abs(want), initial=0.0)), 1e-12)
    for t, chunk in case["plan"]:
        with schedule(t, chunk):
            for k in range(case["reps"]):
                ctx.close(f(), want, f"{case['f']} with {t} threads (chunk size {chunk}, repetition {k}) against one thread", 1e-8, 1e-8 * s, scale=s)
    ctx.label(case["f"], "threads %d" % max(t for t, _ in case["plan"]))


def common(fs, lo, hi, **more):
    return st.fixed_dictionaries(dict(f=st.sampled_from(fs), n=st.integers(lo, hi), seed=gen.seeds, plan=schedules, reps=st.integers(1, 3), glynn=st.booleans(), **more))


@sub(P, common(["hafnian", "loop_hafnian", "hafnian_repeated", "loop_hafnian_repeated", "loop_hafnian_mu"], 2, 13), quick=700, thorough=40000, threads=MAXT)
def hafnians(case, ctx):
    """(loop) hafnian and repeated variants; non-trivial: at least 8 loop steps"""
    g = calls.G(case["n"], case["seed"], "none")
    n, f, glynn = case["n"], case["f"], case["glynn"]
    if f == "hafnian":
        n += n % 2
        A = g.sym(n, "fc")
        ctx.nontrivial(n >= 8)
        return compare(lambda: tw.hafnian(A, method="glynn" if glynn else "inclexcl"), case, ctx, lambda: tw.hafnian(np.abs(A)))
    if f == "loop_hafnian":
        A = g.sym(n, "fc")
        ctx.nontrivial(n >= 8)
        return compare(lambda: tw.hafnian(A, loop=True, method="glynn" if glynn else "inclexcl"), case, ctx, lambda: tw.hafnian(np.abs(A), loop=True))
    m = 2 + n % 5
    A, D, rpt = g.sym(m, "fc"), g.vec(m, "fc"), g.reps(m, 5)
    while sum(rpt) > 14:
        rpt[int(np.argmax(rpt))] -= 1
    ctx.nontrivial(sum(rpt) >= 6)
    if f == "hafnian_repeated":
        return compare(lambda: tw.hafnian_repeated(A, rpt, glynn=glynn), case, ctx, lambda: tw.hafnian_repeated(np.abs(A), rpt))
    if f == "loop_hafnian_mu":
        return compare(lambda: tw.hafnian_repeated(A, rpt, mu=D, loop=True, glynn=glynn), case, ctx, lambda: tw.hafnian_repeated(np.abs(A), rpt, mu=np.abs(D), loop=True))
    return compare(lambda: tw.loop_hafnian(A, D, rpt, glynn=glynn), case, ctx, lambda: tw.loop_hafnian(np.abs(A).astype(complex), np.abs(D).astype(complex), rpt))


@sub(P, common(["loop_hafnian_batch", "loop_hafnian_batch_gamma"], 2, 6, cut=st.integers(1, 7), top=st.integers(2, 4)), quick=300, thorough=30000, threads=MAXT, shards=2)
def batches(case, ctx):
    """batched loop hafnians, whole output; non-trivial: three or more fixed photons and a cutoff above one"""
    g = calls.G(case["n"], case["seed"], "none")
    n = case["n"]
    A, rpt = g.sym(n, "c"), g.rng.integers(0, 1 + case["top"], n - 1)
    while rpt.sum() > 8:
        rpt[int(np.argmax(rpt))] -= 1
    D = g.vec(n, "c") if case["f"] == "loop_hafnian_batch" else g.mat(1 + case["seed"] % 4, n, "c")
    f = loop_hafnian_batch if case["f"] == "loop_hafnian_batch" else loop_hafnian_batch_gamma
    ctx.nontrivial(rpt.sum() >= 3 and case["cut"] > 1)
    ctx.label("odd" if rpt.sum() % 2 else "even")
    compare(lambda: f(A, D, rpt, case["cut"], glynn=case["glynn"]), case, ctx,
            lambda: np.max(np.abs(f(np.abs(A).astype(complex), np.abs(D).astype(complex), rpt, case["cut"]))))


@sub(P, common(["brs", "ubrs"], 1, 9, m=st.integers(1, 6)), quick=400, thorough=30000, threads=MAXT, group="pt")
def bristolians(case, ctx):
    """Bristolian and unitary Bristolian; non-trivial: five or more rows (detectors)"""
    g = calls.G(case["n"], case["seed"], "none")
    m, r = case["n"], case["m"]
    A = g.mat(m, r, "c")
    ctx.nontrivial(m >= 4)
    # |per(X)| is at most the product of the column norms, which the full matrix dominates
    if case["f"] == "ubrs":
        return compare(lambda: pm.ubrs(A), case, ctx, lambda: np.prod(np.linalg.norm(A.conj().T @ A, axis=0)))
    E = g.mat(r, r, "c")
    compare(lambda: pm.brs(A, E), case, ctx, lambda: np.prod(np.linalg.norm(A.conj().T @ A, axis=0) + np.linalg.norm(E, axis=0)))


@sub(P, common(["tor", "numba_tor", "rec", "ltor", "numba_ltor", "rec_ltor", "threshold"], 1, 8), quick=500, thorough=30000, threads=MAXT, group="pt")
def torontonians(case, ctx):
    """(loop) torontonian kernels and threshold probabilities; non-trivial: four or more modes"""
    g = calls.G(case["n"], case["seed"], "none")
    n, f = case["n"], case["f"]
    ctx.nontrivial(n >= 4)
    if f == "threshold":
        n = min(n, 6)
        mu, cov, _ = g.state(n)
        d = g.rng.integers(0, 2, n)
        return compare(lambda: tw.threshold_detection_prob(mu, cov, d, hbar=g.hb), case, ctx, lambda: 1.0)
    O = g.tor(n)
    if case["seed"] % 2:
        U = np.linalg.qr(g.mat(2 * n, 2 * n, "c"))[0]
        O = U @ np.diag(g.rng.uniform(0, 0.8, 2 * n)) @ U.conj().T
        O = (O + O.conj().T) / 2
    gamma = g.vec(2 * n, "c") * 0.3
    z = {"tor": lambda: tt.tor(O), "numba_tor": lambda: tt.numba_tor(O), "rec": lambda: tt.rec_torontonian(O), "ltor": lambda: tt.ltor(O, gamma),
         "numba_ltor": lambda: tt.numba_ltor(O, gamma), "rec_ltor": lambda: tt.rec_ltorontonian(O, gamma)}[f]
    compare(z, case, ctx, lambda: 2.0**n)


@sub(P, common(["mtl", "lmtl"], 1, 4), quick=100, thorough=4000, threads=MAXT, group="pt")
def montrealers(case, ctx):
    """(loop) Montrealer; non-trivial: three or more modes"""
    g = calls.G(case["n"], case["seed"], "none")
    n = case["n"]
    A = g.sym(2 * n, "c")
    z = g.vec(2 * n, "c")
    ctx.nontrivial(n >= 3)
    f = (lambda: tw.mtl(A)) if case["f"] == "mtl" else (lambda: tw.lmtl(A, z))
    compare(f, case, ctx, lambda: np.max(np.abs(A)) ** n)


@sub(P, st.fixed_dictionaries(dict(n=st.integers(1, 2), cut=st.integers(1, 4), seed=gen.seeds)), quick=4, thorough=150, threads=2, group="probs")
def probs(case, ctx):
    """probabilities(parallel=True) against the serial table; non-trivial: two or more table entries"""
    g = calls.G(case["n"], case["seed"], "none")
    mu, cov, _ = g.state(case["n"])
    ctx.nontrivial(case["cut"] > 1)
    ctx.close(q.probabilities(mu, cov, case["cut"], parallel=True, hbar=g.hb), q.probabilities(mu, cov, case["cut"], hbar=g.hb), "probabilities(parallel=True) against the serial table", 1e-9, 1e-11)
