"""C09: montrealers equal their combinatorial definition."""
import numpy as np
from hypothesis import strategies as st

from thewalrus import mtl, lmtl
from thewalrus.reference import mtl as mtl_ref
from pbt import gen, oracle
from pbt.core import sub

P = "C09"


def walks(A, w=None):
    """(cycles, paths): sums over alternating Hamiltonian cycles and weighted paths through all modes.

    Mode m has half-edges m and m+n. A walk visits every mode once, entering by one half and leaving by
    the other; consecutive modes contribute A[out, in]; a path's two free halves contribute w.
    """
    A = np.asarray(A)
    n = len(A) // 2
    other = lambda h: (h + n) % (2 * n)  # noqa: E731
    full = (1 << n) - 1

    def run(start):
        """{(visited, out half): sum of products}, starting by entering at half `start` with weight 1"""
        cur = {(1 << (start % n), other(start)): 1.0 + 0j}
        for _ in range(n - 1):
            nxt = {}
            for (s, o), v in cur.items():
                for h in range(2 * n):
                    b = 1 << (h % n)
                    if not s & b:
                        k = (s | b, other(h))
                        nxt[k] = nxt.get(k, 0) + v * A[o, h]
            cur = nxt
        return cur

    cyc = sum(v * A[o, 0] for (s, o), v in run(0).items() if s == full)
    # cycles through half 0 entering: each undirected cycle counted once per direction that enters at 0 -> once
    if n == 1:
        cyc = A[1, 0]
    path = 0
    if w is not None:
        for h in range(2 * n):
            path += w[h] * sum(v * w[o] for (_, o), v in run(h).items())
        path = path / 2
    return cyc, path


@st.composite
def case(draw, lo=1, hi=5):
    n = draw(st.sampled_from(list(range(lo, hi + 1))))
    return dict(n=n, A=draw(gen.sym(2 * n, 2 * n, kinds=["dense", "explicit", "sparse", "lowrank", "offdiag", "const"], dts="fc")),
                z=draw(gen.vec(n, dts="c")), state=draw(st.booleans()), s=draw(gen.state(n, n, max_a=1.0)), layout=draw(st.sampled_from("CF")))


def inputs(c):
    n = c["n"]
    z = gen.mat_vec(c["z"]).astype(complex)
    if c["state"]:
        _, cov, hb = gen.mat_state(c["s"])
        R = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2 * hb)
        S = R @ cov @ R.conj().T - np.eye(2 * n) / 2
        A = np.vstack([S[n:], S[:n]])
        A = (A + A.T) / 2
    else:
        A = gen.mat_sym(c["A"])
    return gen.layout(np.array(A), c["layout"]), np.concatenate([z, z.conj()])


@sub(P, case, quick=300, thorough=6000, group="a")
def fast(case, ctx):
    """mtl and lmtl against the walk sum; non-trivial: n >= 2"""
    A, zeta = inputs(case)
    n = case["n"]
    ctx.nontrivial(n >= 2)
    ctx.label("n=%d" % n, "state" if case["state"] else "matrix", str(A.dtype))
    B = np.abs(A) + np.abs(A).mean() + 1e-12
    cyc, path = walks(A, zeta.conj())
    mag, magp = map(abs, walks(B, np.abs(zeta) + np.abs(zeta).mean()))
    mag *= 4**n
    ctx.close(mtl(A), cyc, f"mtl, n={n}", 1e-9, 1e-9, mag)
    zc = zeta if A.dtype == complex else zeta.real
    if A.dtype != complex:
        cyc, path = walks(A, zc)
    ctx.close(lmtl(A, zc), cyc + path, f"lmtl, n={n}", 1e-9, 1e-9, mag + 4**n * magp)


@sub(P, lambda: case(1, 4), quick=120, thorough=2500, group="a")
def reference(case, ctx):
    """the brute-force reference (loops on the diagonal) against the walk sum"""
    A, zeta = inputs(case)
    n = case["n"]
    A = np.array(A, dtype=complex)
    np.fill_diagonal(A, zeta.conj())
    ctx.nontrivial(n >= 2)
    ctx.label("n=%d" % n)
    cyc, path = walks(A, zeta.conj())
    ctx.close(mtl_ref(A), cyc, f"reference mtl, n={n}", 1e-9, 1e-9, abs(walks(np.abs(A))[0]))
    m = sum(map(abs, walks(np.abs(A), np.abs(zeta))))
    ctx.close(mtl_ref(A, loop=True), cyc + path, f"reference mtl with loops, n={n}", 1e-9, 1e-9, m)


@st.composite
def case_inv(draw):
    c = draw(case(2, 5))
    return dict(c, p=draw(st.permutations(list(range(c["n"])))), cut=draw(st.integers(1, c["n"] - 1)))


@sub(P, case_inv, quick=150, thorough=3000, group="a")
def invariance(case, ctx):
    """mode relabelling leaves mtl/lmtl unchanged; independent groups of modes give zero"""
    A, zeta = inputs(case)
    A = np.array(A, dtype=complex)
    n, p = case["n"], case["p"]
    ix = list(p) + [k + n for k in p]
    B = np.abs(A) + np.abs(A).mean() + 1e-12
    m = (sum(map(abs, walks(B, np.abs(zeta) + 1)))) * 4**n
    ctx.nontrivial(p != sorted(p))
    ctx.close(mtl(A[np.ix_(ix, ix)]), mtl(A), "mtl of relabelled modes", 1e-9, 1e-9, m)
    ctx.close(lmtl(A[np.ix_(ix, ix)], zeta[ix]), lmtl(A, zeta), "lmtl of relabelled modes", 1e-9, 1e-9, m)
    grp = np.array([int(k % n in p[: case["cut"]]) for k in range(2 * n)])
    D = A * (grp[:, None] == grp[None, :])
    ctx.close(mtl(D), 0, "mtl of independent groups", 1e-9, 1e-9, m)
    ctx.close(lmtl(D, zeta), 0, "lmtl of independent groups", 1e-9, 1e-9, m)


@sub(P, lambda: case(6, 8), quick=14, thorough=400, group="a")
def many_modes(case, ctx):
    """six to eight modes against the walk sum; non-trivial: always"""
    A, zeta = inputs(case)
    n = case["n"]
    ctx.nontrivial(True)
    ctx.label("n=%d" % n, "state" if case["state"] else "matrix", str(A.dtype))
    mag = 4**n * abs(walks(np.abs(A) + np.abs(A).mean() + 1e-12)[0])
    ctx.close(mtl(A), walks(A)[0], f"mtl, n={n}", 1e-9, 1e-9, mag)
    if n < 8:
        z = zeta if A.dtype == complex else zeta.real
        B = np.abs(A) + np.abs(A).mean() + 1e-12
        m = sum(map(abs, walks(B, np.abs(z) + np.abs(z).mean()))) * 4**n
        ctx.close(lmtl(A, z), sum(walks(A, z.conj())), f"lmtl, n={n}", 1e-9, 1e-9, m)
