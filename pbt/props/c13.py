"""C13: Fock representations of Gaussian unitaries are the true operators."""
import math

import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st

from thewalrus.quantum import fock_tensor
from thewalrus import fock_gradients as fg
from pbt import gen, oracle
from pbt.core import sub

P = "C13"


def up_to_phase(ctx, got, want, what, rtol=1e-6, atol=1e-8):
    ov = np.vdot(want, got)
    ph = ov / abs(ov) if abs(ov) > 1e-12 else 1.0
    ctx.close(got, ph * want, what, rtol, atol)


@st.composite
def case_tensor(draw):
    l = draw(st.sampled_from([2, 1, 3, 2]))
    cut = draw(st.sampled_from({1: [8, 5, 2, 1], 2: [4, 3, 5, 1], 3: [2, 3]}[l]))
    rk = draw(st.sampled_from(["generic", "zero", "partial", "equal", "generic", "strong", "faint"]))
    return dict(l=l, cut=cut, rk=rk, seed=draw(gen.seeds), uk=draw(st.sampled_from(gen.UKINDS)), vk=draw(st.sampled_from(gen.UKINDS)),
                alpha=draw(st.sampled_from(["generic", "zero", "partial", "strong", "faint"])), choi=draw(st.sampled_from([None, 0.4, 0.7, 1.2])),
                sf=draw(st.booleans()), seq=draw(st.sampled_from(["array", "list"])))


def build(c):
    rng = np.random.default_rng(c["seed"])
    l = c["l"]
    U, V = gen.unitary(l, c["uk"], c["seed"] + 1), gen.unitary(l, c["vk"], c["seed"] + 2)
    r = rng.uniform(-0.8, 0.8, l)
    if c["rk"] == "zero":
        r = 0 * r
    elif c["rk"] == "equal":
        r = np.full(l, 0.5)
    elif c["rk"] == "partial":
        r[0] = 0
    elif c["rk"] == "strong":
        r *= 2
    elif c["rk"] == "faint":
        r *= 1e-4
    a = (rng.normal(size=l) + 1j * rng.normal(size=l)) * 0.5
    if c["alpha"] == "zero":
        a = 0 * a
    elif c["alpha"] == "partial":
        a[-1] = 0
    elif c["alpha"] == "strong":
        a *= 4
    elif c["alpha"] == "faint":
        a *= 1e-4
    return U, r, V, a


@sub(P, case_tensor, quick=250, thorough=5000, group="a", shards=2)
def tensors(case, ctx):
    """fock_tensor(S, alpha) against the exact Bargmann-kernel coefficients, up to one phase; non-trivial: cutoff >= 2"""
    U, r, V, a = build(case)
    l, cut = case["l"], case["cut"]
    S = oracle.sympl_of(U, r, V)
    want = oracle.fock_unitary(U, r, V, a, (cut,) * (2 * l))
    kw = {} if case["choi"] is None else dict(choi_r=case["choi"])
    got = fock_tensor(S, a if case["seq"] == "array" else list(a), cut, sf_order=case["sf"], **kw)
    ctx.nontrivial(cut >= 2)
    passive = not np.any(r) and not np.any(a)
    ctx.label("l=%d" % l, "passive" if passive else "active", "sf" if case["sf"] else "plain", "choi=%s" % case["choi"])
    if case["sf"]:
        want = want.transpose([x for i in range(l) for x in (i, i + l)])
    up_to_phase(ctx, got, want, f"fock_tensor(l={l}, cutoff={cut}, choi_r={case['choi']}, sf_order={case['sf']})")


@st.composite
def case_dense(draw):
    return dict(l=draw(st.sampled_from([1, 2])), seed=draw(gen.seeds), r=draw(st.integers(-4, 4)) / 10, a=draw(st.integers(-4, 4)) / 10)


@sub(P, case_dense, quick=25, thorough=400, group="b")
def dense(case, ctx):
    """fock_tensor against matrix exponentials in a larger truncated space"""
    l, rng = case["l"], np.random.default_rng(case["seed"])
    K = 45 if l == 1 else 18
    a = oracle.ladder(K)
    I = np.eye(K)
    ops = [a] if l == 1 else [np.kron(a, I), np.kron(I, a)]
    U, V = gen.haar(l, rng), gen.haar(l, rng)
    r = case["r"] * np.linspace(1, 0.5, l)
    al = case["a"] * np.exp(1j * rng.uniform(0, 6, l))

    def pas(U):
        H = sla.logm(U)
        return sla.expm(sum(H[i, j] * ops[i].conj().T @ ops[j] for i in range(l) for j in range(l)))

    sq = sla.expm(sum(r[i] / 2 * (ops[i] @ ops[i] - (ops[i] @ ops[i]).conj().T) for i in range(l)))
    dis = sla.expm(sum(al[i] * ops[i].conj().T - al[i].conj() * ops[i] for i in range(l)))
    W = dis @ pas(U) @ sq @ pas(V)
    cut = 6 if l == 1 else 3
    T = W.reshape((K,) * (2 * l))[(slice(0, cut),) * (2 * l)]
    ctx.nontrivial(case["r"] != 0 or case["a"] != 0)
    ctx.label("l=%d" % l)
    up_to_phase(ctx, fock_tensor(oracle.sympl_of(U, r, V), al, cut), T, f"fock_tensor against exponentials (l={l})", 1e-4, 1e-5)


@st.composite
def case_gate(draw):
    g = draw(st.sampled_from(["displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"]))
    hi = {"displacement": 2.0, "squeezing": 1.3, "two_mode_squeezing": 1.2, "beamsplitter": 7.0, "mzgate": 7.0}[g]
    lo = -hi
    if draw(st.sampled_from([False, False, True])):
        p = draw(st.sampled_from([0.0, 0.5, 1.0, -0.7] if hi < 3 else [0.0, math.pi / 4, math.pi / 2, -math.pi, 0.5]))
        q = draw(st.sampled_from([0.0, math.pi / 2, math.pi, -1.0]))
    else:
        p = round(lo + (hi - lo) * draw(st.integers(0, 1000)) / 1000, 5)
        q = round(draw(st.integers(-6283, 6283)) / 1000, 4)
    cut = draw(st.sampled_from([5, 4, 3, 6, 1, 2] if g in ("two_mode_squeezing", "beamsplitter", "mzgate") else [9, 6, 14, 3, 1, 2, 20]))
    return dict(gate=g, p=p, q=q, cut=cut)


def gate_params(g, p, q):
    """(U, r, V, alpha, post-phase) such that the gate is D P(U) Sq(r) P(V)"""
    if g == "displacement":
        return np.eye(1), [0.0], np.eye(1), [p * np.exp(1j * q)]
    if g == "squeezing":
        # exp((z* a^2 - z a^dag^2)/2), z = p e^{iq}: rotate by q/2
        R = np.array([[np.exp(1j * q / 2)]])
        return R, [p], R.conj(), [0.0]
    if g == "two_mode_squeezing":
        # exp(p(e^{iq} a^dag b^dag - h.c.)): a 50:50 beamsplitter turns it into squeezers of opposite sign
        B = np.array([[1, -1], [1, 1]]) / np.sqrt(2)
        R = np.diag([np.exp(1j * q / 2)] * 2)
        # a^dag b^dag = (c^dag^2 - d^dag^2)/2 with (a, b) = B (c, d)
        return R @ B, [-p, p], (R @ B).conj().T, [0.0, 0.0]
    if g == "beamsplitter":
        U = np.array([[np.cos(p), -np.exp(-1j * q) * np.sin(p)], [np.exp(1j * q) * np.sin(p), np.cos(p)]])
    else:
        bs = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)
        U = bs @ np.diag([np.exp(1j * p), 1]) @ bs @ np.diag([np.exp(1j * q), 1])
    return U, [0.0, 0.0], np.eye(2), [0.0, 0.0]


@sub(P, case_gate, quick=350, thorough=8000, group="c")
def gates(case, ctx):
    """the dedicated gate matrices, phase included, against the exact coefficients; non-trivial: cutoff >= 2"""
    g, p, q, cut = case["gate"], case["p"], case["q"], case["cut"]
    U, r, V, a = gate_params(g, p, q)
    want = oracle.fock_unitary(U, r, V, a, (cut,) * (2 * len(r)))
    got = getattr(fg, g)(p, q, cut)
    ctx.nontrivial(cut >= 2)
    ctx.label(g, "cut=%d" % cut)
    ctx.close(got, want, f"{g}({p}, {q}, cutoff {cut})", 1e-7, 1e-9)
    if g in ("beamsplitter", "mzgate"):
        for n in range(cut):
            ix = [(k, n - k) for k in range(n + 1)]
            B = np.array([[got[i + j] for j in ix] for i in ix])
            ctx.close(B @ B.conj().T, np.eye(n + 1), f"{g}: block of {n} photons is unitary", 0, 1e-8)


@st.composite
def case_exp(draw):
    c = draw(case_gate())
    c["p"] = max(min(c["p"], 0.8), -0.8) if c["gate"] in ("displacement", "squeezing", "two_mode_squeezing") else c["p"]
    return c


@sub(P, case_exp, quick=40, thorough=800, group="b")
def gate_generators(case, ctx):
    """the gate matrices against the exponential of their generator in a larger truncated space"""
    g, p, q = case["gate"], case["p"], case["q"]
    one = g in ("displacement", "squeezing")
    K = 60 if one else 20
    cut = min(case["cut"], 6 if one else 3)
    a = oracle.ladder(K)
    ad = a.T
    z = np.exp(1j * q)
    if g == "displacement":
        W = sla.expm(p * (z * ad - z.conj() * a))
    elif g == "squeezing":
        W = sla.expm(p / 2 * (z.conj() * a @ a - z * ad @ ad))
    else:
        A, B = np.kron(a, np.eye(K)), np.kron(np.eye(K), a)
        if g == "two_mode_squeezing":
            # conserves n_a - n_b: exact sector by sector up to the truncation of each sector
            want = np.zeros((cut,) * 4, dtype=complex)
            for d in range(cut):
                k = np.arange(70)
                G = np.diag(np.sqrt((k[1:] + d) * k[1:]), -1).astype(complex) * z
                E = sla.expm(p * (G - G.conj().T))
                for m in range(cut - d):
                    for n in range(cut - d):
                        want[m + d, m, n + d, n] = E[m, n]
                        want[m, m + d, n, n + d] = E[m, n]
            ctx.label(g)
            ctx.close(fg.two_mode_squeezing(p, q, cut), want, f"two_mode_squeezing({p}, {q}) against exponentials", 1e-6, 1e-8)
            return
        # number conserving: restrict to total <= 2 (cut - 1)
        ix = [i * K + j for i in range(2 * cut) for j in range(2 * cut) if i + j <= 2 * (cut - 1)]
        H = (A @ B.conj().T)[np.ix_(ix, ix)]
        bs = lambda t, f: sla.expm(t * (np.exp(1j * f) * H - np.exp(-1j * f) * H.conj().T))  # noqa: E731
        nA = np.diag([i // K for i in ix])
        rot = lambda f: np.diag(np.exp(1j * f * np.diag(nA)))  # noqa: E731
        if g == "beamsplitter":
            W = bs(p, q)
        else:
            W = bs(math.pi / 4, math.pi / 2) @ rot(p) @ bs(math.pi / 4, math.pi / 2) @ rot(q)
        pos = {v: k for k, v in enumerate(ix)}
        want = np.zeros((cut,) * 4, dtype=complex)
        for m in np.ndindex(cut, cut):
            for n in np.ndindex(cut, cut):
                want[m + n] = W[pos[m[0] * K + m[1]], pos[n[0] * K + n[1]]]
        ctx.label(g)
        ctx.close(getattr(fg, g)(p, q, cut), want, f"{g}({p}, {q}) against exponentials", 1e-6, 1e-8)
        return
    ctx.label(g)
    ctx.close(getattr(fg, g)(p, q, cut), W[:cut, :cut], f"{g}({p}, {q}) against exponentials", 1e-6, 1e-7)
