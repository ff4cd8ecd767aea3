"""C25: the symplectic toolbox implements the stated phase-space maps."""
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from thewalrus import symplectic as sy
from pbt import gen, oracle
from pbt.core import sub, raises

P = "C25"

ANG = st.one_of(st.sampled_from([0.7, -1.3, np.pi / 2, np.pi / 4, 0.0, np.pi, 5.0, -np.pi / 3]), st.floats(-7, 7))
SQ = st.one_of(st.sampled_from([0.6, -0.4, 1.5, 0.0, -2.0]), st.floats(-2.5, 2.5))


def bog(al, be):
    """Quadrature matrix of a -> al a + be a^dagger."""
    al, be = np.atleast_2d(al), np.atleast_2d(be)
    return np.block([[(al + be).real, -(al - be).imag], [(al + be).imag, (al - be).real]])


def g_sq(r, phi):
    r, phi = np.atleast_1d(r), np.atleast_1d(phi)
    return bog(np.diag(np.cosh(r)), np.diag(-np.exp(1j * phi) * np.sinh(r)))


def g_tms(r, phi):
    return bog(np.cosh(r) * np.eye(2), np.exp(1j * phi) * np.sinh(r) * np.array([[0, 1], [1, 0]]))


def u_bs(t, phi):
    return np.array([[np.cos(t), -np.exp(-1j * phi) * np.sin(t)], [np.exp(1j * phi) * np.sin(t), np.cos(t)]])


def embed(S, modes, N):
    """S acts on ``modes`` in the listed order, identity elsewhere."""
    M = len(modes)
    out = np.eye(2 * N, dtype=np.result_type(S, float))
    for i, m in enumerate(modes):
        for j, k in enumerate(modes):
            for a in (0, 1):
                for b in (0, 1):
                    out[m + a * N, k + b * N] = S[i + a * M, j + b * M]
    return out


@st.composite
def case_gate(draw):
    g = draw(st.sampled_from(["two_mode_squeezing", "squeezing", "beam_splitter", "rotation", "interferometer", "sympmat", "vacuum"]))
    d = dict(g=g, dt=draw(st.sampled_from(["float64", "float64", "default", "float32"])))
    if g == "squeezing":
        n = draw(st.sampled_from([0, 1, 2, 3, 5]))  # 0: scalars
        d["r"] = draw(SQ) if n == 0 else draw(st.lists(SQ, min_size=n, max_size=n))
        d["phi"] = draw(st.sampled_from([None, 0])) if draw(st.integers(0, 3)) == 3 else (draw(ANG) if n == 0 else draw(st.lists(ANG, min_size=n, max_size=n)))
        if d["phi"] == 0:
            d["phi"] = 0.0 if n == 0 else [0.0] * n
    elif g in ("two_mode_squeezing",):
        d["r"], d["phi"] = draw(SQ), draw(ANG)
    elif g == "beam_splitter":
        d["r"], d["phi"] = draw(ANG), draw(ANG)
    elif g == "rotation":
        d["r"] = draw(ANG)
    elif g == "interferometer":
        d["n"], d["seed"], d["k"] = draw(st.integers(1, 6)), draw(gen.seeds), draw(st.sampled_from(gen.UKINDS))
    else:
        d["n"], d["hbar"] = draw(st.integers(1, 8)), draw(gen.hbars)
    return d


@sub(P, case_gate, quick=3000, thorough=60000, group="a")
def gates(case, ctx):
    """elementary gates equal the Bogoliubov maps of their definitions and are symplectic, in any floating dtype; non-trivial: parameters that do not give the identity"""
    g = case["g"]
    kw = {} if case["dt"] == "default" or g == "interferometer" else {"dtype": np.dtype(case["dt"]).type}
    ctx.label(g, case["dt"])
    tol = 2e-5 if case["dt"] == "float32" else 1e-11
    if g == "squeezing":
        phi = case["phi"]
        arr = lambda x: np.array(x) if isinstance(x, list) else x  # noqa: E731
        S = sy.squeezing(arr(case["r"]), **kw) if phi is None else sy.squeezing(arr(case["r"]), arr(phi), **kw)
        W = g_sq(case["r"], np.zeros(np.shape(case["r"])) if phi is None else phi)
    elif g == "two_mode_squeezing":
        S, W = sy.two_mode_squeezing(case["r"], case["phi"], **kw), g_tms(case["r"], case["phi"])
    elif g == "beam_splitter":
        S, W = sy.beam_splitter(case["r"], case["phi"], **kw), oracle.passive(u_bs(case["r"], case["phi"]))
    elif g == "rotation":
        S, W = sy.rotation(case["r"], **kw), oracle.passive(np.array([[np.exp(1j * case["r"])]]))
    elif g == "interferometer":
        U = gen.unitary(case["n"], case["k"], case["seed"])
        if case["k"] in ("real", "perm", "id"):
            U = U.real
        S, W = sy.interferometer(U), oracle.passive(U.astype(complex))
    elif g == "sympmat":
        S, W = sy.sympmat(case["n"], **kw), oracle.sympform(case["n"])
    else:
        mu, S = sy.vacuum_state(case["n"], hbar=case["hbar"], **kw)
        ctx.close(mu, np.zeros(2 * case["n"]), "vacuum means", 0, 0)
        W = case["hbar"] / 2 * np.eye(2 * case["n"])
    ctx.nontrivial(np.abs(W - np.eye(len(W))).max() > 1e-6)
    ctx.require(np.isrealobj(S), "complex symplectic matrix")
    s = max(1, np.abs(W).max())
    ctx.close(S, W, g, 0, tol * s)
    if g != "vacuum":
        N = len(W) // 2
        O = oracle.sympform(N)
        ctx.close(S.T @ O @ S, O, f"{g}: symplectic condition", 0, tol * s**2 * 4)
        if g in ("beam_splitter", "rotation", "interferometer", "sympmat"):
            ctx.close(S @ S.T, np.eye(2 * N), f"{g}: orthogonality", 0, tol * 4)
        ctx.require(bool(sy.is_symplectic(S, **({"atol": 1e-3} if case["dt"] == "float32" else {}))), f"is_symplectic rejects {g}")


FORMATS = ["dense", "csr_array", "csc_array", "coo_array", "dia_array", "bsr_array", "lil_array", "dok_array", "csr_matrix", "coo_matrix", "csc_matrix", "dia_matrix", "bsr_matrix"]


@st.composite
def case_exp(draw):
    N = draw(st.sampled_from([3, 2, 4, 5, 1, 7]))
    k = draw(st.sampled_from([min(2, N), 1, min(3, N), N]))
    modes = list(draw(st.permutations(list(range(N)))))[:k]
    M = k
    if k > 1 and draw(st.integers(0, 3)) == 0:
        M = 1  # one-mode gate on several modes
    return dict(N=N, modes=modes, M=M, seed=draw(gen.seeds), fmt=draw(st.sampled_from(FORMATS)), form=draw(st.sampled_from(["list", "tuple", "array", "int"])),
                dt=draw(st.sampled_from(["float64", "float64", "float32", "int"])), sparse_vals=draw(st.booleans()))


@sub(P, case_exp, quick=3000, thorough=60000, group="a")
def embedding(case, ctx):
    """expand acts on the listed modes in the listed order and as identity elsewhere, for dense and sparse gates; non-trivial: several modes out of order"""
    N, modes, M = case["N"], case["modes"], case["M"]
    rng = np.random.default_rng(case["seed"])
    S = gen.symplectic(M, case["seed"])
    if case["sparse_vals"]:
        S = g_sq(rng.uniform(-1, 1, M), np.zeros(M))
    if case["dt"] == "int":  # shears are integer symplectic matrices
        X = rng.integers(-2, 3, (M, M))
        S = np.block([[np.eye(M, dtype=int), X + X.T], [np.zeros((M, M), dtype=int), np.eye(M, dtype=int)]])
        if case["sparse_vals"]:
            S = S.T.copy()
    elif case["dt"] == "float32":
        S = S.astype(np.float32)
    form = case["form"]
    if form == "int" and len(modes) == 1:
        w = modes[0]
    else:
        w = {"tuple": tuple, "array": np.array}.get(form, list)(modes)
    ctx.label(case["fmt"], form, f"M={M}", f"on {len(modes)} modes")
    ctx.nontrivial(len(modes) > 1 and modes != sorted(modes))
    G = S if case["fmt"] == "dense" else getattr(sp, case["fmt"])(S)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = sy.expand(G, w, N)
    ctx.require(sp.issparse(got) == (case["fmt"] != "dense"), lambda: f"type {type(got)} for {case['fmt']}")
    got = got.toarray() if sp.issparse(got) else got
    if M == 1:
        want = np.eye(2 * N)
        for m in modes:
            want = embed(S, [m], N) @ want
    else:
        want = embed(S, modes, N)
    ctx.close(got, want, f"expand onto {w} of {N}", 1e-12, 1e-12)
    # and the map it describes
    v = rng.normal(size=2 * N)
    out = got @ v
    for m in set(range(N)) - set(modes):
        ctx.require(out[m] == v[m] and out[m + N] == v[m + N], f"mode {m} is not left alone")


@st.composite
def case_pas(draw):
    N = draw(st.sampled_from([3, 2, 4, 1, 6]))
    k = draw(st.sampled_from([min(2, N), 1, N, min(3, N)]))
    return dict(N=N, modes=list(draw(st.permutations(list(range(N)))))[:k], seed=draw(gen.seeds), kind=draw(st.sampled_from(["complex", "real", "lossy"])),
                form=draw(st.sampled_from(["list", "tuple", "array"])), alpha=[draw(st.sampled_from([1.5, -0.3, 0.0, 2.0])), draw(st.sampled_from([0.7, 0.0, -1.1]))],
                at=draw(st.sampled_from(["complex", "npcomplex", "float", "int", "complex64"])), hbar=draw(gen.hbars))


@sub(P, case_pas, quick=1500, thorough=30000, group="a")
def passive_embedding(case, ctx):
    """expand_passive and expand_vector put the block or displacement on the listed modes; non-trivial: several modes out of order"""
    N, modes = case["N"], case["modes"]
    rng = np.random.default_rng(case["seed"])
    T = rng.normal(size=(len(modes),) * 2)
    if case["kind"] != "real":
        T = gen.haar(len(modes), rng) * (0.6 if case["kind"] == "lossy" else 1)
    w = {"tuple": tuple, "array": np.array, "list": list}[case["form"]](modes)
    ctx.nontrivial(len(modes) > 1 and modes != sorted(modes))
    ctx.label(case["kind"], case["form"], case["at"])
    got = sy.expand_passive(T, w, N)
    want = np.eye(N, dtype=complex)
    for i, m in enumerate(modes):
        for j, k in enumerate(modes):
            want[m, k] = T[i, j]
    ctx.close(got, want, f"expand_passive onto {modes} of {N}", 0, 1e-14)
    ctx.require(isinstance(raises(sy.expand_passive, T[:, :-1], w, N), ValueError), "expand_passive accepts a matrix that is not square")
    ctx.require(isinstance(raises(sy.expand_passive, T, list(modes) + [0], N), ValueError), "expand_passive accepts the wrong number of modes")
    a = complex(*case["alpha"])
    at = case["at"]
    al = {"complex": a, "npcomplex": np.complex128(a), "float": a.real, "int": int(a.real), "complex64": np.complex64(a)}[at]
    m, hb = modes[0], case["hbar"]
    v = sy.expand_vector(al, m, N, hbar=hb)
    want = np.zeros(2 * N)
    want[m], want[m + N] = np.sqrt(2 * hb) * np.real(al), np.sqrt(2 * hb) * np.imag(al)
    ctx.close(v, want, f"expand_vector({al!r}, {m}, {N}, hbar={hb})", 1e-6 if at == "complex64" else 1e-12, 1e-12)


@st.composite
def case_ch(draw):
    s = draw(gen.state(1, 4, max_a=2.0, distinct=draw(st.booleans())))
    N = s["N"]
    return dict(s=s, mode=draw(st.integers(0, N - 1)), T=draw(st.sampled_from([0.6, 0.0, 1.0, 0.25, 0.99, 1e-7, 1 - 1e-7, 0, 1])), nbar=draw(st.sampled_from([0, 0.7, 2.5, 0.0, 1e-6, 40.0, 1000.0])),
                M=draw(st.sampled_from([N, max(1, N - 1), N + 1, 1])), tseed=draw(gen.seeds), tk=draw(st.sampled_from(["contraction", "isometry", "real", "zero", "unitary"])),
                int=draw(st.sampled_from([False, False, False, True])))


@sub(P, case_ch, quick=1500, thorough=30000, group="a")
def channels(case, ctx):
    """loss and passive_transformation equal their unitary dilations, mean_photon_number the moments of the state, and results stay physical; non-trivial: partial loss or a proper contraction"""
    mu, cov, hb = gen.mat_state(case["s"])
    gen.label_state(ctx, case["s"])
    N = case["s"]["N"]
    if case["int"]:
        cov, hb, mu = 3 * np.eye(2 * N, dtype=int), 2, np.arange(2 * N)
    m, T, nb = case["mode"], case["T"], case["nbar"]
    rng = np.random.default_rng(case["tseed"])
    ctx.label(f"T={T}", f"nbar={nb}", case["tk"], "integer arrays" if case["int"] else "floats")
    ctx.nontrivial(0 < T < 1)
    # loss: thermal environment mode N mixed in
    W = np.eye(N + 1, dtype=complex)
    W[m, m] = W[N, N] = np.sqrt(T)
    W[m, N], W[N, m] = np.sqrt(1 - T), -np.sqrt(1 - T)

    def dilate(K, nbar, mu, cov):
        """K acts on modes + environment (thermal); keep the rows of K."""
        E = K.shape[1] - len(mu) // 2
        n = len(mu) // 2
        X = oracle.passive(K)
        big = np.eye(2 * (n + E)) * hb / 2 * (2 * nbar + 1)
        ix = list(range(n)) + list(range(n + E, 2 * n + E))
        big[np.ix_(ix, ix)] = cov
        v = np.zeros(2 * (n + E))
        v[ix] = mu
        return X @ v, X @ big @ X.T

    wm, wc = dilate(W[:N], nb, mu, cov)
    args = {} if nb == 0 and case["tseed"] % 2 else {"nbar": nb}
    if hb != 2 or case["tseed"] % 3:
        args["hbar"] = hb
    m2, c2 = sy.loss(mu, cov, T, m, **args)
    s = np.abs(cov).max()
    ctx.close(m2, wm, f"loss means, T={T}, nbar={nb}, mode {m}", 1e-12, 1e-12 * np.abs(mu).max())
    ctx.close(c2, wc, f"loss covariance, T={T}, nbar={nb}, mode {m}", 1e-12, 1e-12 * (s + hb * (2 * nb + 1)))
    ctx.require(oracle.symp_eigs(c2).min() > hb / 2 * (1 - 1e-7 * max(1, s / hb)), "loss gives an unphysical state")
    # passive transformation
    M = case["M"]
    k = case["tk"]
    big = gen.haar(M + N, rng)
    if k == "unitary":
        K = np.hstack([gen.haar(N, rng), np.zeros((N, N))]) + 0j
        M = N
    elif k == "isometry" and M <= N:
        K = np.hstack([gen.haar(N, rng)[:M], np.zeros((M, M))])
    elif k == "zero":
        K = np.hstack([np.zeros((M, N)), np.eye(M)]) + 0j
    elif k == "real":
        K = gen.haar(M + N, rng, real=True)[:M] + 0j
    else:
        K = big[:M]
    wm, wc = dilate(K, 0, mu, cov)
    Tm = K[:, :N]
    if k == "real":
        Tm = Tm.real
    m2, c2 = sy.passive_transformation(mu, cov, Tm, **({} if hb == 2 else {"hbar": hb}))
    ctx.close(m2, wm, "passive_transformation means", 1e-12, 1e-12 * np.abs(mu).max())
    ctx.close(c2, wc, "passive_transformation covariance", 1e-11, 1e-11 * (s + hb))
    if N == 1:
        ex, var = sy.mean_photon_number(mu, cov, **({} if hb == 2 else {"hbar": hb}))
        n1 = oracle.moment(mu, cov, [1], hb)
        n2 = oracle.moment(mu, cov, [2], hb)
        ctx.close(ex, n1, "mean_photon_number mean", 1e-9, 1e-9)
        ctx.close(var, n2 - n1**2, "mean_photon_number variance", 1e-8, 1e-8 * max(1, n2))


@st.composite
def case_ord(draw):
    return dict(N=draw(st.integers(1, 8)), seed=draw(gen.seeds), dt=draw(st.sampled_from(["f", "c", "i"])), nd=draw(st.sampled_from([1, 2])), layout=draw(st.sampled_from(["C", "F", "view"])))


@sub(P, case_ord, quick=600, thorough=10000, group="a")
def orderings(case, ctx):
    """xxpp_to_xpxp and xpxp_to_xxpp move x_i to 2i and p_i to 2i+1 and are inverse; non-trivial: N >= 3 (not an involution)"""
    N = case["N"]
    rng = np.random.default_rng(case["seed"])
    A = rng.permutation((2 * N) ** case["nd"]).reshape((2 * N,) * case["nd"])
    A = {"f": A.astype(float), "c": A * 1j + rng.normal(size=A.shape), "i": A}[case["dt"]]
    if case["layout"] == "F":
        A = np.asfortranarray(A)
    elif case["layout"] == "view":
        A = A[::-1] if case["nd"] == 1 else A[::-1, ::-1]
    ctx.nontrivial(N > 2)
    ctx.label(f"ndim={case['nd']}", case["dt"])
    pos = [2 * i for i in range(N)] + [2 * i + 1 for i in range(N)]  # position of the xxpp index in xpxp
    want = np.empty_like(A)
    back = np.empty_like(A)
    for i in range(2 * N):
        if case["nd"] == 1:
            want[pos[i]] = A[i]
            back[i] = A[pos[i]]
        else:
            for j in range(2 * N):
                want[pos[i], pos[j]] = A[i, j]
                back[i, j] = A[pos[i], pos[j]]
    ctx.close(sy.xxpp_to_xpxp(A), want, "xxpp_to_xpxp", 0, 0)
    ctx.close(sy.xpxp_to_xxpp(A), back, "xpxp_to_xxpp", 0, 0)
    ctx.close(sy.xpxp_to_xxpp(sy.xxpp_to_xpxp(A)), A, "round trip", 0, 0)
    ctx.close(sy.xxpp_to_xpxp(sy.xpxp_to_xxpp(A)), A, "reverse round trip", 0, 0)
    for f in (sy.xxpp_to_xpxp, sy.xpxp_to_xxpp):
        ctx.require(isinstance(raises(f, np.zeros(2 * N + 1)), ValueError), "odd vectors are accepted")
        ctx.require(isinstance(raises(f, np.zeros((2 * N, 2 * N + 2))), ValueError), "non-square matrices are accepted")


@st.composite
def case_issy(draw):
    return dict(N=draw(st.integers(1, 5)), seed=draw(gen.seeds), kind=draw(st.sampled_from(["yes", "scaled", "perturbed", "nonsquare", "odd", "ordering", "sign"])))


@sub(P, case_issy, quick=600, thorough=10000, group="a")
def recognised(case, ctx):
    """is_symplectic accepts symplectic matrices and nothing else; non-trivial: a matrix that fails it"""
    N = case["N"]
    rng = np.random.default_rng(case["seed"])
    S = gen.symplectic(N, case["seed"], max_r=1.2)
    k = case["kind"]
    ctx.label(k)
    want = False
    if k == "yes":
        want = True
    elif k == "scaled":
        S = S * 1.02
    elif k == "perturbed":
        D = rng.normal(size=S.shape)
        S = S + 0.05 * D
    elif k == "nonsquare":
        S = S[:, :-1] if rng.random() < 0.5 else S[:-1]
    elif k == "odd":
        S = np.eye(2 * N + 1)
    elif k == "ordering":
        S = sy.xxpp_to_xpxp(S)
    else:
        S = S @ np.diag(np.where(np.arange(2 * N) < N, -1.0, 1.0))
    if S.shape[0] == S.shape[1] and len(S) % 2 == 0:
        O = oracle.sympform(N)
        dev = np.abs(S.T @ O @ S - O).max()
        if k != "yes" and dev < 1e-2:
            want = bool(dev < 1e-9)
            if not want:
                return
    ctx.nontrivial(not want)
    ctx.require(bool(sy.is_symplectic(S)) is want, lambda: f"is_symplectic returned {not want} for a {k} matrix")


OPS = ["bs", "sq", "disp", "loss", "tms", "rot", "int", "passive"]


@st.composite
def case_circ(draw):
    N = draw(st.sampled_from([3, 2, 4, 1]))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.sampled_from(OPS))
        k = 2 if o in ("bs", "tms") else (draw(st.integers(1, N)) if o == "int" else 1)
        if k > N:
            o, k = "rot", 1
        ops.append([o, list(draw(st.permutations(list(range(N)))))[:k], draw(st.sampled_from([0.6, -0.9, 0.3, 1.1])), draw(ANG)])
    return dict(N=N, ops=ops, hbar=draw(gen.hbars))


@sub(P, case_circ, quick=1200, thorough=25000, group="a")
def circuits(case, ctx):
    """histories of gates, displacements and losses applied through the library equal an independent ladder-operator simulation and stay physical; non-trivial: at least three operations including a two-mode one"""
    N, hb = case["N"], case["hbar"]
    mu, cov = sy.vacuum_state(N, hbar=hb)
    # reference: a_out = A a + B a^dag + C e + D e^dag with vacuum environment; kept as covariance of (a, a^dag)
    amp = np.zeros(N, complex)
    Nn = np.zeros((N, N), complex)  # <da_i^dag da_j>
    Mm = np.zeros((N, N), complex)  # <da_i da_j>
    pure = True

    def bogo(al, be):
        nonlocal amp, Nn, Mm
        a, ad = al, be
        # full second moments of z = (a, a^dag): G_ij = <z_i^dag z_j>
        G = np.block([[Nn, Mm.conj()], [Mm, Nn.T + np.eye(N)]])
        Z = np.block([[a, ad], [ad.conj(), a.conj()]])
        G = Z.conj() @ G @ Z.T
        Nn, Mm = G[:N, :N], G[N:, :N]
        amp = a @ amp + ad @ amp.conj()

    for o, w, r, phi in case["ops"]:
        al, be = np.eye(N, dtype=complex), np.zeros((N, N), complex)
        S = None
        if o == "bs":
            S = sy.beam_splitter(r, phi)
            al[np.ix_(w, w)] = u_bs(r, phi)
        elif o == "tms":
            S = sy.two_mode_squeezing(r, phi)
            al[w, w] = np.cosh(r)
            be[w[0], w[1]] = be[w[1], w[0]] = np.exp(1j * phi) * np.sinh(r)
        elif o == "sq":
            S = sy.squeezing(r, phi)
            al[w[0], w[0]], be[w[0], w[0]] = np.cosh(r), -np.exp(1j * phi) * np.sinh(r)
        elif o == "rot":
            S = sy.rotation(phi)
            al[w[0], w[0]] = np.exp(1j * phi)
        elif o == "int":
            U = gen.haar(len(w), np.random.default_rng(int(abs(phi) * 1000)))
            S = sy.interferometer(sy.expand_passive(U, w, N))
            al[np.ix_(w, w)] = U
            w = None
        if S is not None:
            E = S if w is None else sy.expand(S, w if len(w) > 1 else w[0], N)
            mu, cov = E @ mu, E @ cov @ E.T
            bogo(al, be)
        elif o == "disp":
            a = r * np.exp(1j * phi)
            mu = mu + sy.expand_vector(a, w[0], N, hbar=hb).real
            amp = amp.copy()
            amp[w[0]] += a
        else:
            T, nb = min(abs(r), 1.0), (abs(phi) if o == "loss" else 0.0)
            pure = False
            if o == "loss":
                mu, cov = sy.loss(mu, cov, T, w[0], nbar=nb, hbar=hb)
            else:
                mu, cov = sy.passive_transformation(mu, cov, sy.expand_passive(np.array([[np.sqrt(T)]]), w, N), hbar=hb)
            t = np.ones(N)
            t[w[0]] = np.sqrt(T)
            amp = amp * t
            Nn, Mm = Nn * np.outer(t, t), Mm * np.outer(t, t)
            Nn[w[0], w[0]] += (1 - T) * nb
    ctx.label(*sorted({o[0] for o in case["ops"]}))
    ctx.nontrivial(len(case["ops"]) > 2 and any(o[0] in ("bs", "tms", "int") for o in case["ops"]))
    # x = sqrt(hb/2)(a + a^dag), p = -i sqrt(hb/2)(a - a^dag)
    xx = 2 * Nn.real + 2 * Mm.real + np.eye(N)
    pp = 2 * Nn.real - 2 * Mm.real + np.eye(N)
    xp = 2 * Mm.imag + 2 * Nn.imag
    want = hb / 2 * np.block([[xx, xp], [xp.T, pp]])
    s = np.abs(want).max()
    ctx.close(mu, np.sqrt(2 * hb) * np.concatenate([amp.real, amp.imag]), "means after the circuit", 1e-8, 1e-8 * max(1, np.abs(mu).max()))
    ctx.close(cov, want, "covariance after the circuit", 1e-8, 1e-8 * max(s, hb))
    nu = oracle.symp_eigs((cov + cov.T) / 2) * 2 / hb
    if s / hb < 1e3:
        ctx.require(nu.min() > 1 - 1e-5, lambda: f"unphysical state after the circuit: {nu}")
        if pure:
            ctx.require(nu.max() < 1 + 1e-5, lambda: f"mixed state after unitary gates: {nu}")
