"""C39: independent parts factorise (product states, block matrices)."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import block_diag

import thewalrus as tw
import thewalrus._permanent as pm
from thewalrus import charpoly as cp, quantum as q
from thewalrus.decompositions import symplectic_eigenvals
from thewalrus.loop_hafnian_batch import loop_hafnian_batch
from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
from pbt import gen, oracle
from pbt.core import sub

P = "C39"


# ------------------------------------------------------------------ product states

@st.composite
def parts(draw, max_modes=5, pure=None, displaced=None, max_part=2, min_parts=2, max_r=0.8, max_a=0.8):
    hb = draw(gen.hbars)
    k = draw(st.integers(min_parts, max(min_parts, max_modes // 2 + 1)))
    pure = draw(st.sampled_from([False, True, False])) if pure is None else pure
    disp = draw(st.sampled_from([True, False])) if displaced is None else displaced
    out, N = [], 0
    for _ in range(k):
        hi = min(max_part, max_modes - N)
        if hi < 1:
            break
        s = draw(gen.state(1, hi, hbar=hb, pure=pure or draw(st.sampled_from([False, False, True])),
                           displaced=disp and draw(st.sampled_from([True, True, False])), max_r=max_r, max_a=max_a))
        out.append(s)
        N += s["N"]
    return dict(parts=out, N=N, order=draw(st.permutations(list(range(N)))), pure=pure, hbar=hb)


def assemble(c):
    """(mu, cov, hbar) of the product, [(mu, cov)] and the modes of each part."""
    ms = [gen.mat_state(p) for p in c["parts"]]
    N, order = c["N"], list(c["order"])
    mu, cov = np.zeros(2 * N), np.zeros((2 * N, 2 * N))
    where, k = [], 0
    for (m, V, _), p in zip(ms, c["parts"]):
        w = [order[k + i] for i in range(p["N"])]
        k += p["N"]
        ix = np.array(w + [N + i for i in w])
        mu[ix] = m
        cov[np.ix_(ix, ix)] = V
        where.append(w)
    return mu, cov, c["hbar"], [(m, V) for m, V, _ in ms], where


def lab(ctx, c, extra=True):
    ctx.label(f"N={c['N']}", f"parts={len(c['parts'])}", "pure" if c["pure"] else "mixed", "hbar=2" if c["hbar"] == 2 else "hbar!=2")
    ctx.nontrivial(extra and len(c["parts"]) > 1 and c["N"] > 2)


def outer(tensors, where, N, copies=1):
    """Outer product of the tensors of the parts, with the axes in the order of the modes (``copies`` axes per mode)."""
    T, ax = np.ones(()), []
    for t, w in zip(tensors, where):
        T = np.multiply.outer(T, t)
        ax += [copies * m + i for m in w for i in range(copies)]
    return np.transpose(T, np.argsort(ax))


@st.composite
def case_tensor(draw):
    c = draw(parts(max_modes=4))
    c["cut"] = draw(st.sampled_from([3, 2, 4] if c["N"] < 4 else [2, 3]))
    c["n2"] = draw(st.booleans())
    return c


@sub(P, case_tensor, quick=500, thorough=12000, group="a")
def tensors(case, ctx):
    """probabilities, density_matrix and state_vector of a product state are outer products; non-trivial: three or more modes"""
    mu, cov, hb, ps, where = assemble(case)
    N, cut = case["N"], case["cut"]
    lab(ctx, case)
    got = q.probabilities(mu, cov, cut, hbar=hb)
    ctx.close(got, outer([q.probabilities(m, V, cut, hbar=hb) for m, V in ps], where, N), "probabilities of a product state", 1e-7, 1e-10)
    if cut ** (2 * N) <= 5000:
        got = q.density_matrix(mu, cov, cutoff=cut, hbar=hb)
        ctx.close(got, outer([q.density_matrix(m, V, cutoff=cut, hbar=hb) for m, V in ps], where, N, 2), "density_matrix of a product state", 1e-7, 1e-10)
    if case["pure"]:
        got = q.state_vector(mu, cov, cutoff=cut, hbar=hb)
        ctx.close(got, outer([q.state_vector(m, V, cutoff=cut, hbar=hb) for m, V in ps], where, N), "state_vector of a product state", 1e-7, 1e-9)
        # conditioning on some parts leaves the others in their state
        k = int(np.argmax([len(w) for w in where]))
        ix = {m: (i + k) % cut for i, m in enumerate(sorted(set(range(N)) - set(where[k])))}
        if ix:
            n = sorted(ix)
            amp = q.pure_state_amplitude(np.concatenate([mu[n], mu[[N + i for i in n]]]), cov[np.ix_(n + [N + i for i in n], n + [N + i for i in n])], [ix[i] for i in n], hbar=hb)
            got = q.state_vector(mu, cov, post_select=ix, cutoff=cut, hbar=hb)
            want = amp * np.transpose(q.state_vector(*ps[k], cutoff=cut, hbar=hb), np.argsort(where[k]))
            ctx.close(got, want, "post-selected state_vector of a product state", 1e-7, 1e-9)


@st.composite
def case_el(draw):
    c = draw(parts(max_modes=8, max_part=draw(st.sampled_from([1, 2, 3])), max_r=1.2, max_a=1.5))
    N = c["N"]
    hi = draw(st.sampled_from([1, 2, 4] if N <= 4 else [1, 2]))
    c["i"] = draw(st.lists(st.integers(0, hi), min_size=N, max_size=N))
    c["j"] = c["i"] if draw(st.sampled_from([True, False])) else draw(st.lists(st.integers(0, hi), min_size=N, max_size=N))
    c["d"] = draw(st.lists(st.integers(0, 1), min_size=N, max_size=N))
    return c


def take(x, w):
    return [x[i] for i in w]


@sub(P, case_el, quick=700, thorough=20000, group="a")
def elements(case, ctx):
    """pure_state_amplitude, density_matrix_element and threshold_detection_prob of up to eight modes; non-trivial: at least one photon and three modes"""
    mu, cov, hb, ps, where = assemble(case)
    i, j, d = case["i"], case["j"], case["d"]
    lab(ctx, case, sum(i) > 0)
    if np.prod([k + 1.0 for k in i + j]) <= 20000:
        f = lambda m, V, a, b: q.density_matrix_element(m, V, a, b, hbar=hb)  # noqa: E731
        want = np.prod([f(m, V, take(i, w), take(j, w)) for (m, V), w in zip(ps, where)])
        ctx.close(f(mu, cov, i, j), want, f"density_matrix_element({i}, {j}) of a product state", 1e-6, 1e-9 * abs(q.density_matrix_element(mu, cov, [0] * case["N"], [0] * case["N"], hbar=hb)) + 1e-12)
    if case["pure"] and np.prod([k + 1.0 for k in i]) <= 20000:
        want = np.prod([q.pure_state_amplitude(m, V, take(i, w), hbar=hb) for (m, V), w in zip(ps, where)])
        ctx.close(q.pure_state_amplitude(mu, cov, i, hbar=hb), want, f"pure_state_amplitude({i}) of a product state", 1e-6, 1e-10)
    want = np.prod([tw.threshold_detection_prob(m, V, take(d, w), hbar=hb) for (m, V), w in zip(ps, where)])
    ctx.close(tw.threshold_detection_prob(mu, cov, d, hbar=hb), want, f"threshold_detection_prob({d}) of a product state", 1e-6, 1e-9)


@st.composite
def case_mom(draw):
    c = draw(parts(max_modes=6, max_part=3))
    N = c["N"]
    c["modes"] = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=3, unique=True))
    c["pw"] = draw(st.lists(st.integers(1, 2), min_size=3, max_size=3))
    c["rpt"] = draw(st.lists(st.integers(0, 1), min_size=2 * N, max_size=2 * N))
    c["s"] = draw(st.sampled_from([0, 1, -1, 0.5]))
    return c


@sub(P, case_mom, quick=500, thorough=12000, group="b")
def moments(case, ctx):
    """photon-number and click statistics: products, sums and vanishing joint cumulants; non-trivial: three or more modes"""
    mu, cov, hb, ps, where = assemble(case)
    N, modes = case["N"], case["modes"]
    lab(ctx, case)
    flat = [m for w in where for m in w]
    inv = np.argsort(flat)
    mean = np.concatenate([q.photon_number_mean_vector(m, V, hbar=hb) for m, V in ps])[inv]
    ctx.close(q.photon_number_mean_vector(mu, cov, hbar=hb), mean, "mean photon numbers", 1e-9, 1e-10)
    covm = block_diag(*[q.photon_number_covmat(m, V, hbar=hb) for m, V in ps])[np.ix_(inv, inv)]
    ctx.close(q.photon_number_covmat(mu, cov, hbar=hb), covm, "photon-number covariance matrix", 1e-8, 1e-9)
    loc = [([w.index(m) for m in modes if m in w], [p for m, p in zip(modes, case["pw"]) if m in w]) for w in where]
    many = sum(bool(a) for a, _ in loc) > 1
    ctx.label("modes of several parts" if many else "modes of one part")
    for f in (q.photon_number_expectation, q.photon_number_squared_expectation):
        want = np.prod([f(m, V, a, hbar=hb) for (m, V), (a, _) in zip(ps, loc) if a])
        ctx.close(f(mu, cov, modes, hbar=hb), want, f"{f.__name__} of modes {modes}", 1e-7, 1e-8)
    ind = dict(zip(modes, case["pw"]))
    want = np.prod([q.photon_number_moment(m, V, dict(zip(a, p)), hbar=hb) for (m, V), (a, p) in zip(ps, loc) if a])
    ctx.close(q.photon_number_moment(mu, cov, ind, hbar=hb), want, f"photon_number_moment {ind}", 1e-7, 1e-8)
    if many:
        rep = [m for m, p in zip(modes, case["pw"]) for _ in range(p)][:4]
        if len({next(i for i, w in enumerate(where) if m in w) for m in rep}) > 1:
            got = q.photon_number_cumulant(mu, cov, rep, hbar=hb)
            ctx.close(got, 0, f"photon_number_cumulant of modes {rep} of several parts", 0, 1e-8 * (1 + q.photon_number_moment(mu, cov, {m: rep.count(m) for m in rep}, hbar=hb)) * 10)
    if not mu.any():
        ctx.close(q.mean_clicks(cov, hbar=hb), sum(q.mean_clicks(V, hbar=hb) for _, V in ps), "mean_clicks", 1e-8)
        ctx.close(q.variance_clicks(cov, hbar=hb), sum(q.variance_clicks(V, hbar=hb) for _, V in ps), "variance_clicks", 1e-7, 1e-8)
    if len(modes) > 1 and not mu.any():
        got = q.click_cumulant(mu, cov, modes, hbar=hb)
        want = 0.0 if many else q.click_cumulant(*next((p for p, (a, _) in zip(ps, loc) if a)), [a for a, _ in loc if a][0], hbar=hb)
        ctx.close(got, want, f"click_cumulant of modes {modes}", 1e-7, 1e-9)
    rpt = case["rpt"]
    if sum(rpt) <= 8:
        pc = [[rpt[m] for m in w] + [rpt[N + m] for m in w] for w in where]
        for s in (1, case["s"]):
            if s == 1:
                f = lambda m, V, r: q.normal_ordered_expectation(m, V, r, hbar=hb)  # noqa: E731
            else:
                f = lambda m, V, r: q.s_ordered_expectation(m, V, r, hbar=hb, s=s)  # noqa: E731
            want = np.prod([f(m, V, r) for (m, V), r in zip(ps, pc)])
            ctx.close(f(mu, cov, rpt), want, f"{s}-ordered expectation of {rpt}", 1e-7, 1e-8)


def case_glob():
    return parts(max_modes=6, max_part=3, max_r=1.0)


@sub(P, case_glob, quick=500, thorough=12000, group="b")
def information(case, ctx):
    """entropies and symplectic eigenvalues add up, no entanglement across the cut, fidelities multiply; non-trivial: three or more modes"""
    mu, cov, hb, ps, where = assemble(case)
    N = case["N"]
    lab(ctx, case)
    ctx.close(np.sort(symplectic_eigenvals(cov)), np.sort(np.concatenate([symplectic_eigenvals(V) for _, V in ps])), "symplectic eigenvalues", 1e-6, 1e-8)
    ctx.close(q.vonneumann_entropy(cov, hbar=hb), sum(q.vonneumann_entropy(V, hbar=hb) for _, V in ps), "von Neumann entropy", 1e-6, 1e-5)
    w = where[0]
    if len(ps) > 1:
        ctx.close(q.log_negativity(cov, modes_A=w, hbar=hb), 0, f"log_negativity between {w} and the rest", 0, 1e-5)
        if case["pure"]:
            ctx.close(q.entanglement_entropy(cov, modes_A=w, hbar=hb), 0, f"entanglement entropy between {w} and the rest", 0, 1e-4)
    # a bipartition that cuts some of the parts
    A = [w[0] for w in where if len(w) > 1]
    if A and len(A) < N:
        big = [(V, w) for (_, V), w in zip(ps, where) if len(w) > 1]
        ctx.label("cut through parts")
        ctx.close(q.log_negativity(cov, modes_A=A, hbar=hb), sum(q.log_negativity(V, modes_A=[0], hbar=hb) for V, _ in big), f"log_negativity between {A} and the rest", 1e-5, 1e-5)
        if case["pure"]:
            ctx.close(q.entanglement_entropy(cov, modes_A=A, hbar=hb), sum(q.entanglement_entropy(V, modes_A=[0], hbar=hb) for V, _ in big), f"entanglement entropy between {A} and the rest", 1e-5, 1e-4)
    # another product state: each part rotated, squeezed or displaced a little differently
    rng = np.random.default_rng(case["N"] * 7 + len(case["parts"]))
    oth = []
    for m, V in ps:
        S = gen.symplectic(len(m) // 2, int(rng.integers(2**31)), 0.3)
        oth.append((S @ m + rng.normal(size=len(m)) * 0.1, S @ V @ S.T))
    c2 = np.zeros_like(cov)
    m2 = np.zeros_like(mu)
    for (m, V), w in zip(oth, where):
        ix = np.array(w + [N + i for i in w])
        m2[ix], c2[np.ix_(ix, ix)] = m, V
    if not case["pure"]:
        f = lambda a, b, c, d: q.fidelity(a, b, c, d, hbar=hb)  # noqa: E731
        want = np.prod([f(m, V, m1, V1) for (m, V), (m1, V1) in zip(ps, oth)])
        ctx.close(f(mu, cov, m2, (c2 + c2.T) / 2), want, "fidelity of product states", 1e-4, 1e-4)
    for f in (q.is_valid_cov, q.is_pure_cov):
        ctx.require(bool(f(cov, hbar=hb)) == all(f(V, hbar=hb) for _, V in ps), lambda: f"{f.__name__} of a product state is not that of its parts")
    if case["pure"] and not mu.any():
        got = q.pure_state_distribution(cov, cutoff=20, hbar=hb)
        want = np.array([1.0])
        for _, V in ps:
            want = np.convolve(want, q.pure_state_distribution(V, cutoff=20, hbar=hb))[:20]
        ctx.close(got, want, "pure_state_distribution is the convolution of those of the parts", 1e-6, 1e-6)


# ------------------------------------------------------------------ block matrices

@st.composite
def case_blocks(draw):
    k = draw(st.sampled_from([2, 3]))
    n = draw(st.lists(st.sampled_from([2, 1, 3, 4]), min_size=k, max_size=k))
    return dict(n=n, seed=draw(gen.seeds), dt=draw(st.sampled_from(["f", "c", "i"])), order=draw(st.permutations(list(range(sum(n))))),
                hi=draw(st.sampled_from([1, 2, 3])), cut=draw(st.sampled_from([2, 3])), weak=draw(st.sampled_from([0, 0, 0, 1])))


def blocks(c, dt=None, pos=False):
    rng = np.random.default_rng(c["seed"])
    dt = dt or c["dt"]
    Bs, gs = [], []
    for n in c["n"]:
        A = gen._vals(rng, (n, n), dt, 1.0)
        if pos:
            A = rng.normal(size=(2 * n, 2 * n)) + (1j * rng.normal(size=(2 * n, 2 * n)) if dt == "c" else 0)
            A = A @ A.conj().T
            A = A / (1.3 * np.linalg.norm(A, 2))
        else:
            A = np.triu(A) + np.triu(A, 1).T
        Bs.append(A)
        gs.append(gen._vals(rng, len(A), dt, 1.0))
    order = np.array(c["order"])
    ix, k = [], 0
    for n in c["n"]:
        ix.append(order[k: k + n])
        k += n
    n = k
    A = np.zeros((2 * n if pos else n,) * 2, dtype=Bs[0].dtype)
    g = np.zeros(len(A), dtype=gs[0].dtype)
    for B, v, w in zip(Bs, gs, ix):
        w = np.concatenate([w, w + n]) if pos else w
        A[np.ix_(w, w)] = B
        g[w] = v
    return A, g, Bs, gs, ix, rng


@sub(P, case_blocks, quick=900, thorough=25000, group="c")
def hafnians(case, ctx):
    """hafnians, permanents, characteristic polynomials and Hermite tensors of block matrices; non-trivial: three or more rows and a non-zero value"""
    A, g, Bs, gs, ix, rng = blocks(case)
    n = len(A)
    rpt = rng.integers(0, case["hi"] + 1, n)
    s = max(1.0, np.abs(A).max()) ** (n / 2)
    AL = A.copy()
    np.fill_diagonal(AL, g)
    BL = []
    for B, v in zip(Bs, gs):
        B = B.copy()
        np.fill_diagonal(B, v)
        BL.append(B)
    want = np.prod([oracle.haf(B, loop=True) for B in BL])
    ctx.nontrivial(n > 2 and abs(want) > 1e-9)
    ctx.label(f"n={n}", case["dt"], f"blocks={len(Bs)}")
    t = dict(rtol=1e-8, atol=1e-8 * s)
    for kw in ({"method": "recursive"}, {"method": "glynn"}, {"method": "inclexcl"}):
        ctx.close(tw.hafnian(A, **kw), np.prod([tw.hafnian(B, **kw) for B in Bs]), f"hafnian {kw} of a block matrix", **t)
        ctx.close(tw.hafnian(AL, loop=True, **kw), np.prod([tw.hafnian(B, loop=True, **kw) for B in BL]), f"loop hafnian {kw} of a block matrix", **t)
    for loop, M, Ms in ((False, A, Bs), (True, AL, BL)):
        ctx.close(tw.hafnian_sparse(M, loop=loop), np.prod([tw.hafnian_sparse(B, loop=loop) for B in Ms]), f"hafnian_sparse (loop={loop}) of a block matrix", **t)
        ctx.close(tw.hafnian_banded(M, loop=loop), np.prod([tw.hafnian_banded(B, loop=loop) for B in Ms]), f"hafnian_banded (loop={loop}) of a block matrix", **t)
    if np.prod(rpt + 1.0) < 5000:
        for loop in (False, True):
            f = lambda M, v, r: tw.hafnian_repeated(M, list(r), mu=v if loop else None, loop=loop)  # noqa: E731
            sc = np.abs(oracle.rep_haf(np.abs(A), [int(k) for k in rpt], np.abs(g) if loop else None))
            ctx.close(f(A, g, rpt), np.prod([f(B, v, rpt[w]) for B, v, w in zip(Bs, gs, ix)]), f"hafnian_repeated (loop={loop}) of a block matrix", 1e-8, 1e-8 * (1 + float(sc)))
    # permanents: of general blocks
    Gs = [gen._vals(rng, B.shape, case["dt"], 1.0) for B in Bs]
    M = np.zeros(A.shape, dtype=Gs[0].dtype)
    rows = [rng.permutation(w) for w in ix]
    for G_, r, w in zip(Gs, rows, ix):
        M[np.ix_(r, w)] = G_
    for meth in ("bbfg", "ryser"):
        ctx.close(tw.perm(M, method=meth), np.prod([tw.perm(G_, method=meth) for G_ in Gs]), f"perm ({meth}) of a block matrix", 1e-8, 1e-8 * s**2)
    # characteristic polynomial and power traces
    Mf = np.zeros(A.shape, dtype=np.result_type(Gs[0], float))
    for G_, w in zip(Gs, ix):
        Mf[np.ix_(w, w)] = G_
    k = n
    want = sum(cp.powertrace(G_.astype(Mf.dtype), k) for G_ in Gs)
    nrm = max(np.linalg.norm(G_, 2) for G_ in Gs)
    ctx.close(cp.powertrace(Mf.copy(), k), want, "powertrace of a block matrix", 1e-7, 1e-7 * n * max(1, nrm) ** k)
    want = np.array([1.0])
    for G_ in Gs:
        want = np.convolve(want, np.concatenate([[1.0], cp.charpoly(G_.astype(Mf.dtype))]))
    ctx.close(cp.charpoly(Mf.copy()), want[1:], "characteristic polynomial of a block matrix", 1e-7, 1e-8 * max(1, nrm) ** n * n**2)


@sub(P, case_blocks, quick=500, thorough=12000, group="c")
def hermite(case, ctx):
    """Hermite tensors, batched hafnians and loop_hafnian_batch of block matrices are outer products; non-trivial: three or more variables"""
    case = dict(case, n=[min(k, 2) for k in case["n"]][:2 if case["cut"] > 2 else 3])
    n = sum(case["n"])
    case["order"] = np.argsort(case["order"][:n]).tolist()
    A, g, Bs, gs, ix, rng = blocks(case)
    ctx.nontrivial(n > 2)
    cuts = rng.integers(1, case["cut"] + 1, n)
    ctx.label(f"n={n}", case["dt"])
    C = [1, 0.5, -1.5 + 0.5j][rng.integers(3)] if case["dt"] == "c" else [1, 0.5, 2][rng.integers(3)]
    for renorm in (False, True):
        for mod in (False, True):
            f = lambda R, y, c: tw.hermite_multidimensional(R, [int(k) for k in c], y=y, renorm=renorm, modified=mod)  # noqa: E731
            want = outer([f(B, v, cuts[w]) for B, v, w in zip(Bs, gs, ix)], ix, n)
            got = f(A, g, cuts)
            ctx.close(got, want, f"Hermite tensor (renorm={renorm}, modified={mod}) of a block matrix", 1e-7, 1e-9 * max(1, np.abs(want).max()))
            if mod:
                got = tw.hermite_multidimensional(A, [int(k) for k in cuts], C=C, y=g, renorm=renorm, modified=mod)
                ctx.close(got, C * want, f"Hermite tensor with C={C}", 1e-7, 1e-9 * max(1, np.abs(want).max()))
        f = lambda R, y, c: tw.hafnian_batched(R, [int(k) for k in c], mu=y, renorm=renorm)  # noqa: E731
        want = outer([f(B, v, cuts[w]) for B, v, w in zip(Bs, gs, ix)], ix, n)
        ctx.close(f(A, g, cuts), want, f"hafnian_batched (renorm={renorm}) of a block matrix", 1e-7, 1e-9 * max(1, np.abs(want).max()))
    # one unresolved last variable: it belongs to one of the blocks
    b = next(i for i, w in enumerate(ix) if n - 1 in w)
    rep = rng.integers(0, case["hi"] + 1, n - 1)
    Ac, gc = A.astype(complex), g.astype(complex)
    want = 1.0
    for i, (B, v, w) in enumerate(zip(Bs, gs, ix)):
        if i == b:
            o = np.argsort(w)
            one = loop_hafnian_batch(B[np.ix_(o, o)].astype(complex), v[o].astype(complex), rep[w[o][:-1]], 5)
        else:
            want = want * oracle.rep_haf(B, [int(k) for k in rep[w]], v)
    sc = float(np.abs(oracle.rep_haf(np.abs(A), [int(k) for k in rep] + [5], np.abs(g) + 0.5))) + 1
    for gl in (True, False):
        ctx.close(loop_hafnian_batch(Ac, gc, rep, 5, glynn=gl), want * one, f"loop_hafnian_batch (glynn={gl}) of a block matrix", 1e-7, 1e-8 * sc)
    gam = np.stack([gc, gc])
    ctx.close(loop_hafnian_batch_gamma(Ac, gam, rep, 5), np.stack([want * one] * 2), "loop_hafnian_batch_gamma of a block matrix", 1e-7, 1e-8 * sc)


@sub(P, case_blocks, quick=500, thorough=12000, group="c")
def torontonians(case, ctx):
    """torontonians multiply, montrealers of disconnected blocks vanish; non-trivial: three or more modes"""
    case = dict(case, n=[min(k, 2) for k in case["n"]])
    n = sum(case["n"])
    case["order"] = np.argsort(case["order"][:n]).tolist()
    dt = "c" if case["dt"] == "c" else "f"
    A, g, Bs, gs, ix, rng = blocks(case, dt, pos=True)
    # the torontonian is defined on matrices with the block structure of a Gaussian state
    ctx.nontrivial(n > 2)
    ctx.label(f"n={n}", dt)
    for rec in (True, False):
        f = lambda M: tw.tor(M, recursive=rec)  # noqa: E731
        want = np.prod([f(B) for B in Bs])
        ctx.close(f(A), want, f"tor (recursive={rec}) of a block matrix", 1e-7, 1e-8 * max(1, abs(want)))
        h = lambda M, v: tw.ltor(M, v, recursive=rec)  # noqa: E731
        sg = [v if dt == "f" else np.concatenate([v[: len(v) // 2], v[: len(v) // 2].conj()]) for v in gs]
        gg = np.zeros(len(A), dtype=sg[0].dtype)
        for v, w in zip(sg, ix):
            gg[np.concatenate([w, w + n])] = v
        want = np.prod([h(B, v * 0.3) for B, v in zip(Bs, sg)])
        ctx.close(h(A, gg * 0.3), want, f"ltor (recursive={rec}) of a block matrix", 1e-7, 1e-8 * max(1, abs(want)))
    # montrealer: a sum over cycles, so nothing connects separate blocks
    sc = float(np.abs(tw.mtl(np.ones_like(A)))) * max(1, np.abs(A).max()) ** n
    ctx.close(tw.mtl(A), 0, "mtl of a block matrix", 0, 1e-8 * sc)
    sc = float(np.abs(tw.lmtl(np.ones((2 * n, 2 * n)), np.ones(2 * n)))) * max(1, np.abs(A).max(), np.abs(g).max()) ** (n + 2)
    ctx.close(tw.lmtl(A, g), 0, "lmtl of a block matrix", 0, 1e-8 * sc)


@st.composite
def case_int(draw):
    k = draw(st.sampled_from([2, 3]))
    n = draw(st.lists(st.sampled_from([2, 1, 3]), min_size=k, max_size=k))
    N = sum(n)
    return dict(n=n, seed=draw(gen.seeds), order=draw(st.permutations(list(range(N)))), inp=draw(st.lists(st.integers(0, 2), min_size=N, max_size=N)),
                loss=draw(st.sampled_from([1.0, 0.7])))


@sub(P, case_int, quick=400, thorough=10000, group="c")
def interferometers(case, ctx):
    """Fock states through separate interferometers: probabilities, Bristolians and matrix elements multiply; non-trivial: photons in several parts"""
    rng = np.random.default_rng(case["seed"])
    n = sum(case["n"])
    Us = [gen.haar(k, rng) for k in case["n"]]
    order = np.array(case["order"])
    ix = np.split(order, np.cumsum(case["n"])[:-1])
    U = np.zeros((n, n), dtype=complex)
    for V, w in zip(Us, ix):
        U[np.ix_(w, w)] = V
    i = np.array(case["inp"])
    if i.sum() > 6:
        i = np.minimum(i, 1)
    ctx.nontrivial(sum(bool(i[w].sum()) for w in ix) > 1)
    ctx.label(f"n={n}", f"photons={i.sum()}")
    o = np.zeros(n, int)
    cross = rng.random() < 0.3
    for w in ix if not cross else [np.arange(n)]:
        for _ in range(i[w].sum()):
            o[rng.choice(w)] += 1
    want = np.prod([pm.fock_prob(list(i[w]), list(o[w]), V) if i[w].sum() == o[w].sum() else 0.0 for V, w in zip(Us, ix)])
    ctx.close(pm.fock_prob(list(i), list(o), U), want, f"fock_prob({i.tolist()} -> {o.tolist()})", 1e-7, 1e-10)
    d = rng.integers(0, 2, n)
    T = U * case["loss"]
    want = np.prod([pm.fock_threshold_prob(list(i[w]), list(d[w]), np.ascontiguousarray(V * case["loss"])) for V, w in zip(Us, ix)])
    ctx.close(pm.fock_threshold_prob(list(i), list(d), T), want, f"fock_threshold_prob({i.tolist()} -> {d.tolist()})", 1e-7, 1e-9)
    # Bristolians of rectangular blocks
    ms = [int(rng.integers(0, 3)) for _ in case["n"]]
    ns = [min(k, 2) for k in case["n"]]
    As = [rng.normal(size=(a, b)) + 1j * rng.normal(size=(a, b)) for a, b in zip(ms, ns)]
    Es = [(lambda X: X @ X.conj().T)(rng.normal(size=(b, b)) + 1j * rng.normal(size=(b, b))) for b in ns]
    A = np.zeros((sum(ms), sum(ns)), dtype=complex)
    E = np.zeros((sum(ns),) * 2, dtype=complex)
    a = b = 0
    for X, Y in zip(As, Es):
        A[a: a + X.shape[0], b: b + X.shape[1]] = X
        E[b: b + len(Y), b: b + len(Y)] = Y
        a, b = a + X.shape[0], b + X.shape[1]
    pr, pc = rng.permutation(len(A)), rng.permutation(len(E))
    A, E = np.ascontiguousarray(A[np.ix_(pr, pc)]), np.ascontiguousarray(E[np.ix_(pc, pc)])
    sc = float(np.real(tw.perm(np.abs(A).T @ np.abs(A) + np.abs(E)))) * 2.0 ** len(A)
    ctx.close(tw.brs(A, E), np.prod([tw.brs(X, Y) for X, Y in zip(As, Es)]), "brs of a block matrix", 1e-7, 1e-10 * sc)
    ctx.close(tw.ubrs(A), np.prod([tw.ubrs(X) for X in As]), "ubrs of a block matrix", 1e-7, 1e-10 * sc)
