"""Independent reference oracles: slow, obviously-correct definitions written for this framework.

Nothing here imports the code under test.
"""
import itertools
import math
from functools import lru_cache

import numpy as np
import scipy.linalg as sla

# ---------------------------------------------------------------- matchings


def _py(A):
    return [[x.item() if hasattr(x, "item") else x for x in row] for row in np.asarray(A)]


def rep_haf(A, reps, mu=None):
    """(Loop) hafnian of A with row/column i taken reps[i] times; loops weighted by mu if given.

    Recursion on the multiset of remaining indices: the first remaining index is either matched
    with each other remaining index or (loops) left alone.
    """
    A = _py(A)
    n = len(A)
    mu = None if mu is None else [x.item() if hasattr(x, "item") else x for x in np.asarray(mu)]
    memo = {}

    def rec(c):
        if c in memo:
            return memo[c]
        i = 0
        while i < n and c[i] == 0:
            i += 1
        if i == n:
            return 1
        base = list(c)
        base[i] -= 1
        tot = 0
        if mu is not None:
            tot += mu[i] * rec(tuple(base))
        for j in range(i, n):
            k = base[j]
            if k > 0:
                nxt = list(base)
                nxt[j] -= 1
                tot += k * A[i][j] * rec(tuple(nxt))
        memo[c] = tot
        return tot

    c0 = tuple(int(r) for r in reps)
    if mu is None and sum(c0) % 2:
        return 0
    return rec(c0)


def haf(A, loop=False, mu=None):
    A = np.asarray(A)
    n = len(A)
    if loop and mu is None:
        mu = np.diag(A)
    return rep_haf(A, [1] * n, mu if loop else None)


def haf_scale(A, reps=None, mu=None, loop=False):
    """A generous magnitude for rounding errors of hafnian algorithms on this input."""
    A = np.abs(np.asarray(A).astype(complex))
    n = len(A)
    if n == 0:
        return 1.0
    m = max(A.mean(), 1e-300)
    B = A + m
    if loop:
        v = np.abs(np.diag(A) if mu is None else np.asarray(mu)).astype(float)
        v = v + math.sqrt(m) + v.mean()
    else:
        v = None
    reps = [1] * n if reps is None else reps
    return float(abs(rep_haf(B, reps, v)))


def expand(A, reps, mu=None):
    """Matrix with rows/columns repeated; diagonal replaced by the repeated mu if given."""
    idx = [i for i, r in enumerate(reps) for _ in range(int(r))]
    B = np.array(np.asarray(A)[np.ix_(idx, idx)])
    if mu is not None:
        B = B.astype(np.result_type(B, np.asarray(mu)))
        np.fill_diagonal(B, np.asarray(mu)[idx])
    return B


def perm(M):
    """Sum over permutations by dynamic programming over used columns."""
    M = _py(M)
    n = len(M)
    cur = {0: 1}
    for row in M:
        nxt = {}
        for s, v in cur.items():
            for j in range(n):
                if not s >> j & 1:
                    t = s | 1 << j
                    nxt[t] = nxt.get(t, 0) + v * row[j]
        cur = nxt
    return cur[(1 << n) - 1]


# ---------------------------------------------------------------- torontonians


def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def tor(A):
    A = np.asarray(A)
    n = len(A) // 2
    tot = 0.0
    for S in subsets(n):
        ix = list(S) + [s + n for s in S]
        M = np.eye(2 * len(S)) - A[np.ix_(ix, ix)]
        tot += (-1) ** (n - len(S)) / np.sqrt(np.linalg.det(M).real if S else 1.0)
    return tot


def ltor(A, gamma):
    A, gamma = np.asarray(A), np.asarray(gamma)
    n = len(A) // 2
    tot = 0.0
    for S in subsets(n):
        ix = list(S) + [s + n for s in S]
        if not S:
            tot += (-1) ** n
            continue
        M = np.eye(2 * len(S)) - A[np.ix_(ix, ix)]
        g = gamma[ix]
        tot += (-1) ** (n - len(S)) * np.exp(0.5 * g @ np.linalg.solve(M, g.conj())) / np.sqrt(np.linalg.det(M).real)
    return tot


# ---------------------------------------------------------------- Gaussian states (xxpp ordering)


def passive(U):
    """Quadrature matrix of the passive transformation a -> U a."""
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def sympform(N):
    return np.block([[np.zeros((N, N)), np.eye(N)], [-np.eye(N), np.zeros((N, N))]])


def vac_prob(mu, cov, modes, hbar):
    """Probability that all listed modes are found in vacuum."""
    modes = list(modes)
    if not modes:
        return 1.0
    N = len(mu) // 2
    ix = modes + [m + N for m in modes]
    S = (cov[np.ix_(ix, ix)] + hbar / 2 * np.eye(len(ix))) / hbar
    d = mu[ix]
    return float(np.exp(-0.5 / hbar * d @ np.linalg.solve(S, d)) / np.sqrt(np.linalg.det(S)))


def click_prob(mu, cov, pattern, hbar):
    """Probability of a threshold-detector pattern by inclusion-exclusion."""
    on = [i for i, c in enumerate(pattern) if c]
    off = [i for i, c in enumerate(pattern) if not c]
    return sum((-1) ** len(S) * vac_prob(mu, cov, off + [on[k] for k in S], hbar) for S in subsets(len(on)))


def click_distribution(mu, cov, hbar):
    N = len(mu) // 2
    out = np.zeros((2,) * N)
    for p in itertools.product(range(2), repeat=N):
        out[p] = click_prob(mu, cov, p, hbar)
    return out


def _exp_quadratic(M, l, c0, cuts):
    """Taylor coefficients of c0*exp(v.M.v/2 + l.v) in each variable below the given cutoffs."""
    n = len(l)
    T = np.zeros(cuts, dtype=complex)
    T[(0,) * n] = c0

    def shift(X, ax, k):
        Y = np.zeros_like(X)
        src = [slice(None)] * n
        dst = [slice(None)] * n
        src[ax] = slice(0, X.shape[ax] - k)
        dst[ax] = slice(k, None)
        Y[tuple(dst)] = X[tuple(src)]
        return Y

    def mul_exp(T, coef, shifts):
        # multiply by exp(coef * prod v_ax^k)
        if coef == 0:
            return T
        out, term, k = T.copy(), T, 0
        while True:
            k += 1
            ok = True
            for ax, d in shifts:
                if d >= cuts[ax]:
                    ok = False
                    break
                term = shift(term, ax, d)
            if not ok or k > 4 * max(cuts):
                break
            term = term * (coef / k)
            if not np.any(term):
                break
            out = out + term
        return out

    for i in range(n):
        T = mul_exp(T, l[i], [(i, 1)])
        T = mul_exp(T, M[i, i] / 2, [(i, 2)])
        for j in range(i + 1, n):
            T = mul_exp(T, M[i, j], [(i, 1), (j, 1)])
    return T


def fock_rho(mu, cov, cut, hbar):
    """Exact Fock-basis density matrix, axes (i_1..i_N, j_1..j_N), entry <i|rho|j>.

    Uses <alpha|rho|beta> = <alpha|beta> x Gaussian overlap of the Wigner function of rho with the
    (complex-centred) Wigner function of |beta><alpha|; its Taylor coefficients in conj(alpha), beta
    are the matrix elements.
    """
    N = len(mu) // 2
    I, Z = np.eye(N), np.zeros((N, N))
    h = np.sqrt(hbar / 2)
    # centre of |beta><alpha| : x = h (a + b), p = i h (a - b) with a = conj(alpha), b = beta
    D = np.block([[h * I, h * I], [1j * h * I, -1j * h * I]])
    S = cov + hbar / 2 * np.eye(2 * N)
    W = np.linalg.inv(S)
    M = np.block([[Z, I], [I, Z]]) - D.T @ W @ D
    l = D.T @ W @ mu
    c0 = np.exp(-0.5 * mu @ W @ mu) / np.sqrt(np.linalg.det(S / hbar))
    cuts = (cut,) * (2 * N) if np.isscalar(cut) else tuple(cut)
    T = _exp_quadratic(M, l, c0, cuts)
    for ax, c in enumerate(cuts):
        sh = [1] * (2 * N)
        sh[ax] = c
        T = T * np.sqrt([float(math.factorial(k)) for k in range(c)]).reshape(sh)
    return T


def fock_probs(mu, cov, cut, hbar):
    N = len(mu) // 2
    T = fock_rho(mu, cov, cut, hbar)
    cuts = T.shape[:N]
    out = np.zeros(cuts)
    for idx in itertools.product(*[range(c) for c in cuts]):
        out[idx] = T[idx + idx].real
    return out


def log_gen(mu, cov, hbar):
    """Function lam -> E[:exp(-sum lam_j n_j):] (lam_j = 1 - z_j gives the PGF) for real lam."""
    N = len(mu) // 2
    C = cov - hbar / 2 * np.eye(2 * N)

    def G(lam):
        L = np.diag(np.concatenate([lam, lam])) / hbar
        M = np.eye(2 * N) + C @ L
        return np.exp(-0.5 * mu @ L @ np.linalg.solve(M, mu)) / np.sqrt(np.linalg.det(M))

    return G


def factorial_moments(mu, cov, orders, hbar):
    """E[ prod_j n_j (n_j-1)...(n_j-k_j+1) ] for all k <= orders, by Wick's theorem (Isserlis)."""
    N = len(mu) // 2
    # normally ordered moments of (a^dag, a): complex Gaussian with these first/second moments
    R = np.block([[np.eye(N), 1j * np.eye(N)], [np.eye(N), -1j * np.eye(N)]]) / np.sqrt(2 * hbar)
    C = cov - hbar / 2 * np.eye(2 * N)
    m = R @ mu  # (alpha, conj alpha)
    S = R @ C @ R.T
    out = {}
    for k in itertools.product(*[range(o + 1) for o in orders]):
        out[k] = complex(rep_haf(S, list(k) + list(k), m)).real
    return out


@lru_cache(None)
def stirling2(n, k):
    if n == k:
        return 1
    if k == 0 or k > n:
        return 0
    return k * stirling2(n - 1, k) + stirling2(n - 1, k - 1)


def moment(mu, cov, powers, hbar):
    """E[prod n_j^p_j] for a dict/tuple of powers over all modes."""
    fm = factorial_moments(mu, cov, powers, hbar)
    tot = 0.0
    for k in itertools.product(*[range(p + 1) for p in powers]):
        w = 1
        for p, q in zip(powers, k):
            w *= stirling2(p, q)
        if w:
            tot += w * fm[k]
    return tot


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(len(rest) + 1):
        for comb in itertools.combinations(range(len(rest)), k):
            block = [first] + [rest[i] for i in comb]
            others = [rest[i] for i in range(len(rest)) if i not in comb]
            for p in set_partitions(others):
                yield [block] + p


def cumulant(moment_fn, items):
    """Joint cumulant of the listed variables from a function giving E[prod of a list]."""
    tot = 0.0
    for p in set_partitions(range(len(items))):
        w = (-1) ** (len(p) - 1) * math.factorial(len(p) - 1)
        for b in p:
            w = w * moment_fn([items[i] for i in b])
        tot += w
    return tot


def symp_eigs(cov):
    N = len(cov) // 2
    w = np.abs(np.linalg.eigvals(1j * sympform(N) @ cov).real)
    return np.sort(w)[::2]


# ---------------------------------------------------------------- dense Fock simulation


def ladder(c):
    return np.diag(np.sqrt(np.arange(1, c)), 1).astype(complex)


def binom_thin(p, eta, axis):
    c = p.shape[axis]
    L = np.zeros((c, c))
    for n in range(c):
        for k in range(n + 1):
            L[k, n] = math.comb(n, k) * eta**k * (1 - eta) ** (n - k)
    return np.moveaxis(np.tensordot(L, p, axes=(1, axis)), 0, axis)


# ---------------------------------------------------------------- exact Fock representations of Gaussian unitaries


def gaussian_kernel(U, r, V, gamma):
    """(M, l, c) of the Bargmann kernel <conj(a)|W|b> = c exp(v.M.v/2 + l.v), v = (conj(a), b), of
    W = D(gamma) P(U) Sq(r) P(V), with P(U)|alpha> = |U alpha>, Sq(r) = prod exp(r/2 (a^2 - a^dag^2))."""
    U, V, r, g = np.asarray(U), np.asarray(V), np.asarray(r, float), np.asarray(gamma, complex)
    T, s = np.diag(np.tanh(r)), np.diag(1 / np.cosh(r))
    A = -U @ T @ U.T
    B = V.T @ T @ V
    C = U @ s @ V
    M = np.block([[A, C], [C.T, B]])
    gb = g.conj()
    # K0(x - conj g, b) exp(g.x - |g|^2/2)
    lx = g - A @ gb
    lb = -C.T @ gb
    c = np.exp(0.5 * gb @ A @ gb - 0.5 * np.vdot(g, g).real) / np.sqrt(np.prod(np.cosh(r)))
    return M, np.concatenate([lx, lb]), c


def fock_unitary(U, r, V, gamma, cuts):
    """Exact matrix elements <m|W|n>, axes (m_1..m_l, n_1..n_l)."""
    M, l, c = gaussian_kernel(U, r, V, gamma)
    T = _exp_quadratic(M, l, c, tuple(cuts))
    for ax, k in enumerate(cuts):
        sh = [1] * len(cuts)
        sh[ax] = k
        T = T * np.sqrt([float(math.factorial(x)) for x in range(k)]).reshape(sh)
    return T


def sympl_of(U, r, V):
    """Symplectic matrix of P(U) Sq(r) P(V) in xxpp ordering."""
    return passive(np.asarray(U)) @ np.diag(np.concatenate([np.exp(-np.asarray(r)), np.exp(np.asarray(r))])) @ passive(np.asarray(V))


# ---------------------------------------------------------------- statistics


def gof_log10(counts, probs, n=None):
    """log10 of a rigorous finite-sample bound on the probability of a relative entropy at least this large.

    For n draws from k cells, P(n KL(empirical || p) >= t) <= exp(-t) (e t / (k - 1))^(k-1) for t > k - 1
    (Agrawal, IEEE Trans. Inf. Theory 66, 2020); no asymptotics involved."""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    k = len(counts)
    hit = counts > 0
    if k < 2 or n == 0:
        return 0.0
    if (probs[hit] <= 0).any():
        return -np.inf
    t = float((counts[hit] * np.log(counts[hit] / (n * probs[hit]))).sum())
    if t <= k - 1:
        return 0.0
    return (-t + (k - 1) * (1 + np.log(t / (k - 1)))) / np.log(10)


def merge_cells(counts, table, n, emin=8.0, kmax=40):
    """(counts, probs) with the likeliest cells kept and everything else (also outside the table) pooled.

    ``counts`` maps an index tuple to its number of occurrences, ``table`` an index tuple to its probability."""
    keep = sorted((i for i in table if n * table[i] >= emin), key=lambda i: -table[i])[:kmax]
    c = [counts.get(i, 0) for i in keep]
    p = [table[i] for i in keep]
    rest = max(1 - sum(p), 1e-12)
    return np.array(c + [n - sum(c)]), np.array(p + [rest])


def int_rep_haf(A, reps, mu=None):
    """(Loop) hafnian with repetitions of an integer matrix, in exact arithmetic (iterative multiset recursion)."""
    n = len(reps)
    A = [[int(x) for x in r] for r in A]
    mu = [0] * n if mu is None else [int(x) for x in mu]
    memo = {(0,) * n: 1}
    for r in itertools.product(*[range(k + 1) for k in reps]):
        if r in memo:
            continue
        i = next(k for k in range(n) if r[k])
        q = list(r)
        q[i] -= 1
        s = mu[i] * memo[tuple(q)]
        for j in range(n):
            if q[j] and A[i][j]:
                q[j] -= 1
                s += A[i][j] * (q[j] + 1) * memo[tuple(q)]
                q[j] += 1
        memo[r] = s
    return memo[tuple(reps)]


def fock_entry(mu, cov, i, j, hbar):
    """<i|rho|j> of a one- or two-mode state with many photons: the Hermite recursion in 60-digit arithmetic."""
    import mpmath as mp

    N = len(mu) // 2
    with mp.workdps(60):
        h = mp.sqrt(mp.mpf(hbar) / 2)
        D = mp.zeros(2 * N)
        for k in range(N):
            D[k, k], D[k, N + k], D[N + k, k], D[N + k, N + k] = h, h, mp.mpc(0, h), mp.mpc(0, -h)
        V = mp.matrix(cov.tolist()) + mp.eye(2 * N) * mp.mpf(hbar) / 2
        W = V**-1
        m = mp.matrix([float(x) for x in mu])
        M = -(D.T * W * D)
        for k in range(N):
            M[k, N + k] += 1
            M[N + k, k] += 1
        l = D.T * W * m
        c0 = mp.exp(-(m.T * W * m)[0] / 2) / mp.sqrt(mp.det(V / hbar))
        top = tuple(i) + tuple(j)
        G = {}
        for k in itertools.product(*[range(t + 1) for t in top]):
            if not any(k):
                G[k] = c0
                continue
            a = next(x for x in range(2 * N) if k[x])
            q = k[:a] + (k[a] - 1,) + k[a + 1 :]
            v = l[a] * G[q]
            for b in range(2 * N):
                if q[b]:
                    v += M[a, b] * q[b] * G[q[:b] + (q[b] - 1,) + q[b + 1 :]]
            G[k] = v
        f = mp.mpf(1)
        for t in top:
            f *= mp.factorial(t)
        return complex(G[top] / mp.sqrt(f))
