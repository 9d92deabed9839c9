"""Reference models, written from the physics/documentation only (numpy; nothing imported from mrmustard).

* phase space:  means/cov in (x1..xn, p1..pn) order, units of hbar
* Fock space :  dense truncated operators built from ladder operators and matrix exponentials
* Bargmann   :  coefficients of  c * exp(z^T A z / 2 + b^T z)  by truncated power-series exponentiation
"""

from __future__ import annotations

import itertools
from functools import lru_cache
from math import factorial

import numpy as np
from scipy.linalg import expm

# ----------------------------------------------------------------------------------------------------
# phase space
# ----------------------------------------------------------------------------------------------------


def J(n):
    return np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])


def U2S(U):
    U = np.asarray(U)
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def S_r(theta):
    return U2S(np.array([[np.exp(1j * theta)]]))


def S_s(r, phi):
    c, s = np.cosh(r), np.sinh(r)
    return np.array([[c - np.cos(phi) * s, -np.sin(phi) * s], [-np.sin(phi) * s, c + np.cos(phi) * s]])


def U_bs(theta, phi):
    c, s = np.cos(theta), np.sin(theta)
    return np.array([[c, -s * np.exp(-1j * phi)], [s * np.exp(1j * phi), c]])


def S_bs(theta, phi):
    return U2S(U_bs(theta, phi))


def S_s2(r, phi):
    """a -> cosh a + e^{i phi} sinh b^dagger   (xxpp)."""
    c, s = np.cosh(r), np.sinh(r)
    cp, sp = np.cos(phi) * s, np.sin(phi) * s
    return np.array([[c, cp, 0, sp], [cp, c, sp, 0], [0, sp, c, -cp], [sp, 0, -cp, c]])


def U_mz(pa, pb, internal):
    bs = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)
    if internal:
        return bs @ np.diag([np.exp(1j * pa), np.exp(1j * pb)]) @ bs
    return bs @ np.diag([np.exp(1j * pb), 1]) @ bs @ np.diag([np.exp(1j * pa), 1])


def S_p(s):
    return np.array([[1.0, 0], [s, 1.0]])


def S_cx(s):
    """q2 -> q2 + s q1, p1 -> p1 - s p2."""
    return np.array([[1, 0, 0, 0], [s, 1, 0, 0], [0, 0, 1, -s], [0, 0, 0, 1.0]])


def S_cz(s):
    """p1 -> p1 + s q2, p2 -> p2 + s q1."""
    return np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, s, 1, 0], [s, 0, 0, 1.0]])


class GS:
    """Gaussian state: ordered modes, mean, cov, weight."""

    def __init__(self, modes, mean, cov, hbar):
        self.modes = tuple(modes)
        self.mean = np.asarray(mean, float)
        self.cov = np.asarray(cov, float)
        self.h = hbar

    @classmethod
    def vac(cls, modes, hbar):
        n = len(modes)
        return cls(modes, np.zeros(2 * n), hbar / 2 * np.eye(2 * n), hbar)

    def idx(self, modes):
        n = len(self.modes)
        p = [self.modes.index(m) for m in modes]
        return p + [n + i for i in p]

    def affine(self, modes, X, Y=None, d=None):
        n = len(self.modes)
        F = np.eye(2 * n)
        ix = np.ix_(self.idx(modes), self.idx(modes))
        F[ix] = X
        mean = F @ self.mean
        cov = F @ self.cov @ F.T
        if Y is not None:
            cov[ix] += Y
        if d is not None:
            mean[self.idx(modes)] += d
        return GS(self.modes, mean, cov, self.h)

    def disp(self, mode, alpha):
        return self.affine((mode,), np.eye(2), None, np.sqrt(2 * self.h) * np.array([alpha.real, alpha.imag]))

    def keep(self, modes):
        """reduced state, modes in the given order."""
        i = self.idx(modes)
        return GS(modes, self.mean[i], self.cov[np.ix_(i, i)], self.h)

    def join(self, other):
        n, m = len(self.modes), len(other.modes)
        N = n + m
        mean, cov = np.zeros(2 * N), np.zeros((2 * N, 2 * N))
        i = list(range(n)) + list(range(N, N + n))
        j = list(range(n, N)) + list(range(N + n, 2 * N))
        mean[i], mean[j] = self.mean, other.mean
        cov[np.ix_(i, i)] = self.cov
        cov[np.ix_(j, j)] = other.cov
        g = GS(self.modes + other.modes, mean, cov, self.h)
        return g.keep(tuple(sorted(g.modes)))

    def purity(self):
        n = len(self.modes)
        return (self.h / 2) ** n / np.sqrt(np.linalg.det(self.cov))

    def nbar(self):
        n = len(self.modes)
        d = np.diag(self.cov)
        return np.array([(d[i] + d[i + n] + self.mean[i] ** 2 + self.mean[i + n] ** 2) / (2 * self.h) - 0.5 for i in range(n)])

    def Abc(self):
        """Bargmann triple of the density operator, index order (bra, ket) = (conj variables first).

        <beta^*| convention: rho(zb, zk) with Fock[m_bra, n_ket] = <n_ket| rho |m_bra>.
        """
        return gs_to_abc(self.mean, self.cov, self.h)

    def wigner(self, q, p):
        """single mode."""
        V = self.cov
        Vi = np.linalg.inv(V)
        dx = np.stack([q - self.mean[0], p - self.mean[1]], -1)
        return np.exp(-0.5 * np.einsum("...i,ij,...j->...", dx, Vi, dx)) / (2 * np.pi * np.sqrt(np.linalg.det(V)))


def gs_to_abc(mean, cov, h):
    """rho = integral form -> A, b, c of the (bra, ket) Bargmann function.

    From the Husimi function: Q(a) = <a|rho|a>; e^{|a|^2} <a|rho|a> = F(a, a^*) with ket variable a^* and bra
    variable a, F entire, so the quadratic form of Q in (a, a^*) gives A, b, c directly.
    """
    n = len(mean) // 2
    # complex coordinates xi = (a, a^*), a = (x + i p)/sqrt(2h)
    W = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2 * h)
    sQ = W @ cov @ W.conj().T + 0.5 * np.eye(2 * n)  # <xi xi^dag> of Q
    mu = W @ mean
    inv = np.linalg.inv(sQ)
    X = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    # log Q = -1/2 (xi-mu)^dag inv (xi-mu) + const ; xi^dag = xi^T X
    A = X - X @ inv
    b = X @ inv @ mu
    c = np.exp(-0.5 * mu.conj() @ inv @ mu) / np.sqrt(np.linalg.det(sQ))
    # variables: xi = (a, a*) = (bra variable, ket variable)
    return A, b, c


# ----------------------------------------------------------------------------------------------------
# power series of c*exp(zAz/2+bz)
# ----------------------------------------------------------------------------------------------------


def _mul_lin(P, axis, k=1):
    """multiply polynomial array by z_axis^k (truncate)."""
    out = np.zeros_like(P)
    n = P.shape[axis]
    if k >= n:
        return out
    src = [slice(None)] * P.ndim
    dst = [slice(None)] * P.ndim
    src[axis] = slice(0, n - k)
    dst[axis] = slice(k, n)
    out[tuple(dst)] = P[tuple(src)]
    return out


def hermite_ref(A, b, c, shape):
    """sqrt(k!) * [z^k] c exp(zAz/2 + bz): product of one-term exponentials, each expanded exactly."""
    A = np.asarray(A, complex)
    b = np.asarray(b, complex)
    n = len(b)
    P = np.zeros(shape, complex)
    P[(0,) * n] = c
    for i in range(n):
        if b[i] != 0:
            acc, T = P.copy(), P
            for k in range(1, shape[i]):
                T = _mul_lin(T, i) * (b[i] / k)
                acc += T
            P = acc
    for i in range(n):
        for j in range(i, n):
            a = 0.5 * A[i, i] if i == j else 0.5 * (A[i, j] + A[j, i])
            if a == 0:
                continue
            acc, T = P.copy(), P
            kmax = (shape[i] - 1) // 2 if i == j else min(shape[i], shape[j]) - 1
            for k in range(1, kmax + 1):
                T = (_mul_lin(T, i, 2) if i == j else _mul_lin(_mul_lin(T, i), j)) * (a / k)
                acc += T
            P = acc
    for i in range(n):
        f = np.sqrt(np.array([float(factorial(k)) for k in range(shape[i])]))
        P = P * f.reshape([-1 if k == i else 1 for k in range(n)])
    return P


def poly_exp_eval(A, b, c, z):
    """scalar c: value at a point."""
    z = np.asarray(z, complex)
    return c * np.exp(0.5 * z @ A @ z + b @ z)


# ----------------------------------------------------------------------------------------------------
# dense Fock space
# ----------------------------------------------------------------------------------------------------


@lru_cache(None)
def lad(N):
    return np.diag(np.sqrt(np.arange(1, N)), 1).astype(complex)


def q_op(N, h):
    a = lad(N)
    return np.sqrt(h / 2) * (a + a.conj().T)


def p_op(N, h):
    a = lad(N)
    return -1j * np.sqrt(h / 2) * (a - a.conj().T)


BIG = 60


@lru_cache(None)
def f_D(alpha, N=BIG):
    a = lad(N)
    return expm(alpha * a.conj().T - np.conj(alpha) * a)


@lru_cache(None)
def f_S(r, phi, N=BIG):
    a = lad(N)
    ad = a.conj().T
    return expm(0.5 * r * (np.exp(-1j * phi) * a @ a - np.exp(1j * phi) * ad @ ad))


@lru_cache(None)
def f_R(theta, N=BIG):
    return np.diag(np.exp(1j * theta * np.arange(N)))


@lru_cache(None)
def f_P(s, N=BIG):
    q = q_op(N, 1.0)
    return expm(0.5j * s * q @ q)


@lru_cache(None)
def f_lin(kind, p1, p2, N):
    """two-mode gates, returned as tensor [o1,o2,i1,i2]."""
    a = np.kron(lad(N), np.eye(N))
    b = np.kron(np.eye(N), lad(N))
    ad, bd = a.conj().T, b.conj().T
    if kind == "BS":  # a^dag -> cos a^dag + sin e^{i phi} b^dag
        G = p1 * (np.exp(1j * p2) * bd @ a - np.exp(-1j * p2) * ad @ b)
    elif kind == "S2":
        G = p1 * (np.exp(1j * p2) * ad @ bd - np.exp(-1j * p2) * a @ b)
    elif kind == "CX":
        q1 = (a + ad) / np.sqrt(2)
        pp2 = -1j * (b - bd) / np.sqrt(2)
        G = -1j * p1 * q1 @ pp2
    elif kind == "CZ":
        q1 = (a + ad) / np.sqrt(2)
        q2 = (b + bd) / np.sqrt(2)
        G = 1j * p1 * q1 @ q2
    else:
        raise KeyError(kind)
    return expm(G).reshape(N, N, N, N)


def haf_unitary_fock(U, shape_out, shape_in):
    """Fock elements of a passive linear unitary: out(creation) = product of columns, expanded exactly."""
    U = np.asarray(U, complex)
    M = U.shape[0]
    out = np.zeros(tuple(shape_out) + tuple(shape_in), complex)
    for nin in itertools.product(*[range(s) for s in shape_in]):
        N = sum(nin)
        # polynomial in creation operators: prod_j (sum_i U_ij z_i)^{n_j} / sqrt(n_j!)
        P = {(0,) * M: 1.0 + 0j}
        for j in range(M):
            for _ in range(nin[j]):
                Q = {}
                for k, v in P.items():
                    for i in range(M):
                        if U[i, j] != 0:
                            kk = k[:i] + (k[i] + 1,) + k[i + 1 :]
                            Q[kk] = Q.get(kk, 0) + v * U[i, j]
                P = Q
        norm = np.sqrt(np.prod([float(factorial(x)) for x in nin]))
        for k, v in P.items():
            if all(a < s for a, s in zip(k, shape_out)):
                out[k + nin] = v / norm * np.sqrt(np.prod([float(factorial(x)) for x in k]))
    return out


def kraus_att(eta, N):
    """Kraus operators of pure loss, exact on any truncated input (maps n -> n-k)."""
    Ks = []
    for k in range(N):
        K = np.zeros((N, N), complex)
        for n in range(k, N):
            K[n - k, n] = np.sqrt(_binom(n, k)) * eta ** ((n - k) / 2) * (1 - eta) ** (k / 2)
        Ks.append(K)
    return Ks


def kraus_amp(g, N):
    """Kraus operators of the amplifier with gain g: a -> sqrt(g) a + sqrt(g-1) v^dag."""
    Ks = []
    for k in range(N):
        K = np.zeros((N, N), complex)
        for n in range(0, N - k):
            # K_k = sqrt((g-1)^k / (k! g^{k+1})) g^{-n/2} (a^dag)^k on |n>
            K[n + k, n] = np.sqrt((g - 1) ** k / factorial(k)) * g ** (-(k + 1) / 2) * g ** (-n / 2) * np.sqrt(
                float(factorial(n + k)) / factorial(n))
        Ks.append(K)
    return Ks


def _binom(n, k):
    return factorial(n) / factorial(k) / factorial(n - k)


def superop(Ks, shape):
    """Choi array [bra_out, bra_in, ket_out, ket_in] = sum conj(K)[bo,bi] K[ko,ki], cut to shape."""
    bo, bi, ko, ki = shape
    T = np.zeros(shape, complex)
    for K in Ks:
        T += np.einsum("ab,cd->abcd", K[:bo, :bi].conj(), K[:ko, :ki])
    return T


def thermal(nbar, N):
    n = np.arange(N)
    if nbar == 0:
        d = (n == 0).astype(float)
    else:
        d = (nbar / (1 + nbar)) ** n / (1 + nbar)
    return np.diag(d).astype(complex)


def osc(n, q, h):
    """<q|n>, harmonic oscillator eigenfunction at quadrature q in units with given hbar."""
    x = np.asarray(q, float) / np.sqrt(h)
    psi = [(np.pi * h) ** -0.25 * np.exp(-(x**2) / 2)]
    if n >= 1:
        psi.append(np.sqrt(2.0) * x * psi[0])
    for k in range(2, n + 1):
        psi.append(np.sqrt(2.0 / k) * x * psi[k - 1] - np.sqrt((k - 1) / k) * psi[k - 2])
    return psi[n]


def osc_all(N, q, h):
    return np.stack([osc(n, q, h) for n in range(N)])


def coh_vec(alpha, N):
    n = np.arange(N)
    f = np.array([float(factorial(k)) for k in n])
    return np.exp(-abs(alpha) ** 2 / 2) * np.power(complex(alpha), n) / np.sqrt(f)


def num_vec(n, N):
    v = np.zeros(N, complex)
    v[n] = 1
    return v


def wigner_fock(rho, q, p, h):
    """Wigner function of a single-mode density matrix rho[n,m]=<n|rho|m> by the displaced-parity formula."""
    N = rho.shape[0]
    M = BIG if N <= 30 else N + 40
    par = np.diag((-1.0) ** np.arange(M))
    R = np.zeros((M, M), complex)
    R[:N, :N] = rho
    out = np.zeros((len(q), len(p)))
    for i, x in enumerate(q):
        for j, y in enumerate(p):
            al = complex(x + 1j * y) / np.sqrt(2 * h)
            D = f_D(al, M)
            # 1/(pi h) Tr[rho D P D^dag]
            out[i, j] = (np.trace(R @ (D @ par @ D.conj().T))).real / (np.pi * h)
    return out
