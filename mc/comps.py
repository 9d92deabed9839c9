"""Component catalogue: a JSON-able spec <-> real MrMustard object <-> reference action.

spec = [kind, modes, params...]; gates/channels/states.  Reference actions: phase space (mc.ref.GS) and dense Fock tensors.
"""

from __future__ import annotations

import numpy as np

from . import ref

# ---- deterministic matrices used for G-type components ---------------------------------------------


def U_lib(k, n):
    """unitary number k on n modes: product of beamsplitters and phases."""
    U = np.eye(n, dtype=complex)
    for i in range(n):
        U[i, i] = np.exp(1j * (0.3 + 0.5 * i + 0.41 * k))
    for i in range(n):
        for j in range(i + 1, n):
            B = np.eye(n, dtype=complex)
            B[np.ix_([i, j], [i, j])] = ref.U_bs(0.6 + 0.3 * k + 0.17 * (i + j), 0.9 - 0.4 * k + 0.2 * j)
            U = B @ U
    return U


def O_lib(k, n):
    U = np.eye(n)
    for i in range(n):
        for j in range(i + 1, n):
            B = np.eye(n)
            B[np.ix_([i, j], [i, j])] = ref.U_bs(0.5 + 0.35 * k + 0.21 * (i + j), 0).real
            U = B @ U
    if k % 2:
        U[0] *= -1
    return U


def S_lib(k, n):
    """symplectic number k on n modes (xxpp): U2 . squeezers . U1"""
    Z = np.eye(2 * n)
    for i in range(n):
        r = 0.25 + 0.1 * i + 0.07 * k
        Z[i, i], Z[n + i, n + i] = np.exp(-r), np.exp(r)
    return ref.U2S(U_lib(k + 1, n)) @ Z @ ref.U2S(U_lib(k, n))


def Y_lib(k, n, h=1.0):
    R = np.array([[0.31 + 0.07 * i + 0.05 * j + 0.11 * ((i * j + k) % 3) for j in range(2 * n)] for i in range(2 * n)])
    return h * (R @ R.T * 0.2 / n + 0.05 * np.eye(2 * n))


STATES = ("Vac", "Coh", "Sq", "DSq", "TMSV", "Th", "GKet", "GDM", "Num")


def build(spec, trainable=False):
    import mrmustard.lab as lab
    from mrmustard import settings

    kind, modes, *p = spec
    m = tuple(modes)
    m1 = m[0]
    n = len(m)
    h = settings.HBAR
    match kind:
        case "Vac": return lab.Vacuum(m)
        case "Coh": return lab.Coherent(m1, complex(*p))
        case "Sq": return lab.SqueezedVacuum(m1, *p)
        case "DSq": return lab.DisplacedSqueezed(m1, complex(p[0], p[1]), p[2], p[3])
        case "TMSV": return lab.TwoModeSqueezedVacuum(m, *p)
        case "Th": return lab.Thermal(m1, *p)
        case "GKet": return lab.GKet(m, S_lib(p[0], n))
        case "GDM": return lab.GDM(m, p[1] if isinstance(p[1], (int, float)) else np.array(p[1]), S_lib(p[0], n))
        case "Num": return lab.Number(m1, p[0])
        case "D": return lab.Dgate(m1, complex(*p))
        case "S": return lab.Sgate(m1, *p)
        case "R": return lab.Rgate(m1, *p)
        case "P": return lab.Pgate(m1, *p)
        case "BS": return lab.BSgate(m, *p)
        case "S2": return lab.S2gate(m, *p)
        case "MZ": return lab.MZgate(m, p[0], p[1], internal=bool(p[2]))
        case "CX": return lab.CXgate(m, *p)
        case "CZ": return lab.CZgate(m, *p)
        case "U": return lab.Interferometer(m, U_lib(p[0], n))
        case "O": return lab.RealInterferometer(m, O_lib(p[0], n))
        case "G": return lab.Ggate(m, S_lib(p[0], n))
        case "Id": return lab.Identity(m)
        case "Att": return lab.Attenuator(m1, *p)
        case "Amp": return lab.Amplifier(m1, *p)
        case "GRN": return lab.GaussRandNoise(m, Y_lib(p[0], n, h))
        case "FD": return lab.FockDamping(m1, *p)
        case "PN": return lab.PhaseNoise(m1, *p)
        case "Tr": return lab.TraceOut(m)
    raise KeyError(kind)


def XYd(spec, h):
    """(X, Y, d) in xxpp over spec modes."""
    kind, modes, *p = spec
    n = len(modes)
    I = np.eye(2 * n)
    match kind:
        case "D": return I, None, np.sqrt(2 * h) * np.array([p[0], p[1]])
        case "S": return ref.S_s(*(list(p) + [0.0])[:2]), None, None
        case "R": return ref.S_r(p[0]), None, None
        case "P": return ref.S_p(p[0]), None, None
        case "BS": return ref.S_bs(*(list(p) + [0.0])[:2]), None, None
        case "S2": return ref.S_s2(*(list(p) + [0.0])[:2]), None, None
        case "MZ": return ref.U2S(ref.U_mz(p[0], p[1], p[2])), None, None
        case "CX": return ref.S_cx(p[0]), None, None
        case "CZ": return ref.S_cz(p[0]), None, None
        case "U": return ref.U2S(U_lib(p[0], n)), None, None
        case "O": return ref.U2S(O_lib(p[0], n).astype(complex)), None, None
        case "G": return S_lib(p[0], n), None, None
        case "Id": return I, None, None
        case "Att": return np.sqrt(p[0]) * I, (1 - p[0]) * h / 2 * I, None
        case "Amp": return np.sqrt(p[0]) * I, (p[0] - 1) * h / 2 * I, None
        case "GRN": return I, Y_lib(p[0], n, h), None
    raise KeyError(kind)


def gs_state(spec, h):
    kind, modes, *p = spec
    m = tuple(modes)
    n = len(m)
    g = ref.GS.vac(m, h)
    match kind:
        case "Vac": return g
        case "Coh": return g.disp(m[0], complex(*p))
        case "Sq": return g.affine(m, ref.S_s(*(list(p) + [0.0])[:2]))
        case "DSq": return g.affine(m, ref.S_s(p[2], p[3])).disp(m[0], complex(p[0], p[1]))
        case "TMSV": return g.affine(m, ref.S_s2(*(list(p) + [0.0])[:2]))
        case "Th": return ref.GS(m, g.mean, (2 * p[0] + 1) * g.cov, h)
        case "GKet": return g.affine(m, S_lib(p[0], n))
        case "GDM":
            b = np.ones(n) * np.array(p[1], float)
            nu = 2 / (np.exp(b) - 1) + 1
            return ref.GS(m, g.mean, g.cov * np.concatenate([nu, nu])[:, None], h).affine(m, S_lib(p[0], n))
    raise KeyError(kind)


def gs_apply(spec, g):
    if spec[0] == "Tr":
        return g.keep(tuple(x for x in g.modes if x not in spec[1]))
    if spec[0] in STATES:
        s = gs_state(spec, g.h)
        return g.join(s) if g is not None else s
    X, Y, d = XYd(spec, g.h)
    return g.affine(tuple(spec[1]), X, Y, d)


def name(spec):
    return spec[0] + "".join(map(str, spec[1])) if len(spec[1]) < 2 else spec[0] + ".".join(map(str, spec[1]))


# ---- dense Fock ------------------------------------------------------------------------------------

BIG1 = 110
BIG2 = 24


def fock_unitary(spec, N):
    """single-mode [out,in] cut to NxN (computed in a bigger space) or two-mode [o1,o2,i1,i2]."""
    kind, modes, *p = spec
    p = list(p)
    match kind:
        case "D": return ref.f_D(complex(p[0], p[1]), BIG1)[:N, :N]
        case "S": return ref.f_S(p[0], (p + [0.0])[1], BIG1)[:N, :N]
        case "R": return ref.f_R(p[0], N)
        case "P": return ref.f_P(p[0], BIG1)[:N, :N]
        case "Id":
            n = len(modes)
            return np.eye(N**n).reshape((N,) * (2 * n))
        case "BS": return ref.haf_unitary_fock(ref.U_bs(*(p + [0.0])[:2]), (N, N), (N, N))
        case "MZ": return ref.haf_unitary_fock(ref.U_mz(*p), (N, N), (N, N))
        case "U": return ref.haf_unitary_fock(U_lib(p[0], len(modes)), (N,) * len(modes), (N,) * len(modes))
        case "O": return ref.haf_unitary_fock(O_lib(p[0], len(modes)), (N,) * len(modes), (N,) * len(modes))
        case "S2" | "CX" | "CZ": return ref.f_lin(kind, p[0], (p + [0.0])[1], BIG2)[:N, :N, :N, :N]
    raise KeyError(kind)
