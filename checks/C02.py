"""C02: Fock arrays are exact number-basis matrix elements at every shape.

Reference: truncated operator exponentials in a much larger space, exact expansion of passive unitaries in creation
operators, Kraus operators, and exact expansion of Gaussian density operators obtained from phase space.
"""

import itertools
from functools import lru_cache

import numpy as np

from mc import comps, ref

LEVEL = "model_checking"
RULE = ("every shape in {1..5}^2 (one-mode gates), {1..3}^4 and shapes up to 5 per index (two-mode gates; {1..4}^4 for the beamsplitter), {1..6} (kets), "
        "{1..4}^2/{1..3}^4 (density matrices), plus elongated and large shapes, for each built-in state/gate/channel on a fixed parameter grid incl. zero, "
        "tiny, negative and large parameters; every method option (beamsplitter stable/vanilla/schwinger, generic recurrence, STABLE_FOCK_CONVERSION); "
        "batched parameters of shape (2,), (2,3) and superpositions; all words of length<=2 (thorough 3) over a two-mode gate alphabet applied to kets, amplitudes vs matrix product")
ASSUMPTIONS = ["truncation of the reference spaces (60 per mode for one-mode, 24-28 per mode for two-mode) is below the 1e-6 tolerance for the listed parameters",
               "gates defined through a symplectic matrix (P, CX, CZ, MZ, G) are compared up to their global phase"]
BUDGET = 500
PHASEFREE = {"P", "CX", "CZ", "MZ", "G"}

G1 = [["D", [0], 0.4, -0.3], ["D", [0], 0.0, 0.0], ["D", [0], 1e-16, 0.0], ["D", [0], -0.7, 0.0], ["D", [0], 0.0, 1.0], ["D", [0], -1.0, 1.7], ["D", [0], 1e-7, 1e-7],
      ["S", [0], 0.5, 0.8], ["S", [0], -0.6, 0.0], ["S", [0], 0.0, 0.3], ["S", [0], 0.9, -2.0], ["R", [0], 0.7], ["R", [0], 0.0], ["P", [0], 0.4], ["P", [0], -0.8], ["Id", [0]],
      ["S", [0], 1e-9, 1.0]]
G2 = [["BS", [0, 1], 0.7, 0.9], ["BS", [0, 1], 0.0, 0.4], ["BS", [0, 1], np.pi / 2, -0.3], ["BS", [0, 1], -0.4, 2.5], ["BS", [0, 1], np.pi / 4, 0.0],
      ["S2", [0, 1], 0.3, 0.7], ["S2", [0, 1], -0.2, 0.0], ["MZ", [0, 1], 0.5, 0.8, 0], ["MZ", [0, 1], 0.5, 0.8, 1], ["CX", [0, 1], 0.3], ["CX", [0, 1], -0.2], ["CZ", [0, 1], 0.3],
      ["U", [0, 1], 0], ["U", [0, 1], 1], ["O", [0, 1], 0], ["O", [0, 1], 1], ["Id", [0, 1]]]
KETS = [["Vac", [0]], ["Coh", [0], 0.6, -0.8], ["Coh", [0], 0.0, 0.0], ["Coh", [0], -1.3, 0.0], ["Sq", [0], 0.6, 0.9], ["Sq", [0], -0.4, 0.0], ["Sq", [0], 0.0, 0.0], ["DSq", [0], 0.3, 0.5, 0.4, -0.8],
        ["Num", [0], 0], ["Num", [0], 3]]
KETS2 = [["TMSV", [0, 1], 0.4, 0.8], ["TMSV", [0, 1], -0.3, 0.0], ["Vac", [0, 1]]]
DMS = [["Th", [0], 0.0], ["Th", [0], 0.7], ["Th", [0], 2.0], ["GDM", [0, ], 0, 1.2], ["GKet", [0], 0], ["GKet", [0], 1]]
DMS2 = [["GDM", [0, 1], 0, [0.9, 1.6]], ["GDM", [0, 1], 1, 1.1], ["GKet", [0, 1], 0]]
CH = [["Att", [0], 0.6], ["Att", [0], 1.0], ["Att", [0], 0.0], ["Att", [0], 0.05], ["Amp", [0], 1.0], ["Amp", [0], 1.3], ["Amp", [0], 2.0], ["GRN", [0], 0], ["GRN", [0], 1], ["FD", [0], 0.4], ["FD", [0], 0.0]]
W_ALPH = [["D", [0], 0.3, -0.2], ["D", [1], -0.25, 0.2], ["S", [0], 0.25, 0.6], ["S", [1], -0.2, 0.0], ["R", [1], 0.8], ["P", [0], 0.25], ["BS", [0, 1], 0.6, 0.5], ["S2", [0, 1], 0.2, 0.4],
          ["CX", [0, 1], 0.2], ["CZ", [0, 1], 0.2], ["MZ", [0, 1], 0.4, 0.9, 0]]
W_INIT = [[["Coh", [0], 0.4, 0.2], ["Sq", [1], 0.3, -0.5]], [["Num", [0], 2], ["Num", [1], 1]], [["TMSV", [0, 1], 0.25, 0.3]]]


def cases(tier):
    out = []
    add = lambda kind, s, **k: out.append({"id": f"{kind}-{comps.name(s)}-{'_'.join(f'{x:.4g}' if isinstance(x, (int, float)) else '.'.join(map(str, x)) for x in s[2:])}" + "".join(f"-{v}" for v in k.values()), "kind": kind, "spec": s, "tier": tier, **k})
    for s in G1:
        add("gate1", s)
    for s in G2:
        add("gate2", s)
    for s in KETS:
        add("ket", s)
    for s in KETS2:
        add("ket2", s)
    for s in DMS:
        add("dm", s)
    for s in DMS2:
        add("dm2", s)
    for s in CH:
        add("chan", s)
    for k in ("D", "S", "BS", "Sq", "Coh", "R", "Att", "Th", "Num"):
        out.append({"id": f"batch-{k}", "kind": "batch", "g": k, "tier": tier})
    out.append({"id": "special-sauron", "kind": "sauron", "tier": tier})
    out.append({"id": "special-quad", "kind": "quad", "tier": tier})
    out.append({"id": "special-bargmann", "kind": "barg", "tier": tier})
    out.append({"id": "special-phasenoise", "kind": "pn", "tier": tier})
    out.append({"id": "special-three", "kind": "three", "tier": tier})
    out.append({"id": "special-reduce", "kind": "reduce", "tier": tier})
    L = 2 if tier == "quick" else 3
    for i in range(len(W_INIT)):
        for j in range(len(W_ALPH)):
            out.append({"id": f"word-{i}-{j}", "kind": "word", "init": i, "first": j, "L": L})
    return out


def warm():
    from mrmustard.math.lattice import strategies as st
    from mrmustard.math.lattice.strategies.vanilla.core import stable_numba, vanilla_numba

    for D in (1, 2, 3, 4):
        A, b = 0.1 * np.eye(D, dtype=complex), np.ones(D, complex)
        for fn in (vanilla_numba, stable_numba):
            for c in (1 + 0j, np.array(1 + 0j)):
                fn((2,) * D, A, b, c, None)
    t, f = np.array(0.3), np.array(0.2)
    st.stable_beamsplitter((2, 2, 2, 2), t, f)
    st.beamsplitter((2, 2, 2, 2), t, f)
    st.displacement((2, 3), 0.3 + 0.1j)
    st.squeezer((2, 2), t, f)
    st.squeezed(2, t, f)


def run(case, ctx):
    globals()["r_" + case["kind"]](case, ctx)


def sh1(tier):
    s = list(itertools.product(range(1, 6), repeat=2)) + [(1, 12), (12, 1), (9, 4), (4, 9), (15, 15), (20, 3), (2, 25)]
    return s + list(itertools.product((6, 8, 11), repeat=2)) + [(35, 35)] if tier == "thorough" else s


def fix_phase(got, want):
    """rotate want so that its largest element in the corner has the phase of got's."""
    i = np.unravel_index(np.argmax(np.abs(want)), want.shape)
    if abs(want[i]) < 1e-9 or abs(got[i]) < 1e-12:
        return want
    return want * (got[i] / abs(got[i])) / (want[i] / abs(want[i]))


def cmp(ctx, got, big, shape, label, phasefree=False, atol=2e-7):
    want = big[tuple(slice(0, s) for s in shape)]
    if phasefree:
        ph = big[(0,) * big.ndim]
        want = want * np.conj(ph) / abs(ph)  # documented vacuum amplitude is positive
    ctx.transitions += 1
    ctx.traces += 1
    ctx.close(got, want, f"{label} shape {shape}", atol=atol, rtol=1e-6)


def variants(gate, shape):
    """every way the library offers to compute the array of this component"""
    from mrmustard import settings
    from mrmustard.lab import CircuitComponent

    yield "fock_array", gate.fock_array(shape)
    yield "generic recurrence", CircuitComponent.fock_array(gate, shape)
    with settings(STABLE_FOCK_CONVERSION=True):
        yield "generic stable", CircuitComponent.fock_array(gate, shape)
    yield "to_fock", gate.to_fock(shape).ansatz.array
    yield "to_fock.fock_array", gate.to_fock(shape).fock_array(shape)


def r_gate1(case, ctx):
    s = case["spec"]
    g = comps.build(s)
    big = comps.fock_unitary(s, 40)
    for shape in sh1(case["tier"]):
        for lab, a in variants(g, shape):
            cmp(ctx, a, big, shape, lab, s[0] in PHASEFREE)
        ctx.see_arr(big[: shape[0], : shape[1]])
    cmp(ctx, g.fock_array(4), big, (4, 4), "int shape", s[0] in PHASEFREE)
    g.manual_shape = (6, 3)
    cmp(ctx, g.fock_array(), big, (6, 3), "manual shape", s[0] in PHASEFREE)
    cmp(ctx, g.dual.fock_array((3, 6)), big.conj().T, (3, 6), "dual", s[0] in PHASEFREE)
    cmp(ctx, g.adjoint.fock_array((3, 6)), big.conj(), (3, 6), "adjoint", s[0] in PHASEFREE)


def sh2(s, tier):
    r = range(1, 5) if s[0] == "BS" else range(1, 4)
    out = list(itertools.product(r, repeat=4)) + [(5, 2, 1, 4), (1, 5, 5, 1), (4, 1, 2, 5), (2, 4, 4, 5), (5, 5, 5, 5), (6, 2, 6, 2), (2, 6, 2, 6), (1, 6, 1, 6), (1, 1, 1, 7), (7, 1, 1, 1), (1, 7, 7, 1), (6, 3, 4, 7)]
    if tier == "thorough":
        out += list(itertools.product((2, 5, 7), repeat=4))
    return list(dict.fromkeys(out))


def r_gate2(case, ctx):
    s = case["spec"]
    g = comps.build(s)
    pf = s[0] in PHASEFREE
    big = comps.fock_unitary(s, 8)
    if s[0] == "MZ":
        pf = False
    for shape in sh2(s, case["tier"]):
        cmp(ctx, g.fock_array(shape), big, shape, "fock_array", pf)
        if s[0] == "BS":
            for m in ("stable", "vanilla"):
                cmp(ctx, g.fock_array(shape, method=m), big, shape, m)
            if shape[:2] == shape[2:]:
                cmp(ctx, g.fock_array(shape, method="schwinger"), big, shape, "schwinger")
            else:
                ctx.raises(ValueError, lambda: g.fock_array(shape, method="schwinger"), f"schwinger must reject {shape}")
        if sum(shape) % 3 == 0 or max(shape) > 4:
            for lab, a in variants(g, shape):
                cmp(ctx, a, big, shape, lab, pf)
        ctx.see_arr(big[tuple(slice(0, x) for x in shape)])
    if s[0] == "BS":
        n = 24 if case["tier"] == "quick" else 40
        a = g.fock_array((n, n, n, n))
        # unitarity on each total-photon sector and corner consistency at a large cutoff
        cmp(ctx, a[:8, :8, :8, :8], big, (8, 8, 8, 8), "corner of large stable array")
        for N in (5, n // 2, n - 1):
            U = np.array([[a[N - i, i, N - j, j] for j in range(N + 1)] for i in range(N + 1)])
            ctx.close(U @ U.conj().T, np.eye(N + 1), f"unitary on {N}-photon sector", atol=1e-8)


def ket_ref(s, N):
    h = 1.0
    match s[0]:
        case "Coh": return ref.coh_vec(complex(*s[2:]), N)
        case "Sq": return ref.f_S(s[2], s[3])[:N, 0]
        case "DSq": return (ref.f_D(complex(s[2], s[3])) @ ref.f_S(s[4], s[5]))[:N, 0]
        case "Num": return ref.num_vec(s[2], N)
        case "Vac": return ref.num_vec(0, N)


def r_ket(case, ctx):
    s = case["spec"]
    k = comps.build(s)
    big = ket_ref(s, 30)
    pf = False
    for n in [*range(1, 7), 9, 14, 25]:
        for lab, a in (variants(k, (n,)) if s[0] != "Num" else [("fock_array", k.fock_array((n,))), ("int", k.fock_array(n)), ("to_fock", k.to_fock((n,)).ansatz.array)]):
            cmp(ctx, a, big, (n,), lab, pf)
        ctx.see_arr(big[:n])
    dm = k.dm()
    B = np.outer(big.conj(), big)
    for sh in [(1, 1), (3, 3), (2, 5), (6, 1), (7, 7)]:
        cmp(ctx, dm.fock_array(sh), B, sh, "dm", False)
        if sh[0] == sh[1]:
            cmp(ctx, dm.fock_array(sh, standard_order=True), B.T, sh, "dm standard order", False)


def r_ket2(case, ctx):
    s = case["spec"]
    k = comps.build(s)
    N = 12
    if s[0] == "TMSV":
        big = np.diag(np.exp(1j * s[3] * np.arange(N)) * np.tanh(s[2]) ** np.arange(N) / np.cosh(s[2])).astype(complex)
    else:
        big = np.zeros((N, N), complex)
        big[0, 0] = 1
    for shape in list(itertools.product(range(1, 6), repeat=2)) + [(1, 9), (9, 2), (10, 10)]:
        for lab, a in variants(k, shape):
            cmp(ctx, a, big, shape, lab)
        ctx.see_arr(big[: shape[0], : shape[1]])


@lru_cache(None)
def _dmref(key, h, shape):
    import json

    s = json.loads(key)
    A, b, c = comps.gs_state(s, h).Abc()
    return ref.hermite_ref(A, b, c, shape)


def r_dm(case, ctx):
    import json

    s = case["spec"]
    st = comps.build(s)
    n = len(s[1])
    N = 12 if n == 1 else 6
    big = _dmref(json.dumps(s), 1.0, (N,) * (2 * n))
    d = st if s[0] != "GKet" else st.dm()
    for shape in list(itertools.product(range(1, 5 if n == 1 else 4), repeat=2 * n)) + ([(1, 10), (10, 1), (7, 3), (12, 12)] if n == 1 else [(1, 5, 5, 1), (6, 2, 2, 6), (5, 5, 5, 5)]):
        if sum(shape) % 2 and n == 2 and max(shape) < 4:
            continue
        for lab, a in variants(d, shape):
            cmp(ctx, a, big, shape, lab, atol=1e-8)
        ctx.see_arr(big[tuple(slice(0, x) for x in shape)])
    for M in (1, 3, 4):
        a = d.fock_array((M,) * (2 * n), standard_order=True)
        w = big[(slice(0, M),) * (2 * n)].transpose(tuple(range(n, 2 * n)) + tuple(range(n)))
        ctx.close(a, w, f"standard order {M}", atol=1e-8)
    if s[0] == "GKet":
        for M in (1, 2, 5):
            v = st.fock_array((M,) * n)
            r = np.multiply.outer(v.conj(), v)
            ctx.close(r, big[(slice(0, M),) * (2 * n)], f"ket amplitudes {M}", atol=1e-8)
    ctx.close(st.fock_distribution(N), np.real(np.array([big[i + i] for i in np.ndindex(*(N,) * n)])), "fock_distribution", atol=1e-8)


r_dm2 = r_dm


def grn_ref(Y, shape, h):
    """Kraus integral over displacements with Gaussian weight, exact Gauss-Hermite"""
    N = max(shape)
    C = np.linalg.inv(np.linalg.inv(Y) + np.eye(2) / h)
    x, w = np.polynomial.hermite_e.hermegauss(4 * N + 4)
    L = np.linalg.cholesky(C)
    T = np.zeros(shape, complex)
    norm = np.sqrt(np.linalg.det(C)) / np.sqrt(np.linalg.det(Y)) / (2 * np.pi)
    from math import factorial

    f = [float(factorial(k)) for k in range(N)]
    for i in range(len(x)):
        for j in range(len(x)):
            if w[i] * w[j] < 1e-18:
                continue
            xi = L @ np.array([x[i], x[j]])
            al = complex(xi[0], xi[1]) / np.sqrt(2 * h)
            P = np.zeros((N, N), complex)
            for m in range(N):
                for n in range(N):
                    P[m, n] = np.sqrt(f[m] * f[n]) * sum(al ** (m - k) * (-np.conj(al)) ** (n - k) / (f[k] * f[m - k] * f[n - k]) for k in range(min(m, n) + 1))
            T += w[i] * w[j] * norm * np.einsum("ab,cd->abcd", P.conj()[: shape[0], : shape[1]], P[: shape[2], : shape[3]])
    return T


def r_chan(case, ctx):
    from mrmustard import settings

    s = case["spec"]
    g = comps.build(s)
    if s[0] == "FD":
        big = np.diag(np.exp(-s[2] * np.arange(12))).astype(complex)
        for shape in itertools.product(range(1, 6), repeat=2):
            for lab, a in variants(g, shape):
                cmp(ctx, a, big, shape, lab)
        ctx.see_arr(big)
        return
    M = 6
    if s[0] == "Att":
        big = ref.superop(ref.kraus_att(s[2], M + 2), (M,) * 4) if s[2] > 0 else ref.superop(ref.kraus_att(0.0, M + 2), (M,) * 4)
    elif s[0] == "Amp":
        big = ref.superop(ref.kraus_amp(s[2], M + 2), (M,) * 4)
    else:
        big = grn_ref(comps.Y_lib(s[2], 1, settings.HBAR), (4,) * 4, settings.HBAR)
        M = 4
    for shape in list(itertools.product(range(1, 4), repeat=4)) + ([(5, 1, 5, 1), (1, 6, 1, 6), (2, 6, 3, 5), (5, 5, 5, 5)] if M == 6 else [(4, 4, 4, 4), (4, 1, 1, 4)]):
        for lab, a in variants(g, shape):
            cmp(ctx, a, big, shape, lab)
        ctx.see_arr(big[tuple(slice(0, x) for x in shape)])


def r_batch(case, ctx):
    from mrmustard import lab, math, settings

    k = case["g"]
    v = np.array([0.3, -0.2, 0.45, 0.1, 0.7, 0.25])
    for bs in ((2,), (1,), (2, 3), (3, 1)):
        n = int(np.prod(bs))
        a1, a2 = v[:n].reshape(bs), v[::-1][:n].reshape(bs)
        if k == "D": mk = lambda i: (lab.Dgate(0, (a1 + 1j * a2)[i]), comps.fock_unitary(["D", [0], a1[i], a2[i]], 9)); obj = lab.Dgate(0, a1 + 1j * a2); shapes = [(3, 5), (4, 4), (5, 2), (1, 1)]
        if k == "S": mk = lambda i: (None, comps.fock_unitary(["S", [0], a1[i], a2[i]], 9)); obj = lab.Sgate(0, a1, a2); shapes = [(3, 5), (4, 4), (5, 2), (1, 1)]
        if k == "BS": mk = lambda i: (None, comps.fock_unitary(["BS", [0, 1], a1[i], a2[i]], 4)); obj = lab.BSgate((0, 1), a1, a2); shapes = [(3, 4, 2, 4), (3, 3, 3, 3), (1, 2, 3, 4)]
        if k == "Sq": mk = lambda i: (None, ref.f_S(a1[i], a2[i])[:9, 0]); obj = lab.SqueezedVacuum(0, a1, a2); shapes = [(1,), (4,), (9,)]
        if k == "Coh": mk = lambda i: (None, ref.coh_vec(a1[i] + 1j * a2[i], 9)); obj = lab.Coherent(0, a1 + 1j * a2); shapes = [(1,), (4,), (9,)]
        if k == "R": mk = lambda i: (None, ref.f_R(a1[i], 9)); obj = lab.Rgate(0, a1); shapes = [(3, 5), (5, 2), (1, 1)]
        if k == "Att": mk = lambda i: (None, ref.superop(ref.kraus_att(abs(a1[i]), 8), (4,) * 4)); obj = lab.Attenuator(0, np.abs(a1)); shapes = [(3, 4, 2, 4), (3, 3, 3, 3), (1, 2, 3, 4)]
        if k == "Th": mk = lambda i: (None, ref.thermal(abs(a1[i]), 9)); obj = lab.Thermal(0, np.abs(a1)); shapes = [(3, 5), (5, 2), (1, 1)]
        if k == "Num":
            ns = (np.arange(n) * 2 % 5).reshape(bs)
            mk = lambda i: (None, ref.num_vec(ns[i], 9)); obj = lab.Number(0, ns); shapes = [(1,), (3,), (5,), (7,)]
        for shape in shapes:
            want = np.stack([mk(i)[1][tuple(slice(0, s) for s in shape)] for i in np.ndindex(*bs)]).reshape(bs + shape)
            ctx.sub = f"batch {bs} shape {shape}"
            ctx.transitions += 1
            ctx.traces += 1
            ctx.close(obj.fock_array(shape), want, "fock_array", atol=1e-7)
            ctx.close(obj.to_fock(shape).ansatz.array, want, "to_fock", atol=1e-7)
            if k != "Num":
                ctx.close(lab.CircuitComponent.fock_array(obj, shape), want, "generic", atol=1e-7)
                with settings(STABLE_FOCK_CONVERSION=True):
                    ctx.close(lab.CircuitComponent.fock_array(obj, shape), want, "generic stable", atol=1e-7)
            ctx.see_arr(want)
            # the same object turned into a linear superposition over its last batch axis
            if k in ("D", "S", "BS", "Sq", "Coh"):
                s = lab.CircuitComponent._from_attributes(obj.ansatz, obj.wires)
                import copy

                o2 = copy.deepcopy(obj)
                o2.ansatz._lin_sup = True
                ctx.close(o2.fock_array(shape), want.sum(axis=len(bs) - 1), "superposition", atol=1e-7)


def r_sauron(case, ctx):
    from mrmustard.lab import Sauron

    for n in range(0, 5):
        for eps in (0.1, 0.5, 1.0):
            N = 16
            k = np.arange(n + 1)
            ph = np.exp(2j * np.pi * k / (n + 1))
            v = sum(p * ref.coh_vec(eps * p, N + 20) for p in ph)
            v = v / np.linalg.norm(v)
            for m in (1, 3, 6, 12):
                ctx.transitions += 1
                ctx.traces += 1
                ctx.close(Sauron(0, n, eps).fock_array(m), v[:m], f"Sauron n={n} eps={eps} shape {m}", atol=1e-6, rtol=1e-4)
                ctx.see_arr(v[:m])


def r_quad(case, ctx):
    from mrmustard import settings
    from mrmustard.lab import QuadratureEigenstate

    for h in (1.0, 2.0):
        with settings(HBAR=h):
            for x in (-0.7, 0.0, 1.2):
                for phi in (0.0, 0.6, np.pi / 2):
                    n = np.arange(12)
                    v = ref.osc_all(12, x, h) * np.exp(1j * phi * n)
                    for m in (1, 4, 12):
                        ctx.transitions += 1
                        ctx.traces += 1
                        a = QuadratureEigenstate(0, x, phi).fock_array(m)
                        ctx.close(a / a[0], v[:m] / v[0], f"quadrature eigenstate, relative amplitudes h={h} x={x} phi={phi} shape {m}")
                        ctx.close(a[0], v[0], f"quadrature eigenstate, vacuum amplitude h={h}")
                        ctx.see_arr(v[:m])


def r_barg(case, ctx):
    from mrmustard.lab import BargmannEigenstate

    for al in (0j, 0.4 - 0.9j, 1.5 + 0j):
        for m in (1, 3, 8):
            ctx.transitions += 1
            ctx.traces += 1
            v = ref.coh_vec(al, m) * np.exp(abs(al) ** 2 / 2)
            ctx.close(BargmannEigenstate(0, al).fock_array(m), v, f"bargmann eigenstate {al} {m}")
            ctx.see_arr(v)


def r_pn(case, ctx):
    from mrmustard.lab import Coherent, PhaseNoise, SqueezedVacuum, Thermal

    n = np.arange(8)
    for sig in (0.0, 0.3, 1.1):
        fac = np.exp(-0.5 * sig**2 * (n[:, None] - n[None]) ** 2)
        for nm, st, rho in [("coh", Coherent(0, 0.5 + 0.2j), np.outer(ref.coh_vec(0.5 + 0.2j, 8).conj(), ref.coh_vec(0.5 + 0.2j, 8))),
                            ("th", Thermal(0, 0.4), ref.thermal(0.4, 8)), ("sq", SqueezedVacuum(0, 0.4, 0.3), np.outer(ref.f_S(0.4, 0.3)[:8, 0].conj(), ref.f_S(0.4, 0.3)[:8, 0]))]:
            ctx.transitions += 1
            ctx.traces += 1
            out = st.to_fock(8) >> PhaseNoise(0, sig)
            ctx.close(out.fock_array(8), rho * fac, f"phase noise {sig} on {nm}", atol=1e-6)
            ctx.close(out.fock_array(3), (rho * fac)[:3, :3], f"phase noise {sig} on {nm}, smaller", atol=1e-6)
            ctx.see_arr(rho * fac)


def r_three(case, ctx):
    """three-mode unitaries and states, mode labels not contiguous"""
    from mrmustard.lab import GKet, Interferometer, RealInterferometer

    for k in (0, 1):
        U = comps.U_lib(k, 3)
        big = ref.haf_unitary_fock(U, (3, 3, 3), (3, 3, 3))
        g = Interferometer((0, 3, 7), U)
        O = comps.O_lib(k, 3)
        bigO = ref.haf_unitary_fock(O, (3, 3, 3), (3, 3, 3))
        gO = RealInterferometer((1, 2, 9), O)
        for sh in itertools.product((1, 2), (1, 3), (2, 3), (1, 3), (2,), (1, 3)):
            cmp(ctx, g.fock_array(sh), big, sh, "interferometer")
            cmp(ctx, gO.fock_array(sh), bigO, sh, "real interferometer")
            ctx.see_arr(big[tuple(slice(0, x) for x in sh)])
        from mc.ref import GS

        S = comps.S_lib(k, 3)
        A, b, c = GS.vac((0, 1, 2), 1.0).affine((0, 1, 2), S).Abc()
        v = GKet((0, 1, 2), S).fock_array((3, 2, 3))
        r = ref.hermite_ref(A, b, c, (3, 2, 3, 3, 2, 3))
        ctx.close(np.multiply.outer(v.conj(), v), r, "GKet three modes", atol=1e-8)


def r_reduce(case, ctx):
    """requesting another shape from an array: cut where smaller, pad with zeros where larger, independently per index"""
    from mrmustard.physics.ansatz import ArrayAnsatz

    for core in [(3,), (2, 4), (3, 1, 2)]:
        for batch in [(), (2,), (2, 2)]:
            arr = (np.arange(np.prod(batch + core)) + 1.0).reshape(batch + core) * (1 + 0.3j)
            for shape in itertools.product(range(1, 6), repeat=len(core)):
                want = np.zeros(batch + shape, complex)
                sl = (...,) + tuple(slice(0, min(a, b)) for a, b in zip(core, shape))
                want[sl] = arr[sl]
                a = ArrayAnsatz(arr, batch_dims=len(batch))
                got = a.reduce(shape)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.close(got.array, want, f"reduce {core} to {shape} batch {batch}")
                ctx.eq(got.batch_dims, len(batch), "batch dims")
                ctx.close(a.array, arr, "operand unchanged")
                ctx.see_arr(want)


def r_word(case, ctx):
    N = 20
    init = W_INIT[case["init"]]

    def apply(spec, v):
        if len(spec[1]) == 1:
            U = comps.fock_unitary(spec, N)
            if spec[0] in PHASEFREE:
                U = U * np.conj(U[0, 0]) / abs(U[0, 0])
            return np.einsum("ab,bc->ac", U, v) if spec[1][0] == 0 else np.einsum("ab,cb->ca", U, v)
        U = unit2(tuple(map(str, spec)), N)
        return np.einsum("abcd,cd->ab", U, v)

    if len(init) == 2:
        vs = [ket_ref([s[0], [0], *s[2:]], N) for s in init]
        v0 = np.outer(vs[0], vs[1])
        s0 = comps.build(init[0]) >> comps.build(init[1])
    else:
        s = init[0]
        v0 = np.diag(np.exp(1j * s[3] * np.arange(N)) * np.tanh(s[2]) ** np.arange(N) / np.cosh(s[2])).astype(complex)
        s0 = comps.build(s)
    a = W_ALPH[case["first"]]
    level = [((a,), s0 >> comps.build(a), apply(a, v0))]
    shapes = [(5, 5), (2, 6), (6, 1)]
    for depth in range(case["L"]):
        nxt = []
        for w, obj, v in level:
            ctx.sub = ">".join(comps.name(x) for x in w)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.see_arr(v[:5, :5])
            for sh in shapes:
                if init[0][0] == "Num":  # Fock arithmetic: truncated by the automatic shapes, compare within them
                    obj_a = obj.fock_array(sh) if all(x <= y for x, y in zip(sh, obj.ansatz.core_shape)) else None
                    if obj_a is None:
                        continue
                    lim = 3e-2
                else:
                    obj_a, lim = obj.fock_array(sh), 3e-6
                ctx.close(obj_a, v[: sh[0], : sh[1]], f"amplitudes {sh}", atol=lim, rtol=1e-5)
            if depth + 1 < case["L"]:
                for b in W_ALPH:
                    nxt.append((w + (b,), obj >> comps.build(b), apply(b, v)))
        level = nxt


@lru_cache(None)
def unit2(key, N):
    spec = next(s for s in W_ALPH if tuple(map(str, s)) == key)
    if spec[0] in ("BS", "MZ"):
        return comps.fock_unitary(spec, N)
    U = ref.f_lin(spec[0], spec[2], (list(spec[3:]) + [0.0])[0], N)
    if spec[0] in PHASEFREE:
        ph = U[0, 0, 0, 0]
        U = U * np.conj(ph) / abs(ph)
    return U
