"""C23: Gaussian information measures against dense density matrices; conversions between matrices are mutual inverses."""

import itertools
import warnings

import numpy as np

from mc import comps, ref

LEVEL = "model_checking"
RULE = ("all states (thermal occupations x words of Gaussian gates x displacements) of one and two modes, all pairs of them, with both values of hbar: entropy, purity, symplectic eigenvalues, mean numbers, fidelity against the spectra of their dense "
        "density matrices and under every gate of the alphabet; all symplectic matrices, channels and states of an alphabet through every conversion and back, one to four modes, single and batched; separability of every partition of three and four modes into blocks")
ASSUMPTIONS = ["measures are claimed for normalised Gaussian states", "dense matrices are cut at 48 (one mode) and 17 (two modes) photons, where the alphabet's tails are below the tolerances (checked)"]
CASE_LIMIT = 600

N1, N2 = 48, 17
TH1 = (0.0, 0.2, 0.35)
W1 = ((), (("S", 0.3, 0.7),), (("S", -0.25, 0.0),), (("P", 0.3),), (("S", 0.2, 1.9), ("R", 0.8)))
D1 = (0.0, 0.3 - 0.2j)
TH2 = ((0.0, 0.0), (0.2, 0.0), (0.12, 0.25))
W2 = ((), (("S2", 0.25, 0.4),), (("S", 0.25, 0.3), ("BS", 0.6, 0.9)), (("CZ", 0.2),), (("BS", 0.8, 0.0), ("S2", -0.2, 0.0)), (("S", 0.2, 0.0), ("CX", 0.2)))
D2 = ((0.0, 0.0), (0.2, -0.1 + 0.2j))


def alphabet(n):
    return list(itertools.product(*((TH1, W1, D1) if n == 1 else (TH2, W2, D2))))


def cases(tier):
    out = []
    for n in (1, 2):
        for i in range(len(alphabet(n))):
            out.append({"id": f"state{n}-{i:02d}", "part": "state", "n": n, "i": i, "all": tier == "thorough" or n == 1})
    for h in (1.0, 2.0):
        for n in (1, 2, 3, 4):
            out.append({"id": f"convert-{n}-h{h:g}", "part": "convert", "n": n, "h": h})
        out.append({"id": f"separable-h{h:g}", "part": "separable", "h": h})
        for n in (1, 2):
            out.append({"id": f"batch-{n}-h{h:g}", "part": "batch", "n": n, "h": h})
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from mrmustard import settings

    settings.HBAR = case.get("h", 1.0)
    globals()["r_" + case["part"]](case, ctx)


# ---- dense --------------------------------------------------------------------------------------------------
_gate = {}


def gate(n, g):
    if (n, g) not in _gate:
        k, *p = g
        if n == 1:
            N = N1
            U = ref.f_S(p[0], p[1], N) if k == "S" else ref.f_P(p[0], N) if k == "P" else ref.f_R(p[0], N)
        else:
            N = N2
            U = np.kron(ref.f_S(p[0], p[1], N), np.eye(N)) if k == "S" else ref.f_lin(k, p[0], p[1] if len(p) > 1 else 0.0, N).reshape(N * N, N * N)
        _gate[n, g] = U
    return _gate[n, g]


_dense = {}


def dense(n, i):
    """(rho, sqrt(rho)) of state i"""
    if (n, i) not in _dense:
        th, w, d = alphabet(n)[i]
        if n == 1:
            U = np.eye(N1)
            p = np.diag(ref.thermal(th, N1)) if np.ndim(ref.thermal(th, N1)) == 2 else ref.thermal(th, N1)
            D = ref.f_D(complex(d), N1)
        else:
            U = np.eye(N2 * N2)
            ps = [np.diag(ref.thermal(t, N2)) if np.ndim(ref.thermal(t, N2)) == 2 else ref.thermal(t, N2) for t in th]
            p = np.kron(*ps)
            D = np.kron(ref.f_D(complex(d[0]), N2), ref.f_D(complex(d[1]), N2))
        for g in w:
            U = gate(n, g) @ U
        U = D @ U
        p = np.real(p)
        _dense[n, i] = ((U * p) @ U.conj().T, (U * np.sqrt(p)) @ U.conj().T, p)
    return _dense[n, i]


def gspec(n, g):
    k, *p = g
    return (k, (5,) if n == 1 or k == "S" else (5, 13), *p)


def gauss(n, i, h):
    th, w, d = alphabet(n)[i]
    modes = (5,) if n == 1 else (5, 13)
    g = ref.GS.vac(modes, h)
    for m, t in zip(modes, np.atleast_1d(th)):
        g = g.affine((m,), np.eye(2), 2 * t * h / 2 * np.eye(2))
    for x in w:
        g = comps.gs_apply(gspec(n, x), g)
    for m, a in zip(modes, np.atleast_1d(d)):
        g = g.disp(m, complex(a))
    return g


def impl(n, i):
    import mrmustard.lab as lab

    th, w, d = alphabet(n)[i]
    modes = (5,) if n == 1 else (5, 13)
    s = None
    for m, t in zip(modes, np.atleast_1d(th)):
        v = lab.Thermal(m, float(t)) if t else lab.Vacuum(m)
        s = v if s is None else s >> v
    for x in w:
        s = s >> comps.build(gspec(n, x))
    for m, a in zip(modes, np.atleast_1d(d)):
        if a:
            s = s >> lab.Dgate(m, complex(a))
    return s


INV = {1: [("S", (5,), 0.4, 0.3), ("R", (5,), 0.7), ("P", (5,), -0.5), ("G", (5,), 1)],
       2: [("BS", (5, 13), 0.7, 0.3), ("S2", (5, 13), 0.5, 1.0), ("CX", (5, 13), 0.6), ("CZ", (5, 13), -0.4), ("G", (5, 13), 2), ("U", (5, 13), 1), ("S", (13,), 0.3, 0.2)]}


def r_state(case, ctx):
    from mrmustard import settings
    from mrmustard.physics import gaussian as G

    n, i = case["n"], case["i"]
    N = N1 if n == 1 else N2
    rho, sq, p = dense(n, i)
    p = p[p > 0]
    want_pur = float(np.real(np.trace(rho @ rho)))
    want_ent = float(-(p * np.log(p)).sum())
    lad = ref.lad(N)
    num = lad.conj().T @ lad
    nums = [num] if n == 1 else [np.kron(num, np.eye(N)), np.kron(np.eye(N), num)]
    want_num = [float(np.real(np.trace(rho @ o))) for o in nums]
    # the tail beyond the cutoff is negligible
    top = rho.reshape((N,) * (2 * n))
    tail = np.real(top[-1, -1]) if n == 1 else np.real(np.einsum("ijij->i", top)[-3:].sum() + np.einsum("ijij->j", top)[-3:].sum())
    assert tail < 1e-6, tail
    for h in (1.0, 2.0):
        settings.HBAR = h
        g = gauss(n, i, h)
        modes = tuple(g.modes)
        s = impl(n, i)
        # the state itself
        F = np.asarray(s.dm().fock_array((N,) * (2 * n))).reshape(N**n, N**n).T
        ctx.close(F, rho, f"h{h:g}: density matrix", atol=3e-5 if n == 2 else 1e-7)
        for who, (cov, mean) in (("reference covariance", (g.cov, g.mean)), ("state's covariance", tuple(np.real(np.asarray(x)) for x in s.phase_space(0)[:2]))):
            t = f"h{h:g}, {who}"
            ctx.close(float(np.real(G.purity(cov))), want_pur, f"{t}: purity", atol=1e-6)
            ctx.close(float(np.real(G.von_neumann_entropy(cov))), want_ent, f"{t}: entropy", atol=1e-6)
            ctx.close(np.asarray(G.number_means(cov, mean)), want_num, f"{t}: photon numbers", atol=1e-5)
            ev = np.sort(np.asarray(G.symplectic_eigenvals(cov)))
            ctx.close(ev, np.sort(2 * np.atleast_1d(alphabet(n)[i][0]) + 1), f"{t}: symplectic eigenvalues", atol=1e-6)
            for q in INV[n]:
                X, _, _ = comps.XYd(q, h)
                ix = [modes.index(m) for m in q[1]]
                ix = ix + [n + k for k in ix]
                FX = np.eye(2 * n)
                FX[np.ix_(ix, ix)] = X
                c2 = FX @ cov @ FX.T
                ctx.close(float(np.real(G.purity(c2))), want_pur, f"{t}, {comps.name(q)}: purity", atol=1e-6)
                ctx.close(float(np.real(G.von_neumann_entropy(c2))), want_ent, f"{t}, {comps.name(q)}: entropy", atol=1e-6)
                ctx.close(np.sort(np.asarray(G.symplectic_eigenvals(c2))), ev, f"{t}, {comps.name(q)}: symplectic eigenvalues", atol=1e-6)
                ctx.transitions += 1
        ctx.close(float(np.real(s.purity)), want_pur, f"h{h:g}: purity of the component", atol=1e-6)
        ctx.close(float(np.real(s.dm().purity)), want_pur, f"h{h:g}: purity of its density matrix", atol=1e-6)
        ctx.close(float(np.real(s.L2_norm)), want_pur, f"h{h:g}: norm", atol=1e-6)
        ctx.eq(bool(s.is_pure), abs(want_pur - 1) < 1e-6, f"h{h:g}: is_pure")
        # pairs
        for j in range(len(alphabet(n))):
            if not case["all"] and (i * 7 + j) % 3 and j != i:
                continue
            _, sq2, _ = dense(n, j)
            want = float(np.linalg.svd(sq @ sq2, compute_uv=False).sum() ** 2)
            g2 = gauss(n, j, h)
            t = f"h{h:g}: fidelity with {j}"
            ctx.close(float(G.fidelity(g.mean, g.cov, g2.mean, g2.cov)), want, t, atol=2e-5)
            s2 = impl(n, j)
            ctx.close(float(np.real(s.fidelity(s2))), want, f"{t}, components", atol=2e-5)
            ctx.close(float(np.real(s.dm().fidelity(s2))), want, f"{t}, first as a density matrix", atol=2e-5)
            ctx.close(float(np.real(s.fidelity(s2.dm()))), want, f"{t}, second as a density matrix", atol=2e-5)
            ctx.close(float(np.real(s.dm().fidelity(s2.dm()))), want, f"{t}, density matrices", atol=2e-5)
            q = INV[n][j % len(INV[n])]
            ga, gb = comps.gs_apply(q, g), comps.gs_apply(q, g2)
            ctx.close(float(G.fidelity(ga.mean, ga.cov, gb.mean, gb.cov)), want, f"{t}, after {comps.name(q)}", atol=2e-5)
            c = comps.build(q)
            ctx.close(float(np.real((s >> c).fidelity(s2 >> c))), want, f"{t}, components after {comps.name(q)}", atol=2e-5)
            ctx.transitions += 6
        ctx.states += 1
    ctx.see(n, round(want_ent, 4), round(want_pur, 4))
    ctx.traces += 1


def r_separable(case, ctx):
    import mrmustard.lab as lab

    a, b = lab.DisplacedSqueezed(5, 0.3, -0.2, 0.5, 0.4), lab.SqueezedVacuum(13, 0.4)
    prod = {
        "vacuum": lab.Vacuum((5, 13)), "product of pure states": a >> b, "product of mixed states": lab.Thermal(5, 0.4) >> lab.Thermal(13, 0.8), "mixed and pure": lab.Thermal(5, 0.4) >> b, "lossy product": a >> b >> lab.Attenuator(5, 0.6),
        "coherent light on a beam splitter": lab.Coherent(5, 0.4) >> lab.Coherent(13, 0.2) >> lab.BSgate((5, 13), 0.7, 0.2), "one mode": a, "three": a >> b >> lab.Coherent(0, 0.3), "strongly squeezed": lab.SqueezedVacuum(5, 1.6) >> lab.SqueezedVacuum(13, -1.2, 0.4),
    }
    ent = {
        "two-mode squeezed": lab.TwoModeSqueezedVacuum((5, 13), 0.3, 0.4), "squeezed light on a beam splitter": a >> b >> lab.BSgate((5, 13), 0.6, 0.1), "lossy": lab.TwoModeSqueezedVacuum((5, 13), 0.5) >> lab.Attenuator(5, 0.7), "weakly": lab.TwoModeSqueezedVacuum((5, 13), 0.02),
        "three": lab.TwoModeSqueezedVacuum((5, 41), 0.3) >> lab.Coherent(13, 0.2), "three, entangled": lab.GKet((0, 8, 41), comps.S_lib(1, 3)),
    }
    for nm, s in prod.items():
        ctx.eq(bool(s.is_separable), True, f"{nm}: separable")
        ctx.eq(bool(s.dm().is_separable), True, f"{nm}: separable as a density matrix")
    for nm, s in ent.items():
        ctx.eq(bool(s.is_separable), False, f"{nm}: separable")
        ctx.eq(bool(s.dm().is_separable), False, f"{nm}: separable as a density matrix")
    ctx.transitions += 2 * (len(prod) + len(ent))
    # every partition of three and four modes into blocks, entangled within each block, pure or mixed
    from functools import reduce

    for n in (3, 4):
        for lab_ in itertools.product(range(n), repeat=n):
            if any(x > max(lab_[:i], default=-1) + 1 for i, x in enumerate(lab_)):
                continue
            blocks = [[5 * i + 2 for i in range(n) if lab_[i] == k] for k in range(max(lab_) + 1)]
            for mixed in (False, True):
                parts = []
                for k, bl in enumerate(blocks):
                    if len(bl) == 1:
                        parts.append(lab.Thermal(bl[0], 0.3 + 0.2 * k) if mixed else lab.SqueezedVacuum(bl[0], 0.3 + 0.1 * k, 0.4))
                    elif len(bl) == 2:
                        parts.append(lab.TwoModeSqueezedVacuum(tuple(bl), 0.4, 0.3))
                    else:
                        parts.append(lab.GKet(tuple(bl), comps.S_lib(2, len(bl))))
                s = reduce(lambda x, y: x >> y, parts)
                ctx.eq(bool(s.is_separable), len(blocks) == n, f"blocks {blocks} {'mixed' if mixed else 'pure'}: separable")
                ctx.transitions += 1
    ctx.see(case["h"])
    ctx.traces += 1


def r_batch(case, ctx):
    """measures of a batch are those of its elements"""
    import mrmustard.lab as lab
    from mrmustard.physics import gaussian as G

    n, h = case["n"], case["h"]
    gs = [gauss(n, i, h) for i in range(len(alphabet(n)))]
    for shape in ((2,), (3,), (1,), (2, 3), (5,)):
        k = int(np.prod(shape))
        for start in range(0, len(gs) - k, 4):
            sel = gs[start:start + k]
            cov = np.stack([g.cov for g in sel]).reshape(*shape, 2 * n, 2 * n)
            mean = np.stack([g.mean for g in sel]).reshape(*shape, 2 * n)
            t = f"batch {shape} from {start}"
            for nm, got, one, last in (
                ("purity", G.purity(cov), lambda g: G.purity(g.cov), ()), ("entropy", G.von_neumann_entropy(cov), lambda g: G.von_neumann_entropy(g.cov), ()),
                ("symplectic eigenvalues", G.symplectic_eigenvals(cov), lambda g: G.symplectic_eigenvals(g.cov), (n,)), ("photon numbers", G.number_means(cov, mean), lambda g: G.number_means(g.cov, g.mean), (n,)),
            ):
                want = np.stack([np.real(np.asarray(one(g))) for g in sel]).reshape(*shape, *last)
                got = np.real(np.asarray(got))
                ctx.eq(got.shape, want.shape, f"{t}: shape of {nm}")
                if got.shape == want.shape:
                    ctx.close(got, want, f"{t}: {nm}", atol=1e-9)
            ctx.transitions += 4
    if n == 2:
        r = np.array([0.0, 0.4])
        for order in itertools.product((0.0, 0.4), repeat=3):
            s = lab.TwoModeSqueezedVacuum((5, 13), np.array(order))
            ctx.eq(bool(s.is_separable), not any(order), f"batch of two-mode squeezed states {order}: separable")
            ctx.close(np.real(np.asarray(s.purity)), np.ones(3), f"batch {order}: purity")
            ctx.close(np.real(np.asarray((s >> lab.Attenuator(5, 0.5)).purity)), [float(np.real((lab.TwoModeSqueezedVacuum((5, 13), x) >> lab.Attenuator(5, 0.5)).purity)) for x in order], f"batch {order}: purity after loss", atol=1e-9)
            ctx.transitions += 3
    ctx.see(n, h)
    ctx.traces += 1


def r_convert(case, ctx):
    import mrmustard.lab as lab
    from mrmustard.physics import bargmann_utils as B
    from mrmustard.physics import triples as T

    n, h = case["n"], case["h"]
    modes = (5, 13, 21, 0)[:n]
    modes = tuple(sorted(modes))
    S = [np.eye(2 * n)] + [comps.S_lib(k, n) for k in range(3)] + [ref.U2S(comps.U_lib(k, n)) for k in range(2)] + [ref.U2S(comps.O_lib(1, n).astype(complex))]
    if n == 1:
        S += [ref.S_s(1.2, 0.4), ref.S_p(0.7), ref.S_r(2.0)]
    if n == 2:
        S += [ref.S_s2(0.9, -0.7), ref.S_cx(0.8), ref.S_cz(-0.6), ref.S_bs(1.1, 2.2)]
    As = []
    for k, M in enumerate(S):
        A = np.asarray(B.symplectic2Au(M.astype(complex)))
        As.append(A)
        ctx.close(np.asarray(B.au2Symplectic(A)), M, f"symplectic {k}: and back", atol=1e-9)
        ctx.close(A, A.T, f"symplectic {k}: the Bargmann matrix is symmetric", atol=1e-10)
        W = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
        E = (W @ M @ W.conj().T)
        u, v = E[:n, :n], E[:n, n:]  # a -> u a + v a^dag
        ctx.close(A[n:, :n], np.linalg.inv(u).conj(), f"symplectic {k}: input-output block", atol=1e-9)
        ctx.close(A[:n, :n], v @ np.linalg.inv(u.conj()), f"symplectic {k}: output block", atol=1e-9)
        U = lab.Unitary.from_symplectic(modes, M)
        ctx.close(np.asarray(U.symplectic), M, f"symplectic {k}: component", atol=1e-9)
        ctx.close(np.asarray(U.bargmann_triple()[0]), A, f"symplectic {k}: triple of the component", atol=1e-9)
        ch = lab.Channel.from_XY(modes, modes, M, np.zeros((2 * n, 2 * n)))
        w = U >> lab.Attenuator(modes[0], 1.0)
        for i, nm in enumerate("Abc"):
            ctx.close(np.asarray(ch.bargmann_triple()[i]), np.asarray(w.bargmann_triple()[i]), f"symplectic {k}: as a channel, {nm}", atol=1e-8)
        ctx.transitions += 4
        ctx.states += 1
    A = np.asarray(B.symplectic2Au(np.stack(S).astype(complex)))
    ctx.close(A, np.stack(As), "batch of symplectic matrices", atol=1e-10)
    ctx.close(np.asarray(B.au2Symplectic(A)), np.stack(S), "batch of symplectic matrices and back", atol=1e-9)
    # channels
    I = np.eye(2 * n)
    chans = [(I, comps.Y_lib(1, n, h), None), (np.sqrt(0.6) * I, 0.2 * h * I, None), (np.sqrt(1.5) * I, 0.25 * h * I, np.linspace(-0.3, 0.4, 2 * n)), (0.0 * I, 0.8 * h * I, np.linspace(0.1, 0.4, 2 * n))]
    for k in range(3):
        M = comps.S_lib(k, n)
        chans.append((np.sqrt(0.5) * M, 0.25 * h * I + comps.Y_lib(2, n, h), np.linspace(0.2, -0.1, 2 * n)))
        eta = np.concatenate([np.linspace(0.3, 0.9, n)] * 2)
        chans.append((M @ np.diag(np.sqrt(eta)), M @ np.diag((1 - eta) * h / 2) @ M.T, None))
    chans.append((np.diag([1.0] * n + [-1.0] * n), h * I, None))  # phase conjugation with noise
    trs = []
    for k, (X, Y, d) in enumerate(chans):
        A, b, c = (np.asarray(x) for x in T.XY_to_channel_Abc(X, Y, d))
        trs.append(A)
        gx, gy = B.XY_of_channel(A)
        ctx.close(np.asarray(gx), X, f"channel {k}: X", atol=1e-8)
        ctx.close(np.asarray(gy), Y, f"channel {k}: Y", atol=1e-8)
        ch = lab.Channel.from_XY(modes, modes, X, Y, d)
        ctx.close(np.asarray(ch.XY[0]), X, f"channel {k}: X of the component", atol=1e-8)
        ctx.close(np.asarray(ch.XY[1]), Y, f"channel {k}: Y of the component", atol=1e-8)
        r = ch.on(tuple(m + 1 for m in modes))
        ctx.close(np.asarray(r.XY[1]), Y, f"channel {k}: Y of the relabelled component", atol=1e-8)
        # action on a state
        g = ref.GS(modes, np.linspace(-0.2, 0.3, 2 * n), h / 2 * comps.S_lib(1, n) @ comps.S_lib(1, n).T, h)
        s = lab.DM.from_phase_space(modes, (g.cov, g.mean, 1.0)) >> ch
        out = g.affine(modes, X, Y, d)
        cov, mean, z = s.phase_space(0)
        ctx.close(np.asarray(cov), out.cov, f"channel {k}: covariance of the image", atol=1e-8)
        ctx.close(np.asarray(mean), out.mean, f"channel {k}: means of the image", atol=1e-8)
        ctx.close(complex(np.asarray(z)), 1.0, f"channel {k}: norm of the image", atol=1e-8)
        ctx.transitions += 3
        ctx.states += 1
    gx, gy = B.XY_of_channel(np.stack(trs))
    ctx.close(np.asarray(gx), np.stack([c[0] for c in chans]), "batch of channels: X", atol=1e-8)
    ctx.close(np.asarray(gy), np.stack([c[1] for c in chans]), "batch of channels: Y", atol=1e-8)
    # states
    sts = []
    for k in range(3):
        for nu, mean in itertools.product((1.0, 1.0 + 0.5 * np.arange(n)), (np.zeros(2 * n), np.linspace(-0.4, 0.5, 2 * n))):
            v = np.ones(n) * nu
            M = comps.S_lib(k, n)
            sts.append((h / 2 * M @ np.diag(np.concatenate([v, v])) @ M.T, mean, bool(np.all(v == 1))))
    for k, (cov, mean, pure) in enumerate(sts):
        want = ref.gs_to_abc(mean, cov, h)
        A, b, c = (np.asarray(x) for x in B.wigner_to_bargmann_rho(cov.astype(complex), mean.astype(complex)))
        for nm, x, y in zip("Abc", (A, b, c), want):
            ctx.close(x, np.asarray(y), f"state {k}: {nm}", atol=1e-9)
        if pure:
            a2, b2, c2 = (np.asarray(x) for x in B.wigner_to_bargmann_psi(cov.astype(complex), mean.astype(complex)))
            ctx.close(a2, A[n:, n:], f"state {k}: A of the ket", atol=1e-9)
            ctx.close(b2, b[n:], f"state {k}: b of the ket", atol=1e-9)
            ctx.close(abs(complex(c2)) ** 2, complex(c).real, f"state {k}: c of the ket", atol=1e-9)
            s = lab.Ket.from_phase_space(modes, (cov, mean, 1.0))
            got = s.phase_space(0)
            ctx.close(np.asarray(got[0]), cov, f"state {k}: covariance of the ket", atol=1e-8)
            ctx.close(np.asarray(got[1]), mean, f"state {k}: means of the ket", atol=1e-8)
            ctx.close(complex(np.asarray(s.probability)), 1.0, f"state {k}: norm of the ket", atol=1e-8)
        s = lab.DM.from_phase_space(modes, (cov, mean, 1.0))
        got = s.phase_space(0)
        ctx.close(np.asarray(got[0]), cov, f"state {k}: covariance", atol=1e-8)
        ctx.close(np.asarray(got[1]), mean, f"state {k}: means", atol=1e-8)
        ctx.close(complex(np.asarray(got[2])), 1.0, f"state {k}: coefficient", atol=1e-8)
        for sv in (-1.0, 0.0, 1.0):
            gs = s.phase_space(sv)
            ctx.close(np.asarray(gs[0]), cov - sv * h / 2 * np.eye(2 * n), f"state {k}, ordering {sv}: covariance", atol=1e-8)
            ctx.close(np.asarray(gs[1]), mean, f"state {k}, ordering {sv}: means", atol=1e-8)
            ctx.transitions += 1
        ctx.states += 1
    ctx.see(n, h, len(S), len(chans), len(sts))
    ctx.traces += 1
