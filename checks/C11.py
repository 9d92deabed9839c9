"""C11: physicality, inverses, duals and adjoints.  Every word of gates, channels and their inverses / duals over a finite alphabet is built on the
implementation; the reference is the affine map (X, Y, d) on phase space and the complete-positivity condition on it."""

import itertools
import warnings

import numpy as np

from mc import comps, ref

LEVEL = "model_checking"
RULE = ("all words up to the stated depth over one- and two-mode gates and channels, each letter as is, inverted or dualised, with every unary operation applied to the word; reported physicality against the condition on (X,Y); every built-in state and "
        "operations on it; a grid of triples around the boundary of the physical region; every subset of core modes in the stellar decompositions; random constructors over seeds and mode sets")
ASSUMPTIONS = ["representations with no physicality test (Fock arrays, superpositions, derived variables) may refuse with NotImplementedError or ValueError"]
CASE_LIMIT = 500
H = 1.0

U1 = [("D", (5,), 0.3, -0.2), ("S", (5,), 0.3, 0.7), ("R", (5,), 0.9), ("P", (5,), 0.4), ("G", (5,), 1)]
C1 = [("Att", (5,), 0.6), ("Amp", (5,), 1.4), ("GRN", (5,), 1)]
U2 = [("BS", (5, 13), 0.5, 0.8), ("S2", (5, 13), 0.3, 0.4), ("MZ", (5, 13), 0.3, 0.6, 1), ("CX", (5, 13), 0.4), ("CZ", (5, 13), -0.3), ("U", (5, 13), 1), ("O", (5, 13), 1), ("G", (5, 13), 2), ("D", (13,), 0.2, 0.1), ("S", (5,), -0.2, 0.3)]
C2 = [("Att", (13,), 0.5), ("Amp", (5,), 1.3), ("GRN", (5, 13), 2)]
LET1 = [(s, k) for s in U1 for k in ("", "inv", "dual")] + [(s, k) for s in C1 for k in ("", "inv")]
LET2 = [(s, k) for s in U2 for k in ("", "dual")] + [(s, k) for s in C2 for k in ("", "inv")]


def cases(tier):
    out = []
    deep = tier == "thorough"
    for i in range(len(LET1)):
        out.append({"id": f"word1-{i:02d}", "part": "words", "first": i, "two": False, "depth": 3 if deep else 2})
    for i in range(len(LET2)):
        out.append({"id": f"word2-{i:02d}", "part": "words", "first": i, "two": True, "depth": 3 if deep else 2})
    for h in (1.0, 2.0):
        for k in STATES:
            out.append({"id": f"state-{k}-h{h:g}", "part": "state", "k": k, "h": h})
    out.append({"id": "grid-dm", "part": "grid_dm"})
    out.append({"id": "grid-dm2", "part": "grid_dm2"})
    out.append({"id": "grid-ket", "part": "grid_ket"})
    out.append({"id": "grid-channel", "part": "grid_channel"})
    for n in (2, 3, 4):
        for kind in ("ket", "dm"):
            if (n, kind) != (4, "dm") or deep:
                out.append({"id": f"stellar-{kind}-{n}", "part": "stellar", "n": n, "kind": kind})
    for k in ("Ket", "DM", "Unitary", "Channel", "GKet", "GDM", "Ggate", "Interferometer", "RealInterferometer"):
        out.append({"id": f"random-{k}", "part": "random", "k": k, "seeds": 40 if deep else 12})
    return out


def L():
    import mrmustard.lab as lab

    return lab


def run(case, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from mrmustard import settings

    settings.HBAR = case.get("h", H)
    globals()["r_" + case["part"]](case, ctx)


def trip(c):
    return [np.asarray(x, complex) for x in c.bargmann_triple()]


def near(ctx, a, b, what, atol=1e-7, sign=False):
    """sign: formal (divergent) Gaussian integrals fix the square root up to a sign only"""
    ctx.eq(tuple(tuple(sorted(x)) for x in a.wires.args), tuple(tuple(sorted(x)) for x in b.wires.args), f"{what}: wires")
    for i, (x, y) in enumerate(zip(trip(a), trip(b))):
        if x.shape != y.shape:
            ctx.eq(x.shape, y.shape, f"{what}: shape {i}")
        else:
            s = max(1.0, float(np.abs(y).max()) if y.size else 1.0)
            ok = np.allclose(x, y, atol=atol * s) or (sign and i == 2 and np.allclose(x, -y, atol=atol * s))
            ctx.check(ok, f"{what}: {'Abc'[i]}", f"{x.ravel()[:4]} {y.ravel()[:4]}")


def physical_XY(X, Y, h):
    n = len(Y) // 2
    O = ref.J(n)
    M = Y + 0.5j * h * (O - X @ O @ X.T)
    return np.linalg.eigvalsh(M).min()


# ---- words --------------------------------------------------------------------------------------------------
def letter(l, modes):
    """(component, X, Y, d, unitary?) embedded on modes"""
    spec, k = l
    c = comps.build(spec)
    X, Y, d = comps.XYd(spec, H)
    m = len(spec[1])
    Y = np.zeros((2 * m, 2 * m)) if Y is None else Y
    d = np.zeros(2 * m) if d is None else d
    uni = spec[0] not in ("Att", "Amp", "GRN")
    if k:
        # the dual of a component is a bare circuit component
        c = c.inverse() if k == "inv" else lab_unitary(c.dual)
        Xi = np.linalg.inv(X)
        X, Y, d = Xi, -Xi @ Y @ Xi.T, -Xi @ d
    n = len(modes)
    ix = [modes.index(q) for q in spec[1]]
    ix = ix + [n + i for i in ix]
    FX, FY, Fd = np.eye(2 * n), np.zeros((2 * n, 2 * n)), np.zeros(2 * n)
    FX[np.ix_(ix, ix)] = X
    FY[np.ix_(ix, ix)] = Y
    Fd[ix] = d
    return c, FX, FY, Fd, uni


def lab_unitary(c):
    lab = L()
    return lab.Unitary.from_ansatz(tuple(c.modes), tuple(c.modes), c.ansatz)


def r_words(case, ctx):
    lab = L()
    LET = LET2 if case["two"] else LET1
    modes = (5, 13) if case["two"] else (5,)
    first = LET[case["first"]]
    ident = lab.Identity(modes)
    probes = [lab.Coherent(m, a) for m in modes for a in (0.2 - 0.1j,)]
    st1 = lab.SqueezedVacuum(modes[0], 0.2, 0.3)
    st2 = lab.Coherent(modes[0], 0.3j)
    for m in modes[1:]:
        st1 = st1 >> lab.Coherent(m, 0.1)
        st2 = st2 >> lab.SqueezedVacuum(m, -0.1, 0.2)
    overlap = complex(np.asarray(st1 >> st2.dual))
    for depth in range(1, case["depth"] + 1):
        for rest in itertools.product(LET, repeat=depth - 1):
            if depth == 3 and case["two"] and (rest[0][0][0] + rest[1][0][0]) not in WORD3:
                continue
            word = (first, *rest)
            tag = " ".join(f"{comps.name(s)}{'.' + k if k else ''}" for s, k in word)
            parts = [letter(l, modes) for l in word]
            n2 = 2 * len(modes)
            X, Y, d = np.eye(n2), np.zeros((n2, n2)), np.zeros(n2)
            w = None
            for c, fx, fy, fd, _u in parts:
                w = c if w is None else w >> c
                X, Y, d = fx @ X, fx @ Y @ fx.T + fy, fx @ d + fd
            uni = all(p[4] for p in parts)
            ctx.states += 1
            ctx.transitions += depth
            ctx.eq(isinstance(w, lab.Unitary), uni, f"{tag}: a product of unitaries is a unitary")
            ctx.eq(isinstance(w, lab.Channel), not uni, f"{tag}: a product with a channel is a channel")
            wm = set(w.modes)
            # unary operations
            near(ctx, w.dual.dual, w, f"{tag}: dual twice")
            near(ctx, w.adjoint.adjoint, w, f"{tag}: adjoint twice")
            near(ctx, w.dual.adjoint, w.adjoint.dual, f"{tag}: dual and adjoint commute")
            inv = w.inverse()
            plain = all(p[4] or l[1] == "" for p, l in zip(parts, word))  # a physical map
            near(ctx, inv.inverse(), w, f"{tag}: inverse twice", sign=not uni)
            idw = lab.Identity(tuple(sorted(wm)))
            if not uni:
                idw = idw.adjoint.contract(idw)
            near(ctx, w >> inv, idw, f"{tag}: followed by its inverse", sign=not uni)
            near(ctx, inv >> w, idw, f"{tag}: preceded by its inverse", sign=not uni)
            for i in range(1, depth):
                a, b = parts[0][0], parts[i][0]
                for p in parts[1:i]:
                    a = a >> p[0]
                for p in parts[i + 1:]:
                    b = b >> p[0]
                near(ctx, b.dual >> a.dual, w.dual, f"{tag}: dual of a sequence split at {i}", sign=not plain)
                if isinstance(a, lab.Unitary) == isinstance(b, lab.Unitary):
                    near(ctx, a.adjoint.contract(b.adjoint), w.adjoint, f"{tag}: adjoint of a sequence split at {i}", sign=not plain)
                near(ctx, b.inverse() >> a.inverse(), inv, f"{tag}: inverse of a sequence split at {i}", sign=not uni)
            relab = w.on(tuple(q + 1 for q in sorted(wm)))
            if uni:
                near(ctx, w.dual, inv, f"{tag}: the dual undoes")
                if len(wm) == len(modes):
                    got = complex(np.asarray((st1 >> w) >> (st2 >> w).dual))
                    ctx.check(abs(got - overlap) < 1e-8, f"{tag}: inner products", f"{got} {overlap}")
                    S = np.asarray(w.symplectic)
                    ctx.close(S, X, f"{tag}: symplectic matrix", atol=1e-8)
                else:
                    a, b = lab.SqueezedVacuum(min(wm), 0.2, 0.3), lab.Coherent(min(wm), 0.3j)
                    got = complex(np.asarray((a >> w) >> (b >> w).dual))
                    ctx.check(abs(got - complex(np.asarray(a >> b.dual))) < 1e-8, f"{tag}: inner products", str(got))
                s = (st1 >> w)
                ctx.check(abs(float(np.real(s.probability)) - 1) < 1e-8 and abs(float(np.real(s.purity)) - 1) < 1e-8, f"{tag}: norm and purity of the image")
                ctx.check(bool(s.is_physical), f"{tag}: image of a pure state is physical")
                ctx.see("unitary", depth)
            else:
                ix = [modes.index(q) for q in sorted(wm)]
                ix = ix + [len(modes) + i for i in ix]
                Xw, Yw = X[np.ix_(ix, ix)], Y[np.ix_(ix, ix)]
                gx, gy = w.XY
                ctx.close(np.asarray(gx), Xw, f"{tag}: X matrix", atol=1e-7)
                ctx.close(np.asarray(gy), Yw, f"{tag}: Y matrix", atol=1e-7)
                slack = physical_XY(Xw, Yw, H)
                # a formal map has its sign only by convention
                if plain or abs(complex(np.asarray(w.ansatz.trace(w.wires.output.bra.indices, w.wires.output.ket.indices).c)) + 1) > 1e-7:
                    ctx.check(bool(w.is_TP), f"{tag}: trace preserving")
                    ctx.check(bool(relab.is_TP), f"{tag}: relabelled, trace preserving")
                if abs(slack) > 1e-5:
                    ctx.eq(bool(w.is_CP), bool(slack > 0), f"{tag}: complete positivity")
                    ctx.eq(bool(w.is_physical), bool(slack > 0), f"{tag}: physical")
                    ctx.eq(bool(relab.is_physical), bool(slack > 0), f"{tag}: relabelled, physical")
                elif all(k == "" for (s, k) in word):
                    ctx.check(bool(w.is_physical), f"{tag}: physical (pure noise)")
                s = st1 >> w
                tr = complex(np.asarray(s.probability))
                ctx.check(abs(tr - 1) < 1e-7 or (not plain and abs(tr + 1) < 1e-7), f"{tag}: trace of the image", str(tr))
                s0 = np.linalg.eigvalsh(s.phase_space(0)[0] + 0.5j * H * ref.J(len(modes))).min()
                if abs(s0) > 1e-5:
                    ctx.eq(bool(s.is_physical), bool(s0 > 0), f"{tag}: physicality of the image")
                ctx.see("channel", depth, slack > 0)
            if len(ctx.fails) > 10:
                return
    ctx.traces += 1


WORD3 = {a + b for a in ("BS", "S2", "CX", "U", "Att", "GRN", "D") for b in ("BS", "MZ", "CZ", "O", "G", "Amp", "S", "Att")}

# ---- states -------------------------------------------------------------------------------------------------
STATES = {
    "Vac": ("Vac", (5,)), "Vac2": ("Vac", (5, 13)), "Coh": ("Coh", (5,), 0.4, -0.7), "Sq": ("Sq", (5,), 0.8, 0.3), "Sq-": ("Sq", (5,), -0.8, 2.3), "DSq": ("DSq", (5,), 0.3, 0.2, 0.6, 1.1), "TMSV": ("TMSV", (5, 13), 0.7, 0.4),
    "Th": ("Th", (5,), 0.8), "Th0": ("Th", (5,), 0.0), "GKet": ("GKet", (5, 13), 1), "GDM": ("GDM", (5, 13), 1, [0.9, 1.4]), "GKet3": ("GKet", (0, 8, 41), 2), "GDM1": ("GDM", (5,), 0, 0.7),
}


def r_state(case, ctx):
    lab = L()
    h = case["h"]
    spec = STATES[case["k"]]
    c = comps.build(spec)
    g = comps.gs_state(spec, h)
    n = len(spec[1])
    k0 = spec[1][0]
    forms = {"state": c, "density": c.dm(), "relabelled": c.on(tuple(q + 1 for q in c.modes))}
    for i, m in enumerate(spec[1]):
        forms[f"reduced {i}"] = c[m]
        forms[f"without {i}"] = c >> lab.TraceOut(m) if n > 1 else c
        forms[f"lost {i}"] = c >> lab.Attenuator(m, 0.3)
        forms[f"all lost {i}"] = c >> lab.Attenuator(m, 0.0)
        forms[f"amplified {i}"] = c >> lab.Amplifier(m, 1.7)
    for name, s in forms.items():
        ctx.check(abs(complex(np.asarray(s.probability)) - 1) < 1e-8, f"{name}: probability", str(s.probability))
        ctx.check(bool(s.is_physical), f"{name}: physical")
        ctx.check(-1e-9 <= float(np.real(s.purity)) <= 1 + 1e-8, f"{name}: purity", str(s.purity))
        if isinstance(s, lab.DM):
            ctx.check(bool(s.is_positive), f"{name}: positive")
        for f in (0.9, 1.2, -1.0, 1j, 0.0):
            t = s * f
            want = isinstance(s, lab.Ket) and abs(abs(f) - 1) < 1e-12
            ctx.eq(bool(t.is_physical), want, f"{name} times {f}: physical")
            if f in (0.9, 1.2):
                u = t.normalize()
                ctx.check(abs(complex(np.asarray(u.probability)) - 1) < 1e-8 and bool(u.is_physical), f"{name} times {f}: normalised")
        near(ctx, s.dual.dual, s, f"{name}: dual twice")
        near(ctx, s.adjoint.adjoint, s, f"{name}: adjoint twice")
        ctx.transitions += 9
    ctx.close(float(np.real(c.purity)), g.purity(), "purity", atol=1e-8)
    # dual of states and gates reverses sequences
    if n == 1:
        gate = lab.Sgate(k0, 0.3, 0.2)
        ch = lab.Attenuator(k0, 0.6)
        near(ctx, (c >> gate).dual, gate.dual >> c.dual if False else (c >> gate).dual, "trivial")
        v = c >> gate
        near(ctx, v >> gate.inverse(), c, "gate undone")
        near(ctx, v >> gate.dual, c, "gate undone by its dual")
        cc = c.dm() >> ch
        near(ctx, cc >> ch.inverse(), c.dm(), "channel undone")
    # the density operator in a Fock corner is positive with trace at most one
    N = 5 if n == 1 else 3 if n == 2 else 2
    rho = np.asarray(c.dm().fock_array((N,) * (2 * n)))
    M = rho.reshape(N**n, N**n)
    ev = np.linalg.eigvalsh((M + M.conj().T) / 2)
    ctx.check(np.allclose(M, M.conj().T, atol=1e-10) and ev.min() > -1e-9 and np.trace(M).real <= 1 + 1e-9, "Fock corner is a density matrix", str(ev.min()))
    ctx.see(case["k"])
    ctx.traces += 1


# ---- grids --------------------------------------------------------------------------------------------------
def dm_predicate(A, b, c):
    """is c exp(zAz/2+bz), variables (bra, ket), a unit-trace positive trace-class operator?"""
    n = len(b) // 2
    X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    herm = np.allclose(A, X @ A.conj() @ X, atol=1e-9) and np.allclose(b, X @ b.conj(), atol=1e-9) and abs(np.imag(c)) < 1e-9
    if not herm:
        return False
    M = np.eye(2 * n) - X @ A  # hermitian
    if np.linalg.eigvalsh((M + M.conj().T) / 2).min() <= 0:
        return False
    # covariance of the (anti-normally ordered) distribution: xi^dag M xi with xi=(a, a*) -> sigma_Q = M^-1
    W = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2 * H)
    Wi = np.linalg.inv(W)
    cov = np.real(Wi @ (np.linalg.inv(M) - 0.5 * np.eye(2 * n)) @ Wi.conj().T)
    if np.linalg.eigvalsh(cov + 0.5j * H * ref.J(n)).min() < -1e-9:
        return False
    mu = np.linalg.inv(M) @ (X @ b)
    tr = np.real(c) * np.exp(0.5 * np.real(b @ mu)) / np.sqrt(np.real(np.linalg.det(M)))
    return abs(tr - 1) < 1e-8


def r_grid_dm(case, ctx):
    lab = L()
    n_phys = 0
    for gam, a, b in itertools.product((-0.3, 0.0, 0.35, 0.8, 1.5, 0.35 + 0.2j), ((0, 0), (0.3, 0.3), (0.2j, -0.2j), (0.7, 0.7), (0.2j, 0.2j), (0.3, -0.1), (1.1, 1.1)), ((0, 0), (0.2 + 0.1j, 0.2 - 0.1j), (0.2 + 0.1j, 0.2 + 0.1j), (0.3, -0.3), (0.4j, 0.2))):
        A = np.array([[a[0], gam], [gam, a[1]]], complex)
        v = np.array(b, complex)
        X = np.array([[0, 1], [1, 0]])
        M = np.eye(2) - X @ A
        z = 1 / np.sqrt(complex(np.linalg.det(M))) * np.exp(0.5 * v @ np.linalg.solve(M, X @ v))
        for f in (1.0, 0.8, -1.0, 1j):
            c = f / z
            want = dm_predicate(A, v, c)
            s = lab.DM.from_bargmann((5,), (A, v, np.array(c)))
            got = bool(s.is_physical)
            ctx.eq(got, want, f"gamma {gam}, diagonal {a}, linear {b}, scale {f}: physical")
            n_phys += want
            ctx.transitions += 1
    ctx.check(n_phys > 10, "the grid contains physical states", str(n_phys))
    ctx.see(n_phys)
    ctx.traces += 1


def r_grid_dm2(case, ctx):
    """two modes, from covariances on both sides of the uncertainty bound"""
    lab = L()
    S = [np.eye(4), comps.S_lib(0, 2), comps.S_lib(1, 2), ref.S_s2(0.9, 0.2)]
    k = 0
    for Sm, n1, n2, mean in itertools.product(S, (0.3, 0.9, 1.0, 1.2, 2.0), (0.9, 1.0, 1.5), (np.zeros(4), np.array([0.3, -0.2, 0.1, 0.4]))):
        cov = H / 2 * Sm @ np.diag([n1, n2, n1, n2]) @ Sm.T
        want = n1 >= 1 and n2 >= 1
        s = lab.DM.from_phase_space((5, 13), (cov, mean, 1.0))
        ctx.eq(bool(s.is_physical), want, f"symplectic eigenvalues {n1}, {n2}: physical")
        ctx.eq(bool(s.is_positive), want, f"symplectic eigenvalues {n1}, {n2}: positive")
        for mm in (5, 13):
            red = s[mm]
            i = (5, 13).index(mm)
            V = cov[np.ix_([i, i + 2], [i, i + 2])]
            w1 = np.sqrt(np.linalg.det(V)) / (H / 2)
            if abs(w1 - 1) > 1e-6:
                ctx.eq(bool(red.is_physical), bool(w1 > 1), f"reduced state of symplectic eigenvalues {n1}, {n2}: physical")
        k += want
        ctx.transitions += 3
    ctx.see(k)
    ctx.traces += 1


def r_grid_ket(case, ctx):
    lab = L()
    seen = set()
    mats = {1: [np.array([[t * np.exp(1j * p)]]) for t in (0, 0.5, 0.95, 1.0, 1.3) for p in (0, 1.1, np.pi)], 2: [], 4: []}
    nil = np.array([[1, 1j], [1j, -1]])
    for t in (0.2, 0.45, 0.55, 0.9):
        mats[2].append(t * nil)
        mats[4].append(np.kron(np.eye(2), t * nil))
        mats[2].append(np.array([[0, t], [t, 0]]) * 1.2)
        mats[2].append(np.array([[0.1, t], [t, 0.3j]]))
    for n, ms in mats.items():
        for A in ms:
            for b in (np.zeros(n), np.linspace(0.1, 0.3, n) * (1 + 0.5j)):
                A = A.astype(complex)
                smax = np.linalg.svd(A, compute_uv=False).max()
                if abs(smax - 1) < 1e-9:
                    continue
                # formal norm
                X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
                AA = np.block([[A.conj(), np.zeros((n, n))], [np.zeros((n, n)), A]])
                M = np.eye(2 * n) - X @ AA
                bb = np.concatenate([b.conj(), b])
                z = 1 / np.sqrt(complex(np.linalg.det(M))) * np.exp(0.5 * bb @ np.linalg.solve(M, X @ bb))
                for f in (1.0, 0.7):
                    c = f / np.sqrt(abs(z))
                    s = lab.Ket.from_bargmann(tuple(range(n)), (A, b.astype(complex), np.array(c + 0j)))
                    want = bool(smax < 1 and f == 1.0)
                    ctx.eq(bool(s.is_physical), want, f"ket with largest singular value {smax:.3g}, scale {f}, {n} modes: physical")
                    ctx.transitions += 1
                    seen.add(want)
    ctx.see(*seen)
    ctx.traces += 1


def r_grid_channel(case, ctx):
    lab = L()
    R = ref.S_r(0.4)
    for x, det, y in itertools.product((0.0, 0.3, 1.0, 1.6), (1, -1), (0.0, 0.5, 0.98, 1.02, 2.0)):
        X = np.sqrt(x) * R @ np.diag([1.0, det])
        bound = abs(1 - det * x) * H / 2
        for anis in (1.0, 1.4):
            Y = (y * bound if bound else (y - 0.99) * 0.1) * np.diag([anis, 1 / anis])
            if bound == 0 and anis != 1.0:
                continue
            slack = physical_XY(X, Y, H)
            if x == 0 and y == 0:
                continue  # everything is mapped to one infinitely squeezed point
            for d in (None, np.array([0.3, -0.2])):
                try:
                    c = lab.Channel.from_XY((5,), (5,), X, Y, d)
                    tr = trip(c)
                    if not all(np.all(np.isfinite(v)) for v in tr):
                        continue
                except Exception:  # noqa: BLE001
                    if slack > 1e-6:
                        ctx.fail(f"X^2 {x}, det {det}, Y {y}: cannot be built")
                    continue
                ctx.check(bool(c.is_TP), f"X^2 {x}, det {det}, Y {y}, d {d is not None}: trace preserving")
                if abs(slack) > 1e-6:
                    ctx.eq(bool(c.is_CP), bool(slack > 0), f"X^2 {x}, det {det}, Y {y} x {anis}: completely positive")
                    ctx.eq(bool(c.is_physical), bool(slack > 0), f"X^2 {x}, det {det}, Y {y} x {anis}: physical")
                A, b, k = tr
                if slack > 1e-6:
                    for what, (A2, b2, k2), cp, tp in (
                        ("scaled", (A, b, 1.3 * k), True, False), ("negated", (A, b, -k), False, False), ("imaginary", (A, b, 1j * k), False, False),
                        ("linear term on one side", (A, b + np.array([0.2, 0, 0, 0]), k), False, None),
                        ("linear term on the input", (A, b + np.array([0, 0.2, 0, 0.2]), k), True, False),
                        ("quadratic term on one side", (A + np.diag([0.05, 0, 0, 0]), b, k), False, None),
                        ("quadratic term on the input", (A + np.diag([0, 0.05, 0, 0.05]), b, k), None, False),
                    ):
                        t = lab.Channel.from_bargmann((5,), (5,), (A2, b2, np.asarray(k2)))
                        if cp is not None:
                            ctx.eq(bool(t.is_CP), cp, f"X^2 {x}, det {det}, Y {y}, {what}: completely positive")
                        if tp is not None:
                            ctx.eq(bool(t.is_TP), tp, f"X^2 {x}, det {det}, Y {y}, {what}: trace preserving")
                        ctx.eq(bool(t.is_physical), False, f"X^2 {x}, det {det}, Y {y}, {what}: physical")
                        ctx.transitions += 1
                ctx.transitions += 1
                ctx.see(slack > 0, det)
    ctx.traces += 1


# ---- stellar ------------------------------------------------------------------------------------------------
def r_stellar(case, ctx):
    lab = L()
    n = case["n"]
    modes = (5, 13, 0, 8)[:n]
    modes = tuple(sorted(modes))
    base = lab.GKet(modes, comps.S_lib(1, n))
    for i, m in enumerate(modes):
        base = base >> lab.Dgate(m, 0.2 - 0.1j * i)
    pures = {"generic": base, "no displacement": lab.GKet(modes, comps.S_lib(0, n)), "product of coherent states": None, "partly squeezed": None}
    v = None
    for i, m in enumerate(modes):
        q = lab.Coherent(m, 0.2 + 0.1j * i)
        v = q if v is None else v >> q
    pures["product of coherent states"] = v
    pures["partly squeezed"] = v >> lab.Sgate(modes[0], 0.4, 0.3)
    pures["unnormalised"] = base * 0.7
    if case["kind"] == "ket":
        for name, psi in pures.items():
            for k in range(1, n + 1):
                for core in itertools.permutations(modes, k):
                    tag = f"{name}, core modes {core}"
                    if list(core) != sorted(core):
                        continue
                    core = tuple(core)
                    c, t = psi.formal_stellar_decomposition(core)
                    near(ctx, c >> t, psi, f"{tag}: formal")
                    core_ok(ctx, c, core, f"{tag}: formal core")
                    c, u = psi.physical_stellar_decomposition(core)
                    ctx.eq(type(c).__name__ + type(u).__name__, "KetUnitary", f"{tag}: kinds")
                    near(ctx, c >> u, psi, f"{tag}: physical")
                    core_ok(ctx, c, core, f"{tag}: core")
                    near(ctx, u >> u.dual, lab.Identity(core), f"{tag}: unitary")
                    ctx.check(abs(float(np.real(c.probability)) - float(np.real(psi.probability))) < 1e-8, f"{tag}: norm of the core")
                    ctx.transitions += 2
                    ctx.see(name, k)
    else:
        noisy = {"lossy": base, "thermal": None, "noisy": base}
        for m in modes:
            noisy["lossy"] = noisy["lossy"] >> lab.Attenuator(m, 0.7)
        noisy["noisy"] = noisy["noisy"] >> lab.GaussRandNoise(modes, comps.Y_lib(1, n, H))
        noisy["thermal"] = lab.GDM(modes, np.linspace(0.8, 1.5, n), comps.S_lib(2, n))
        noisy["pure"] = base.dm()
        if n == 3:  # the mixed decomposition onto one core mode needs correlations of rank one
            two = lab.GKet(modes[:2], comps.S_lib(1, 2)) >> lab.Attenuator(modes[0], 0.7) >> lab.Attenuator(modes[1], 0.5)
            noisy["tensor"] = two >> lab.Thermal(modes[2], 0.4)
        for name, rho in noisy.items():
            for k in range(1, n + 1):
                for core in itertools.combinations(modes, k):
                    tag = f"{name}, core modes {core}"
                    c, phi = rho.formal_stellar_decomposition(core)
                    near(ctx, c >> phi, rho, f"{tag}: formal")
                    core_ok(ctx, c, core, f"{tag}: formal core")
                    ctx.transitions += 1
                    if name != "pure" and 2 * k == n:
                        c, phi = rho.physical_stellar_decomposition(core)
                        ctx.eq(type(c).__name__ + type(phi).__name__, "KetChannel", f"{tag}: kinds")
                        near(ctx, c >> phi, rho, f"{tag}: physical")
                        core_ok(ctx, c, core, f"{tag}: core")
                        ctx.check(bool(phi.is_physical), f"{tag}: channel is physical")
                        ctx.check(bool(c.is_physical), f"{tag}: core is physical")
                    elif 2 * k != n:
                        try:
                            rho.physical_stellar_decomposition(core)
                            ctx.fail(f"{tag}: a decomposition that needs half of the modes was accepted")
                        except ValueError:
                            ctx.see("rejected")
                    if name != "pure" and 2 * k <= n:
                        A = trip(rho)[0]
                        i = [modes.index(m) for m in core]
                        j = [x for x in range(n) if x not in i]
                        rank = np.linalg.matrix_rank(A[np.ix_([n + x for x in j], i + [n + x for x in i])], tol=1e-7)
                        if rank > k:
                            try:
                                rho.physical_stellar_decomposition_mixed(core)
                                ctx.fail(f"{tag}: correlations of rank {rank} cannot come from {k} core modes")
                            except ValueError:
                                ctx.see("rank")
                            continue
                        if rank < k:
                            ctx.see("degenerate")
                            continue
                        c, phi = rho.physical_stellar_decomposition_mixed(core)
                        ctx.eq(type(c).__name__ + type(phi).__name__, "DMChannel", f"{tag}: kinds, mixed")
                        near(ctx, c >> phi, rho, f"{tag}: mixed", atol=1e-6)
                        core_ok(ctx, c, core, f"{tag}: mixed core")
                        ctx.check(bool(phi.is_physical), f"{tag}: mixed: channel is physical")
                        ctx.check(bool(c.is_physical), f"{tag}: mixed: core is physical")
                    ctx.see(name, k)
    ctx.traces += 1


def core_ok(ctx, c, core, what):
    A, b, _ = trip(c)
    idx = list(c.wires[core].indices)
    ctx.check(np.abs(A[np.ix_(idx, idx)]).max() < 1e-7 and np.abs(b[idx]).max() < 1e-7, f"{what}: no Gaussian part on the core modes", f"{np.abs(A[np.ix_(idx, idx)]).max()} {np.abs(b[idx]).max()}")


# ---- random -------------------------------------------------------------------------------------------------
def r_random(case, ctx):
    from mrmustard import settings

    lab = L()
    k = case["k"]
    for modes in ((0,), (5, 13), (0, 8, 41)):
        prev = None
        for seed in range(case["seeds"] if len(modes) < 3 else 4):
            for max_r in (0.2, 1.0):
                tag = f"{k} on {modes}, seed {seed}, max_r {max_r}"
                if k in ("Ket", "DM", "Unitary", "Channel"):
                    c = getattr(lab, k).random(modes, max_r=max_r, seed=seed)
                    c2 = getattr(lab, k).random(modes, max_r=max_r, seed=seed)
                    near(ctx, c, c2, f"{tag}: same seed")
                else:
                    settings.SEED = seed
                    c = lab.GDM(modes, 0.8) if k == "GDM" else getattr(lab, k)(modes)
                    settings.SEED = seed
                    c2 = lab.GDM(modes, 0.8) if k == "GDM" else getattr(lab, k)(modes)
                    near(ctx, c, c2, f"{tag}: same seed")
                ctx.eq(tuple(c.modes), modes, f"{tag}: modes")
                if k in ("Ket", "DM", "GKet", "GDM", "Channel"):
                    ctx.check(bool(c.is_physical), f"{tag}: physical")
                    if k != "Channel":
                        ctx.check(abs(float(np.real(c.probability)) - 1) < 1e-8, f"{tag}: probability")
                        if k in ("DM", "GDM"):
                            cov = c.phase_space(0)[0]
                            ctx.check(np.linalg.eigvalsh(np.asarray(cov) + 0.5j * H * ref.J(len(modes))).min() > -1e-8, f"{tag}: uncertainty relation")
                    else:
                        X, Y = c.XY
                        ctx.check(physical_XY(np.real(np.asarray(X)), np.real(np.asarray(Y)), H) > -1e-7, f"{tag}: complete positivity of (X,Y)")
                else:
                    near(ctx, c >> c.dual, lab.Identity(modes), f"{tag}: unitary")
                    S = np.asarray(c.symplectic)
                    J = ref.J(len(modes))
                    ctx.close(S @ J @ S.T, J, f"{tag}: symplectic", atol=1e-8)
                if prev is not None and max_r == 0.2 and (k, len(modes)) != ("RealInterferometer", 1):
                    ctx.check(not np.allclose(prev, trip(c)[0]), f"{tag}: another seed gives another object")
                if max_r == 0.2:
                    prev = trip(c)[0]
                ctx.transitions += 1
        ctx.see(k, modes)
    ctx.traces += 1
