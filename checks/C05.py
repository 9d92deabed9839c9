"""C05: representations.  Reference: every object is its tensor of number-basis amplitudes (power series of the triple that built it);
the value in every other description is a kernel (oscillator functions, displaced parity, displacement operator, displaced thermal
operator) contracted with that tensor.  All conversion words up to a bound, all mode subsets, all constructors."""

import itertools
import warnings
from functools import lru_cache

import numpy as np
from scipy.linalg import expm

from checks.C07 import tensor as ptensor
from checks.C07 import triple, val
from mc import comps, ref

LEVEL = "model_checking"
RULE = ("objects: kets (1-3 modes), density matrices (1-2 modes), bras, unitary-like, operation-like (2->1) and map-like components; each Gaussian, with derived variables, superposed, or as arrays; three mode labellings; hbar in {1, 0.7, 2}; "
        "per object: every conversion word of length <=3 over {Fock(small), Fock(large), Bargmann}; quadrature values at angles {0,.4,pi/2}; every subset of modes sent to quadrature / phase space (s=-1,0,.5) / characteristic function (s=-1,0,1); every constructor from every exported description; Wigner, Husimi, discretised Wigner, quadrature and photon-number distributions")
ASSUMPTIONS = ["Fock arrays are cut at 9-24 photons; objects are chosen so that the neglected tail is below the tolerance 2e-6"]
CASE_LIMIT = 300
BUDGET = 300
ROTATE = True

LAB = {"std": (0, 1, 2), "coll": (5, 13, 8), "big": (3, 41, 27)}
NB = {0: 1, 1: 24, 2: 17, 3: 11, 4: 9}
PHI = (0.0, 0.4, np.pi / 2)


def cases(tier):
    out = []
    objs = ["ketG1", "ketG2", "ketG3", "ketD1", "ketD2", "ketL1", "ketL2", "ketA1", "ketA2", "dmG1", "dmG2", "dmM1", "dmM2", "dmD1", "dmL1", "dmA1", "dmA2",
            "braG1", "braA2", "braL1", "uG1", "uD1", "uL1", "uA1", "opG21", "opL21", "opA21", "opG12", "opA12", "mapG1", "mapA1"]
    for h in (1.0, 0.7, 2.0):
        for lab in LAB:
            if tier == "quick" and h != 1.0 and lab != "coll":
                continue
            for o in objs:
                if tier == "quick" and o in ("ketG3", "mapG1", "mapA1", "dmA2", "dmM2", "dmG2") and (h == 2.0 or lab == "std"):
                    continue
                for part in ("conv", "quad", "ps"):
                    if part == "ps" and o[:2] not in ("ke", "dm"):
                        continue
                    out.append({"id": f"{part}-{o}-{lab}-h{h}", "part": part, "obj": o, "lab": lab, "h": h, "tier": tier})
    for kind in ("disc", "lib"):
        for h in (1.0, 0.7, 2.0):
            out.append({"id": f"{kind}-h{h}", "part": kind, "h": h, "tier": tier})
    return out


def warm():
    from checks.C07 import warm as w

    w()


# ---- objects -------------------------------------------------------------------------------------------
def gaussdm(n, k, h):
    """(A, b, c) of a mixed Gaussian state"""
    cov = h / 2 * np.eye(2 * n)
    H = np.real(val(4 * n * n, k)).reshape(2 * n, 2 * n)
    S = expm(0.1 * ref.J(n) @ (H + H.T))
    cov = S @ (cov * 1.08) @ S.T + comps.Y_lib(k, n, h) * 0.06
    mean = np.real(val(2 * n, k, 0.25)) * np.sqrt(h)
    return ref.gs_to_abc(mean, cov, h)


@lru_cache(None)
def make(obj, lab, h):
    """builder, tensor, class info: (build, T, wires=[(side,mode)], kind)"""
    import re

    k = sum(map(ord, obj)) % 17
    fam, kind, nn = re.match(r"(ket|dm|bra|u|op|map)([A-Z])(\d+)", obj).groups()
    m = LAB[lab]
    if fam in ("ket", "bra"):
        n = int(nn)
        wires = [("k", x) for x in sorted(m[:n])]
    elif fam == "dm":
        n = 2 * int(nn)
        wires = [("b", x) for x in sorted(m[: n // 2])] + [("k", x) for x in sorted(m[: n // 2])]
    elif fam == "u":
        n, wires = 2, [("ko", m[0]), ("ki", m[0])]
    elif fam == "op":
        a, b = int(nn[0]), int(nn[1])
        n = a + b
        wires = [("ko", x) for x in sorted(m[:a])] + [("ki", x) for x in sorted(m[:b])]
    else:
        n, wires = 4, [("bo", m[0]), ("bi", m[0]), ("ko", m[0]), ("ki", m[0])]
    der, ls, t, T = (), 0, None, None
    if kind == "A":
        base = val(int(np.prod([3, 4, 2, 3][:n])), k, 0.6).reshape([3, 4, 2, 3][:n])
        if fam == "dm":
            nh = n // 2
            sh = (3, 4)[:nh]
            v = val(int(np.prod(sh)) * 2, k, 0.6).reshape(2, *sh)
            base = sum(np.multiply.outer(x.conj(), x) for x in v)
            base = base / np.trace(base.reshape(int(np.prod(sh)), -1))
        T = base
    elif kind == "M":
        t = tuple(np.asarray(x, complex) for x in gaussdm(n // 2, k, h))
    else:
        der, ls = {"G": ((), 0), "D": ((2,), 0), "L": ((), 2)}[kind]
        nv = n // 2 if fam == "dm" else n
        t = triple(nv, der, (), ls, k)
    if fam == "dm" and kind in "GDL":
        Tk = ptensor(*t, bool(ls), (NB[n],) * (n // 2))
        T = np.multiply.outer(Tk.conj(), Tk)
    elif T is None:
        T = ptensor(*t, bool(ls), ((24 if kind == "M" and n == 2 else 11 if kind == "M" else NB[n]),) * n)

    T0 = T

    def build(which="own"):
        from mrmustard import lab as L
        from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

        modes = {s: [x for ss, x in wires if ss == s] for s in ("b", "k", "bo", "bi", "ko", "ki")}
        anz = ArrayAnsatz(T0.copy(), 0) if kind == "A" else PolyExpAnsatz(*t, lin_sup=bool(ls))
        if fam == "ket":
            return L.Ket.from_ansatz(modes["k"], anz)
        if fam == "bra":
            return L.Ket.from_ansatz(modes["k"], anz).dual
        if fam == "dm":
            if kind in "GDL":
                return L.Ket.from_ansatz(modes["k"], anz).dm()
            return L.DM.from_ansatz(modes["k"], anz)
        if fam == "u":
            return L.Unitary.from_ansatz(modes["ko"], modes["ki"], anz)
        if fam == "op":
            return L.Operation.from_ansatz(modes["ko"], modes["ki"], anz)
        return L.Map.from_ansatz(modes["bo"], modes["bi"], anz)

    if fam == "bra":
        T = T.conj()
    return build, T, wires, fam, kind, t


def tens(o, M):
    from mrmustard.physics.ansatz import ArrayAnsatz

    a = o.ansatz
    if isinstance(a, ArrayAnsatz):
        x = np.asarray(a.array)
        out = np.zeros((M,) * x.ndim, complex)
        sl = tuple(slice(0, min(M, s)) for s in x.shape)
        out[sl] = x[sl]
        return out
    return ptensor(a.A, a.b, a.c, a._lin_sup, (M,) * a.num_CV_vars)


def pad(T, M):
    out = np.zeros((M,) * T.ndim, complex)
    sl = tuple(slice(0, min(M, s)) for s in T.shape)
    out[sl] = T[sl]
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    old = settings.HBAR
    settings.HBAR = case["h"]
    try:
        globals()["r_" + case["part"]](case, ctx)
    finally:
        settings.HBAR = old


# ---- kernels -------------------------------------------------------------------------------------------
def vec(side, N, q, phi, h):
    """<q_phi| n> for ket-like wires leaving, conjugated where appropriate; rows n"""
    v = ref.osc_all(N, np.atleast_1d(q), h) * np.exp(-1j * phi * np.arange(N))[:, None]
    # bra wires and ket inputs carry the conjugate amplitude; bra inputs twice conjugated
    conj = side in ("b", "bo", "ki", "kd")
    return v.conj() if conj else v


def bvec(N, z):
    return z ** np.arange(N) / np.sqrt([float(ref.factorial(i)) for i in range(N)])


@lru_cache(None)
def kern(al, s, N):
    """K[b,k]: Tr(rho D(al) x^n D(al)^dag)*2/(pi(1-s)) = sum rho_kb K_bk"""
    M = 60
    D = ref.f_D(al, M)
    x = (s + 1) / (s - 1)
    K = D @ np.diag(x ** np.arange(M) if x != 0 else (np.arange(M) == 0) * 1.0) @ D.conj().T * 2 / (np.pi * (1 - s))
    return K[:N, :N]


@lru_cache(None)
def chi(al, s, N):
    return (ref.f_D(al, 60) * np.exp(s * abs(al) ** 2 / 2))[:N, :N]


def hk(T):
    """T[b..,k..] -> b1 k1 b2 k2 ..."""
    n = T.ndim // 2
    return T.transpose([x for i in range(n) for x in (i, n + i)])


def pairs(T, Ks):
    """contract every (b_i,k_i) pair of T with K_i[b,k] (None: leave)"""
    n = T.ndim // 2
    out = T
    letters = "abcdefghijklmnop"
    ins = letters[: 2 * n]
    args, res = [ins], ins
    ops = [T]
    for i, K in enumerate(Ks):
        if K is None:
            continue
        p = letters[i] + letters[n + i]
        args.append(p)
        ops.append(K)
        res = res.replace(p[0], "").replace(p[1], "")
    return np.einsum(",".join(args) + "->" + res, *ops, optimize=True) if len(ops) > 1 else out


# ---- parts ---------------------------------------------------------------------------------------------
def same_kind(ctx, a, b, label):
    ctx.eq(type(a).__name__, type(b).__name__, label + ": class")
    ctx.eq([(w.mode, w.is_out, w.is_ket) for w in a.wires], [(w.mode, w.is_out, w.is_ket) for w in b.wires], label + ": wires")


def r_conv(case, ctx):
    from mrmustard import lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    build, T, wires, fam, kind, t = make(case["obj"], case["lab"], case["h"])
    n = T.ndim
    o = build()
    small, large = 3, (5 if n < 3 else 4)
    shp = (4, 3, 5, 2)[:n]
    ctx.close(tens(o, small), pad(T, small), "constructed object", atol=2e-6)
    ctx.close(np.asarray(o.fock_array(tuple(min(a, b) for a, b in zip(shp, T.shape)))), T[tuple(slice(0, min(a, b)) for a, b in zip(shp, T.shape))], "fock_array", atol=2e-6)
    maxlen = 3 if case["tier"] == "thorough" or n < 3 else 2
    acts = {"F": lambda x: x.to_fock(tuple(min(small, s) for s in T.shape)), "f": lambda x: x.to_fock(tuple(min(large, s) for s in T.shape)), "r": lambda x: x.to_fock(tuple(min(s, a) for s, a in zip(shp, T.shape))), "B": lambda x: x.to_bargmann()}
    for ln in range(1, maxlen + 1):
        for w in itertools.product("FfrB", repeat=ln):
            if case["tier"] == "quick" and n > 2 and w.count("r") and ln > 1:
                continue
            x, lab = o, "".join(w)
            keep = [10**6] * n
            fock = kind == "A"
            orig = kind in "GM"
            for a in w:
                if a == "B":
                    x = x.to_bargmann()
                    fock = False
                    continue
                sh = [min(y, z) for y, z in zip({"F": (small,) * n, "f": (large,) * n, "r": shp}[a], T.shape)]
                if fock and any(y > z for y, z in zip(sh, np.asarray(x.ansatz.array).shape)):
                    sh = [min(y, z) for y, z in zip(sh, np.asarray(x.ansatz.array).shape)]
                x = x.to_fock(tuple(sh))
                ctx.eq(x.ansatz.core_shape, tuple(sh), f"{lab}: shape")
                fock = True
                keep = [min(y, z) for y, z in zip(keep, sh)]
                ctx.transitions += 1
            ctx.check(isinstance(x.ansatz, ArrayAnsatz if fock else PolyExpAnsatz), f"{lab}: representation")
            same_kind(ctx, x, o, lab)
            M = 4
            want = pad(T, M)
            cut = np.zeros_like(want)
            sl = tuple(slice(0, min(M, y)) for y in keep)
            cut[sl] = want[sl]
            got = tens(x, M)
            if orig and not fock:  # information on the exact triple may have been kept
                ctx.check(np.allclose(got, want, atol=2e-6) or np.allclose(got, cut, atol=2e-6), f"{lab}: values", got.ravel()[:4])
                if set(w) == {"B"} or (w[-1] == "B" and len(w) == 2):
                    ctx.check(x == o, f"{lab}: converting back recovers the original")
            else:
                ctx.close(got[sl], want[sl], f"{lab}: values", atol=2e-6)
            if fock:
                ctx.close(np.asarray(x.fock_array(tuple(1 for _ in range(n)))), T[(slice(0, 1),) * n], f"{lab}: smaller array", atol=2e-6)
            ctx.see(lab, x.ansatz.core_shape if fock else None)
    # constructors from exported data
    if fam == "ket":
        ctor = {"ansatz": lambda a: L.Ket.from_ansatz(o.modes, a), "fock": lambda a, m=None: L.Ket.from_fock(o.modes, a), "barg": lambda *t: L.Ket.from_bargmann(o.modes, t)}
    elif fam == "dm":
        ctor = {"ansatz": lambda a: L.DM.from_ansatz(o.modes, a), "fock": lambda a: L.DM.from_fock(o.modes, a), "barg": lambda *t: L.DM.from_bargmann(o.modes, t)}
    elif fam in ("u", "op", "map"):
        cls = {"u": L.Unitary, "op": L.Operation, "map": L.Map}[fam]
        mo, mi = sorted({x for s, x in wires if s[1] == "o"}), sorted({x for s, x in wires if s[1] == "i"})
        ctor = {"ansatz": lambda a: cls.from_ansatz(mo, mi, a), "fock": lambda a: cls.from_fock(mo, mi, a), "barg": lambda *t: cls.from_bargmann(mo, mi, t)}
    else:
        ctor = {"barg": lambda *t: L.CircuitComponent.from_bargmann(t, modes_in_ket=o.modes)}
    M = 3
    if "ansatz" in ctor:
        x = ctor["ansatz"](o.ansatz)
        ctx.check(x == o, "from_ansatz(own ansatz) == original")
        same_kind(ctx, x, o, "from_ansatz")
    if "fock" in ctor:
        arr = o.fock_array(tuple(min(a, b) for a, b in zip(shp, T.shape)))
        x = ctor["fock"](arr)
        same_kind(ctx, x, o, "from_fock")
        w = pad(T, M).copy()
        cut = np.zeros_like(w)
        sl = tuple(slice(0, min(M, y)) for y in shp)
        cut[sl] = w[sl]
        ctx.close(tens(x, M), cut, "from_fock(fock_array)", atol=2e-6)
        ctx.eq(tuple(w.fock_cutoff for w in x.wires) if False else x.ansatz.core_shape, tuple(min(a, b) for a, b in zip(shp, T.shape)), "from_fock shape")
    if kind in "GM" and "barg" in ctor:
        x = ctor["barg"](*o.bargmann_triple())
        ctx.close(tens(x, M), pad(T, M), "from_bargmann(bargmann_triple)", atol=2e-6)
        if fam != "bra":
            same_kind(ctx, x, o, "from_bargmann")
    if kind == "A":
        ctx.raises(AttributeError, lambda: o.bargmann_triple(), "bargmann_triple of an array")
    ctx.traces += 1


def side_of(fam, s):
    return {"bra": "kd"}.get(fam, s)


def r_quad(case, ctx):
    from mrmustard import lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz

    h = case["h"]
    build, T, wires, fam, kind, t = make(case["obj"], case["lab"], h)
    n = T.ndim
    tol = 4e-4 if n == 4 and kind != "A" else 1e-4 if n == 3 and kind != "A" else 2e-5  # tails cut at 9-11 photons
    o = build()
    rng_q = [np.array([-0.9, 0.35]), np.array([0.6, -0.2, 1.1]), np.array([0.5]), np.array([-0.4, 0.7])]
    modes = sorted({x for _, x in wires})
    pts = {m: rng_q[i] * np.sqrt(h) for i, m in enumerate(modes)}
    versions = [("B", o), ("F", o.to_fock(tuple(T.shape)) if kind != "A" else None), ("b", o.to_bargmann() if kind == "A" else None)]
    for phi in PHI:
        # one variable per wire
        vecs = [vec(side_of(fam, s), T.shape[i], pts[m], phi, h) for i, (s, m) in enumerate(wires)]
        # diagonal: wires of one mode share the same grid index
        letters = {m: chr(65 + i) for i, m in enumerate(modes)}
        core = "abcdefgh"[:n]
        want = np.einsum(core + "," + ",".join(core[i] + letters[m] for i, (_, m) in enumerate(wires)) + "->" + "".join(letters[m] for m in modes), T, *vecs, optimize=True)
        for vn, x in versions:
            if x is None:
                continue
            ctx.transitions += 1
            try:
                got = np.asarray(x.quadrature(*[pts[m] for _, m in wires], phi=phi))
                ctx.close(got, want.ravel(), f"quadrature values phi={phi:.2f} [{vn}]", atol=tol)
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"quadrature values phi={phi:.2f} [{vn}] raised", f"{type(e).__name__}: {e}")
            if fam in ("ket", "dm"):
                dist = np.abs(want) ** 2 if fam == "ket" else np.abs(want)
                try:
                    got = np.asarray(x.quadrature_distribution(*[pts[m] for m in modes], phi=phi))
                    ctx.close(got, dist.ravel(), f"quadrature distribution phi={phi:.2f} [{vn}]", atol=tol)
                    same = np.array([-0.3, 0.8]) * np.sqrt(h)
                    v2 = [vec(s, T.shape[i], same, phi, h) for i, (s, m) in enumerate(wires)]
                    w2 = np.einsum(core + "," + ",".join(core[i] + letters[m] for i, (_, m) in enumerate(wires)) + "->" + "".join(letters[m] for m in modes), T, *v2, optimize=True)
                    ctx.close(np.asarray(x.quadrature_distribution(same, phi=phi)), (np.abs(w2) ** 2 if fam == "ket" else np.abs(w2)).ravel(), f"quadrature distribution, one axis phi={phi:.2f} [{vn}]", atol=tol)
                except Exception as e:  # noqa: BLE001
                    ctx.fail(f"quadrature distribution phi={phi:.2f} [{vn}] raised", f"{type(e).__name__}: {e}")
            # the full kernel at points
            y = x.to_quadrature(phi)
            same_w = [(w.mode, w.is_out, w.is_ket) for w in y.wires]
            ctx.eq(same_w, [(w.mode, w.is_out, w.is_ket) for w in o.wires], "to_quadrature: wires")
            P = [np.array([0.3, -0.7, 0.1]) * np.sqrt(h) + 0.05 * i for i in range(n)]
            vv = [vec(side_of(fam, s), T.shape[i], P[i], phi, h) for i, (s, m) in enumerate(wires)]
            wp = np.einsum(core + "," + ",".join(c + "Z" for c in core) + "->Z", T, *vv, optimize=True)
            ctx.close(np.asarray(y.ansatz(*P)), wp, f"to_quadrature values phi={phi:.2f} [{vn}]", atol=tol)
            if kind in "GM" and vn == "B":
                for p, q in zip(y.ansatz.triple, x.quadrature_triple(phi)):
                    ctx.close(p, q, "quadrature_triple", atol=1e-12)
                tq = x.quadrature_triple(phi)
                if fam == "ket":
                    z = L.Ket.from_quadrature(o.modes, tq, phi)
                elif fam == "dm":
                    z = L.DM.from_quadrature(o.modes, tq, phi)
                elif fam == "bra":
                    z = L.CircuitComponent.from_quadrature((), (), (), o.modes, tq, phi)
                else:
                    mo, mi = sorted({a for s, a in wires if s[1] == "o"}), sorted({a for s, a in wires if s[1] == "i"})
                    z = {"u": L.Unitary, "op": L.Operation, "map": L.Map}[fam].from_quadrature(mo, mi, tq, phi)
                ctx.close(tens(z, 3), pad(T, 3), f"from_quadrature(quadrature_triple) phi={phi:.2f}", atol=2e-6)
                if fam not in ("bra",):
                    same_kind(ctx, z, o, "from_quadrature")
                cc = L.CircuitComponent.from_quadrature(sorted(o.wires.output.bra.modes), sorted(o.wires.input.bra.modes), sorted(o.wires.output.ket.modes), sorted(o.wires.input.ket.modes), tq, phi)
                ctx.close(tens(cc, 3), pad(T, 3), f"CircuitComponent.from_quadrature phi={phi:.2f}", atol=2e-6)
        # subsets of the modes of a state
        if fam in ("ket", "dm"):
            for r in range(1, len(modes) + 1):
                for S in itertools.combinations(modes, r):
                    for perm in (S, S[::-1]):
                        x = (o if kind != "A" else o.to_bargmann()) >> L.BtoQ(perm, phi)
                        vals = [0.3 + 0.2 * i for i in range(n)]
                        ops = []
                        for i, (s, m) in enumerate(wires):
                            ops.append(vec(s, T.shape[i], vals[i], phi, h)[:, 0] if m in S else bvec(T.shape[i], vals[i]))
                        w = np.einsum(core + "," + ",".join(core) + "->", T, *ops, optimize=True)
                        ctx.close(np.asarray(x.ansatz(*vals)), w, f"BtoQ({perm}) phi={phi:.2f}", atol=tol)
                        back = x >> L.BtoQ(perm, phi).inverse() if kind in "GM" else None
                        if back is not None:
                            ctx.close(tens(back, 3), pad(T, 3), f"BtoQ({perm}) phi={phi:.2f} then inverse", atol=tol)
                        ctx.see(perm, round(phi, 2))
    ctx.traces += 1


def r_ps(case, ctx):
    from mrmustard import lab as L

    h = case["h"]
    build, T, wires, fam, kind, t = make(case["obj"], case["lab"], h)
    o = build()
    if kind == "A":
        ctx.raises(ValueError, lambda: o.wigner, "wigner of an array")
        ctx.raises(ValueError, lambda: o.phase_space(0), "phase space of an array")
        # number distribution
    if fam == "ket":
        R = np.multiply.outer(T.conj(), T) if T.ndim < 3 else None
    else:
        R = T
    modes = sorted({x for _, x in wires})
    n = len(modes)
    cut = 3 if n < 3 else 2
    P = np.abs(T[(slice(0, cut),) * n]) ** 2 if fam == "ket" else np.real(np.einsum("abab->ab", T) if n == 2 else np.einsum("aa->a", T))[(slice(0, cut),) * n]
    for vn, x in (("own", o), ("fock", o.to_fock(tuple(T.shape)) if kind != "A" else o)):
        if min(T.shape) >= cut:
            ctx.close(np.asarray(x.fock_distribution(cut)), np.real(P).ravel(), f"fock_distribution [{vn}]", atol=2e-6)
    if R is None:
        return
    b = o if kind != "A" else o.to_bargmann()
    rho = b if fam == "dm" else b.dm()
    alphas = [0.3 - 0.2j, -0.25 + 0.4j][:n]
    zlists = [alphas, [0.0j, 0.35 + 0.1j][:n]]
    core = "abcdefgh"[: 2 * n]
    for zl in zlists:
        for r in range(1, n + 1):
            for S in itertools.combinations(range(n), r):
                for s in (-1, 0, 0.5, 1):
                    for mapname in ("PS", "CH"):
                        if mapname == "PS" and s == 1:
                            continue
                        if s == 0.5 and (mapname == "CH" or kind != "A"):
                            continue  # |x|>1 kernels converge only for strongly decaying objects
                        Ks = [None] * n
                        for i in S:
                            K = kern(zl[i], s, T.shape[-1]) if mapname == "PS" else chi(zl[i], s, T.shape[-1])
                            Kb = np.zeros((R.shape[i], R.shape[n + i]), complex)
                            Kb[:, :] = K[: R.shape[i], : R.shape[n + i]] if K.shape[0] >= max(R.shape[i], R.shape[n + i]) else (kern(zl[i], s, 30) if mapname == "PS" else chi(zl[i], s, 30))[: R.shape[i], : R.shape[n + i]]
                            Ks[i] = Kb
                        W = pairs(R, Ks)
                        rest = [i for i in range(n) if i not in S]
                        ops = [bvec(R.shape[i], 0.2 + 0.1j) for i in rest] + [bvec(R.shape[n + i], -0.1 + 0.3j) for i in rest]
                        for v in ops:
                            W = np.tensordot(v, W, axes=(0, 0))
                        ms = tuple(modes[i] for i in S)
                        zb = [np.conj(zl[i]) if i in S else 0.2 + 0.1j for i in range(n)]
                        zk = [zl[i] if i in S else -0.1 + 0.3j for i in range(n)]
                        for src, x in (("dm", rho), ("ket", b)) if fam == "ket" else (("dm", rho),):
                            y = x >> (L.BtoPS(ms, s) if mapname == "PS" else L.BtoChar(ms, s))
                            ctx.transitions += 1
                            zz = (zb, zk)
                            if mapname == "PS":  # variables (alpha, conj alpha)
                                zz = [[zl[i] if i in S else zb[i] for i in range(n)], [np.conj(zl[i]) if i in S else zk[i] for i in range(n)]]
                            ctx.close(np.asarray(y.ansatz(*zz[0], *zz[1])), W, f"{src} >> {mapname}({ms}, s={s})", atol=2e-5 if s == 0.5 else 5e-6)
                            if s == 0 and kind in "GM":
                                inv = (L.BtoPS(ms, s) if mapname == "PS" else L.BtoChar(ms, s)).inverse()
                                ctx.close(tens(y >> inv, 3), pad(R, 3), f"{mapname}({ms}) then inverse", atol=2e-5)
                ctx.see(S, tuple(zl))
        # phase-space function of real variables
        full = pairs(R, [kern(zl[i], 0, 30)[: R.shape[i], : R.shape[n + i]] for i in range(n)]) / (2 * h) ** n
        q = [np.sqrt(2 * h) * z.real for z in zl]
        p = [np.sqrt(2 * h) * z.imag for z in zl]
        if kind != "A" and not (kind == "D" and n > 1):
            for src in (rho, b):
                ctx.close(np.asarray(src.wigner(*q, *p)), full, "wigner", atol=2e-5)
        if kind in "GML":
            for s in (-1, 0):
                cov, means, coeff = (np.asarray(v) for v in rho.phase_space(s))
                xs = np.array(q + p)
                d = xs - means
                e = np.exp(-0.5 * np.einsum("...i,...ij,...j->...", d, np.linalg.inv(cov), d)) / np.sqrt(np.linalg.det(2 * np.pi * cov))
                w = pairs(R, [kern(zl[i], s, 30)[: R.shape[i], : R.shape[n + i]] for i in range(n)]) / (2 * h) ** n
                ctx.close((coeff * e).sum(), w, f"phase_space({s}): sum of Gaussians", atol=2e-5)
    if kind in "GM":
        cov, means, coeff = rho.phase_space(0)
        x = L.DM.from_phase_space(rho.modes, (cov, means, coeff))
        ctx.close(tens(x, 3), pad(R, 3), "DM.from_phase_space(phase_space(0))", atol=2e-5)
        for s in (-1, 0.3):
            x = L.DM.from_phase_space(rho.modes, rho.phase_space(s), s=s) if "s" in L.DM.from_phase_space.__code__.co_varnames else None
            if x is not None:
                ctx.close(tens(x, 3), pad(R, 3), f"DM.from_phase_space(phase_space({s}))", atol=2e-5)
        if fam == "ket":
            k = L.Ket.from_phase_space(o.modes, o.phase_space(0))
            Tk = tens(k, 3)
            nrm = float(np.real(o.phase_space(0)[2]))  # the coefficient multiplies the ket
            ctx.close(np.multiply.outer(Tk.conj(), Tk), pad(R, 3) * nrm, "Ket.from_phase_space(phase_space(0)) up to phase", atol=2e-5)
    ctx.traces += 1


def r_disc(case, ctx):
    """discretised Wigner function of arrays, both methods, every cutoff 1..8"""
    from mrmustard import settings
    from mrmustard.physics.wigner import wigner_discretized

    h = case["h"]
    q = np.array([-1.1, 0.0, 0.4, 1.7]) * np.sqrt(h)
    p = np.array([-0.6, 0.0, 0.9]) * np.sqrt(h)
    old = settings.DISCRETIZATION_METHOD
    try:
        for N in range(1, 9):
            for k in range(3):
                v = val(N * N, k + N).reshape(N, N)
                rho = v @ v.conj().T
                rho = rho / np.trace(rho)
                want = ref.wigner_fock(rho, q, p, h)
                for meth in ("iterative", "clenshaw"):
                    if meth == "clenshaw" and N == 1:
                        continue
                    settings.DISCRETIZATION_METHOD = meth
                    W, Q, Pm = wigner_discretized(rho, q, p)
                    ctx.transitions += 1
                    ctx.close(np.asarray(W), want, f"{meth} cutoff {N}", atol=1e-9)
                    ctx.close(np.asarray(Q), np.outer(q, np.ones_like(p)), "q grid")
                    ctx.close(np.asarray(Pm), np.outer(np.ones_like(q), p), "p grid")
                ctx.see(N, k)
    finally:
        settings.DISCRETIZATION_METHOD = old
    ctx.traces += 1


def r_lib(case, ctx):
    """library gates and channels: exported descriptions rebuild the same component; Mehler kernel of rotations"""
    from mrmustard import lab as L

    h = case["h"]
    gates = [("S", (5,), 0.3, 0.2), ("R", (5,), 0.7), ("D", (5,), 0.2, 0.1), ("BS", (5, 13), 0.4, 0.3), ("S2", (5, 13), 0.3, 0.2), ("Att", (5,), 0.6), ("Amp", (5,), 1.3)]
    objs = {"S": L.Sgate(5, 0.3, 0.2), "R": L.Rgate(5, 0.7), "D": L.Dgate(5, 0.2 + 0.1j), "BS": L.BSgate((5, 13), 0.4, 0.3), "S2": L.S2gate((5, 13), 0.3, 0.2), "Att": L.Attenuator(5, 0.6), "Amp": L.Amplifier(5, 1.3),
            "G": L.Ggate((5, 13), comps.S_lib(1, 2)), "I": L.Identity((5, 13)), "Fd": L.FockDamping(5, 0.4)}
    for nm, g in objs.items():
        cls = L.Channel if nm in ("Att", "Amp") else L.Operation if nm == "Fd" else L.Unitary
        x = cls.from_bargmann(g.modes, g.modes, g.bargmann_triple())
        ctx.check(x == g, f"{nm}: from_bargmann")
        n = len(g.wires)
        F = g.to_fock(4)
        ctx.close(np.asarray(F.ansatz.array), np.asarray(g.fock_array(4)), f"{nm}: to_fock")
        ctx.check(F.to_bargmann() == g, f"{nm}: back to Bargmann")
        y = cls.from_fock(g.modes, g.modes, g.fock_array((4, 3) * (n // 2)))
        ctx.close(np.asarray(y.fock_array((4, 3) * (n // 2))), np.asarray(g.fock_array((4, 3) * (n // 2))), f"{nm}: from_fock")
        ctx.transitions += 4
        if nm in ("G", "R", "BS", "S2", "Fd"):
            for phi in PHI:
                if nm in ("BS", "S2"):
                    continue
                t = g.quadrature_triple(phi)
                z = cls.from_quadrature(g.modes, g.modes, t, phi)
                ctx.close(np.asarray(z.fock_array(3)), np.asarray(g.fock_array(3)), f"{nm}: quadrature round trip phi={phi:.2f}", atol=1e-6)
        if nm == "R":
            th, q1, q2 = 0.7, 0.3 * np.sqrt(h), -0.5 * np.sqrt(h)
            X, Y = q1 / np.sqrt(h), q2 / np.sqrt(h)
            # e^{i th n}: Mehler with w = e^{i th}
            w = np.exp(1j * th)
            M = np.exp((4 * X * Y * w - (1 + w * w) * (X * X + Y * Y)) / (2 * (1 - w * w))) / np.sqrt(np.pi * h * (1 - w * w))
            ctx.close(np.asarray(g.to_quadrature(0.0).ansatz(q1, q2)), M, "rotation in the quadrature basis is the Mehler kernel", atol=1e-8)
        ctx.see(nm)
    del gates
    ctx.traces += 1
