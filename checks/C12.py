"""C12: measurement, reduction, expectation.  Reference: the number-basis density tensor R[b.., k..] of the state (power series of the
triple that built it) with slices, traces and inner products taken by einsum.  All orders of all groups of projections and traces."""

import itertools
import warnings
from functools import lru_cache

import numpy as np

from checks.C07 import tensor as ptensor
from checks.C07 import triple, val
from mc import comps, ref

LEVEL = "model_checking"
RULE = ("states: pure and mixed, Gaussian / with derived variables / superposed / arrays, 1-3 modes, three labellings; both default representations; "
        "every sequence (every order, every grouping into steps) of trace-outs and projections onto number, coherent and generic states over all the modes; every kept subset in every order; "
        "expectation of every operator kind (ket, density matrix, unitary; every ansatz kind) on every subset of modes; norms, purity, overlaps and fidelity of every pair of states")
ASSUMPTIONS = ["number-basis tensors are cut at 12-24 photons; object coefficients are small enough for a neglected tail below the stated tolerances"]
CASE_LIMIT = 300
BUDGET = 300
ROTATE = True
LAB = {"std": (0, 1, 2), "coll": (5, 13, 8), "rev": (3, 41, 27)}
KETS = ["G", "D", "L", "A"]
DMS = ["G", "D", "L", "M", "X", "A", "E"]
TOL = 5e-6


def cases(tier):
    out = []

    def add(part, **kw):
        out.append({"id": part + "-" + "-".join(str(v) for v in kw.values()), "part": part, "tier": tier, **kw})

    for lab in LAB:
        for fam, kinds in (("ket", KETS), ("dm", DMS)):
            for kind in kinds:
                for n in (1, 2, 3):
                    if fam == "dm" and n == 3 and kind in "LXED":
                        continue
                    if n == 3 and tier == "quick" and lab != "coll":
                        continue
                    if n == 2 and tier == "quick" and (lab == "rev" or lab == "std" and kind in "DXE") or n == 1 and tier == "quick" and lab == "std":
                        continue
                    if kind == "E" and n == 3:
                        continue
                    add("seq", fam=fam, kind=kind, n=n, lab=lab)
                    if (n < 3 or fam == "ket") and not (tier == "quick" and (kind == "E" and n == 2 or kind in "DL" and n == 3)):
                        add("expect", fam=fam, kind=kind, n=n, lab=lab)
                    if n < 3:
                        add("stats", fam=fam, kind=kind, n=n, lab=lab)
    add("fid", n=1)
    add("fid", n=2)
    add("complete", n=1)
    add("reject", n=1)
    return out


def warm():
    from checks.C07 import warm as w

    w()


def cut(n):
    return {1: 24, 2: 15, 3: 10}[n]


def small(t, f=0.5, g=0.75):
    A, b, c = t
    return np.asarray(A) * f, np.asarray(b) * g, np.asarray(c)


@lru_cache(None)
def ketdata(kind, n, k):
    """(triple or array, lin_sup, tensor)"""
    N = cut(n)
    if kind == "A":
        T = val(int(np.prod((3, 4, 2)[:n])), k, 0.5).reshape((3, 4, 2)[:n])
        out = np.zeros((N,) * n, complex)
        out[tuple(slice(0, s) for s in T.shape)] = T
        return T, 0, out
    der, ls = {"G": ((), 0), "D": ((2,), 0), "L": ((), 2), "P": ((), 0)}[kind]
    t = small(triple(n, der, (), ls, k), 0.4 if n == 3 else 0.5, 0.6 if n == 3 else 0.75)
    return t, ls, ptensor(*t, bool(ls), (N,) * n)


def mket(modes, kind, k, ordered=True):
    """build (component, tensor by position of sorted(modes))"""
    from mrmustard.lab import Ket
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    n = len(modes)
    d, ls, T = ketdata(kind, n, k)
    anz = ArrayAnsatz(d.copy(), 0) if kind == "A" else PolyExpAnsatz(*d, lin_sup=bool(ls))
    return Ket.from_ansatz(modes, anz), T


@lru_cache(None)
def dmarr(n, k):
    sh = (3, 4, 2)[:n]
    v = val(int(np.prod(sh)) * 2, k, 0.5).reshape(2, *sh)
    R = sum(np.multiply.outer(x.conj(), x) for x in v)
    return R


def embed(R, N):
    out = np.zeros((N,) * R.ndim, complex)
    out[tuple(slice(0, s) for s in R.shape)] = R
    return out


@lru_cache(None)
def gauss(n, k):
    h = 1.0
    from scipy.linalg import expm

    H = np.real(val(4 * n * n, k)).reshape(2 * n, 2 * n)
    S = expm(0.06 * ref.J(n) @ (H + H.T))
    cov = S @ (h / 2 * np.eye(2 * n) * 1.06) @ S.T + comps.Y_lib(k, n, h) * 0.03
    return tuple(np.asarray(x, complex) for x in ref.gs_to_abc(np.real(val(2 * n, k, 0.2)), cov, h))


def mdm(modes, kind, k):
    from mrmustard.lab import DM, TraceOut
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    n = len(modes)
    N = cut(n)
    if kind in "GDL":
        c, T = mket(modes, kind, k)
        return c.dm(), np.multiply.outer(T.conj(), T)
    if kind == "A":
        R = dmarr(n, k)
        return DM.from_ansatz(modes, ArrayAnsatz(R.copy(), 0)), embed(R, N)
    if kind == "M":
        t = gauss(n, k)
        return DM.from_ansatz(modes, PolyExpAnsatz(*t)), ptensor(*t, False, (N,) * (2 * n))
    if kind == "X":
        t = gauss(n, k)
        c, T = mket(modes, "G", k + 1)
        return 0.6 * DM.from_ansatz(modes, PolyExpAnsatz(*t)) + 0.4 * c.dm(), 0.6 * ptensor(*t, False, (N,) * (2 * n)) + 0.4 * np.multiply.outer(T.conj(), T)
    # E: the reduced state of a ket with a derived variable
    full = tuple(modes) + (max(modes) + 1,)
    c, _ = mket(full, "D", k)
    d = ketdata("D", n + 1, k)[0]
    M = 14 if n == 1 else 10
    T = ptensor(*d, False, (N,) * n + (M,))
    T = T.reshape(*T.shape[:-1], M)
    R = np.tensordot(T.conj(), T, axes=([n], [n]))
    return c >> TraceOut(max(full)), R


def state(fam, kind, modes, k=3):
    s, T = (mket if fam == "ket" else mdm)(modes, kind, k)
    R = np.multiply.outer(T.conj(), T) if fam == "ket" and T.ndim < 3 else T
    return s, T, R


def tens(o, N):
    from mrmustard.physics.ansatz import ArrayAnsatz

    a = o.ansatz
    if isinstance(a, ArrayAnsatz):
        x = np.asarray(a.array)
        out = np.zeros((N,) * x.ndim, complex)
        sl = tuple(slice(0, min(N, s)) for s in x.shape)
        out[sl] = x[sl]
        return out
    return ptensor(a.A, a.b, a.c, a._lin_sup, (N,) * a.num_CV_vars)


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    for rep in ("Bargmann", "Fock"):
        if case["part"] in ("seq", "stats") and rep == "Fock" and case["kind"] == "A":
            continue
        if case["n"] == 3 and rep == "Fock" and case["fam"] == "dm":
            continue  # automatic shapes of six indices do not fit in memory
        if case["n"] > 1 and rep == "Fock" and case["tier"] == "quick" and case.get("kind") in list("DLXE") and (case["fam"] == "dm" or case["n"] == 3):
            continue  # slow: left to the thorough tier
        old, oldp, oldm = settings.DEFAULT_REPRESENTATION, settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX
        settings.AUTOSHAPE_MAX = {1: 30, 2: 16, 3: 10}[case["n"]]
        settings.DEFAULT_REPRESENTATION = rep
        settings.AUTOSHAPE_PROBABILITY = 1 - 1e-9  # automatic shapes then cover the objects to the tolerance
        ctx.sub = rep
        try:
            globals()["r_" + case["part"]](case, ctx, rep)
        finally:
            settings.DEFAULT_REPRESENTATION, settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX = old, oldp, oldm
            ctx.sub = ""


# ---- model of a partially measured state: (density or ket tensor, modes left) ---------------------------
class Model:
    def __init__(self, T, modes, pure):
        self.T, self.modes, self.pure = T, list(modes), pure

    def dm(self):
        return self if not self.pure else Model(np.multiply.outer(self.T.conj(), self.T), self.modes, False)

    def trace(self, S):
        m = self.dm() if not self.pure else self
        if self.pure:
            ax = [self.modes.index(x) for x in S]
            T = np.tensordot(self.T.conj(), self.T, axes=(ax, ax))
        else:
            T = m.T
            left = list(m.modes)
            for x in S:
                i = left.index(x)
                T = np.trace(T, axis1=i, axis2=i + len(left))
                left.remove(x)
        return Model(T, [x for x in self.modes if x not in S], False)

    def project(self, S, v):
        """v: tensor of a ket on sorted(S)"""
        n = len(self.modes)
        ax = [self.modes.index(x) for x in sorted(S)]
        V = v[tuple(slice(0, self.T.shape[a]) for a in ax)]
        if self.pure:
            T = np.tensordot(self.T, V.conj(), axes=(ax, range(len(ax))))
        else:
            T = np.tensordot(self.T, V.conj(), axes=([a + n for a in ax], range(len(ax))))
            T = np.tensordot(T, V, axes=(ax, range(len(ax))))
        return Model(T, [x for x in self.modes if x not in S], self.pure)

    def projdm(self, S, W):
        """contract with a density matrix W[b,k] on sorted(S): Tr_S(rho W)"""
        m = self.dm()
        n, r = len(m.modes), len(S)
        ax = [m.modes.index(x) for x in sorted(S)]
        V = W[tuple(slice(0, m.T.shape[a]) for a in ax) * 2]
        cutto = list(m.T.shape)
        for i, a in enumerate(ax):
            cutto[a], cutto[a + n] = V.shape[i], V.shape[i + r]
        T = np.tensordot(m.T[tuple(slice(0, c) for c in cutto)], V.conj(), axes=(ax + [a + n for a in ax], range(2 * r)))
        return Model(T, [x for x in m.modes if x not in S], False)


def partitions(items):
    """all ordered set partitions"""
    items = list(items)
    if not items:
        yield []
        return
    for r in range(1, len(items) + 1):
        for first in itertools.combinations(items, r):
            rest = [x for x in items if x not in first]
            for p in partitions(rest):
                yield [first, *p]


def compare(ctx, got, m, label, N=3, atol=TOL):
    from mrmustard.lab import CircuitComponent

    if not m.modes:
        if isinstance(got, CircuitComponent):
            ctx.fail(label, f"a scalar was expected, got {type(got).__name__} on {got.modes}")
            return
        v = m.T  # a ket projected onto a bra gives the amplitude
        ctx.close(np.asarray(got), v, label, atol=atol)
        return
    if not isinstance(got, CircuitComponent):
        ctx.fail(label, f"a component was expected, got {got!r}")
        return
    ctx.eq(tuple(got.modes), tuple(m.modes), label + ": modes")
    ctx.eq(type(got).__name__, "Ket" if m.pure else "DM", label + ": class")
    if len(got.wires) != m.T.ndim:
        ctx.fail(label, "wrong number of wires")
        return
    ctx.close(tens(got, N), m.T[tuple(slice(0, N) for _ in range(m.T.ndim))] if min(m.T.shape, default=N) >= N else tens(got, N), label, atol=atol)


def r_seq(case, ctx, rep):
    from mrmustard import lab as L

    modes = sorted(LAB[case["lab"]][: case["n"]])
    n = len(modes)
    st, T, _ = state(case["fam"], case["kind"], modes)
    pure = case["fam"] == "ket"
    if not pure and n == 3:
        pass
    base = Model(T, modes, pure)
    starts = [("own", st)]
    if case["kind"] != "A":
        starts.append(("fock", st.to_fock(12 if n < 3 else 8)))
    else:
        starts.append(("barg", st.to_bargmann()))
    # conversions forced by a mixed product use automatic shapes, which retain the stated probability only
    tol = 5e-4 if rep == "Fock" and case["kind"] in "MXE" else TOL if n < 3 else 2e-5

    def proj(kind, S):
        S = tuple(sorted(S))
        if kind[0] == "n":
            nums = [(int(kind[1]) + 2 * i) % 3 for i in range(len(S))]
            comp = None
            v = np.ones(())
            for x, m in zip(nums, S):
                c = L.Number(m, x).dual
                comp = c if comp is None else comp >> c
                e = np.zeros(cut(n), complex)
                e[x] = 1
                v = np.multiply.outer(v, e)
            return comp, v, None
        if kind == "c":
            comp, v = None, np.ones(())
            for i, m in enumerate(S):
                al = 0.3 - 0.2j * (i + 1)
                c = L.Coherent(m, al).dual
                comp = c if comp is None else comp >> c
                v = np.multiply.outer(v, ref.coh_vec(al, cut(n)))
            return comp, v, None
        if kind == "g":
            k = mket(S, "G", 8)
            v = ptensor(*ketdata("G", len(S), 8)[0], False, (cut(n),) * len(S))
            return k[0].dual, v, None
        k, W = mdm(S, "M", 9)
        W = ptensor(*gauss(len(S), 9), False, (min(cut(n), 12),) * (2 * len(S)))
        return k.dual, None, W

    acts = ["t", "n0", "n1", "c", "g", "w"]
    for sn, s0 in starts:
        # all orders of single-mode actions on every subset of modes
        for r in range(1, n + 1):
            if r == 3 and (case["tier"] == "quick" or not pure):
                alph = ["t", "n1", "g"]
            elif r == 2 and case["tier"] == "quick":
                alph = ["t", "n0", "n1", "g"] if sn == "own" else ["t", "n1", "w"]
            else:
                alph = acts
            if pure and n == 3 and case["kind"] in "DL" and case["tier"] == "quick":
                alph = ["t", "n1", "g"] if r == 1 else ["t", "n1"]
            if not pure and n == 3:
                alph = ["t", "n1", "g"] if r < 3 else ["t", "n1"]
            for S in itertools.combinations(modes, r):
                for word in itertools.product(alph, repeat=r):
                    # action word[i] on S[i]
                    m = base
                    for a, x in zip(word, S):
                        if a == "t":
                            m = m.trace([x])
                        else:
                            _, v, W = proj(a, (x,))
                            m = m.project([x], v) if v is not None else m.projdm([x], W)
                    for order in itertools.permutations(range(r)):
                        c = s0
                        ctx.transitions += r
                        lab = f"[{sn}] " + " ".join(f"{word[i]}@{S[i]}" for i in order)
                        try:
                            for i in order:
                                c = c >> (L.TraceOut(S[i]) if word[i] == "t" else proj(word[i], (S[i],))[0])
                        except Exception as e:  # noqa: BLE001
                            ctx.fail(lab + " raised", f"{type(e).__name__}: {e}"[:200])
                            continue
                        compare(ctx, c, m, lab, atol=tol)
                    ctx.see(S, word)
        if n == 3 and sn == "fock" and rep == "Bargmann" and case["tier"] == "quick":
            continue
        # grouped steps: traces of groups, joint projections
        for r in range(1, n + 1):
            for S in itertools.combinations(modes, r):
                for P in partitions(S):
                    if not any(len(g) > 1 for g in P):
                        continue
                    slow = n == 3 and case["kind"] in "DL" and case["tier"] == "quick"
                    for word in itertools.product("tn" if slow else "tngw", repeat=len(P)):
                        m, c = base, s0
                        lab = f"[{sn}] " + " ".join(f"{a}@{g}" for a, g in zip(word, P))
                        if n == 3 and "w" in word and (not pure or len(P[word.index("w")]) > 1):
                            continue
                        try:
                            for a, g in zip(word, P):
                                ctx.transitions += 1
                                if a == "t":
                                    m, c = m.trace(g), c >> L.TraceOut(g[::-1])
                                else:
                                    comp, v, W = proj({"n": "n1"}.get(a, a), g)
                                    m = m.project(g, v) if v is not None else m.projdm(g, W)
                                    c = c >> comp
                        except Exception as e:  # noqa: BLE001
                            ctx.fail(lab + " raised", f"{type(e).__name__}: {e}"[:200])
                            continue
                        compare(ctx, c, m, lab, atol=tol)
        # kept subsets
        for r in range(1, n + 1):
            for S in itertools.permutations(modes, r):
                m = base.trace([x for x in modes if x not in S]) if r < n else base
                if pure and r == n:
                    m = base
                got = s0[S]
                ctx.transitions += 1
                if r == n and pure:
                    m = m if type(got).__name__ == "Ket" else m.dm()
                compare(ctx, got, m, f"[{sn}] state[{S}]", atol=TOL if n < 3 else 2e-5)
        ctx.raises(ValueError, lambda: s0[(99,)], f"[{sn}] unknown mode")
    # the trace with the dual of the identity, projectors applied to the operator side
    ctx.traces += 1


def op_list(S, n):
    """(name, component, matrix O[out.., in..] on sorted(S))"""
    from mrmustard import lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    S = tuple(sorted(S))
    r, N = len(S), cut(n)
    out = []
    for kind in "GDLA":
        if kind == "D" and r > 2:
            continue
        k, _ = mket(S, kind, 8)
        v = ptensor(*ketdata(kind, r, 8)[0], bool(ketdata(kind, r, 8)[1]), (N,) * r) if kind != "A" else embed(ketdata("A", r, 8)[0], max(N, 4))[(slice(0, N),) * r]
        out.append((f"ket {kind}", k, np.multiply.outer(v, v.conj())))
    for kind in "GMXA":
        if r > 1 and kind == "X":
            continue
        if r > 2:
            continue
        d, _ = mdm(S, kind, 9)
        if kind == "A":
            W = embed(dmarr(r, 9), N)
        elif kind == "M":
            W = ptensor(*gauss(r, 9), False, (N,) * (2 * r))
        elif kind == "G":
            v = ptensor(*ketdata("G", r, 9)[0], False, (N,) * r)
            W = np.multiply.outer(v.conj(), v)
        else:
            v = ptensor(*ketdata("G", r, 10)[0], False, (N,) * r)
            W = 0.6 * ptensor(*gauss(r, 9), False, (N,) * (2 * r)) + 0.4 * np.multiply.outer(v.conj(), v)
        out.append((f"dm {kind}", d, W.transpose([*range(r, 2 * r), *range(r)])))
    for kind in "GDLA":
        if r > 1 and kind in "DL":
            continue
        if r > 2:
            continue
        if kind == "A":
            U = val(int(np.prod((3, 3, 3, 3)[: 2 * r])), 5, 0.5).reshape((3,) * (2 * r))
            u = L.Operation.from_ansatz(S, S, ArrayAnsatz(U.copy(), 0))
            U = embed(U, N)
        else:
            der, ls = {"G": ((), 0), "D": ((2,), 0), "L": ((), 2)}[kind]
            t = small(triple(2 * r, der, (), ls, 6))
            u = L.Operation.from_ansatz(S, S, PolyExpAnsatz(*t, lin_sup=bool(ls)))
            U = ptensor(*t, bool(ls), (N,) * (2 * r))
        out.append((f"operation {kind}", u, U))
    if r == 1:
        out.append(("Rgate", L.Rgate(S[0], 0.7), np.diag(np.exp(0.7j * np.arange(N)))))
        out.append(("Dgate", L.Dgate(S[0], 0.2 - 0.1j), ref.f_D(0.2 - 0.1j, 60)[:N, :N]))
        out.append(("Number", L.Number(S[0], 2), np.diag((np.arange(N) == 2) * 1.0)))
    if r == 2:
        th = 0.6
        Ub = np.zeros((N,) * 4, complex)
        U2 = ref.f_lin("BS", th, 0.3, N) if False else None
        del Ub, U2
    return out


def r_expect(case, ctx, rep):
    modes = sorted(LAB[case["lab"]][: case["n"]])
    n = len(modes)
    st, T, R = state(case["fam"], case["kind"], modes)
    base = Model(T, modes, case["fam"] == "ket")
    variants = [("own", st)]
    if case["kind"] != "A":
        variants.append(("fock", st.to_fock(12 if n < 3 else 8)))
    else:
        variants.append(("barg", st.to_bargmann()))
    for r in range(1, n + 1):
        if r > 2:
            continue
        for S in itertools.combinations(modes, r):
            rest = [x for x in modes if x not in S]
            red = base.trace(rest).T if rest else base.dm().T  # [b.., k..]
            Ns = red.shape[0]
            for name, op, O in op_list(S, n):
                # Tr(rho O) = sum_{b,k} R[b,k] O[b,k]
                sl = (slice(0, min(Ns, O.shape[0])),) * (2 * r)
                want = (red[sl] * O[sl]).sum()
                for vn, s in variants:
                    for on, o in (("", op), (" (fock)", None)):
                        if o is None:
                            if name.endswith("A") or name in ("Number",):
                                continue
                            if case["tier"] == "quick" and (vn == "fock" or r == 2):
                                continue
                            o = op.to_fock(12 if n < 3 else 8)
                        ctx.transitions += 1
                        lab = f"[{vn}] <{name}{on}> on {S}"
                        try:
                            got = np.asarray(s.expectation(o))
                        except Exception as e:  # noqa: BLE001
                            ctx.fail(lab + " raised", f"{type(e).__name__}: {e}"[:200])
                            continue
                        ctx.close(got, want, lab, atol=5e-4 if rep == "Fock" and case["kind"] in "MXE" else 1e-5 if n < 3 else 5e-5)
                ctx.see(S, name)
    ctx.traces += 1


def r_stats(case, ctx, rep):
    modes = sorted(LAB[case["lab"]][: case["n"]])
    n = len(modes)
    st, T, R = state(case["fam"], case["kind"], modes)
    M = Model(T, modes, case["fam"] == "ket").dm().T
    D = int(np.prod(M.shape[:n]))
    rho = M.reshape(D, D).T
    tr = np.trace(rho).real
    pur = (np.trace(rho @ rho) / tr**2).real
    variants = [("own", st)]
    variants.append(("fock", st.to_fock(12)) if case["kind"] != "A" else ("barg", st.to_bargmann()))
    for vn, s in variants:
        try:
            ctx.close(np.asarray(s.probability), tr, f"[{vn}] probability", atol=TOL)
            ctx.close(np.asarray(s.purity), pur if case["fam"] == "dm" else 1.0, f"[{vn}] purity", atol=TOL)
            ctx.close(np.asarray(s.L2_norm), tr if case["fam"] == "ket" else np.trace(rho @ rho).real, f"[{vn}] L2 norm", atol=TOL)
            ctx.eq(bool(s.is_pure), bool(abs(pur - 1) < 1e-6), f"[{vn}] is_pure")
            m = s.normalize()
            ctx.close(np.asarray(m.probability), 1.0, f"[{vn}] normalised probability", atol=TOL)
            f = np.sqrt(tr) if case["fam"] == "ket" else tr
            ctx.close(tens(m, 3), T[(slice(0, 3),) * T.ndim] / f, f"[{vn}] normalize", atol=2e-5)
            ctx.close(np.asarray(s.fock_distribution(3)), np.real(np.diag(rho)).reshape((M.shape[0],) * n)[(slice(0, 3),) * n].ravel() if min(M.shape) >= 3 else None, f"[{vn}] number distribution", atol=TOL)
            ctx.close(np.asarray(s.dm().probability), tr, f"[{vn}] probability of dm()", atol=TOL)
            ctx.close(np.asarray((0.5j * s).probability), tr * (0.25 if case["fam"] == "ket" else 0.5) if case["fam"] == "ket" else tr * 0.5, f"[{vn}] scaled", atol=TOL) if case["fam"] == "ket" else ctx.close(np.asarray((0.5 * s).probability), tr * 0.5, f"[{vn}] scaled", atol=TOL)
        except Exception as e:  # noqa: BLE001
            import traceback

            ctx.fail(f"[{vn}] raised", traceback.format_exc()[-400:])
            del e
        ctx.transitions += 9
    ctx.see(round(tr, 6), round(pur, 6))
    ctx.traces += 1


def fid(r, s):
    w, v = np.linalg.eigh((r + r.conj().T) / 2)
    q = v * np.sqrt(np.maximum(w, 0)) @ v.conj().T
    e = np.linalg.eigvalsh(q @ (s + s.conj().T) / 2 @ q)
    return np.sqrt(np.maximum(e, 0)).sum() ** 2


def r_fid(case, ctx, rep):
    n = case["n"]
    modes = [5, 13][:n]
    items = []
    for fam, kinds in (("ket", "GLDA"), ("dm", "GMAXLED")):
        for kind in kinds:
            if n == 2 and kind in "XE" or (n, fam, kind) == (2, "dm", "D"):
                continue
            for k in (3, 4):
                st, T, R = state(fam, kind, modes, k)
                M = Model(T, modes, fam == "ket").dm().T
                D = int(np.prod(M.shape[:n]))
                rho = M.reshape(D, D).T
                tr = np.trace(rho).real
                st = st.normalize()
                items.append((f"{fam}{kind}{k}", fam, kind, st, rho / tr))
    for (n1, f1, k1, s1, r1), (n2, f2, k2, s2, r2) in itertools.product(items, repeat=2):
        if f1 == "dm" and f2 == "dm" and not {k1, k2} <= set("GMED"):
            if not (k1 == "A" or k2 == "A"):
                continue  # fidelity between superposed mixed states is only defined through their Fock arrays
        if {f1, f2} == {"ket", "dm"} and ("L" in k1 + k2 or "X" in k1 + k2):
            continue  # refused with NotImplementedError (superpositions count as batches)
        want = fid(r1, r2) if "dm" == f1 == f2 else np.trace(r1 @ r2).real
        if f1 == f2 == "dm" and "A" in (k1, k2):  # automatic shapes cut amplitudes: give the arrays
            s1, s2 = (x if k == "A" else x.to_fock(12) for x, k in ((s1, k1), (s2, k2)))
        ctx.transitions += 1
        try:
            got = np.asarray(s1.fidelity(s2))
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"fidelity {n1} {n2} raised", f"{type(e).__name__}: {e}"[:200])
            continue
        ctx.close(np.real(got), want, f"fidelity {n1} {n2}", atol=3e-4 if f1 == f2 == "dm" else 2e-5)
        ctx.see(n1, n2)
    ctx.traces += 1


def r_complete(case, ctx, rep):
    """complete sets of outcomes: number outcomes, quadrature outcomes (trapezoid on a rapidly decaying integrand), coherent states"""
    from mrmustard import lab as L

    for lab in LAB.values():
        for fam, kind in (("ket", "G"), ("ket", "L"), ("dm", "M"), ("ket", "A"), ("dm", "A")):
            modes = sorted(lab[:2])
            st, T, R = state(fam, kind, modes)
            M = Model(T, modes, fam == "ket")
            for x in modes:
                y = [m for m in modes if m != x][0]
                want = M.trace([x]).T
                tol = 5e-4 if rep == "Fock" and kind == "M" else 2e-5
                tot = 0
                for k in range(12):
                    c = st >> L.Number(x, k).dual
                    c = c.dm() if fam == "ket" else c
                    tot = tot + tens(c, 3)
                    ctx.transitions += 1
                ctx.close(tot, want[:3, :3], f"{fam}{kind} sum over number outcomes of {x}", atol=tol)
                if kind != "A":
                    for phi in (0.0, 0.9):
                        q = np.linspace(-7, 7, 113)
                        tot = 0
                        for v in q:
                            c = st >> L.QuadratureEigenstate(x, float(v), phi).dual
                            c = c.dm() if fam == "ket" else c
                            tot = tot + tens(c, 2)
                            ctx.transitions += 1
                        ctx.close(tot * (q[1] - q[0]), want[:2, :2], f"{fam}{kind} sum over quadrature outcomes of {x} phi={phi}", atol=tol)
                ctx.see(lab, fam, kind, x, y)
    ctx.traces += 1


def r_reject(case, ctx, rep):
    from mrmustard import lab as L

    k = mket((5, 13), "G", 3)[0]
    d = k.dm()
    for s in (k, d):
        ctx.raises(ValueError, lambda: s.expectation(L.Attenuator(5, 0.5)), "expectation of a channel")
        ctx.raises(ValueError, lambda: s.expectation(L.Number(7, 1)), "operator on another mode")
        ctx.raises(ValueError, lambda: s.expectation(L.Number(5, 1).dual), "bra as an operator")
        ctx.raises(ValueError, lambda: s.expectation(L.Unitary.from_ansatz((5,), (13,), mket((5, 13), "G", 4)[0].ansatz)), "unitary between different modes")
        ctx.raises(ValueError, lambda: d.fidelity(mdm((5, 8), "G", 3)[0]), "fidelity on different modes")
        ctx.transitions += 5
    ctx.see("rejected")
    ctx.traces += 1
