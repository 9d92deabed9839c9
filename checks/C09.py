"""C09: all Fock recurrences against the exact power series of c*exp(zAz/2+bz)."""

import itertools
from functools import lru_cache

import numpy as np

from mc import ref

LEVEL = "model_checking"
RULE = ("for D=1..4 variables, every (A,b,c) of a fixed family (generic complex, real, A=0, b=0, both zero, diagonal, c=0/complex) and EVERY shape in "
        "{1..4}^D (D<=3; {1..3}^4) plus elongated and large shapes: vanilla, stable, settings.STABLE_FOCK_CONVERSION, batched (full, b-only, several batch shapes), "
        "preallocated buffer (fresh, dirty, batched), binomial (every global cutoff x L2 bounds), binomial dict/numba, diagonal (every cutoff in {1..4}^M, M<=3, batched b), "
        "one-mode-left (two algorithms, every output cutoff 0..3 x pnr cutoffs {0..3}^k, k<=2, k=3 reduced); automatic shapes of 1-3 mode Gaussian states at seven probabilities x limits")
ASSUMPTIONS = ["reference: term-by-term power series in numpy (mc/ref.py hermite_ref)", "A symmetric (as for every Bargmann matrix)"]
BUDGET = 500


def fam(D):
    rng = np.random.RandomState(100 + D)
    M = rng.randn(D, D) + 1j * rng.randn(D, D)
    A = 0.25 * (M + M.T)
    b = 0.5 * (rng.randn(D) + 1j * rng.randn(D))
    c = 0.4 - 0.3j
    Z, z = np.zeros((D, D), complex), np.zeros(D, complex)
    return {"gen": (A, b, complex(c)), "real": (A.real + 0j, b.real + 0j, 0.7 + 0j), "A0": (Z, b, complex(c)), "b0": (A, z, complex(c)),
            "zero": (Z, z, 1.0 + 0j), "diag": (np.diag(np.diag(A)), b, 1.0 + 0j), "off": (A - np.diag(np.diag(A)), b, 0.2j), "c0": (A, b, 0j)}


@lru_cache(None)
def full(D, f, shape):
    return ref.hermite_ref(*fam(D)[f], shape)


def refG(D, f, shape):
    top = {1: (45,), 2: (31, 31), 3: (13, 13, 13), 4: (7, 7, 7, 7)}[D]
    if any(s > t for s, t in zip(shape, top)):
        return full(D, f, tuple(shape))
    return full(D, f, top)[tuple(slice(0, s) for s in shape)]


def shapes(D, tier):
    base = list(itertools.product(range(1, 5 if D < 4 else 4), repeat=D))
    extra = {1: [(5,), (17,), (40,)], 2: [(1, 30), (30, 1), (12, 12), (9, 2), (25, 14)], 3: [(1, 1, 12), (12, 1, 1), (2, 9, 3), (7, 7, 7), (1, 10, 4)],
             4: [(5, 1, 1, 6), (6, 6, 6, 6), (1, 7, 1, 2), (2, 2, 7, 1)]}[D]
    if tier == "thorough":
        extra = extra + {1: [(100,)], 2: list(itertools.product(range(5, 9), repeat=2)) + [(31, 31), (60, 3)], 3: list(itertools.product((1, 5, 8), repeat=3)) + [(13, 13, 13)],
                         4: list(itertools.product((1, 4, 5), repeat=4))}[D]
    return list(dict.fromkeys(base + extra))


def cases(tier):
    out = []
    for D in (1, 2, 3, 4):
        for f in fam(D):
            out.append({"id": f"van-{D}-{f}", "kind": "vanilla", "D": D, "f": f, "tier": tier})
        out.append({"id": f"batch-{D}", "kind": "batch", "D": D, "tier": tier})
        out.append({"id": f"out-{D}", "kind": "out", "D": D, "tier": tier})
        for f in ("gen", "real", "b0", "A0"):
            out.append({"id": f"bin-{D}-{f}", "kind": "binomial", "D": D, "f": f, "tier": tier})
    for M in (1, 2, 3):
        for f in ("gen", "real", "A0", "b0", "off", "diag"):
            out.append({"id": f"diag-{M}-{f}", "kind": "diag", "M": M, "f": f, "tier": tier})
    for M in (2, 3, 4):
        for f in ("gen", "real", "b0", "A0") if M < 4 else ("gen",):
            out.append({"id": f"left-{M}-{f}", "kind": "left", "M": M, "f": f, "tier": tier})
    for M in (2, 3):
        for f in ("gen", "real", "b0"):
            out.append({"id": f"compact-{M}-{f}", "kind": "compact", "M": M, "f": f, "tier": tier})
    for M in (1, 2, 3):
        for f in range(6 if tier == "quick" else 24):
            out.append({"id": f"auto-{M}-{f}", "kind": "auto", "M": M, "f": f})
    return out


def warm():
    from mrmustard.math.lattice.strategies.vanilla.core import stable_numba, vanilla_numba

    for D in (1, 2, 3, 4):
        A, b, c = fam(D)["gen"]
        for fn in (vanilla_numba, stable_numba):
            fn((2,) * D, A, b, c, None)
            fn((2,) * D, A, b, np.array(c), None)
    from mrmustard.math.lattice import paths
    from mrmustard.math.lattice.strategies import binomial, binomial_dict, binomial_numba

    for D in (1, 2, 3, 4):
        A, b, c = fam(D)["gen"]
        binomial((2,) * D, A, b, c, None, 2)
        for gc in (None, 2):
            binomial_dict((2,) * D, A, b, c, None, gc)
            binomial_numba((2,) * D, A, b, c, paths.BINOMIAL_PATHS_NUMBA_n(D), 1e9, gc)


def run(case, ctx):
    globals()["r_" + case["kind"]](case, ctx)


def r_vanilla(case, ctx):
    from mrmustard import math, settings

    D, f = case["D"], case["f"]
    A, b, c = fam(D)[f]
    for s in shapes(D, case["tier"]):
        want = refG(D, f, s)
        ctx.sub = f"shape {s}"
        ctx.transitions += 3
        ctx.traces += 3
        ctx.see_arr(want)
        ctx.close(math.hermite_renormalized(A, b, c, s), want, "default", atol=1e-9, rtol=1e-8)
        ctx.close(math.hermite_renormalized(A, b, np.array(c), s, stable=True), want, "stable", atol=1e-9, rtol=1e-8)
        with settings(STABLE_FOCK_CONVERSION=True):
            ctx.close(math.hermite_renormalized(A, b, c, s), want, "stable by setting", atol=1e-9, rtol=1e-8)


def r_batch(case, ctx):
    from mrmustard import math

    D = case["D"]
    F = fam(D)
    names = ["gen", "real", "b0", "A0", "diag", "off"]
    for B in ((1,), (2,), (3,), (2, 3), (2, 1, 3)):
        n = int(np.prod(B))
        sel = [names[i % 6] for i in range(n)]
        A = np.array([F[x][0] for x in sel]).reshape(B + (D, D))
        b = np.array([F[x][1] for x in sel]).reshape(B + (D,))
        c = np.array([F[x][2] for x in sel]).reshape(B)
        for s in [tuple(range(2, 2 + D)), (1,) * D, tuple(range(4, 4 - D, -1)) if D < 4 else (3, 2, 1, 4), (3,) * D]:
            want = np.array([refG(D, x, s) for x in sel]).reshape(B + s)
            wantb = np.array([ref.hermite_ref(F["gen"][0], F[x][1], F["gen"][2], s) for x in sel]).reshape(B + s)
            for st in (False, True):
                ctx.sub = f"batch {B} shape {s} stable={st}"
                ctx.transitions += 2
                ctx.traces += 2
                ctx.close(math.hermite_renormalized(A, b, c, s, stable=st), want, "batched", atol=1e-9, rtol=1e-8)
                ctx.close(math.hermite_renormalized(F["gen"][0], b, np.array(F["gen"][2]), s, stable=st), wantb, "b batched", atol=1e-9, rtol=1e-8)
            ctx.see_arr(want)


def r_out(case, ctx):
    from mrmustard import math

    D = case["D"]
    F = fam(D)
    A, b, c = F["gen"]
    for s in shapes(D, "quick"):
        if np.prod(s) > 400:
            continue
        want = refG(D, "gen", s)
        for st in (False, True):
            for fill in (0.0, 7.7 - 1j, np.nan):
                buf = np.full(s, fill, dtype=np.complex128)
                ctx.sub = f"shape {s} stable={st} fill={fill}"
                ctx.transitions += 1
                ctx.traces += 1
                G = math.hermite_renormalized(A, b, c, s, stable=st, out=buf)
                ctx.close(G, want, "returned", atol=1e-9, rtol=1e-8)
                ctx.close(buf, want, "stored in the buffer", atol=1e-9, rtol=1e-8)
            # too small a buffer must be rejected
            if s[-1] > 1:
                small = np.zeros((*s[:-1], s[-1] - 1), complex)
                ctx.raises(ValueError, lambda: math.hermite_renormalized(A, b, c, s, stable=st, out=small), "too small buffer")
            # batched
            Ab, bb, cb = np.stack([A, F["real"][0]]), np.stack([b, F["real"][1]]), np.array([c, F["real"][2]])
            buf = np.full((2, *s), 3.3 + 0j)
            G = math.hermite_renormalized(Ab, bb, cb, s, stable=st, out=buf)
            wb = np.stack([want, refG(D, "real", s)])
            ctx.close(G, wb, "batched returned", atol=1e-9, rtol=1e-8)
            ctx.close(buf, wb, "batched stored", atol=1e-9, rtol=1e-8)


def weights(s):
    return sum(np.meshgrid(*[np.arange(x) for x in s], indexing="ij"))


def r_binomial(case, ctx):
    from mrmustard import math, settings
    from mrmustard.math.lattice import paths
    from mrmustard.math.lattice.strategies import binomial, binomial_dict, binomial_numba

    D, f = case["D"], case["f"]
    A, b, c = fam(D)[f]
    S = [s for s in shapes(D, "quick") if max(s) <= 4] if D < 3 else [(2, 3, 4), (1, 4, 2), (3, 3, 3), (4, 1, 1), (2, 2, 2)] if D == 3 else [(2, 3, 1, 2), (3, 2, 2, 2), (1, 1, 1, 4)]
    for s in S:
        want = refG(D, f, s)
        w = weights(s)
        maxw = int(w.max())
        norms = np.array([np.sum(np.abs(want[w <= k]) ** 2) for k in range(maxw + 1)])

        def expect(max_l2, gc):
            k = 0
            for k2 in range(1, min(gc, maxw + 1)):
                k = k2
                if max_l2 is not None and norms[k2] > max_l2:
                    break
            return k, np.where(w <= k, want, 0)

        bounds = [None, 1e9] + [0.5 * (norms[k] + (norms[k - 1] if k else 0)) for k in range(maxw + 1)
                                if norms[k] - (norms[k - 1] if k else 0) > 1e-9]
        for gc in [None, *range(1, maxw + 3)]:
            for ml in bounds:
                if ml is None and gc is not None:
                    ml_eff = settings.AUTOSHAPE_PROBABILITY
                else:
                    ml_eff = settings.AUTOSHAPE_PROBABILITY if ml is None else ml
                ctx.sub = f"shape {s} cutoff {gc} l2 {ml}"
                ctx.transitions += 1
                ctx.traces += 1
                G = math.hermite_renormalized_binomial(A, b, c, s, ml, gc)
                k, e = expect(ml_eff, gc if gc is not None else maxw + 1)
                ctx.close(G, e, "hermite_renormalized_binomial", atol=1e-9, rtol=1e-8)
                ctx.see(s, k)
                if gc is not None:
                    g2, n2 = binomial(tuple(s), A, b, c, ml, gc)
                    k, e = expect(ml, gc)
                    ctx.close(g2, e, "binomial", atol=1e-9, rtol=1e-8)
                    ctx.close(n2, np.sum(np.abs(e) ** 2), "binomial norm", atol=1e-9)
        for gc in [None, *range(1, maxw + 3)]:
            ctx.sub = f"dict shape {s} cutoff {gc}"
            d = binomial_dict(tuple(s), A, b, c, None, gc)
            k, e = expect(None, gc if gc is not None else maxw + 1)
            got = np.zeros(s, complex)
            for kk, v in d.items():
                got[kk] = v
            ctx.close(got, e, "binomial_dict", atol=1e-9, rtol=1e-8)
        for gc in [None, *range(1, maxw + 3)]:
            ctx.sub = f"numba shape {s} cutoff {gc}"
            g = binomial_numba(tuple(s), A, b, c, paths.BINOMIAL_PATHS_NUMBA_n(D), 1e9, gc)
            k, e = expect(1e9, gc if gc is not None else maxw + 1)
            ctx.close(g, e, "binomial_numba", atol=1e-9, rtol=1e-8)


def diag_of(G, M):
    idx = np.indices(G.shape[:M])
    return G[tuple(idx) + tuple(idx)]


def fam2(M, f):
    """2M variables"""
    return fam(2 * M)[f] if 2 * M <= 4 else _fam_big(2 * M)[f]


@lru_cache(None)
def _fam_big(D):
    return fam(D)


@lru_cache(None)
def bigG(D, f, shape):
    return ref.hermite_ref(*_fam_big(D)[f], shape)


def r_diag(case, ctx):
    from mrmustard import math

    M, f = case["M"], case["f"]
    A, b, c = _fam_big(2 * M)[f]
    top = 5 if M < 3 else 4
    F = bigG(2 * M, f, (top,) * (2 * M))
    cuts = list(itertools.product(range(1, top + 1), repeat=M))
    if M == 3 and case["tier"] == "quick":
        cuts = [x for x in cuts if sum(x) <= 9]
    if M == 1:
        cuts += [(20,)]
    for cut in cuts:
        G = F if max(cut) <= top else bigG(2 * M, f, cut * 2)
        want = diag_of(G[tuple(slice(0, k) for k in cut * 2)], M)
        ctx.sub = f"cutoffs {cut}"
        ctx.transitions += 1
        ctx.traces += 1
        ctx.see_arr(want)
        ctx.close(math.hermite_renormalized_diagonal(A, b, c, cut), want, "diagonal", atol=1e-9, rtol=1e-8)
        perm = [i for m in range(M) for i in (m, m + M)]
        ctx.close(math.hermite_renormalized_diagonal(A[np.ix_(perm, perm)], b[perm], c, cut, reorderedAB=False), want, "diagonal, interleaved order", atol=1e-9, rtol=1e-8)
    cut = tuple(range(2, 2 + M))
    bb = np.stack([b, 0.3 * b, b.conj()], axis=1)
    want = np.stack([diag_of(ref.hermite_ref(A, bb[:, k], c, cut * 2), M) for k in range(3)], axis=-1)
    ctx.sub = "batched b"
    ctx.close(math.hermite_renormalized_diagonal(A, bb, c, cut), want, "diagonal, batched b", atol=1e-9, rtol=1e-8)


def left_ref(M, f, oc, pnr):
    top = {2: 5, 3: 4, 4: 3}[M]
    if max((oc + 1,) + tuple(p + 1 for p in pnr)) <= top:
        F = bigG(2 * M, f, (top,) * (2 * M))
    else:
        s = (oc + 1,) + tuple(p + 1 for p in pnr)
        F = bigG(2 * M, f, s * 2)
    idx = np.indices(tuple(p + 1 for p in pnr))
    out = np.zeros((oc + 1, oc + 1) + tuple(p + 1 for p in pnr), complex)
    for m in range(oc + 1):
        for n in range(oc + 1):
            out[m, n] = F[(m, *idx, n, *idx)]
    return out


def lefts(M, tier):
    pm = {2: 4, 3: 3, 4: 2}[M]
    for oc in range(0, pm + 1 if M < 4 else 3):
        for pnr in itertools.product(range(0, pm + 1 if M == 2 else pm), repeat=M - 1):
            yield oc, pnr
    if M == 2:
        yield from [(0, (9,)), (9, (0,)), (6, (8,))]
    if M == 3:
        yield from [(1, (0, 4)), (0, (5, 1)), (5, (1, 1))]


def r_left(case, ctx):
    from mrmustard import math
    from mrmustard.math.lattice.strategies import fast_diagonal

    M, f = case["M"], case["f"]
    A, b, c = _fam_big(2 * M)[f]
    for oc, pnr in lefts(M, case["tier"]):
        want = left_ref(M, f, oc, pnr)
        ctx.sub = f"output_cutoff {oc} pnr_cutoffs {pnr}"
        ctx.transitions += 1
        ctx.traces += 1
        ctx.see_arr(want)
        ctx.close(math.hermite_renormalized_1leftoverMode(A, b, c, oc, pnr), want, "one mode left", atol=1e-9, rtol=1e-8)
        for st in (False, True):
            g = fast_diagonal(A, b, c, oc, pnr, st).transpose((-2, -1, *range(len(pnr))))
            ctx.close(g, want, f"fast_diagonal stable={st}", atol=1e-9, rtol=1e-8)


def r_compact(case, ctx):
    """the second one-mode-left algorithm (used by the other backend), called directly."""
    from mrmustard.math.lattice.strategies.compactFock.inputValidation import hermite_multidimensional_1leftoverMode

    M, f = case["M"], case["f"]
    A, b, c = _fam_big(2 * M)[f]
    perm = [i for m in range(M) for i in (m, m + M)]
    for oc, pnr in lefts(M, case["tier"]):
        want = left_ref(M, f, oc, pnr)
        ctx.sub = f"output_cutoff {oc} pnr_cutoffs {pnr}"
        ctx.transitions += 1
        ctx.traces += 1
        cut = np.array((oc + 1,) + tuple(p + 1 for p in pnr))
        g = hermite_multidimensional_1leftoverMode(A[np.ix_(perm, perm)].copy(), b[perm].copy(), np.array(c), cut)[0]
        ctx.close(g, want, "compactFock one mode left", atol=1e-9, rtol=1e-8)


def gauss(M, f):
    """mean and covariance (hbar=1) of a Gaussian state with correlations; f=0 vacuum, f=1 coherent, f=2 squeezed pure, others mixed"""
    rng = np.random.RandomState(1000 * M + f)
    if f == 0:
        return np.zeros(2 * M), 0.5 * np.eye(2 * M)
    mean = rng.randn(2 * M) * (0.9 if f % 2 else 0.5) if f != 2 else np.zeros(2 * M)
    if f == 1:
        return mean, 0.5 * np.eye(2 * M)
    S = np.eye(2 * M)
    for i in range(M):
        E = np.eye(2 * M)
        ix = np.ix_([i, i + M], [i, i + M])
        E[ix] = ref.S_s(0.1 + 0.4 * rng.rand(), 6 * rng.rand())
        S = E @ S
    for i in range(M - 1):
        E = np.eye(2 * M)
        ix = np.ix_([i, i + 1, i + M, i + 1 + M], [i, i + 1, i + M, i + 1 + M])
        E[ix] = ref.S_bs(0.3 + rng.rand(), 6 * rng.rand())
        S = E @ S
    D = 0.5 * np.eye(2 * M) if f == 2 else np.diag(np.tile(0.5 + 0.8 * rng.rand(M), 2))
    return mean, S @ D @ S.T


def r_auto(case, ctx):
    """automatic shape of each mode = the number of photon numbers needed to reach the requested probability (the library, and
    its tests, stop one short of it: both are accepted)"""
    from mrmustard import settings
    from mrmustard.lab import DM, Ket
    from mrmustard.math.lattice.autoshape import autoshape_numba

    M, f = case["M"], case["f"]
    mean, cov = gauss(M, f)
    A, b, c = ref.gs_to_abc(mean, cov, 1.0)
    cum = []
    for m in range(M):
        ix = [m, m + M]
        Am, bm, cm = ref.gs_to_abc(mean[ix], cov[np.ix_(ix, ix)], 1.0)
        cum.append(np.cumsum(np.abs(np.diag(ref.hermite_ref(Am, bm, cm, (45, 45))))))
    dm = DM.from_bargmann(tuple(range(3, 3 + M)), (A, b, c))
    objs = [dm]
    if f <= 2:
        objs.append(Ket.from_bargmann(tuple(range(3, 3 + M)), (A[M:, M:], b[M:], np.sqrt(c.real))))
    old = settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN
    try:
        for prob in (0.3, 0.5, 0.9, 0.99, 0.999, 0.99999, 1 - 1e-7):
            for mx, mn in ((40, 1), (40, 4), (3, 1)):
                lo, hi = [], []
                for cm in cum:
                    k0 = int(np.searchsorted(cm, prob - 1e-10)) + 1
                    k1 = int(np.searchsorted(cm, prob + 1e-10)) + 1
                    lo.append(int(np.clip(k0 - 1, mn, mx)))
                    hi.append(int(np.clip(k1, mn, mx)))
                ctx.sub = f"probability {prob} max {mx} min {mn}"
                got = [tuple(int(x) for x in autoshape_numba(A, b, c, prob, mx, mn))]
                for o in objs:
                    s1 = o.auto_shape(max_prob=prob, max_shape=mx, min_shape=mn)
                    settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN = prob, mx, mn
                    s2 = o.auto_shape()
                    settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN = old
                    for sh in (s1, s2):
                        sh = tuple(int(x) for x in sh)
                        if o is dm:
                            ctx.eq(sh[M:], sh[:M], "same shape for bra and ket")
                        got.append(sh[:M])
                for g in got:
                    ctx.check(len(g) == M and all(a <= x <= z for a, x, z in zip(lo, g, hi)), "automatic shape", f"got {g}, expected {hi} (or {lo})")
                ctx.transitions += len(got)
                ctx.see(got[0])
    finally:
        settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN = old
        ctx.sub = ""
    # cutoffs set by hand take precedence, wire by wire, and stay with the wires
    from mrmustard.lab import Channel, Unitary

    k = 0.9 * np.exp(1j * (0.3 + np.arange(M)))
    A4 = np.kron(np.array([[0, 1], [1, 0]]), np.diag(k))
    A8 = np.kron(np.eye(2), np.kron(np.array([[0, 1], [1, 0]]), np.diag(np.abs(k))))
    modes = tuple(range(3, 3 + M))
    objs += [Unitary.from_bargmann(modes, modes, (A4, np.zeros(2 * M), 1.0)), Channel.from_bargmann(modes, modes, (A8, np.zeros(4 * M), 1.0))]
    for o in objs:
        free = tuple(int(x) for x in o.auto_shape())
        n = len(free)
        for pat in itertools.islice(itertools.product((0, 1), repeat=n), 64):
            hand = tuple(2 + i if q else None for i, q in enumerate(pat))
            want = tuple(h or x for h, x in zip(hand, free))
            c = o.on(modes)
            c.manual_shape = hand
            ctx.sub = f"{type(o).__name__} cutoffs by hand {hand}"
            ctx.eq(tuple(int(x) for x in c.auto_shape()), want, "automatic shape with cutoffs set by hand")
            ctx.eq(tuple(o.manual_shape), (None,) * n, "the component it was moved from is not affected")
            moved = c.on(tuple(m + 7 for m in modes))
            ctx.eq(tuple(moved.manual_shape), hand, "cutoffs set by hand stay with a component that is moved")
            ctx.eq(tuple(int(x) for x in moved.auto_shape()), want, "automatic shape after being moved")
            ctx.eq(tuple(c.fock_array().shape) if max(want) <= 12 and np.prod(want) <= 20000 else want, want, "shape of the array")
            if isinstance(o, (Ket, DM)):
                ctx.eq(tuple(int(x) for x in c.auto_shape(respect_manual_shape=False)), free, "automatic shape when asked not to respect them")
            ctx.transitions += 5
    ctx.sub = ""
    ctx.traces += 1
