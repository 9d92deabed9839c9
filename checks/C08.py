"""C08: batches and superpositions.  Every built-in with each parameter batched in every form, every ansatz structure and pairs of operands with
every batch pattern: each operation on the batch is compared with the operation on the component of each entry.  Every superposition: linear operations
are compared with the combination of the results of the terms, quadratic ones with the sum over all pairs of terms."""

import itertools
import warnings

import numpy as np

from mc import comps, zoo

LEVEL = "model_checking"
RULE = ("every built-in x every assignment of a batch form (absent, size one, one axis, two axes, broadcast axes) to its parameters and every component class x every batched ansatz structure, x every operation of an alphabet x every batch entry; "
        "pairs of operands x all pairs of batch shapes x every way of combining the axes (outer, zip, every einsum string) x every entry; every superposition of an alphabet x every operation, against the combination over terms or pairs of terms")
ASSUMPTIONS = ["what an operation does to one entry is decided by the other properties", "the operations listed in REFUSES refuse batches with an exception; that is observed, and nothing more is asked of them"]
CASE_LIMIT = 300
BUDGET = 420


def warm():
    from checks.C07 import warm as w

    w()


# ---- results as data ------------------------------------------------------------------------------------------
def poly_value(A, b, c, lin, pts):
    """the function a triple stands for, at the points; superposition summed; c may carry a polynomial part"""
    from mrmustard.physics.ansatz import PolyExpAnsatz

    return np.asarray(PolyExpAnsatz(A, b, c).eval(*pts)).sum() if lin else np.asarray(PolyExpAnsatz(A, b, c).eval(*pts))


PTS = [0.3, -0.2 + 0.1j, 0.25j, 0.1, -0.15 - 0.2j, 0.05, 0.2j, -0.1, 0.12, 0.07, -0.3, 0.2]


class Res:
    """a result: wires, class and values with the batch axes in front"""

    def __init__(self, v, scalar_axes=None):
        from mrmustard import math
        from mrmustard.lab import CircuitComponent
        from mrmustard.physics.ansatz import ArrayAnsatz
        from mrmustard.physics.ansatz.base import Ansatz

        self.kind = None
        self.items = None
        self.bd = None
        if isinstance(v, CircuitComponent):
            self.kind = (type(v).__name__, tuple(tuple(sorted(x)) for x in v.wires.args))
            w = tuple((x.mode, x.is_out, x.is_ket, x.repr.name) for x in v.wires.quantum.sorted_wires)
            self.kind += (w,)
            v = v.ansatz
            if v is None:
                self.kind += ("no ansatz",)
                self.data = []
                return
        if isinstance(v, ArrayAnsatz):
            self.kind = (self.kind, "array")
            self.bd = v.batch_dims
            self.data = [np.array(math.asnumpy(v.array))]
        elif isinstance(v, Ansatz):
            self.lin = bool(v._lin_sup)
            self.kind = (self.kind, "poly", v.num_CV_vars)
            self.bd = v.batch_dims - self.lin
            A, b, c = (np.array(math.asnumpy(x)) for x in v.triple)
            self.triple = (A, b, c)
            self.n = v.num_CV_vars
            bs = c.shape[:v.batch_dims]
            assert A.shape[:-2] == bs and b.shape[:-1] == bs, (A.shape, b.shape, c.shape)
            pts = PTS[:self.n]
            out = np.empty(bs[:self.bd], dtype=complex)
            from mrmustard.physics.ansatz import PolyExpAnsatz

            for i in np.ndindex(*bs[:self.bd]):
                for s in (1.0, -0.7, 0.4j):
                    x = np.asarray(math.asnumpy(PolyExpAnsatz(A[i], b[i], c[i]).eval(*[s * p for p in pts]))) if self.n else np.asarray(math.asnumpy(PolyExpAnsatz(A[i], b[i], c[i]).scalar))
                    self.items = self.items or {}
                    self.items.setdefault(s, np.empty(bs[:self.bd], dtype=complex))[i] = x.sum()
            self.items = self.items or {1.0: out}
            self.data = list(self.items.values())
        elif isinstance(v, (tuple, list)):
            rs = [Res(x) for x in v]
            self.kind = ("list", *[r.kind for r in rs])
            self.bd = [r.bd for r in rs]
            self.data = [d for r in rs for d in r.data]
        elif v is None or isinstance(v, str):
            self.kind = ("plain", v)
            self.data = []
        else:
            a = np.array(math.asnumpy(v) if not isinstance(v, (int, float, complex, bool, np.generic)) else v)
            self.kind = ("number",)
            self.data = [a]


def attempt(f):
    try:
        v = f()
    except Exception as e:  # noqa: BLE001
        return ("refused", e)
    return Res(v)


def refused(r):
    return isinstance(r, tuple)


ALL = {"is physical", "is pure", "equal", "equal to twice", "is CP", "is TP", "ansatz eq"}
# operations that give an exception for a batch although they accept each of its entries
REFUSES = {"sum": ValueError, "difference": ValueError, "fidelity": NotImplementedError, "number basis, sum": ValueError}


def entry(ctx, what, full, one, idx, bshape, op, tail=False):
    """the entry idx of the result for the batch is the result for the entry"""
    ctx.ncmp += 1
    if refused(full) or refused(one):
        return
    if full.kind != one.kind and full.data and one.data:
        ctx.fail(f"{what}: kinds of results", f"batch: {full.kind} / entry {idx}: {one.kind}")
        return
    if len(full.data) != len(one.data):
        ctx.fail(f"{what}: kinds of results", f"batch: {len(full.data)} arrays / entry {idx}: {len(one.data)}")
        return
    for x, y in zip(full.data, one.data):
        if tail:
            k = len(bshape)
            x = np.moveaxis(x, list(range(x.ndim - k, x.ndim)), list(range(k)))
        if op in CHOSEN and x.ndim == len(bshape) + y.ndim:
            cut = tuple(slice(0, min(p, q)) for p, q in zip(x.shape[len(bshape):], y.shape))
            x, y = x[(slice(None),) * len(bshape) + cut], y[cut]
        if op in CONSTANT and x.ndim == 0:
            x = np.broadcast_to(x, bshape)  # the same for all entries
        if x.shape[:len(bshape)] != tuple(bshape) or x[idx].shape != y.shape:
            ctx.fail(f"{what}: shape", f"batch {bshape}: {x.shape}, one entry: {y.shape}")
            return
        ctx.check(bool(np.allclose(x[idx], y, atol=1e-9, rtol=1e-8, equal_nan=True)), f"{what}: values of an entry", f"entry {idx}: {x[idx].reshape(-1)[:4]} / {y.reshape(-1)[:4]}")


# ---- subjects ---------------------------------------------------------------------------------------------------
def vary(name, base, k):
    """k-th value of a parameter"""
    s = [1.0, 0.6, -0.8, 0.4, 1.2, -0.5][k % 6]
    if name in ("nbar", "damping", "phase_stdev", "transmissivity"):
        return base * (1 - 0.13 * k)
    if name == "gain":
        return base + 0.07 * k
    if isinstance(base, complex):
        return base * s * np.exp(0.3j * k)
    return base * s - 0.05 * (k % 3)


def filled(name, base, shape, off=0):
    if shape is None:
        return base
    n = int(np.prod(shape))
    return np.array([vary(name, base, k + off) for k in range(n)]).reshape(shape)


FORMS = [(None, (1,), (3,), (2, 3))]


def forms(k, tier):
    """assignments of batch shapes to k parameters that broadcast"""
    F = [None, (1,), (3,), (2, 3)] + ([(2, 1), (1, 3), (2, 1, 2)] if tier == "thorough" else [(2, 1)])
    out = []
    for f in itertools.product(F, repeat=k):
        if all(x is None for x in f):
            continue
        out.append(f)
    return out


def built(name, tier):
    """(id, batch component, batch shape, entry maker) of a built-in"""
    import mrmustard.lab as L

    two = name in zoo.P2
    base = (zoo.P2 if two else zoo.P1)[name][0]
    modes = (5, 13) if two else 3
    P = list(base)
    for f in forms(len(P), tier):
        vals = {p: filled(p, base[p], s, 2 * j) for j, (p, s) in enumerate(zip(P, f))}
        try:
            shape = np.broadcast_shapes(*[s for s in f if s is not None])
        except ValueError:
            continue
        bc = {p: np.broadcast_to(v, shape) for p, v in vals.items()}

        def full(vals=vals):
            return getattr(L, name)(modes, **vals)

        def one(i, bc=bc):
            return getattr(L, name)(modes, **{p: v[i].item() for p, v in bc.items()})

        yield f"{name}{f}", full, shape, one


def stack(f, shape):
    n = int(np.prod(shape))
    return np.array([f(k) for k in range(n)]).reshape(*shape, *np.shape(f(0)))


def matrix(name, shape):
    """components with a matrix as their parameter"""
    import mrmustard.lab as L

    spec = {"GKet": ("symplectic", lambda k: comps.S_lib(k, 2)), "Ggate": ("symplectic", lambda k: comps.S_lib(k, 2)), "Interferometer": ("unitary", lambda k: comps.U_lib(k, 2)), "RealInterferometer": ("orthogonal", lambda k: comps.O_lib(k, 2)),
            "GaussRandNoise": ("Y", lambda k: comps.Y_lib(k, 2) * (1 + 0.1 * k))}
    if name == "Number":
        v = np.arange(int(np.prod(shape))).reshape(shape) % 4
        return lambda: L.Number(3, v, 5), lambda i: L.Number(3, int(v[i]), 5)
    p, f = spec[name]
    v = stack(f, shape)
    return lambda: getattr(L, name)((5, 13), **{p: v}), lambda i: getattr(L, name)((5, 13), **{p: v[i]})


def structured(kind, struct, modes):
    """an abstract component and its entries"""
    import mrmustard.lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    def full():
        return zoo.abstract(kind, struct, modes)

    c = full()
    a = c.ansatz
    if isinstance(a, ArrayAnsatz):
        shape = a.array.shape[:a.batch_dims]
        return full, shape, lambda i: getattr(L, kind)(ArrayAnsatz(np.array(a.array)[i], batch_dims=0), c.wires)
    shape = a.batch_shape[:-1] if a._lin_sup else a.batch_shape
    A, b, k = (np.array(x) for x in a.triple)
    return full, shape, lambda i: getattr(L, kind)(PolyExpAnsatz(A[i], b[i], k[i], lin_sup=a._lin_sup), c.wires)


KIND = ("Ket", "DM", "Unitary", "Channel", "CircuitComponent")
STR = ("batch", "batch2", "batchsup", "batchderived", "arrbatch", "arrbatch2")


def cases(tier):
    out = []
    for n in [*zoo.P1, *zoo.P2]:
        for part in range(3):
            out.append({"id": f"built-{n}-{part}", "part": "built", "name": n, "k": part, "tier": tier})
    for n in ("GKet", "Ggate", "Interferometer", "RealInterferometer", "GaussRandNoise", "Number"):
        for s in ((2,), (1,), (2, 3)):
            out.append({"id": f"matrix-{n}-{s}", "part": "matrix", "name": n, "shape": s})
    for k in KIND:
        for s in STR:
            out.append({"id": f"struct-{k}-{s}", "part": "struct", "kind": k, "struct": s, "modes": (5, 13) if k in ("Ket", "DM", "CircuitComponent") else (3,)})
    shapes = SHAPES if tier == "thorough" else SHAPES[:-1]
    for a, b in PAIRS:
        for s in shapes:
            out.append({"id": f"pair-{a}-{b}-{s}", "part": "pair", "a": a, "b": b, "shape": s, "shapes": shapes})
    out.append({"id": "sumshape", "part": "sumshape"})
    for n in SUPS:
        out.append({"id": f"sup-{n}", "part": "sup", "name": n})
    for w in itertools.product(range(len(CHAIN[0])), range(len(CHAIN[1])), range(len(CHAIN[2]))):
        out.append({"id": f"chain-{w}", "part": "chain", "w": w})
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    settings.DEFAULT_FOCK_SIZE = 3
    settings.AUTOSHAPE_MAX = 4
    settings.AUTOSHAPE_PROBABILITY = 1 - 1e-9
    globals()["r_" + case["part"]](case, ctx)


CONSTANT = {"probability", "L2 norm", "number basis, probability", "number basis, norm"}
TAIL = {"number basis, quadrature", "quadrature", "distribution", "wigner", "ansatz called"}
OTHER = {"contracted with dual", "ansatz contract", "ansatz and", "auto shape", "ansatz to dict", "ansatz simplified", "ansatz decomposed"}  # decided below, by pairs, or by C07
CHOSEN = {"then squeezed in number basis", "expectation in number basis", "applied to number", "then noise", "then measured", "photons", "converted", "back", "fidelity"}  # may depend on the shape chosen automatically


def sweep(ctx, what, full, shape, one, skip=()):
    from checks.C18 import ops

    idxs = list(np.ndindex(*shape))
    try:
        chosen = {tuple(c.auto_shape()) for c in (full(), *[one(i) for i in idxs])}
    except Exception:  # noqa: BLE001
        chosen = set()
    for o, f in extra_ops(ops()).items():
        if skip and o in skip:
            continue
        if o in OTHER or (o in CHOSEN and len(chosen) > 1):
            continue
        w = f"{what}: {o}"
        singles = {i: attempt(lambda: f(one(i))) for i in idxs}
        got = attempt(lambda: f(full()))
        ctx.transitions += 1 + len(idxs)
        if refused(got) and isinstance(got[1], REFUSES.get(o, ())):
            ctx.see("refused", o, type(got[1]).__name__)
            continue
        if refused(got):
            if not all(refused(r) for r in singles.values()):
                ctx.ncmp += 1
                ctx.fail(f"{o}: refuses a batch", f"{what}: {got[1]!r}")
            continue
        if any(refused(r) for r in singles.values()):
            ctx.fail(f"{o}: accepts a batch with entries that are refused", f"{what}: {[r[1] for r in singles.values() if refused(r)][0]!r}")
            continue
        if o in ALL:
            want = all(bool(np.all(r.data[0])) for r in singles.values())
            ctx.eq(bool(np.all(got.data[0])), want, f"{w}: all entries")
            continue
        for i in idxs:
            entry(ctx, w, got, singles[i], i, shape, o, tail=o in TAIL)
    ctx.traces += 1
    ctx.states += len(idxs)


def extra_ops(O):
    import mrmustard.lab as L

    def sh(c, k=4):
        return (k,) * len(c.wires) if len(c.wires) < 4 else (3,) * len(c.wires)

    def first(c):
        return sorted(c.modes)[0]

    return {**O, "number basis, squeezed": lambda c: c.to_fock(sh(c)) >> L.Sgate(first(c), 0.2).to_fock((4, 4)), "number basis, projected": lambda c: c.to_fock(sh(c)) >> L.Number(first(c), 1, 4).dual, "number basis, traced": lambda c: c.to_fock(sh(c)) >> L.TraceOut(first(c)),
            "number basis, phase noise": lambda c: c.to_fock(sh(c)) >> L.PhaseNoise(first(c), 0.3), "number basis, back": lambda c: c.to_fock(sh(c)).to_bargmann(), "number basis, lossy": lambda c: c.to_fock(sh(c)) >> L.Attenuator(first(c), 0.6), "number basis, overlap with Gaussian": lambda c: c.to_fock(sh(c)) >> L.Coherent(first(c), 0.2).dual,
            "number basis, probability": lambda c: c.to_fock(sh(c)).probability, "number basis, dm": lambda c: c.to_fock(sh(c)).dm(), "number basis, purity": lambda c: c.to_fock(sh(c)).purity, "number basis, norm": lambda c: c.to_fock(sh(c)).L2_norm, "number basis, normalized": lambda c: c.to_fock(sh(c)).normalize(),
            "number basis, photons": lambda c: c.to_fock(sh(c)).fock_distribution(3), "number basis, twice": lambda c: c.to_fock(sh(c)) * 2, "number basis, sum": lambda c: c.to_fock(sh(c)) + c.to_fock(sh(c)), "number basis, moved": lambda c: c.to_fock(sh(c)).on([m + 30 for m in c.modes]), "number basis, dual": lambda c: c.to_fock(sh(c)).dual.adjoint,
            "number basis, expectation": lambda c: c.to_fock(sh(c)).expectation(L.Number(first(c), 1, 4)), "number basis, quadrature": lambda c: c.to_fock(sh(c)).quadrature(*[np.array([0.1, -0.3])] * len(c.wires), phi=0.2), "number basis, smaller": lambda c: c.to_fock(sh(c)).fock_array((2,) * len(c.wires)), "number basis, to quadrature": lambda c: c.to_fock(sh(c)).to_quadrature(0.3),
            "number basis, Wigner": lambda c: c.to_fock(sh(c)).phase_space(0)}


def r_built(case, ctx):
    for j, (nm, full, shape, one) in enumerate(built(case["name"], case["tier"])):
        if j % 3 == case["k"]:
            sweep(ctx, nm, full, shape, one, skip={"stellar"} if case["name"] == "QuadratureEigenstate" else ())  # at its singularity


def r_matrix(case, ctx):
    full, one = matrix(case["name"], case["shape"])
    sweep(ctx, f"{case['name']} of batch shape {case['shape']}", full, case["shape"], one)


def r_struct(case, ctx):
    full, shape, one = structured(case["kind"], case["struct"], case["modes"])
    sweep(ctx, f"{case['kind']} {case['struct']}", full, shape, one, skip={"stellar", "formal", "fidelity"})  # not states


# ---- pairs -----------------------------------------------------------------------------------------------------
SHAPES = [(), (1,), (2,), (3,), (2, 3), (3, 2)]


def operand(name, shape, off=0):
    """(batch component, entry maker)"""
    import mrmustard.lab as L

    n = int(np.prod(shape))
    k = np.arange(off, off + n).reshape(shape)
    if name in ("poly", "polygate", "array", "arraygate", "arraydm"):
        nv, kind, w = {"poly": (2, "Ket", (5, 13)), "polygate": (2, "Unitary", (13,)), "array": (2, "Ket", (5, 13)), "arraygate": (2, "Unitary", (13,)), "arraydm": (4, "DM", (5, 13))}[name]
        from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
        from mrmustard.physics.wires import Wires

        W = Wires(**zoo.KINDS[kind](set(w)))
        if name.startswith("array"):
            D = zoo.rnd(3, 6 + off, *[3] * nv)[k]

            def mk(x):
                return getattr(L, kind)(ArrayAnsatz(D[x], batch_dims=D[x].ndim - nv), W.copy())
        else:
            A, b, c = 0.12 * zoo.rnd(4, 6 + off, nv + 1, nv + 1)[k], 0.3 * zoo.rnd(5, 6 + off, nv + 1)[k], zoo.rnd(6, 6 + off, 3)[k]
            A = A + np.swapaxes(A, -1, -2)

            def mk(x):
                return getattr(L, kind)(PolyExpAnsatz(A[x], b[x], c[x]), W.copy())
        return mk(...), lambda i: mk(i)
    th = 0.3 + 0.2 * k
    F = {
        "ket": lambda t: L.TwoModeSqueezedVacuum((5, 13), t * 0.5, 0.3),
        "ket1": lambda t: L.DisplacedSqueezed(5, 0.4 * t, 0.2, t),
        "bs": lambda t: L.BSgate((5, 13), t, 0.4),
        "sq": lambda t: L.Sgate(13, 0.3 * t, t),
        "loss": lambda t: L.Attenuator(13, np.exp(-t)),
        "noise": lambda t: L.PhaseNoise(13, t),
        "dual": lambda t: L.Coherent(13, t * 0.4).dual,
        "thermal dual": lambda t: L.Thermal(13, t).dual,
        "thermal": lambda t: L.Thermal(13, t),
        "count": lambda t: L.Number(13, np.array(np.round((t - 0.3) / 0.2)).astype(int) % 3, 4).dual,
        "fock ket": lambda t: L.TwoModeSqueezedVacuum((5, 13), t * 0.5, 0.3).to_fock((3, 4)),
        "fock dm": lambda t: (L.TwoModeSqueezedVacuum((5, 13), t * 0.5, 0.3) >> L.Attenuator(5, 0.6)).to_fock(3),
        "fock sq": lambda t: L.Sgate(13, 0.3 * t, t).to_fock((4, 4)),
        "fock loss": lambda t: L.Attenuator(13, np.exp(-t)).to_fock(3),
        "wigner": lambda t: L.BtoPS((13,), 0) if np.shape(t) == () else None,
        "quadrature": lambda t: L.BtoQ((13,), t),
    }
    f = F[name]
    return f(th if shape else float(th)), lambda i: f(float(th[i]))


PAIRS = [("ket", "bs"), ("ket", "sq"), ("ket", "loss"), ("ket", "noise"), ("ket", "dual"), ("ket", "count"), ("ket", "thermal dual"), ("fock ket", "fock sq"), ("fock ket", "sq"), ("fock ket", "dual"), ("fock ket", "count"), ("fock ket", "fock loss"), ("fock dm", "fock sq"), ("fock dm", "loss"), ("fock dm", "dual"),
         ("ket", "fock sq"), ("bs", "sq"), ("sq", "loss"), ("loss", "sq"), ("loss", "loss"), ("poly", "polygate"), ("poly", "sq"), ("array", "arraygate"), ("arraydm", "arraygate"), ("array", "sq"), ("poly", "arraygate"), ("ket1", "sq"), ("ket1", "thermal"), ("ket1", "quadrature"), ("poly", "count"), ("ket", "fock loss"), ("sq", "fock sq"), ("polygate", "loss")]


def strings(p, q):
    """all einsum strings combining p and q axes, no axis dropped"""
    A = "abcd"[:p]
    out = []
    for pat in itertools.product(*[[*A, None]] * q):
        used = [x for x in pat if x]
        if len(set(used)) < len(used):
            continue
        new = iter("wxyz")
        B = "".join(x or next(new) for x in pat)
        lab = A + "".join(x for x in B if x not in A)
        for perm in itertools.permutations(lab):
            out.append((A, B, "".join(perm)))
    return out


def r_pair(case, ctx):
    sa = case["shape"]
    fa, oa = operand(case["a"], sa)
    for sb in case["shapes"]:
        fb, ob = operand(case["b"], sb, 1)
        one = {}

        def single(i, j, how):
            if (i, j, how) not in one:
                a, b = oa(i) if sa else fa, ob(j) if sb else fb
                one[i, j, how] = attempt(lambda: a >> b if how == ">>" else a.contract(b))
            return one[i, j, how]

        todo = [(">>", "abcd"[:len(sa)], "wxyz"[:len(sb)], "abcd"[:len(sa)] + "wxyz"[:len(sb)])]
        if case["b"] != "noise":
            todo.append(("kron", *todo[0][1:]))
            n = min(len(sa), len(sb))
            long = "abcd"[:max(len(sa), len(sb))]
            todo.append(("zip", long[:len(sa)], long[:len(sb)], long))
            todo += [(f"{A},{B}->{O}", A, B, O) for A, B, O in strings(len(sa), len(sb))]
        for how, A, B, O in todo:
            w = f"{case['a']} {sa} and {case['b']} {sb} by {how}"
            size, ok = {}, True
            for lab, s in ((A, sa), (B, sb)):
                for l, k in zip(lab, s):
                    ok &= size.setdefault(l, k) == k
            got = attempt(lambda: fa >> fb if how == ">>" else fa.contract(fb, mode=how))
            ctx.transitions += 1
            if not ok:
                ctx.check(refused(got), f"{w}: axes of different lengths combined", "")
                continue
            shape = tuple(size[l] for l in O)
            if refused(got):
                bad = refused(single(tuple(0 for _ in sa), tuple(0 for _ in sb), ">>" if how == ">>" else "c"))
                ctx.check(bad, f"{w}: refused", repr(got[1]))
                continue
            for o in np.ndindex(*shape):
                v = dict(zip(O, o))
                s = single(tuple(v[l] for l in A), tuple(v[l] for l in B), ">>" if how == ">>" else "c")
                if refused(s):
                    ctx.fail(f"{w}: accepted, the entries refused", repr(s[1]))
                    break
                entry(ctx, w, got, s, o, shape, "photons")
            ctx.states += 1
    # measured quantities of pairs
    from mrmustard.lab.states import State

    if isinstance(fa, State):
        for sb in case["shapes"]:
            fb, ob = operand(case["b"], sb, 1)
            for nm, f in (("expectation", lambda a, b: a.expectation(b)), ("expectation of dual", lambda a, b: a.expectation(b.dual)), ("fidelity", lambda a, b: a.fidelity(b))):
                got = attempt(lambda: f(fa, fb))
                zero = attempt(lambda: f(oa(tuple(0 for _ in sa)) if sa else fa, ob(tuple(0 for _ in sb)) if sb else fb))
                if refused(got):
                    ctx.check(refused(zero) or isinstance(got[1], NotImplementedError), f"{nm} of {case['a']} {sa} and {case['b']} {sb}: refused", repr(got[1]))
                    continue
                if ("fock" in case["b"]) != ("fock" in case["a"]):
                    continue  # depends on the shapes chosen automatically
                for i in np.ndindex(*sa):
                    for j in np.ndindex(*sb):
                        s = attempt(lambda: f(oa(i) if sa else fa, ob(j) if sb else fb))
                        if not refused(s):
                            entry(ctx, f"{nm} of {case['a']} {sa} and {case['b']} {sb}", got, s, i + j, sa + sb, nm)
                ctx.transitions += 1
    ctx.traces += 1


CHAIN = [["ket", "fock ket"], ["sq", "loss", "fock sq", "bs"], ["dual", "count", "sq", "thermal dual", "quadrature"]]


def r_sumshape(case, ctx):
    """the automatic Fock shape of a sum keeps every term: number states and truncated gates of every pair of shapes"""
    import mrmustard.lab as L
    from mrmustard import settings

    with settings(DEFAULT_FOCK_SIZE=9):
        _sumshape(ctx, L)
    ctx.traces += 1


def _sumshape(ctx, L):

    z = lambda x: complex(np.asarray(x if not hasattr(x, "ansatz") else x.ansatz.scalar))  # noqa: E731
    for n1, n2, c1, c2 in itertools.product(range(5), range(5), (None, 6), (None, 7)):
        a, b = L.Number(3, n1, c1), L.Number(3, n2, c2)
        for tag, s in (("numbers", 0.6 * a + 0.3j * b), ("three numbers", a + b + 0.3j * L.Number(3, 2)), ("difference", a - 2 * b)):
            want = np.zeros(8, complex)
            w = {"numbers": (0.6, 0.3j, 0), "three numbers": (1, 1, 0.3j), "difference": (1, -2, 0)}[tag]
            for n, x in zip((n1, n2, 2), w):
                want[n] += x
            t = f"{tag} {n1},{n2} cutoffs {c1},{c2}"
            f = np.asarray(s.to_fock().ansatz.array).reshape(-1)
            full = np.zeros(60, complex)
            full[: len(f)] = f[:60]
            ctx.close(full[:8], want, f"{t}: array", atol=1e-9)
            for k in range(5):
                ctx.close(z(s >> L.Number(3, k).dual), want[k], f"{t}: amplitude of {k}", atol=1e-9)
                ctx.close(z(s >> L.Rgate(3, 0.4) >> L.Number(3, k).dual), want[k] * np.exp(0.4j * k), f"{t}: amplitude of {k} after a rotation", atol=1e-9)
            ctx.transitions += 11
            ctx.see(n1, n2, tag)
    for k1, k2 in itertools.product((1, 2, 4, 6), repeat=2):
        g, h = L.Dgate(3, 0.4).to_fock((k1, k1)), L.Dgate(3, -0.3, 0.2).to_fock((k2, k2))
        m, M = min(k1, k2), max(k1, k2)
        s = np.asarray((g + h).to_fock().ansatz.array)
        ctx.eq(s.shape[0] >= m and s.shape[1] >= m, True, f"sum of truncated gates {k1},{k2}: size")
        G = np.asarray(L.Dgate(3, 0.4).to_fock((M, M)).ansatz.array) + np.asarray(L.Dgate(3, -0.3, 0.2).to_fock((M, M)).ansatz.array)
        ctx.close(s[:m, :m], G[:m, :m], f"sum of truncated gates {k1},{k2}: common part", atol=1e-9)
        ctx.transitions += 1


def r_chain(case, ctx):
    """three batched operands, by >> , as a circuit and as an optimized circuit"""
    from mrmustard.lab import Circuit

    names = [CHAIN[k][i] for k, i in enumerate(case["w"])]
    for shapes in ((), (2,), (3,)), ((2,), (), (3,)), ((2,), (3,), ()), ((2,), (3,), (2,)), ((1,), (2, 3), (2,)), ((2, 3), (1,), ()):
        ops_ = [operand(n, s, k) for k, (n, s) in enumerate(zip(names, shapes))]
        full = [x[0] for x in ops_]
        total = sum(shapes, ())

        def way(cs, how):
            if how == ">>":
                return cs[0] >> cs[1] >> cs[2]
            if how == "right first":
                return cs[0] >> (cs[1] >> cs[2])
            c = Circuit(cs)
            if how == "optimized":
                c.optimize(with_BF_heuristic=False, verbose=False)
            return c.contract()

        for how in (">>", "circuit", "optimized"):
            got = attempt(lambda: way(full, how))
            ctx.transitions += 1
            zero = [x[1](tuple(0 for _ in s)) if s else x[0] for x, s in zip(ops_, shapes)]
            if refused(got):
                one = attempt(lambda: way(zero, how))
                ctx.check(refused(one), f"{names} {shapes} by {how}: refused", repr(got[1]))
                continue
            for i in np.ndindex(*total):
                parts, p = [], 0
                for x, s in zip(ops_, shapes):
                    parts.append(x[1](i[p:p + len(s)]) if s else x[0])
                    p += len(s)
                entry(ctx, f"{names} {shapes} by {how}", got, attempt(lambda: way(parts, ">>")), i, total, "photons")
            ctx.states += 1
    ctx.traces += 1


# ---- superpositions ---------------------------------------------------------------------------------------------
W = [0.6, -0.3 + 0.4j, 0.25j]


def sup(name):
    """terms of a superposition"""
    import mrmustard.lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz
    from mrmustard.physics.wires import Wires

    def p(kind, modes, k, derived=(3,)):
        w = Wires(**zoo.KINDS[kind](set(modes)))
        nv = len(w.quantum)
        return getattr(L, kind)(zoo.poly(nv, (), derived, seed=10 + k), w)

    return {
        "coherent": lambda: [L.Coherent(5, 0.3), L.Coherent(5, -0.4 + 0.2j), L.Coherent(5, 0.5j)],
        "squeezed": lambda: [L.SqueezedVacuum(5, 0.3), L.SqueezedVacuum(5, 0.2, 0.9), L.DisplacedSqueezed(5, 0.3, 0.1)],
        "entangled": lambda: [L.TwoModeSqueezedVacuum((5, 13), 0.3), L.TwoModeSqueezedVacuum((5, 13), 0.2, 1.1) >> L.Dgate(13, 0.2)],
        "polynomial": lambda: [p("Ket", (5,), 0), p("Ket", (5,), 1)],
        "polynomial 2": lambda: [p("Ket", (5, 13), 0), p("Ket", (5, 13), 1), p("Ket", (5, 13), 2)],
        "number": lambda: [L.Number(5, 1, 4), L.Number(5, 3, 4)],
        "number 2": lambda: [L.Ket(ArrayAnsatz(L.Coherent(5, 0.3).fock_array(4)), L.Coherent(5).wires), L.Ket(ArrayAnsatz(L.SqueezedVacuum(5, 0.4).fock_array(4)), L.Coherent(5).wires), L.Number(5, 1, 4)],
        "mixed": lambda: [L.Thermal(5, 0.4), L.Coherent(5, 0.3).dm(), L.SqueezedVacuum(5, 0.3) >> L.Attenuator(5, 0.6)],
        "mixed 2": lambda: [L.TwoModeSqueezedVacuum((5, 13), 0.3) >> L.Attenuator(5, 0.5), L.Thermal(5, 0.2) >> L.Thermal(13, 0.5)],
        "displacements": lambda: [L.Dgate(5, 0.3), L.Dgate(5, -0.2j), L.Dgate(5, 0.1 + 0.4j)],
        "beamsplitters": lambda: [L.BSgate((5, 13), 0.3), L.BSgate((5, 13), 0.9, 0.4)],
        "polynomial gates": lambda: [p("Unitary", (5,), 0), p("Unitary", (5,), 1)],
        "channels": lambda: [L.Attenuator(5, 0.6), L.Amplifier(5, 1.2), L.Attenuator(5, 0.3)],
        "polynomial mixed": lambda: [p("DM", (5,), 0, (2,)), p("DM", (5,), 1, (2,))],
    }[name]()


SUPS = ["coherent", "squeezed", "entangled", "polynomial", "polynomial 2", "number", "number 2", "mixed", "mixed 2", "displacements", "beamsplitters", "polynomial gates", "channels", "polynomial mixed"]


def ps(c, s):
    """the phase-space function as an ansatz"""
    from mrmustard.physics.ansatz import PolyExpAnsatz

    A, b, k = c.phase_space(s)
    return PolyExpAnsatz(A, b, k, lin_sup=len(np.shape(A)) > 2)


def linear(nw):
    """operations linear in a component with ket wires only, or in one with bra and ket wires"""
    import mrmustard.lab as L

    def sh(c):
        return tuple([4, 3, 3, 4][:len(c.wires)])

    first = lambda c: sorted(c.modes)[0]  # noqa: E731
    from mrmustard.physics.ansatz import ArrayAnsatz

    O = {
        "itself": lambda c: c, "moved": lambda c: c.on([m + 30 for m in c.modes]), "array": lambda c: c.fock_array(sh(c)), "number basis": lambda c: c.to_fock(sh(c)).fock_array(sh(c)), "smaller": lambda c: c.to_fock(sh(c)).fock_array((2,) * len(c.wires)), "there and back": lambda c: c.to_fock(sh(c)).to_bargmann().fock_array(sh(c)), "twice": lambda c: (1 + 0.3j) * c, "half": lambda c: c / 2, "minus": lambda c: c - 0.3 * c, "three times": lambda c: c + c + c,
        "rotated": lambda c: c >> L.Rgate(first(c), 0.4), "squeezed": lambda c: c >> L.Sgate(first(c), 0.3, 0.2), "contracted with gate": lambda c: c.contract(L.Sgate(first(c), 0.3, 0.2)), "contracted with projection": lambda c: c.contract(L.Coherent(first(c), 0.2j).dual), "contracted with channel": lambda c: c.contract(L.Attenuator(first(c), 0.6)),
        "with ancilla": lambda c: c.contract(L.SqueezedVacuum(40, 0.3)), "ancilla mixed in": lambda c: c.contract(L.SqueezedVacuum(40, 0.3)).contract(L.BSgate((first(c), 40), 0.5)), "in number basis squeezed": lambda c: c.to_fock(sh(c)).contract(L.Sgate(first(c), 0.3).to_fock((4, 4))), "number projection": lambda c: c.to_fock(sh(c)).contract(L.Number(first(c), 2, 4).dual), "polynomial gate": lambda c: c.contract(zoo.abstract("Unitary", "derived", (first(c),))),
        "quadrature": lambda c: c.quadrature(*[np.array([0.1, -0.3])] * len(c.wires), phi=0.2), "to quadrature": lambda c: c.to_quadrature(0.3), "array quadrature": lambda c: c.to_fock(sh(c)).quadrature(*[np.array([0.1, -0.3])] * len(c.wires), phi=0.2),
        "superposed gate": lambda c: c.contract(L.Dgate(first(c), 0.3) + 0.5j * L.Dgate(first(c), -0.2)), "superposed projection": lambda c: c.contract((L.Coherent(first(c), 0.3) + 0.5j * L.Coherent(first(c), -0.2)).dual), "superposed channel": lambda c: c.contract(L.Attenuator(first(c), 0.3) + 0.5j * L.Attenuator(first(c), 0.8)),
        "batched gate": lambda c: c.contract(L.Rgate(first(c), [0.1, 0.5])),
        "ansatz reorder": lambda c: c.ansatz.reorder([*range(1, c.ansatz.core_dims), 0]), "ansatz called": lambda c: c.ansatz(*[np.array([0.1, 0.2j])] * c.ansatz.core_dims) if not isinstance(c.ansatz, ArrayAnsatz) else None, "ansatz eval": lambda c: c.ansatz.eval(*[0.3] * c.ansatz.core_dims) if not isinstance(c.ansatz, ArrayAnsatz) else None, "simplified": lambda c: c.ansatz.simplify() if not isinstance(c.ansatz, ArrayAnsatz) else None,
        "negated": lambda c: -c.ansatz, "tensor": lambda c: c.ansatz & L.SqueezedVacuum(0, 0.2).ansatz if not isinstance(c.ansatz, ArrayAnsatz) else None, "partly called": lambda c: c.ansatz.partial_eval(0.2) if hasattr(c.ansatz, "partial_eval") else None, "decomposed": lambda c: c.ansatz.decompose_ansatz() if not isinstance(c.ansatz, ArrayAnsatz) and c.ansatz.num_derived_vars else None,
    }
    if nw >= 2:
        O |= {"lossy": lambda c: c >> L.Attenuator(first(c), 0.6), "superposed loss": lambda c: c >> (L.Attenuator(first(c), 0.3) + 0.5j * L.Attenuator(first(c), 0.8)), "traced": lambda c: c >> L.TraceOut(first(c)), "projected": lambda c: c >> L.Coherent(first(c), 0.2j).dual, "counted": lambda c: c.to_fock((4,) * len(c.wires)) >> L.Number(first(c), 1, 4).dual, "phase space": lambda c: ps(c, 0), "phase space -1": lambda c: ps(c, -1),
              "thermal": lambda c: c >> L.Thermal(first(c), 0.3).dual, "then rotated": lambda c: c >> L.Rgate(first(c), 0.2)}
    return O


ANTI = {"dual": lambda c: c.dual, "adjoint": lambda c: c.adjoint, "conj": lambda c: c.ansatz.conj, "dual array": lambda c: c.dual.fock_array(tuple([4, 3, 3, 4][:len(c.wires)]))}


def of_states():
    """operations on states linear in the density matrix"""
    import mrmustard.lab as L

    first = lambda c: sorted(c.modes)[0]  # noqa: E731
    nm = lambda c: len(c.modes)  # noqa: E731
    cut = lambda c: c.to_fock((4,) * len(c.wires))  # noqa: E731
    return {"dm": lambda c: c.dm(), "probability": lambda c: c.probability, "photons": lambda c: c.fock_distribution(4), "distribution": lambda c: c.quadrature_distribution(np.array([0.0, 0.4]), phi=0.2), "Wigner": lambda c: c.wigner(*[np.array([0.2, -0.1])] * (2 * nm(c))), "phase space": lambda c: ps(c, 0), "phase space 1": lambda c: ps(c, -0.5),
            "energy": lambda c: cut(c).expectation(L.Number(first(c), 1, 4)), "expectation of ket": lambda c: c.expectation(L.Coherent(first(c), 0.3)), "expectation of state": lambda c: c.expectation(L.Thermal(first(c), 0.4)), "expectation of operator": lambda c: c.expectation(L.Rgate(first(c), 0.4)), "expectation of superposed operator": lambda c: c.expectation(L.Rgate(first(c), 0.4) + 0.5j * L.Rgate(first(c), 0.9)),
            "expectation of superposed ket": lambda c: c.expectation(L.Coherent(first(c), 0.3) + 0.5j * L.Coherent(first(c), -0.2)), "lossy": lambda c: c >> L.Attenuator(first(c), 0.6), "superposed loss": lambda c: c >> (L.Attenuator(first(c), 0.6) - 0.5 * L.Attenuator(first(c), 0.2)), "traced": lambda c: c >> L.TraceOut(first(c)), "reduced": lambda c: c.dm()[first(c)], "projected on mixed": lambda c: c >> L.Thermal(first(c), 0.3).dual, "phase noise": lambda c: cut(c) >> L.PhaseNoise(first(c), 0.3),
            "dm of number basis": lambda c: cut(c).dm(), "photons of number basis": lambda c: cut(c).fock_distribution(3), "number basis lossy": lambda c: cut(c) >> L.Attenuator(first(c), 0.6).to_fock((4, 4, 4, 4)), "superposed unitary": lambda c: c.dm() >> (L.Dgate(first(c), 0.3) + 0.5j * L.Dgate(first(c), -0.2))}


def left_out(name, o):
    """operations that depend on shapes chosen automatically; phase_space is for Gaussian states; the real part is taken of non-Hermitian terms"""
    return (name.startswith("number") and o in ("lossy", "superposed loss", "projected on mixed")) or (name.startswith("polynomial") and o.startswith("phase space")) or (name == "polynomial 2" and o == "probability") or (name == "polynomial mixed" and o in ("probability", "photons", "photons of number basis", "distribution", "Wigner"))


AMPLITUDE = {"photons": lambda c: c.fock_array((4,) * len(c.wires)), "photons of number basis": lambda c: c.fock_array((3,) * len(c.wires)), "distribution": lambda c: c.quadrature(*[np.array([0.0, 0.4])] * len(c.wires), phi=0.2)}


def total(ctx, what, got, parts, ws):
    """the result is the combination of the results of the parts"""
    ctx.transitions += 1
    ctx.ncmp += 1
    if refused(got):
        ctx.check(isinstance(got[1], NotImplementedError) or any(refused(p) for p in parts), f"{what}: refuses a superposition", repr(got[1]))
        ctx.see("refused", what)
        return
    bad = [p for p in parts if refused(p)]
    if bad:
        ctx.fail(f"{what}: accepts a superposition, refuses a term", repr(bad[0][1]))
        return
    for k, x in enumerate(got.data):
        y = sum(w * p.data[k] for w, p in zip(ws, parts))
        if x.shape != y.shape:
            ctx.fail(f"{what}: shape", f"{x.shape}, of the terms {y.shape}")
            return
        ctx.check(bool(np.allclose(x, y, atol=1e-9, rtol=1e-8, equal_nan=True)), f"{what}: values", f"{x.reshape(-1)[:4]} / {y.reshape(-1)[:4]}")


def r_sup(case, ctx):
    import mrmustard.lab as L

    if case["name"].startswith("polynomial"):
        from mrmustard import settings

        if case["name"] == "polynomial":
            settings.DEFAULT_FOCK_SIZE = 30  # the norm of a state with a polynomial part is computed in the number basis
    ts = sup(case["name"])
    for k in range(2, len(ts) + 1):
        for how in ("weighted", "grouped", "subtracted"):
            t = ts[:k]
            real = case["name"].startswith("mixed")
            ws = [0.6, 0.3, 0.2][:k] if real else W[:k]
            if how == "weighted":
                S = ws[0] * t[0]
                for w, x in zip(ws[1:], t[1:]):
                    S = S + w * x
            elif how == "grouped":
                if k < 3:
                    continue
                S = ws[0] * t[0] + (ws[1] * t[1] + ws[2] * t[2])
            else:
                S = t[0]
                for x in t[1:]:
                    S = S - (0.05 if real else 0.7) * x
                ws = [1.0] + [-0.05 if real else -0.7] * (k - 1)
            nm = f"{case['name']} of {k}, {how}"
            ket = all(w.is_ket for w in S.wires.quantum)
            for o, f in linear(2 if not ket else 1).items():
                total(ctx, f"{nm}: {o}", attempt(lambda: f(S)), [attempt(lambda: f(x)) for x in t], ws)
            for o, f in ANTI.items():
                total(ctx, f"{nm}: {o}", attempt(lambda: f(S)), [attempt(lambda: f(x)) for x in t], np.conj(ws))
            state = isinstance(S, (L.Ket, L.DM))
            if state:
                if ket:
                    pairs = [(a * np.conj(b), x, y) for a, x in zip(ws, t) for b, y in zip(ws, t)]
                    parts = [(w, (lambda x=x, y=y: L.DM((z := x.contract(y.adjoint)).ansatz, z.wires))) for w, x, y in pairs]
                else:
                    parts = [(w, (lambda x=x: x)) for w, x in zip(ws, t)]
                for o, f in of_states().items():
                    if left_out(case["name"], o):
                        continue
                    if ket and o in AMPLITUDE:
                        g = AMPLITUDE[o]
                        got, amp = attempt(lambda: f(S)), [attempt(lambda: g(x)) for x in t]
                        if not refused(got) and not any(refused(a) for a in amp):
                            y = abs(sum(w * a.data[0] for w, a in zip(ws, amp))) ** 2
                            y = y.reshape(got.data[0].shape) if o != "distribution" and got.data[0].size == y.size else y
                            ctx.eq(got.data[0].shape, y.shape, f"{nm}: {o}: shape")
                            ctx.check(got.data[0].shape == y.shape and bool(np.allclose(got.data[0], y, atol=1e-9)), f"{nm}: {o}: values", f"{got.data[0].reshape(-1)[:4]} / {y.reshape(-1)[:4]}")
                        else:
                            ctx.check(refused(got) and any(refused(a) for a in amp), f"{nm}: {o}: refused", str(got))
                        continue
                    if ket and o == "probability":
                        got, y = attempt(lambda: f(S)), sum(a * np.conj(b) * Res(x >> z.dual).data[0] for a, x in zip(ws, t) for b, z in zip(ws, t))
                        ctx.check(not refused(got) and bool(np.allclose(got.data[0], y, atol=1e-5 if "poly" in case["name"] else 1e-9)), f"{nm}: {o}", f"{got if refused(got) else got.data[0]} / {y}")
                        continue
                    total(ctx, f"{nm}: {o}", attempt(lambda: f(S)), [attempt(lambda: f(p())) for _, p in parts], [w for w, _ in parts])
                got = attempt(lambda: S.normalize().probability)
                if ket and not refused(got):
                    ctx.check(bool(np.allclose(got.data[0], 1.0)), f"{nm}: probability of the normalized state", str(got.data))
                    total(ctx, f"{nm}: normalized", attempt(lambda: S.normalize().fock_array(tuple([4, 3][:len(S.wires)]))), [attempt(lambda: x.fock_array(tuple([4, 3][:len(S.wires)]))) for x in t], np.array(ws) / np.sqrt(abs(Res(S.probability).data[0])))
                # two superpositions
                if ket:
                    R = (0.4j * t[-1]) + t[0]
                    for o, f in (("overlap of superpositions", lambda a, b: a >> b.dual), ("outer product", lambda a, b: a.contract(b.adjoint)), ("sum of superpositions", lambda a, b: None)):
                        total(ctx, f"{nm}: {o}", attempt(lambda: f(S, R)), [attempt(lambda: f(x, y)) for x in t for y in (t[-1], t[0])], [w * np.conj(v) for w in ws for v in (0.4j, 1)])
                    T = S + R
                    total(ctx, f"{nm}: superposition of superpositions", attempt(lambda: T), [attempt(lambda: x) for x in [*t, t[-1], t[0]]], [*ws, 0.4j, 1])
            else:
                probe = L.Coherent(5, 0.2) if len(S.modes) == 1 else L.TwoModeSqueezedVacuum((5, 13), 0.2)
                if ket:
                    total(ctx, f"{nm}: applied", attempt(lambda: probe >> S), [attempt(lambda: probe >> x) for x in t], ws)
                    total(ctx, f"{nm}: applied to the density matrix", attempt(lambda: probe.dm() >> S), [attempt(lambda: probe.dm().contract(x).contract(y.adjoint)) for x in t for y in t], [a * np.conj(b) for a in ws for b in ws])
                    total(ctx, f"{nm}: one after the other", attempt(lambda: S.contract(S)), [attempt(lambda: x.contract(y)) for x in t for y in t], [a * b for a in ws for b in ws])
                else:
                    total(ctx, f"{nm}: applied", attempt(lambda: probe >> S), [attempt(lambda: probe >> x) for x in t], ws)
                    total(ctx, f"{nm}: one after the other", attempt(lambda: S >> S), [attempt(lambda: x >> y) for x in t for y in t], [a * b for a in ws for b in ws])
            ctx.states += 1
    ctx.traces += 1
