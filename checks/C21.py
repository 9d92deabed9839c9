"""C21: requests without a meaning are rejected.  All argument combinations over small alphabets, against an independent predicate of validity; what is
accepted must have the meaning of the request, what is rejected must leave everything unchanged."""

import itertools
import warnings

import numpy as np

from mc import comps, zoo

LEVEL = "model_checking"
RULE = ("all mode tuples up to length three over an alphabet for every constructor; all array sizes up to six for every constructor from arrays; documented parameter ranges; all ordered pairs of a component alphabet composed; all mode subsets, shapes, "
        "counts and operand pairs for every operation with a documented restriction; unknown settings and backends; all index tuples of the ansatz operations")
ASSUMPTIONS = ["a request may be rejected when it is made or when its result is first used", "array values are not claimed to be validated (unitarity, positivity) beyond the documented tests"]
CASE_LIMIT = 500

ONE = ["Coherent", "DisplacedSqueezed", "SqueezedVacuum", "Thermal", "BargmannEigenstate", "QuadratureEigenstate", "Dgate", "Sgate", "Rgate", "Pgate", "Attenuator", "Amplifier", "FockDamping", "PhaseNoise", "Number", "Sauron"]
TWO = ["TwoModeSqueezedVacuum", "BSgate", "S2gate", "MZgate", "CXgate", "CZgate"]
MANY = ["Vacuum", "Identity", "TraceOut", "BtoQ", "BtoPS", "BtoChar"]
MAT = ["Interferometer", "RealInterferometer", "Ggate", "GKet", "GDM", "GaussRandNoise"]
FROM = ["Ket.from_bargmann", "DM.from_bargmann", "Unitary.from_bargmann", "Operation.from_bargmann", "Map.from_bargmann", "Channel.from_bargmann", "Ket.from_fock", "DM.from_fock", "Unitary.from_fock", "Channel.from_fock", "Map.from_fock",
        "Ket.from_phase_space", "DM.from_phase_space", "Unitary.from_symplectic", "Channel.from_XY", "Ket.from_ansatz", "DM.from_ansatz", "Ket.from_quadrature", "DM.from_quadrature"]


def cases(tier):
    out = [{"id": f"modes-{k}", "part": "modes", "k": k} for k in ONE + TWO + MANY + MAT + FROM]
    out += [{"id": f"sizes-{k}", "part": "sizes", "k": k} for k in FROM + MAT]
    out += [{"id": f"pairs-{i}", "part": "pairs", "i": i} for i in range(len(ALPHA))]
    if tier == "thorough":
        out = [{**c, "len": 4} if c["part"] == "modes" else c for c in out]
        out += [{"id": f"triples-{i}", "part": "triples", "i": i} for i in range(len(ALPHA))]
    for p in ("params", "operations", "shapes", "sums", "settings", "ansatz", "wires", "stellar", "circuit"):
        out.append({"id": p, "part": p})
    return out


def L():
    import mrmustard.lab as lab

    return lab


def run(case, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from mrmustard import settings

    settings.AUTOSHAPE_MAX = 6
    settings.DEFAULT_FOCK_SIZE = 4
    globals()["r_" + case["part"]](case, ctx)


def state_of_settings():
    from mrmustard import math, settings

    return {k: repr(v) for k, v in vars(settings).items() if k not in ("_rng",)}, math.backend_name


def force(c):
    """use everything about an object that may be computed late"""
    if hasattr(c, "wires") and hasattr(c, "ansatz"):
        a = c.ansatz
        if a is not None:
            a.core_dims, a.batch_shape
            _ = a.triple if hasattr(a, "A") and type(a).__name__ == "PolyExpAnsatz" else a.array
            if a.core_dims != len(c.wires):
                return "inconsistent"
    return None


def attempt(fn):
    """('ok', object) or ('rejected', exception)"""
    try:
        c = fn()
        if force(c) == "inconsistent":
            return "inconsistent", c
        return "ok", c
    except Exception as e:  # noqa: BLE001
        return "rejected", e


def must_reject(ctx, what, fn, keep=()):
    before = [zoo.snapshot(k) for k in keep]
    env = state_of_settings()
    st, r = attempt(fn)
    ctx.check(st == "rejected", f"{what}: must be rejected", f"{st} {type(r).__name__} {getattr(r, 'modes', '')}")
    for i, (k, b) in enumerate(zip(keep, before)):
        ctx.check(repr(zoo.snapshot(k)) == repr(b), f"{what}: operand {i} unchanged by the rejected request")
    ctx.eq(state_of_settings(), env, f"{what}: settings unchanged by the rejected request")
    ctx.transitions += 1
    ctx.see("rejected", type(r).__name__ if st == "rejected" else st)


def must_accept(ctx, what, fn):
    st, r = attempt(fn)
    ctx.check(st == "ok", f"{what}: must be accepted", f"{st}: {type(r).__name__} {r if st == 'rejected' else ''}"[:200])
    ctx.transitions += 1
    ctx.see("accepted")
    return r if st == "ok" else None


# ---- modes --------------------------------------------------------------------------------------------------
def tuples(lens=(0, 1, 2, 3), alpha=(0, 5, 13)):
    for n in lens:
        yield from itertools.product(alpha, repeat=n)


def wire_values(c):
    """the representation as a function of (mode, side, in/out) labels: {(label_i, label_j): A_ij} etc."""
    lab = []
    for w in c.wires.sorted_wires:
        lab.append((w.mode, w.is_ket, w.is_out))
    return lab


def rep(c):
    from mrmustard.physics.ansatz import ArrayAnsatz

    a = c.ansatz
    return ("F", np.asarray(a.array)) if isinstance(a, ArrayAnsatz) else ("B", *[np.asarray(x) for x in a.triple])


def permuted(c0, asked):
    """representation of c0, which is on sorted modes 0..n-1 in the order asked, with wires sorted by the asked labels"""
    labels = wire_values(c0)
    new = [(asked[m], k, o) for m, k, o in labels]
    want = sorted(range(len(new)), key=lambda i: (new[i][1], not new[i][2], new[i][0]))
    r = rep(c0)
    if r[0] == "F":
        return ("F", np.transpose(r[1], want))
    A = r[1][..., want, :][..., want]
    return ("B", A, r[2][..., want], r[3])


def maker(k):
    """(constructor taking modes, number of modes of the data or None, symmetric?)"""
    lab = L()
    if k in ONE:
        kw = zoo.P1.get(k, ({},))[0]
        if k in ("Number", "Sauron"):
            kw = {"n": 2}
        return (lambda m: getattr(lab, k)(m, **kw)), 1
    if k in TWO:
        kw = zoo.P2[k][0]
        return (lambda m: getattr(lab, k)(m, **kw)), 2
    if k in MANY:
        kw = {"BtoPS": {"s": 0.3}, "BtoQ": {"phi": 0.2}, "BtoChar": {"s": 0}}.get(k, {})
        return (lambda m: getattr(lab, k)(m, **kw)), None
    n = 2
    if k == "Interferometer":
        return (lambda m: lab.Interferometer(m, comps.U_lib(1, n))), n
    if k == "RealInterferometer":
        return (lambda m: lab.RealInterferometer(m, comps.O_lib(1, n))), n
    if k == "Ggate":
        return (lambda m: lab.Ggate(m, comps.S_lib(1, n))), n
    if k == "GKet":
        return (lambda m: lab.GKet(m, comps.S_lib(1, n))), n
    if k == "GDM":
        return (lambda m: lab.GDM(m, np.array([0.8, 1.5]), comps.S_lib(1, n))), n
    if k == "GaussRandNoise":
        return (lambda m: lab.GaussRandNoise(m, comps.Y_lib(1, n))), n
    cls, how = k.split(".")
    C = getattr(lab, cls)
    two = cls in ("Unitary", "Operation", "Map", "Channel")
    sides = 2 if cls in ("DM", "Map", "Channel") else 1
    nv = n * sides * (2 if two else 1)
    A = zoo.rnd(1, nv, nv) * 0.1
    A = A + A.T
    b = zoo.rnd(2, nv) * 0.2
    arr = zoo.rnd(3, *([2, 3, 4, 5] if nv <= 4 else [2, 3, 2, 3, 4, 2, 3, 2])[:nv])
    from mrmustard.physics.ansatz import PolyExpAnsatz

    ms = (lambda m: (m, m)) if two else (lambda m: (m,))
    if how == "from_bargmann":
        return (lambda m: C.from_bargmann(*ms(m), (A, b, 0.7 + 0j))), n
    if how == "from_ansatz":
        return (lambda m: C.from_ansatz(*ms(m), PolyExpAnsatz(A, b, 0.7 + 0j))), n
    if how == "from_fock":
        return (lambda m: C.from_fock(*ms(m), arr)), n
    if how == "from_quadrature":
        return (lambda m: C.from_quadrature(m, (A, b, 0.7 + 0j))), n
    if how == "from_phase_space":
        return (lambda m: C.from_phase_space(m, (0.5 * comps.S_lib(1, n) @ comps.S_lib(1, n).T, np.linspace(-0.3, 0.4, 2 * n), 1.0))), n
    if how == "from_symplectic":
        return (lambda m: C.from_symplectic(m, comps.S_lib(1, n))), n
    if how == "from_XY":
        return (lambda m: C.from_XY(m, m, 0.7 * np.eye(2 * n), comps.Y_lib(1, n) + 0.4 * np.eye(2 * n))), n
    raise KeyError(k)


def close_rep(a, b):
    return a[0] == b[0] and all(x.shape == y.shape and np.allclose(x, y, atol=1e-9) for x, y in zip(a[1:], b[1:]))


def r_modes(case, ctx):
    k = case["k"]
    mk, n = maker(k)
    if n == 1:
        for m in (0, 5, (5,), (13,)):
            c = must_accept(ctx, f"{k}({m})", lambda m=m: mk(m))
            if c is not None:
                ctx.eq(tuple(c.modes), (m,) if isinstance(m, int) else m, f"{k}({m}): modes")
        for m in tuples((2, 3)):
            must_reject(ctx, f"{k}({m})", lambda m=m: mk(m))
        must_reject(ctx, f"{k}(())", lambda: mk(()))
    else:
        base = {j: mk(tuple(range(j))) for j in ((n,) if n else (1, 2, 3, 4))}
        for m in tuples((0, 1, 2, 3)) if "len" not in case else tuples((0, 1, 2, 3, 4), (0, 5, 13, 3)):
            what = f"{k}({m})"
            if len(set(m)) != len(m) or (n and len(m) != n):
                must_reject(ctx, what, lambda m=m: mk(m))
                continue
            if not m:
                continue  # a component on no modes
            if list(m) == sorted(m):
                c = must_accept(ctx, what, lambda m=m: mk(m))
            else:
                st, c = attempt(lambda m=m: mk(m))
                ctx.check(st != "inconsistent", f"{what}: consistent")
                ctx.see("unsorted", st)
                if st != "ok":
                    continue
            ctx.transitions += 1
            if c is not None:
                ctx.eq(tuple(c.modes), tuple(sorted(m)), f"{what}: modes")
                if c.ansatz is not None:
                    ctx.check(close_rep(rep(c), permuted(base[len(m)], m)), f"{what}: means what was asked")
        # integers
        if k in MANY or k in ("Interferometer", "RealInterferometer", "Ggate", "GKet", "GDM", "GaussRandNoise"):
            if n is None:
                must_accept(ctx, f"{k}(5)", lambda: mk(5))
            else:
                must_reject(ctx, f"{k}(5) with two-mode data", lambda: mk(5))
        if k in TWO:
            must_reject(ctx, f"{k}(5)", lambda: mk(5))
    # different input and output modes
    if k in ("Operation.from_bargmann", "Map.from_bargmann", "Channel.from_bargmann"):
        lab = L()
        C = getattr(lab, k.split(".")[0])
        s = 1 if k.startswith("Op") else 2
        for mo, mi in itertools.product(tuples((0, 1, 2)), repeat=2):
            nv = s * (len(mo) + len(mi))
            A = zoo.rnd(1, nv, nv) * 0.1
            fn = lambda: C.from_bargmann(mo, mi, (A + A.T, np.zeros(nv), 1.0))
            if len(set(mo)) != len(mo) or len(set(mi)) != len(mi) or list(mo) != sorted(mo) or list(mi) != sorted(mi):
                must_reject(ctx, f"{k}({mo}, {mi})", fn)
            elif nv:
                must_accept(ctx, f"{k}({mo}, {mi})", fn)
    # rewiring
    if n is not None and n <= 2:
        c = mk((0, 1)[:n] if n > 1 else 0)
        for m in tuples((0, 1, 2, 3)):
            what = f"{k}.on({m})"
            if len(m) != n or len(set(m)) != len(m):
                must_reject(ctx, what, lambda m=m: c.on(m), [c])
                continue
            st, d = attempt(lambda m=m: c.on(m))
            if list(m) == sorted(m):
                ctx.check(st == "ok", f"{what}: accepted")
            if st == "ok":
                ctx.eq(tuple(d.modes), tuple(sorted(m)), f"{what}: modes")
                if d.ansatz is not None:
                    ctx.check(close_rep(rep(d), permuted(c, m)), f"{what}: means what was asked")
            ctx.transitions += 1
    ctx.traces += 1


# ---- sizes --------------------------------------------------------------------------------------------------
def r_sizes(case, ctx):
    lab = L()
    k = case["k"]
    if k in MAT:
        for n, m in itertools.product((1, 2, 3), (1, 2, 3)):
            modes = (0, 5, 13)[:n]
            fn = {
                "Interferometer": lambda: lab.Interferometer(modes, comps.U_lib(1, m)), "RealInterferometer": lambda: lab.RealInterferometer(modes, comps.O_lib(1, m)), "Ggate": lambda: lab.Ggate(modes, comps.S_lib(1, m)), "GKet": lambda: lab.GKet(modes, comps.S_lib(1, m)),
                "GDM": lambda: lab.GDM(modes, 0.8, comps.S_lib(1, m)), "GaussRandNoise": lambda: lab.GaussRandNoise(modes, comps.Y_lib(1, m)),
            }[k]
            (must_accept if n == m else must_reject)(ctx, f"{k} on {n} modes with a matrix for {m}", fn)
            if k == "GDM":
                for nb in (1, 2, 3):
                    fn = lambda: lab.GDM(modes, np.full(nb, 0.9), comps.S_lib(1, n))
                    (must_accept if nb in (1, n) else must_reject)(ctx, f"GDM on {n} modes with {nb} temperatures", fn)
            if k in ("Ggate", "GKet", "Interferometer"):  # trainable
                fn = {"Ggate": lambda: lab.Ggate(modes, comps.S_lib(1, m), symplectic_trainable=True), "GKet": lambda: lab.GKet(modes, comps.S_lib(1, m), symplectic_trainable=True), "Interferometer": lambda: lab.Interferometer(modes, comps.U_lib(1, m), unitary_trainable=True)}[k]
                (must_accept if n == m else must_reject)(ctx, f"trainable {k} on {n} modes with a matrix for {m}", fn)
        if k == "GaussRandNoise":
            must_reject(ctx, "noise of odd size", lambda: lab.GaussRandNoise((0,), np.eye(3)))
        ctx.traces += 1
        return
    cls, how = k.split(".")
    C = getattr(lab, cls)
    two = cls in ("Unitary", "Operation", "Map", "Channel")
    sides = 2 if cls in ("DM", "Map", "Channel") else 1
    for n in (1, 2):
        modes = (0, 5)[:n]
        need = n * sides * (2 if two else 1)
        ms = (modes, modes) if two else (modes,)
        if how in ("from_bargmann", "from_quadrature", "from_ansatz"):
            for na, nb, nd in itertools.product(range(7), range(7), (0, 1)):
                A, b = np.eye(na) * 0.1, np.zeros(nb)
                c = np.array(1.0) if nd == 0 else np.array([1.0, 0.5])
                ok = na == nb == need + nd
                if how == "from_ansatz":
                    from mrmustard.physics.ansatz import PolyExpAnsatz

                    fn = lambda: C.from_ansatz(*ms, PolyExpAnsatz(A, b, c))
                else:
                    fn = lambda: getattr(C, how)(*ms, (A, b, c))
                if ok and how == "from_quadrature" and nd:
                    continue
                (must_accept if ok else must_reject)(ctx, f"{k} on {n} modes, A of size {na}, b of size {nb}, c of rank {nd}", fn)
            must_reject(ctx, f"{k} on {n} modes, A not square", lambda: getattr(C, "from_bargmann")(*ms, (np.zeros((need, need + 1)), np.zeros(need), 1.0)))
            must_reject(ctx, f"{k} on {n} modes, batch sizes 2 and 3", lambda: getattr(C, "from_bargmann")(*ms, (np.zeros((2, need, need)), np.zeros((3, need)), np.ones(2))))
            must_reject(ctx, f"{k} on {n} modes, only b batched", lambda: getattr(C, "from_bargmann")(*ms, (np.zeros((need, need)), np.zeros((3, need)), np.array(1.0))))
            must_reject(ctx, f"{k} on {n} modes, batch of c", lambda: getattr(C, "from_bargmann")(*ms, (np.zeros((2, need, need)), np.zeros((2, need)), np.ones(3))))
        elif how == "from_fock":
            for nd in range(1, 7):
                for batch in (0, 1):
                    ok = nd - batch == need
                    (must_accept if ok else must_reject)(ctx, f"{k} on {n} modes, array of rank {nd}, {batch} batch axes", lambda: C.from_fock(*ms, np.ones((2,) * nd) * 0.3, batch_dims=batch))
        elif how == "from_phase_space":
            for a, b in itertools.product(range(1, 6), repeat=2):
                ok = a == b == 2 * n
                (must_accept if ok else must_reject)(ctx, f"{k} on {n} modes, covariance of size {a}, means of size {b}", lambda: C.from_phase_space(modes, (np.eye(a) * 0.5, np.zeros(b), 1.0)))
        elif how == "from_symplectic":
            for m in (1, 2, 3):
                (must_accept if m == n else must_reject)(ctx, f"{k} on {n} modes with a matrix for {m}", lambda: C.from_symplectic(modes, comps.S_lib(0, m)))
        elif how == "from_XY":
            for mo, mi in itertools.product((1, 2), repeat=2):
                for x0, x1, y0, y1, d in itertools.product((2, 4), (2, 4), (2, 4), (2, 4), (None, 2, 4)):
                    ok = (x0, x1, y0, y1) == (2 * mo, 2 * mi, 2 * mo, 2 * mo) and d in (None, 2 * mo)
                    fn = lambda: C.from_XY((0, 5)[:mo], (0, 5)[:mi], np.eye(x0, x1) * 0.7, np.eye(y0, y1), None if d is None else np.zeros(d))
                    if ok and mo == mi or not ok:
                        (must_accept if ok else must_reject)(ctx, f"{k} from {mi} to {mo} modes, X {x0}x{x1}, Y {y0}x{y1}, d {d}", fn)
    ctx.traces += 1


# ---- pairs --------------------------------------------------------------------------------------------------
ALPHA = ["ket0", "ket5", "ket05", "dm0", "dm05", "gate0", "gate5", "gate05", "att0", "att5", "grn05", "ket0d", "dm0d", "ket05d", "gate0d", "att0d", "tr0", "tr05", "bra0", "adj0", "op0", "map5", "num0", "fock05", "poly0"]


def alpha(k):
    lab = L()
    from mc import zoo as Z

    return {
        "ket0": lambda: lab.Coherent(0, 0.2), "ket5": lambda: lab.SqueezedVacuum(5, 0.2), "ket05": lambda: lab.TwoModeSqueezedVacuum((0, 5), 0.2), "dm0": lambda: lab.Thermal(0, 0.2), "dm05": lambda: lab.GDM((0, 5), 0.9, comps.S_lib(1, 2)),
        "gate0": lambda: lab.Dgate(0, 0.1), "gate5": lambda: lab.Sgate(5, 0.1), "gate05": lambda: lab.BSgate((0, 5), 0.3, 0.2), "att0": lambda: lab.Attenuator(0, 0.6), "att5": lambda: lab.Attenuator(5, 0.6), "grn05": lambda: lab.GaussRandNoise((0, 5), comps.Y_lib(1, 2)),
        "ket0d": lambda: lab.Coherent(0, 0.1).dual, "dm0d": lambda: lab.Thermal(0, 0.1).dual, "ket05d": lambda: lab.TwoModeSqueezedVacuum((0, 5), 0.1).dual, "gate0d": lambda: lab.Dgate(0, 0.2).dual, "att0d": lambda: lab.Attenuator(0, 0.6).dual,
        "tr0": lambda: lab.TraceOut(0), "tr05": lambda: lab.TraceOut((0, 5)), "bra0": lambda: lab.Coherent(0, 0.3).adjoint, "adj0": lambda: lab.Dgate(0, 0.3).adjoint,
        "op0": lambda: lab.Operation.from_bargmann((5,), (0,), (np.array([[0, 0.5], [0.5, 0]]), np.zeros(2), 1.0)), "map5": lambda: lab.Map.from_bargmann((0,), (5,), (np.eye(4)[::-1] * 0.4, np.zeros(4), 1.0)),
        "num0": lambda: lab.Number(0, 1, 3), "fock05": lambda: lab.TwoModeSqueezedVacuum((0, 5), 0.2).to_fock(4), "poly0": lambda: lab.Ket.from_bargmann((0,), (np.diag([0.1, 0.2]), np.zeros(2), np.array([0.5, 0.2]))),
    }[k]()


def sets(c):
    w = c.wires
    return {"ob": set(w.output.bra.modes), "ib": set(w.input.bra.modes), "ok": set(w.output.ket.modes), "ik": set(w.input.ket.modes)}


def compose(x, y):
    """sets of x followed by y, or None when the composition has no meaning"""
    out = {}
    for s in "bk":
        xo, xi, yo, yi = x["o" + s], x["i" + s], y["o" + s], y["i" + s]
        through = xo - yi
        if through & yo:
            return None
        need = yi - xo
        if need & xi:
            return None
        out["o" + s] = through | yo
        out["i" + s] = xi | need
    return out


def adj(x):
    return {"ob": x["ok"], "ib": x["ik"], "ok": x["ob"], "ik": x["ib"]}


def both(x, y):
    """tensor of an object and its adjoint"""
    return {k: x[k] | y[k] for k in x}


def sequential(X, Y):
    """sets of x >> y: a one-sided operand meets a two-sided one together with its adjoint"""
    xk, xb, yk, yb = [bool(s["o" + t] | s["i" + t]) for s, t in ((X, "k"), (X, "b"), (Y, "k"), (Y, "b"))]
    if (xk, xb) == (yk, yb):
        return compose(X, Y)
    if xk and xb:
        return compose(X, both(Y, adj(Y)))
    if yk and yb:
        return compose(both(X, adj(X)), Y)
    return None


def r_pairs(case, ctx):
    lab = L()
    kx = ALPHA[case["i"]]
    for ky in ALPHA:
        x, y = alpha(kx), alpha(ky)
        X, Y = sets(x), sets(y)
        # (a trace only acts on what is there)
        check_pair(ctx, f"{kx} >> {ky}", lambda: x >> y, "special" if isinstance(y, lab.TraceOut) else sequential(X, Y), x, y)
        check_pair(ctx, f"{kx}.contract({ky})", lambda: x.contract(y), compose(X, Y), x, y)
    ctx.traces += 1


def r_triples(case, ctx):
    lab = L()
    kx = ALPHA[case["i"]]
    for ky in ALPHA:
        x, y = alpha(kx), alpha(ky)
        if isinstance(y, lab.TraceOut) or not (w := sequential(sets(x), sets(y))) or not any(w.values()):
            continue
        xy = x >> y
        if sum(map(len, w.values())) > 6:
            continue
        for kz in ALPHA:
            z = alpha(kz)
            if isinstance(z, lab.TraceOut):
                continue
            check_pair(ctx, f"({kx} >> {ky}) >> {kz}", lambda: xy >> z, sequential(w, sets(z)), xy, z)
            check_pair(ctx, f"{kz} >> ({kx} >> {ky})", lambda: z >> xy, sequential(sets(z), w), z, xy)
    ctx.traces += 1


def check_pair(ctx, what, fn, want, x, y):
    if want is None:
        must_reject(ctx, what, fn, [x, y])
        return
    if want == "special":
        return
    st, r = attempt(fn)
    ctx.transitions += 1
    ctx.check(st == "ok", f"{what}: must be accepted", f"{st} {r}"[:160])
    if st == "ok" and hasattr(r, "wires"):
        ctx.eq(sets(r), want, f"{what}: wires of the result")
    elif st == "ok":
        ctx.check(not any(want.values()), f"{what}: a number only when nothing is left")
    ctx.see("composed")


# ---- other operations ---------------------------------------------------------------------------------------
def r_params(case, ctx):
    lab = L()
    for tr in (False, True):
        kw = {"transmissivity_trainable": True, "transmissivity_bounds": (None, None)} if tr else {}
        for t in (-1.0, -0.1, 0.0, 0.3, 1.0, 1.1, 3.0, (0.2, 1.1), (-0.1, 0.5), (0.2, 1.0), (0.9, 1.1, 0.3)):
            v = np.array(t) if isinstance(t, tuple) else t
            ok = np.all(np.asarray(v) >= 0) and np.all(np.asarray(v) <= 1)
            if tr and np.ndim(v) == 0 and v == 0:
                continue
            (must_accept if ok else must_reject)(ctx, f"Attenuator of transmissivity {t}, trainable {tr}", lambda: lab.Attenuator(0, v, **kw))
        kw = {"gain_trainable": True, "gain_bounds": (None, None)} if tr else {}
        for t in (-1.0, 0.0, 0.9, 1.0, 1.1, 3.0, (0.9, 1.1), (1.0, 2.0), (1.2, 1.1, 0.3)):
            v = np.array(t) if isinstance(t, tuple) else t
            ok = np.all(np.asarray(v) >= 1)
            (must_accept if ok else must_reject)(ctx, f"Amplifier of gain {t}, trainable {tr}", lambda: lab.Amplifier(0, v, **kw))
    for n, cut in itertools.product((0, 1, 3, (0, 2), (3, 1, 2)), (None, 1, 2, 3, 4, 5)):
        v = np.array(n) if isinstance(n, tuple) else n
        ok = cut is None or np.max(v) < cut
        (must_accept if ok else must_reject)(ctx, f"Number {n} with cutoff {cut}", lambda: lab.Number(0, v, cut))
    for ev in ((1, 1), (0, 0), (0.5, 0), (-0.1, 1), (-1, -1), (2, -1e-3)):
        for tr in (False, True):
            ok = min(ev) >= 0
            for ang in (0.0, 0.7):
                R = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
                (must_accept if ok else must_reject)(ctx, f"noise with eigenvalues {ev} at {ang}, trainable {tr}", lambda: lab.GaussRandNoise((0,), R @ np.diag(ev).astype(float) @ R.T, Y_trainable=tr))
    # purity of a ket from phase space
    for nu, tol in itertools.product((1.0, 1.001, 1.2, 2.0), (None, 1e-6, 0.1)):
        if tol is None and nu > 1:
            continue
        ok = tol is None or 1 / nu >= 1 - tol
        (must_accept if ok else must_reject)(ctx, f"ket from a covariance with symplectic eigenvalue {nu}, tolerance {tol}", lambda: lab.Ket.from_phase_space((0,), (0.5 * nu * np.eye(2), np.zeros(2), 1.0), atol_purity=tol))
    # batch shapes that do not combine
    for a, b in itertools.product(((), (1,), (2,), (3,), (2, 3), (3, 2)), repeat=2):
        try:
            np.broadcast_shapes(a, b)
            ok = True
        except ValueError:
            ok = False
        for cls, m, p, q in (("Sgate", 0, "r", "phi"), ("SqueezedVacuum", 0, "r", "phi"), ("BSgate", (0, 1), "theta", "phi"), ("S2gate", (0, 1), "r", "phi"), ("TwoModeSqueezedVacuum", (0, 1), "r", "phi"), ("MZgate", (0, 1), "phi_a", "phi_b"), ("DisplacedSqueezed", 0, "alpha", "r"), ("QuadratureEigenstate", 0, "x", "phi")):
            fn = lambda: getattr(lab, cls)(m, **{p: np.full(a, 0.2), q: np.full(b, 0.1)})
            if ok:
                c = must_accept(ctx, f"{cls} with parameters of shapes {a} and {b}", fn)
                if c is not None:
                    ctx.eq(tuple(c.ansatz.batch_shape), np.broadcast_shapes(a, b), f"{cls} with parameters of shapes {a} and {b}: batch shape")
            else:
                must_reject(ctx, f"{cls} with parameters of shapes {a} and {b}", fn)
    for cls in ("Ket", "DM", "Unitary", "Channel"):
        must_reject(ctx, f"random {cls} on no modes", lambda: getattr(lab, cls).random(()))
        must_reject(ctx, f"random {cls} on repeated modes", lambda: getattr(lab, cls).random((3, 3)))
    ctx.traces += 1


def r_operations(case, ctx):
    lab = L()
    states = {"ket": comps.build(("GKet", (0, 5, 13), 1)), "dm": lab.GDM((0, 5, 13), 0.9, comps.S_lib(1, 3)), "vac": lab.Vacuum((0, 5, 13)), "plain": comps.build(("GKet", (0, 5, 13), 1)) >> lab.Dgate(5, 0.1), "plain dm": comps.build(("GKet", (0, 5, 13), 1)) >> lab.Attenuator(5, 0.4), "fock": lab.Number(0, 1) >> lab.Number(5, 0) >> lab.Number(13, 2)}
    for k, s in states.items():
        for m in [0, 5, 13, 2, *tuples((1, 2, 3), (0, 5, 13, 2))]:
            t = (m,) if isinstance(m, int) else m
            if set(t) <= {0, 5, 13}:
                if len(set(t)) == len(t):
                    c = must_accept(ctx, f"{k}[{m}]", lambda: s[m])
                    if c is not None:
                        ctx.eq(set(c.modes), set(t), f"{k}[{m}]: modes")
            else:
                must_reject(ctx, f"{k}[{m}]", lambda: s[m], [s])
    one = {"ket0": lab.Coherent(0, 0.2), "ket5": lab.SqueezedVacuum(5, 0.1), "ket05": lab.TwoModeSqueezedVacuum((0, 5), 0.2), "dm0": lab.Thermal(0, 0.3), "dm5": lab.Thermal(5, 0.3), "dm05": lab.GDM((0, 5), 0.9, comps.S_lib(1, 2)), "fock0": lab.Number(0, 1), "fdm0": lab.Number(0, 1).dm()}
    for (ka, a), (kb, b) in itertools.product(one.items(), repeat=2):
        fn = lambda: float(np.real(np.asarray(a.fidelity(b))))
        if a.modes == b.modes:
            if "f" not in (ka + kb) or ka == kb == "fock0":
                must_accept(ctx, f"fidelity of {ka} and {kb}", fn)
        else:
            must_reject(ctx, f"fidelity of {ka} and {kb}", fn, [a, b])
    batch = lab.Coherent(0, np.array([0.1, 0.2]))
    must_reject(ctx, "fidelity of a batch of density matrices", lambda: batch.dm().fidelity(lab.Thermal(0, 0.1)))
    ops = {"D0": lab.Dgate(0, 0.1), "D5": lab.Dgate(5, 0.1), "BS": lab.BSgate((0, 5), 0.1, 0.2), "att": lab.Attenuator(0, 0.4), "ket0": lab.Coherent(0, 0.1), "ket5": lab.Coherent(5, 0.1), "dm0": lab.Thermal(0, 0.1), "dual": lab.Coherent(0, 0.1).dual, "io": alpha("op0"), "trace": lab.TraceOut(0)}
    for (ka, a), (ko, o) in itertools.product(one.items(), ops.items()):
        if "f" in ka:
            continue
        good = ko in ("D0", "D5", "BS", "ket0", "ket5", "dm0") and set(o.modes) <= set(a.modes)
        fn = lambda: np.asarray(a.expectation(o))
        (must_accept if good else (lambda c, w, f: must_reject(c, w, f, [a, o])))(ctx, f"expectation of {ko} in {ka}", fn)
    # quadratures
    q = np.linspace(-1, 1, 3)
    for k, n in (("ket0", 1), ("ket05", 2), ("dm0", 2), ("dm05", 4)):
        s = one[k]
        for j in range(6):
            (must_accept if j == n else must_reject)(ctx, f"{k}: quadrature with {j} vectors", lambda: np.asarray(s.quadrature(*[q] * j)))
            (must_accept if j == n else must_reject)(ctx, f"{k} in Fock space: quadrature with {j} vectors", lambda: np.asarray(s.to_fock(3).quadrature(*[q] * j)))
            (must_accept if j in (1, s.n_modes) else must_reject)(ctx, f"{k}: distribution with {j} vectors", lambda: np.asarray(s.quadrature_distribution(*[q] * j)))
    must_reject(ctx, "phase space of a Fock state", lambda: lab.Number(0, 1).to_fock(3).phase_space(0))
    must_reject(ctx, "triple of a Fock array", lambda: lab.Ket.from_fock((0,), np.array([0.3, 0.4])).bargmann_triple())
    for f in ("visualize_2d", "visualize_3d", "visualize_dm"):
        must_reject(ctx, f"{f} of two modes", lambda: getattr(one["ket05"], f)())
    # phase noise needs both sides of the mode
    must_reject(ctx, "phase noise on an absent mode", lambda: one["ket0"] >> lab.PhaseNoise(5, 0.3))
    must_reject(ctx, "phase noise on an absent mode of a density matrix", lambda: one["dm0"] >> lab.PhaseNoise(5, 0.3))
    ctx.traces += 1


def r_shapes(case, ctx):
    lab = L()
    objs = {"ket": lab.Coherent(0, 0.2), "ket2": lab.TwoModeSqueezedVacuum((0, 5), 0.2), "dm": lab.Thermal(0, 0.2), "gate": lab.Dgate(0, 0.1), "sgate": lab.Sgate(0, 0.1), "bs": lab.BSgate((0, 5), 0.3), "att": lab.Attenuator(0, 0.6), "num": lab.Number(0, 1, 3), "fock": lab.TwoModeSqueezedVacuum((0, 5), 0.2).to_fock(4), "dm2": lab.GDM((0, 5), 0.9, comps.S_lib(1, 2)),
            "d": lab.Dgate(0, 0.1), "amp": lab.Amplifier(0, 1.2), "poly": alpha("poly0"), "coh dm": lab.Coherent(0, 0.1).dm(), "sq": lab.SqueezedVacuum(0, 0.2), "rg": lab.Rgate(0, 0.3), "channel": lab.GaussRandNoise((0,), comps.Y_lib(0, 1))}
    for k, c in objs.items():
        nv = len(c.wires)
        for n in range(0, 6):
            for sh in ((2,) * n, (3, 0, 2, 2, 2)[:n], (1, 2, 3, 1, 2)[:n]):
                ok = n == nv and 0 not in sh
                if n == 0 and nv == 0:
                    continue
                if n == 0:  # (the empty tuple means no shape given)
                    continue
                (must_accept if ok else must_reject)(ctx, f"{k}: array of shape {sh}", lambda: np.asarray(c.fock_array(sh)))
                (must_accept if ok else must_reject)(ctx, f"{k}: conversion to shape {sh}", lambda: c.to_fock(sh))
        must_reject(ctx, f"{k}: array of shape -1", lambda: np.asarray(c.fock_array(-1)))
        must_accept(ctx, f"{k}: array of shape 2", lambda: np.asarray(c.fock_array(2)))
    ctx.traces += 1


def r_sums(case, ctx):
    lab = L()
    A = {k: alpha(k) for k in ALPHA}
    for (ka, a), (kb, b) in itertools.product(A.items(), repeat=2):
        same = sets(a) == sets(b)
        for op, f in (("+", lambda: a + b), ("-", lambda: a - b)):
            if not same:
                must_reject(ctx, f"{ka} {op} {kb}", f, [a, b])
            elif "num" not in ka + kb and "fock" not in ka + kb and ("tr" in ka) == ("tr" in kb) and "poly" not in ka + kb:
                must_accept(ctx, f"{ka} {op} {kb}", f)
    for k, a in A.items():
        for v in (3, 0.5j, "a", None):
            must_reject(ctx, f"{k} + {v!r}", lambda: a + v)
            must_reject(ctx, f"{k} - {v!r}", lambda: a - v)
    # trainable parameters that cannot be stacked
    mk = lambda a, tr, b: lab.Coherent(0, a, alpha_trainable=tr, alpha_bounds=b)
    must_reject(ctx, "sum of a trainable and a constant state", lambda: mk(0.1, True, (0, None)) + mk(0.2, False, (0, None)))
    must_reject(ctx, "sum of states with different bounds", lambda: mk(0.1, True, (0, None)) + mk(0.2, True, (0, 1.0)))
    must_accept(ctx, "sum of trainable states", lambda: mk(0.1, True, (0, 1.0)) + mk(0.2, True, (0, 1.0)))
    must_reject(ctx, "sum of batches", lambda: lab.Coherent(0, np.array([0.1, 0.2])) + lab.Coherent(0, np.array([0.1, 0.3])))
    ctx.traces += 1


def r_settings(case, ctx):
    from mrmustard import math, settings

    names = [k for k in dir(settings) if k.isupper()]
    for nm in ("FOO", "hbar", "Hbar", "HBAR_", "AUTOSHAPE", "SEEDS", "CACHE"):
        must_reject(ctx, f"setting {nm}", lambda: setattr(settings, nm, 1))
        must_reject(ctx, f"temporary setting {nm}", lambda: settings(**{nm: 1}))
        for other in ("HBAR", "ATOL", "SEED", "AUTOSHAPE_MAX"):
            must_reject(ctx, f"temporary settings {nm} and {other}", lambda: settings(**{nm: 1, other: 7}).__enter__())
            must_reject(ctx, f"temporary settings {other} and {nm}", lambda: settings(**{other: 7, nm: 1}).__enter__())
    for b in ("torch", "tensorflow", "", "Numpy", "NUMPY", None, 3):
        must_reject(ctx, f"backend {b!r}", lambda: math.change_backend(b))
        ctx.eq(math.backend_name, "numpy", f"backend after asking for {b!r}")
    ctx.check(len(names) > 8, "settings exist")
    ctx.traces += 1


def r_ansatz(case, ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    rnd = zoo.rnd
    for n in (1, 2, 3):
        A = rnd(1, n, n) * 0.1
        p = PolyExpAnsatz(A + A.T, rnd(2, n), 0.7)
        a = ArrayAnsatz(rnd(3, *range(2, 2 + n)))
        for k, x in (("exponential", p), ("array", a)):
            for m in range(0, 4):
                for order in itertools.product(range(n + 1), repeat=m):
                    ok = sorted(order) == list(range(n))
                    (must_accept if ok else must_reject)(ctx, f"{k} with {n} variables: order {order}", lambda: use(x.reorder(order)))
            for iz, ic in itertools.product([t for j in range(3) for t in itertools.product(range(n + 1), repeat=j)], repeat=2):
                ok = len(iz) == len(ic) and len(set(iz + ic)) == len(iz) + len(ic) and all(i < n for i in iz + ic)
                if ok and k == "array" and iz and any(x.array.shape[i] != x.array.shape[j] for i, j in zip(iz, ic)):
                    continue
                (must_accept if ok else must_reject)(ctx, f"{k} with {n} variables: trace of {iz} with {ic}", lambda: use(x.trace(iz, ic)))
        for m in range(n, 5):  # (fewer values: a partial evaluation)
            z = [np.array(0.1)] * m
            (must_accept if m == n else must_reject)(ctx, f"function of {n} variables at {m} values", lambda: np.asarray(p(*z)))
        must_reject(ctx, "array ansatz called", lambda: a(0.1))
        for m in range(0, 5):
            (must_accept if m == n else must_reject)(ctx, f"array of rank {n} reduced to rank {m}", lambda: use(a.reduce((2,) * m)))
        # sums of different numbers of variables
        for m in (1, 2, 3):
            q = PolyExpAnsatz(np.zeros((m, m)), np.zeros(m), 1.0)
            (must_accept if m == n else must_reject)(ctx, f"sum of functions of {n} and {m} variables", lambda: use(p + q))
        must_reject(ctx, "sum of a function and an array", lambda: use(p + a))
        must_reject(ctx, "sum of a function and a number", lambda: use(p + 3))
        must_reject(ctx, "sum of batches", lambda: use(PolyExpAnsatz(np.zeros((2, n, n)), np.zeros((2, n)), np.ones(2)) + p))
    # contraction labels
    n1, n2 = 2, 2
    A = rnd(1, 2, 2) * 0.1
    p = PolyExpAnsatz(A + A.T, rnd(2, 2), 0.7)
    q = PolyExpAnsatz((A + A.T) * 0.5, rnd(4, 2), 0.3)
    a, b = ArrayAnsatz(rnd(3, 3, 3)), ArrayAnsatz(rnd(5, 3, 3))
    lab = range(3)
    for i1 in itertools.chain.from_iterable(itertools.product(lab, repeat=r) for r in (1, 2, 3)):
        for i2 in itertools.chain.from_iterable(itertools.product(lab, repeat=r) for r in (1, 2)):
            distinct = len(set(i1)) == len(i1) and len(set(i2)) == len(i2)
            sym = set(i1) ^ set(i2)
            for out in {tuple(sorted(sym)), tuple(sorted(sym))[::-1], tuple(sorted(set(i1) | set(i2))), (), tuple(sorted(sym)) * 2, (4,)}:
                ok = len(i1) == 2 and len(i2) == 2 and distinct and sorted(out) == sorted(sym)
                (must_accept if ok else must_reject)(ctx, f"contraction of functions {i1}, {i2} to {out}", lambda: use(p.contract(q, i1, i2, out)))
    for i1, i2 in (((0,), (0, 1)), ((0, 1, 2), (0, 1)), ((0, 1), (0,))):
        must_reject(ctx, f"contraction of arrays {i1}, {i2}", lambda: use(a.contract(b, i1, i2, (1,))))
    must_reject(ctx, "contraction of arrays with a label from nowhere", lambda: use(a.contract(b, (0, 1), (1, 2), (0, 5))))
    ctx.traces += 1


def use(x):
    return np.asarray(x.array) if hasattr(x, "array") and type(x).__name__ == "ArrayAnsatz" else [np.asarray(v) for v in x.triple]


def r_wires(case, ctx):
    from mrmustard.physics.wires import Wires

    subs = [set(), {0}, {5}, {0, 5}]
    for x in itertools.product(subs, repeat=4):
        if not any(x):
            continue
        for y in itertools.product(subs, repeat=4):
            w, v = Wires(*x), Wires(*y)
            clash = any(a & b for a, b in zip(x, y))
            fn = lambda: w + v
            st, r = attempt(fn)
            ctx.check((st == "rejected") == clash, f"wires {x} + {y}", st)
            # composition: out of x with in of y
            keep = [x[0] - y[1], y[1] - x[0], x[2] - y[3], y[3] - x[2]]
            bad = keep[0] & y[0] or keep[1] & x[1] or keep[2] & y[2] or keep[3] & x[3]
            st, r = attempt(lambda: w @ v)
            ctx.check((st == "rejected") == bool(bad), f"wires {x} @ {y}", st)
            ctx.transitions += 2
    ctx.see("wires")
    ctx.traces += 1


def r_stellar(case, ctx):
    lab = L()
    k = comps.build(("GKet", (0, 5, 13), 1))
    d = k.dm() >> lab.Attenuator(0, 0.5) >> lab.Attenuator(5, 0.5) >> lab.Attenuator(13, 0.5)
    for s, names in ((k, ("formal_stellar_decomposition", "physical_stellar_decomposition")), (d, ("formal_stellar_decomposition", "physical_stellar_decomposition", "physical_stellar_decomposition_mixed"))):
        for f in names:
            for m in tuples((1, 2), (0, 5, 13, 2)):
                bad = len(set(m)) != len(m) or not set(m) <= {0, 5, 13}
                if bad:
                    must_reject(ctx, f"{type(s).__name__}.{f}({m})", lambda: getattr(s, f)(m), [s])
                elif list(m) == sorted(m) and s is k:
                    must_accept(ctx, f"{type(s).__name__}.{f}({m})", lambda: getattr(s, f)(m))
    ctx.traces += 1


def r_circuit(case, ctx):
    lab = L()
    comps_ = {k: alpha(k) for k in ("ket0", "ket5", "gate0", "gate05", "att5", "ket0d", "dm0")}
    for ks in itertools.chain.from_iterable(itertools.product(comps_, repeat=r) for r in (2, 3)):
        cs = [comps_[k] for k in ks]
        # sequential meaning
        cur, ok = sets(cs[0]), True
        for c in cs[1:]:
            y = sets(c)
            cb, yb = bool(cur["ob"] | cur["ib"]), bool(y["ob"] | y["ib"])
            x = both(cur, adj(cur)) if yb and not cb else cur
            y = both(y, adj(y)) if cb and not yb else y
            cur = compose(x, y)
            if cur is None:
                ok = False
                break
        # the first component that is already a number cannot be continued by the check's bookkeeping
        if ok and not any(cur.values()):
            continue
        try:
            c = lab.Circuit(cs)
        except Exception:  # noqa: BLE001
            ctx.check(not ok, f"circuit {ks}: must be accepted")
            continue
        must_reject(ctx, f"circuit {ks} without a path", lambda: c.contract()) if len(cs) > 1 and not c.path else None
        c.path = [(0, i) for i in range(1, len(cs))]
        fn = lambda: c.contract()
        if ok:
            st, r = attempt(fn)
            ctx.check(st == "ok", f"circuit {ks}: must be accepted", f"{st} {r}"[:160])
            if st == "ok" and hasattr(r, "wires"):
                ctx.eq(sets(r), cur, f"circuit {ks}: wires of the result")
        else:
            must_reject(ctx, f"circuit {ks}", fn, cs)
        for p in ([(0, 1)] * (len(cs) - 2) if len(cs) > 2 else [], [(0, 1)] * len(cs)):
            c.path = list(p)
            if len(p) != len(cs) - 1:
                must_reject(ctx, f"circuit {ks} with a path of {len(p)} steps", lambda: c.contract())
        ctx.transitions += 1
    ctx.traces += 1
