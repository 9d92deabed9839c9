"""C19: every operation of the API on every object of the catalogue leaves its operands unchanged, twice gives the same, and the result
can be changed without reaching back."""

import io
import contextlib
import os
import warnings

import numpy as np

from mc import zoo

LEVEL = "model_checking"
RULE = ("every object of the catalogue x every unary operation, and every (object, partner, operation) for the binary ones: snapshot of all operands (class, wires and their attributes, name, parameters, ansatz structure and values) before and after, "
        "operation evaluated twice, result then changed through its public interface (manual shape, wire attributes, component lists and paths) and the operands compared again; circuits: building, optimising, contracting, displaying; sequences of two operations")
ASSUMPTIONS = ["light copies share their ansatz by documentation; arrays handed out (A, b, c, array, parameter values) are views by convention and only the operations themselves must not write into them"]
CASE_LIMIT = 300
BUDGET = 400

SKIP = ("Sauron",)


def cases(tier):
    out = []
    for n in zoo.ZOO:
        if tier == "quick" and n.startswith(("Map:", "Operation:")) and "derived" in n:
            continue
        out.append({"id": f"un-{n}", "part": "unary", "name": n, "tier": tier})
    for n in REPS:
        out.append({"id": f"bin-{n}", "part": "binary", "name": n, "tier": tier})
    for n in ANS:
        out.append({"id": f"ans-{n}", "part": "ansatz", "name": n})
    for k in range(4):
        out.append({"id": f"circ-{k}", "part": "circ", "k": k})
    out.append({"id": "args", "part": "args"})
    out.append({"id": "cached", "part": "cached"})
    out.append({"id": "seq", "part": "seq"})
    return out


def warm():
    from checks.C07 import warm as w

    w()


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    settings.DEFAULT_FOCK_SIZE = 4
    settings.AUTOSHAPE_MAX = 5
    globals()["r_" + case["part"]](case, ctx)


def L():
    import mrmustard.lab as lab

    return lab


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


UNARY = {
    "dual": lambda c: c.dual,
    "adjoint": lambda c: c.adjoint,
    "to_fock": lambda c: c.to_fock(),
    "to_fock 3": lambda c: c.to_fock(3),
    "to_bargmann": lambda c: c.to_bargmann(),
    "fock_array": lambda c: c.fock_array(3),
    "fock_array auto": lambda c: c.fock_array(),
    "auto_shape": lambda c: c.auto_shape(),
    "bargmann_triple": lambda c: [np.array(x) for x in c.bargmann_triple()],
    "to_quadrature": lambda c: c.to_quadrature(0.3),
    "quadrature_triple": lambda c: [np.array(x) for x in c.quadrature_triple(0.3)],
    "quadrature": lambda c: c.quadrature(*([np.array([0.1, 0.2])] * c.n_modes)),
    "on": lambda c: c.on([30 + i for i in range(len(c.modes))]),
    "repr": lambda c: repr(c),
    "html": lambda c: quiet(lambda: c._ipython_display_()),
    "eq": lambda c: c == c,
    "sum": lambda c: c + c,
    "diff": lambda c: c - c,
    "neg": lambda c: -1 * c,
    "scale": lambda c: 2.0j * c,
    "divide": lambda c: c / 2.0,
    "dm": lambda c: c.dm(),
    "normalize": lambda c: c.normalize(),
    "purity": lambda c: c.purity,
    "probability": lambda c: c.probability,
    "L2_norm": lambda c: c.L2_norm,
    "is_physical": lambda c: c.is_physical,
    "is_pure": lambda c: c.is_pure,
    "phase_space": lambda c: c.phase_space(0),
    "fock_distribution": lambda c: c.fock_distribution(3),
    "wigner": lambda c: c.wigner,
    "quadrature_distribution": lambda c: c.quadrature_distribution(np.linspace(-1, 1, 3)),
    "number_means": lambda c: c.number_means,
    "number_cov": lambda c: c.number_cov,
    "formal_stellar": lambda c: c.formal_stellar_decomposition([sorted(c.modes)[0]]),
    "getitem": lambda c: c[sorted(c.modes)[0]],
    "inverse": lambda c: c.inverse(),
    "is_cp": lambda c: c.is_CP,
    "is_tp": lambda c: c.is_TP,
    "is_unitary": lambda c: c.is_unitary,
    "symplectic": lambda c: c.symplectic,
    "XY": lambda c: c.XY,
    "expectation": lambda c: c.expectation(L().Number(sorted(c.modes)[0], 1).dm()),
    "trace out": lambda c: c >> L().TraceOut(sorted(c.modes)[0]),
    "gate": lambda c: c >> L().Dgate(sorted(c.modes)[0], 0.2),
    "channel": lambda c: c >> L().Attenuator(sorted(c.modes)[0], 0.4),
    "phase noise": lambda c: c >> L().PhaseNoise(sorted(c.modes)[0], 0.4),
    "apply to vacuum": lambda c: L().Vacuum(tuple(c.modes)) >> c,
    "apply to mixed": lambda c: L().Vacuum(tuple(c.modes)).dm() >> c,
    "apply to array": lambda c: L().Vacuum(tuple(c.modes)).to_fock(3) >> c,
    "apply to mixed array": lambda c: L().Vacuum(tuple(c.modes)).dm().to_fock(3) >> c,
    "with dual": lambda c: c >> c.dual,
    "contract dual": lambda c: c.contract(c.dual),
    "serialize": lambda c: c._serialize(),
    "light copy": lambda c: c._light_copy(),
    "circuit": lambda c: L().Circuit([c]),
    "circuit contract": lambda c: L().Circuit([c, c.dual]).contract(),
    "flatten": lambda c: c._tree_flatten(),
}


def plain(x, depth=0):
    """comparable picture of a result"""
    if depth > 4:
        return "..."
    if hasattr(x, "ansatz") and hasattr(x, "wires"):
        s = zoo.snapshot(x)
        return (s["class"], s["wires"], s["name"], s["ansatz"], [np.asarray(v) for v in s.get("values", [])], [(k, v[0], v[2]) for k, v in s["parameters"].items()])
    if hasattr(x, "components") and hasattr(x, "path"):
        return ("circuit", [plain(c, depth + 1) for c in x.components], list(x.path))
    if hasattr(x, "triple"):
        return ("ansatz", [np.array(v) for v in x.triple])
    if hasattr(x, "all_parameters"):
        return ("parameters", [(k, np.array(v.value)) for k, v in x.all_parameters.items()])
    if isinstance(x, (list, tuple)):
        return [plain(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return {k: plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return np.array(x)
    if callable(x):
        return "fn"
    return x


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.dtype == object or np.allclose(a, b, atol=1e-12, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if type(a).__module__.startswith("mrmustard"):
        return True
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:  # noqa: BLE001
        return True


def scribble(x, light=False):
    """change a result through its public interface"""
    done = []
    if isinstance(x, np.ndarray):
        pass  # arrays are handed out as views by convention
    elif isinstance(x, (list, tuple)):
        for y in x:
            done += scribble(y)
    elif isinstance(x, dict):
        for y in x.values():
            done += scribble(y)
    elif hasattr(x, "components"):
        x.path.append((7, 7))
        if x.components:
            x.components.append(x.components[0])
    elif hasattr(x, "ansatz") and hasattr(x, "wires"):
        try:
            x.manual_shape = tuple(9 for _ in x.manual_shape)
            done.append("manual_shape")
        except Exception:  # noqa: BLE001
            pass
        for w in x.wires.quantum.sorted_wires:
            w.fock_cutoff = 8
        x.wires.quantum  # noqa: B018
        done.append("wires")
    return done


def snap_all(objs):
    return [zoo.snapshot(o) for o in objs]


def diff(a, b):
    """name of the first difference of two snapshots, or None"""
    for k in a:
        if k == "values":
            if len(a[k]) != len(b[k]):
                return "values"
            for x, y in zip(a[k], b[k]):
                if x.shape != y.shape or not np.allclose(x, y, atol=1e-13, equal_nan=True):
                    return "values"
        elif k == "parameters":
            if a[k].keys() != b[k].keys():
                return "parameter names"
            for n in a[k]:
                u, v = a[k][n], b[k][n]
                if u[0] != v[0] or u[1] != v[1] or u[3:] != v[3:] or u[2].shape != v[2].shape or not np.array_equal(u[2], v[2]):
                    return f"parameter {n}"
        elif a[k] != b.get(k):
            return k
    return None


def probe(ctx, label, f, objs):
    """run f twice, compare operands, then change the result"""
    before = snap_all(objs)
    shapes = [o.manual_shape for o in objs]
    ctx.transitions += 1
    try:
        r1 = f()
    except Exception as e:  # noqa: BLE001
        r1 = e
    for i, (o, s) in enumerate(zip(objs, before)):
        d = diff(s, zoo.snapshot(o))
        ctx.check(d is None, f"{label}: operand {i} changed", str(d))
        if d is not None:
            return
    if isinstance(r1, Exception):
        try:
            f()
        except Exception as e:  # noqa: BLE001
            ctx.eq(type(e).__name__, type(r1).__name__, f"{label}: refused again in the same way")
        else:
            ctx.fail(f"{label}: refused at first, then answered", f"{type(r1).__name__}: {r1}"[:150])
        ctx.see("refused")
        return
    p1 = plain(r1)
    r2 = f()
    ctx.check(equal(p1, plain(r2)), f"{label}: evaluated twice, different answers")
    if any(r1 is o for o in objs):
        ctx.see("itself")
        return
    scribble(r1)
    for i, (o, s, sh) in enumerate(zip(objs, before, shapes)):
        d = diff(s, zoo.snapshot(o))
        ctx.check(d is None, f"{label}: changing the result changed operand {i}", str(d))
        ctx.eq(o.manual_shape, sh, f"{label}: manual shape of operand {i}")
    r3 = f()
    ctx.check(equal(p1, plain(r3)), f"{label}: after changing the result, another answer")
    ctx.see(label)


def r_unary(case, ctx):
    n = case["name"]
    for k, f in UNARY.items():
        if k in ("formal_stellar", "is_physical", "is_cp", "phase_space", "wigner") and "sup" in n and case["tier"] == "quick" and "@1" not in n:
            continue
        c = zoo.ZOO[n]()
        probe(ctx, f"{n}.{k}", lambda: f(c), [c])
        if len(ctx.fails) > 12:
            return
    ctx.traces += 1


REPS = ("Coherent", "SqueezedVacuum-train", "Number", "Thermal", "GKet@coll", "TwoModeSqueezedVacuum@coll", "Dgate", "BSgate@coll", "Attenuator-train", "GaussRandNoise@coll", "PhaseNoise", "TraceOut@coll", "Identity@coll",
        "Ket:sup", "Ket:arr", "DM:derived@1", "DM:arr@1", "Unitary:arr@1", "Channel:poly@1", "Ket:batch", "Ket:arrbatch", "BtoQ-phi", "Coherent-sum", "Ket:poly@1", "DM:sup@1", "Unitary:derived@1", "CircuitComponent:poly@1")


def r_binary(case, ctx):
    a = zoo.ZOO[case["name"]]()
    for n2 in REPS:
        b = zoo.ZOO[n2]()
        if len(b.modes) == len(a.modes) and tuple(b.modes) != tuple(a.modes):
            try:
                b = b.on(list(a.modes))
            except Exception:  # noqa: BLE001
                pass
        for label, f in (("a >> b", lambda: a >> b), ("b >> a", lambda: b >> a), ("contract", lambda: a.contract(b)), ("contract outer", lambda: a.contract(b, mode="zip")), ("a + b", lambda: a + b), ("a - b", lambda: a - b), ("a == b", lambda: a == b),
                         ("a.dual >> b", lambda: b >> a.dual), ("expectation", lambda: a.expectation(b)), ("fidelity", lambda: a.fidelity(b)), ("circuit", lambda: L().Circuit([a, b])), ("circuit >>", lambda: L().Circuit([a]) >> b)):
            if label in ("expectation", "fidelity") and not hasattr(a, label):
                continue
            probe(ctx, f"{case['name']} , {n2}: {label}", f, [a, b])
            if len(ctx.fails) > 12:
                return
    ctx.traces += 1


# ---- ansaetze -------------------------------------------------------------------------------------------
ANS = tuple(zoo.STRUCT)


def asnap(a):
    if hasattr(a, "triple"):
        return (a.batch_dims, a._lin_sup, [np.array(x) for x in a.triple])
    return (a.batch_dims, [np.array(a.array)])


def r_ansatz(case, ctx):
    n = case["name"]
    mk = lambda nv=2: zoo.STRUCT[n](nv)  # noqa: E731
    ops = {
        "conj": lambda a: a.conj,
        "neg": lambda a: -a,
        "mul 2": lambda a: a * 2.0,
        "mul": lambda a: a * a,
        "div 2": lambda a: a / 2.0,
        "div": lambda a: a / a,
        "add": lambda a: a + a,
        "sub": lambda a: a - a,
        "and": lambda a: a & a,
        "contract": lambda a: a.contract(a, [0, 1], [1, 2], [0, 2]),
        "contract zip": lambda a: a.contract(a, ["x", 0, 1], ["x", 1, 2], ["x", 0, 2]),
        "trace": lambda a: a.trace((0,), (1,)),
        "reorder": lambda a: a.reorder((1, 0)),
        "reorder same": lambda a: a.reorder((0, 1)),
        "reorder batch": lambda a: a.reorder_batch(list(range(a.batch_dims))[::-1]),
        "call": lambda a: a(0.1, 0.2),
        "call batch": lambda a: a(np.array([0.1, 0.2]), np.array([0.3, 0.4])),
        "partial": lambda a: a(0.1, None),
        "eval": lambda a: a.eval(np.array([0.1, 0.2]), np.array([0.3]), batch_string="i,j->ij"),
        "simplify": lambda a: a.simplify(),
        "decompose": lambda a: a.decompose_ansatz(),
        "reduce": lambda a: a.reduce(2),
        "eq": lambda a: a == a,
        "to_dict": lambda a: {k: np.array(v) for k, v in a.to_dict().items()},
        "scalar": lambda a: a.scalar,
        "repr": lambda a: repr(a),
        "PolyExp of expanded": lambda a: a._combine_exp_and_poly(np.ones(2), np.ones(2), np.ones(2)) if False else None,
        "fixed": lambda a: a.batch_shape,
    }
    for k, f in ops.items():
        a = mk()
        s = asnap(a)
        ctx.transitions += 1
        try:
            r = f(a)
        except Exception as e:  # noqa: BLE001
            r = e
        ctx.check(equal(list(s), list(asnap(a))), f"{n}.{k}: operand changed")
        if isinstance(r, Exception) or r is None:
            continue
        p = plain(r) if not hasattr(r, "batch_dims") else asnap(r)
        q = f(a)
        q = plain(q) if not hasattr(q, "batch_dims") else asnap(q)
        ctx.check(equal(list(p) if isinstance(p, tuple) else p, list(q) if isinstance(q, tuple) else q), f"{n}.{k}: evaluated twice, different answers")
        if r is a:
            continue
        scribble(r)
        if hasattr(r, "triple") and not hasattr(r, "wires"):
            for x in r.triple:
                pass
        ctx.check(equal(list(s), list(asnap(a))), f"{n}.{k}: changing the result changed the operand")
        ctx.see(k)
    ctx.traces += 1


# ---- circuits -------------------------------------------------------------------------------------------
def r_circ(case, ctx):
    lab = L()
    lists = [
        lambda: [lab.Vacuum(0), lab.Sgate(0, 0.1), lab.SqueezedVacuum(1, 0.2), lab.BSgate((0, 1), 0.3), lab.Number(0, 1).dual, lab.Coherent(1, 0.3).dual],
        lambda: [lab.Number(5, 1), lab.Coherent(13, 0.2, alpha_trainable=True), lab.BSgate((5, 13), 0.3), lab.Attenuator(5, 0.4), lab.Number(5, 0).dual, lab.TraceOut(13)],
        lambda: [lab.Ket.from_fock((0,), np.array([0.6, 0.8j, 0])), lab.Sgate(0, 0.1), lab.Dgate(0, 0.2), lab.Number(0, 2).dual],
        lambda: [lab.Coherent(2, 0.3) + lab.Coherent(2, -0.3), lab.Dgate(2, 0.1), lab.Number(2, 1).dual],
    ]
    comps = lists[case["k"]]()
    before = snap_all(comps)
    shapes = [c.manual_shape for c in comps]

    def ok(what):
        for i, (c, s, sh) in enumerate(zip(comps, before, shapes)):
            d = diff(s, zoo.snapshot(c))
            ctx.check(d is None, f"{what}: component {i} changed", str(d))
            ctx.eq(c.manual_shape, sh, f"{what}: manual shape of component {i}")

    circ = lab.Circuit(comps)
    ok("building")
    inner = [zoo.snapshot(c) for c in circ.components]
    path0 = list(circ.path)

    def same(what, path=None):
        ok(what)
        for i, (c, s) in enumerate(zip(circ.components, inner)):
            d = diff(s, zoo.snapshot(c))
            ctx.check(d is None, f"{what}: component {i} of the circuit changed", str(d))
        if path is not None:
            ctx.eq(list(circ.path), path, f"{what}: path")

    steps = {
        "contract": lambda: circ.contract(),
        "contract again": lambda: circ.contract(),
        "repr": lambda: repr(circ),
        "html": lambda: quiet(lambda: circ._ipython_display_()) if hasattr(circ, "_ipython_display_") else None,
        "eq": lambda: circ == circ,
        "len": lambda: len(circ),
        "iter": lambda: list(circ),
        "getitem": lambda: circ[0],
        "append": lambda: circ >> lab.Identity(tuple(sorted(comps[0].modes))),
        "append circuit": lambda: circ >> circ,
        "serialize": lambda: [c._serialize() for c in circ.components],
        "check_contraction": lambda: quiet(lambda: circ.check_contraction(1)),
    }
    first = None
    for k, f in steps.items():
        ctx.transitions += 1
        try:
            r = f()
        except Exception as e:  # noqa: BLE001
            ctx.see(k, type(e).__name__)
            r = None
        same(k, path0)
        if k == "contract":
            first = plain(r)
        if k == "contract again":
            ctx.check(equal(first, plain(r)), "contracting twice gives the same")
        if hasattr(r, "components") and r is not circ:
            r.components.append(comps[0])
            r.path.append((0, 9))
            same(f"changing the result of {k}", path0)
    # optimisation sets the path (and only that) of this circuit
    try:
        quiet(lambda: circ.optimize(verbose=False))
    except NotImplementedError:
        ctx.see("optimize refused")
    ok("optimize")
    got = plain(circ.contract())
    ctx.check(equal(first, got) or (not isinstance(first, tuple) and np.allclose(first, got, atol=1e-6 if case["k"] != 2 else 1e-2)), "contracting after optimising gives the same", f"{first} {got}")
    for i, (c, s) in enumerate(zip(circ.components, inner)):
        d = diff({k: v for k, v in s.items() if k not in ("wire attributes",)}, zoo.snapshot(c))
        ctx.check(d is None, f"optimize: component {i} of the circuit changed", str(d))
    quiet(lambda: circ.optimize_fock_shapes(verbose=False)) if hasattr(circ, "optimize_fock_shapes") else None
    ok("optimize_fock_shapes")
    ctx.traces += 1


# ---- arguments ------------------------------------------------------------------------------------------
def r_args(case, ctx):
    """arrays, lists and tuples passed to constructors and functions are left as they were"""
    from mc import comps

    lab = L()
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    S, U, O, Y = comps.S_lib(1, 2), comps.U_lib(1, 2), comps.O_lib(1, 2), comps.Y_lib(1, 2)
    A, b, c = lab.TwoModeSqueezedVacuum((0, 1), 0.3).bargmann_triple()
    A, b, c = np.array(A), np.array(b), np.array(c)
    v = np.array([0.6, 0.8j, 0.0])
    m = np.array([[0.5, 0.1j], [-0.1j, 0.5]])
    cov, mean = np.eye(4) * 0.5, np.array([0.1, 0.2, 0.3, 0.4])
    calls = {
        "GKet": (lambda s: lab.GKet((0, 1), s), [S]),
        "GDM": (lambda s, x: lab.GDM((0, 1), x, s), [S, np.array([1.0, 1.2])]),
        "Ggate": (lambda s: lab.Ggate((0, 1), s), [S]),
        "Interferometer": (lambda s: lab.Interferometer((0, 1), s), [U]),
        "RealInterferometer": (lambda s: lab.RealInterferometer((0, 1), s), [O]),
        "GaussRandNoise": (lambda s: lab.GaussRandNoise((0, 1), s), [Y]),
        "Coherent": (lambda x: lab.Coherent(0, x), [np.array([0.1, 0.2])]),
        "Ggate train": (lambda s: lab.Ggate((0, 1), s, symplectic_trainable=True), [S]),
        "Ket.from_fock": (lambda x: lab.Ket.from_fock((0,), x), [v]),
        "Ket.from_bargmann": (lambda x, y, w: lab.Ket.from_bargmann((0, 1), (x, y, w)), [A, b, c]),
        "DM.from_fock": (lambda x: lab.DM.from_fock((0,), x), [m]),
        "DM.from_phase_space": (lambda x, y: lab.DM.from_phase_space((0, 1), (x, y, 1.0)), [cov, mean]),
        "Ket.from_phase_space": (lambda x, y: lab.Ket.from_phase_space((0, 1), (x, y, 1.0)), [cov, mean]),
        "Unitary.from_symplectic": (lambda s: lab.Unitary.from_symplectic((0, 1), s), [S]),
        "Ket.from_quadrature": (lambda x, y, w: lab.Ket.from_quadrature((0, 1), (x, y, w)), [-np.eye(2) * 0.9 + 0j, b, c]),
        "PolyExpAnsatz": (lambda x, y, w: PolyExpAnsatz(x, y, w), [A, b, c]),
        "ArrayAnsatz": (lambda x: ArrayAnsatz(x), [v]),
        "Channel.from_XY": (lambda x, y: lab.Channel.from_XY((0, 1), (0, 1), x, y), [0.6 * np.eye(4), 0.5 * np.eye(4)]),
    }
    use = (lambda o: o.dual, lambda o: o.fock_array(3), lambda o: o.to_fock(3), lambda o: o >> o.dual, lambda o: o + o, lambda o: o.to_quadrature(), lambda o: o.dm(), lambda o: o.simplify(), lambda o: o.normalize(),
           lambda o: o(np.array(0.1)), lambda o: o.quadrature(np.array([0.1]), np.array([0.2])), lambda o: o * 2, lambda o: o / 2)
    for k, (f, args) in calls.items():
        keep = [x.copy() for x in args]
        try:
            o = f(*args)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{k}: raised", f"{type(e).__name__}: {e}"[:150])
            continue
        for u in use:
            try:
                u(o)
            except Exception:  # noqa: BLE001
                pass
            ctx.transitions += 1
        for i, (x, y) in enumerate(zip(args, keep)):
            ctx.check(np.array_equal(x, y), f"{k}: argument {i} was changed")
        ctx.see(k)
    # evaluation points
    st = lab.Coherent(0, 0.3)
    q = np.linspace(-1, 1, 5)
    k0 = q.copy()
    st.quadrature(q)
    st.quadrature_distribution(q)
    st.to_quadrature().ansatz(q)
    st.ansatz.eval(q)
    np.testing.assert_array_equal(q, k0)
    path = [(0, 1), (0, 2)]
    circ = lab.Circuit([lab.Vacuum(0), lab.Dgate(0, 0.1), lab.Number(0, 0).dual])
    circ.path = path
    circ.contract()
    ctx.eq(path, [(0, 1), (0, 2)], "the path given to a circuit")
    lst = [lab.Vacuum(0), lab.Dgate(0, 0.1)]
    circ = lab.Circuit(lst)
    lst.append(lab.Dgate(0, 0.3))
    ctx.eq(len(circ), 2, "the list given to a circuit")
    circ.components.pop()
    ctx.eq(len(lst), 3, "the list given to a circuit is not shared")
    ctx.traces += 1


def r_cached(case, ctx):
    """values served from caches do not depend on what was done with earlier ones"""
    from mrmustard import math
    from mrmustard.physics import symplectics, triples  # noqa: F401

    lab = L()
    fns = {
        "J": lambda: math.J(2), "Xmat": lambda: math.Xmat(2), "Zmat": lambda: math.Zmat(2), "rotmat": lambda: math.rotmat(2), "eye": lambda: math.eye(3), "zeros": lambda: math.zeros((2, 2)), "ones": lambda: math.ones((2, 2)),
        "dagger": lambda: math.dagger(np.eye(2) * 1j),
    }
    probes = {
        "Ggate": lambda: lab.Ggate((0, 1), zoo.comps.S_lib(1, 2)).symplectic,
        "inverse": lambda: lab.Ggate((0, 1), zoo.comps.S_lib(1, 2)).inverse().symplectic,
        "phase space": lambda: lab.TwoModeSqueezedVacuum((0, 1), 0.3).phase_space(0),
        "channel": lambda: lab.Attenuator(0, 0.3).XY,
        "GDM": lambda: lab.GDM((0, 1), 0.9, zoo.comps.S_lib(1, 2)).phase_space(0),
        "fock": lambda: lab.BSgate((0, 1), 0.3).fock_array(3),
        "wires": lambda: lab.Vacuum((0, 1)) >> lab.BSgate((0, 1), 0.3),
        "quadrature": lambda: lab.Number(0, 2).quadrature(np.array([0.1, 0.2])),
        "identity": lambda: lab.Identity((0, 1)).bargmann_triple(),
        "vacuum": lambda: lab.Vacuum((0, 1)).bargmann_triple(),
        "trace out": lambda: lab.TraceOut((0, 1)).bargmann_triple(),
    }
    base = {k: plain(f()) for k, f in probes.items()}
    vals = {k: np.array(f()) for k, f in fns.items()}
    # evaluating every pair of probes in every order changes nothing
    for k1 in probes:
        for k2 in probes:
            probes[k1]()
            ctx.check(equal(base[k2], plain(probes[k2]())), f"{k2} after {k1}")
            ctx.transitions += 1
    # changing results of probes in place
    for k1, f in probes.items():
        scribble(f())
        for k2 in probes:
            ctx.check(equal(base[k2], plain(probes[k2]())), f"{k2} after changing the result of {k1}")
            ctx.transitions += 1
        for k, g in fns.items():
            ctx.check(np.array_equal(np.array(g()), vals[k]), f"math.{k} after changing the result of {k1}")
    ctx.see("cached")
    ctx.traces += 1


def r_seq(case, ctx):
    """two operations in a row on the same objects, all ordered pairs"""
    keys = ("dual", "adjoint", "to_fock", "to_bargmann", "fock_array", "auto_shape", "sum", "scale", "normalize", "dm", "gate", "channel", "phase noise", "with dual", "number_means", "probability", "circuit contract", "to_quadrature", "getitem", "fock_distribution")
    for n in ("Coherent", "Ket:sup@1", "Number", "DM:derived@1", "SqueezedVacuum-train", "GKet@coll", "Thermal"):
        c = zoo.ZOO[n]()
        fresh = {}
        for k in keys:
            try:
                fresh[k] = plain(UNARY[k](zoo.ZOO[n]()))
            except Exception as e:  # noqa: BLE001
                fresh[k] = type(e).__name__
        for k1 in keys:
            for k2 in keys:
                for k in (k1, k2):
                    try:
                        r = plain(UNARY[k](c))
                    except Exception as e:  # noqa: BLE001
                        r = type(e).__name__
                    ctx.check(equal(fresh[k], r), f"{n}: {k} in the sequence {k1}, {k2} differs from a fresh evaluation")
                ctx.transitions += 1
                if len(ctx.fails) > 8:
                    return
        ctx.see(n)
    ctx.traces += 1


del os
