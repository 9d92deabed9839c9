"""C22: components as trees of leaves (flatten, rebuild, map) and under compilation and vectorisation: every object of the catalogue, every
class x operation, every ordered sequence of two calls of one compiled function from a set of variants."""

import itertools
import warnings

import numpy as np

from mc import zoo

LEVEL = "model_checking"
RULE = ("every object of the catalogue under the second backend: leaves and structure, rebuilding, rebuilding twice, mapping over leaves, nesting in circuits, parameter sets and containers; every class x operation built inside a compiled function, "
        "evaluated at several points and vectorised; one compiled function called with every ordered pair of variants (variables, constants, modes, names, shapes, batches, representations changed)")
ASSUMPTIONS = ["a refusal (an exception) of a request inside a compiled function is accepted only for the operations listed in REFUSALS; values, when returned, must agree"]
CASE_LIMIT = 800
BUDGET = 500
REFUSALS = {"project", "v project"}  # the automatic Fock shape depends on values

NAMES = list(zoo.ZOO)
CHUNK = 24


def cases(tier):
    out = []
    names = [n for n in NAMES if not (tier == "quick" and n.startswith(("Map:", "Operation:")) and "derived" in n)]
    for i in range(0, len(names), CHUNK):
        out.append({"id": f"tree-{i // CHUNK:02d}", "part": "tree", "names": names[i:i + CHUNK]})
    out.append({"id": "containers", "part": "containers"})
    for c in BUILD:
        out.append({"id": f"build-{c}", "part": "build", "cls": c})
    for n in ARGS:
        out.append({"id": f"args-{n}", "part": "args", "group": n, "deep": tier == "thorough"})
    out.append({"id": "mutate", "part": "mutate"})
    out.append({"id": "ansatz", "part": "ansatz"})
    return out


def warm():
    from checks.C07 import warm as w

    w()


def L():
    import mrmustard.lab as lab

    return lab


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import math, settings

    settings.DEFAULT_FOCK_SIZE = 4
    settings.AUTOSHAPE_MAX = 5
    math.change_backend("jax")
    globals()["r_" + case["part"]](case, ctx)


# ---- trees ----------------------------------------------------------------------------------------------
def r_tree(case, ctx):
    import jax

    for n in case["names"]:
        try:
            c = zoo.ZOO[n]()
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{n}: cannot be built", f"{type(e).__name__}: {e}"[:150])
            continue
        for read in (False, True):
            s = snap(c) if read else None
            leaves, tree = jax.tree_util.tree_flatten(c)
            d = jax.tree_util.tree_unflatten(tree, leaves)
            if s is None:
                s = snap(c)
            tag = f"{n} ({'after' if read else 'before'} reading)"
            ctx.eq(type(d).__name__, type(c).__name__, f"{tag}: class")
            zoo.same(ctx, s, snap(d), tag)
            zoo.same(ctx, s, snap(c), f"{tag}: the flattened object")
            ctx.check(c == d or c.ansatz is None, f"{tag}: equal")
            ctx.transitions += 1
            vs = c.parameters.variables
            want = sorted(vs)
            got = {np.asarray(x).tobytes() for x in leaves}
            ctx.check(got == {np.asarray(vs[k].value).tobytes() for k in want}, f"{tag}: the leaves are the values of the variables", f"{len(leaves)} leaves, variables {want}")
            ctx.eq(repr_safe(d), repr_safe(c), f"{tag}: text")
            # flattening the rebuilt object
            l2, t2 = jax.tree_util.tree_flatten(d)
            ctx.eq(len(l2), len(leaves), f"{tag}: leaves of the rebuilt object")
            e = jax.tree_util.tree_map(lambda x: x, d)
            zoo.same(ctx, s, snap(e), f"{tag}: mapped by the identity")
            # other leaf values
            if vs:
                q = 1.1 if "gain" in vs else 0.9
                f = jax.tree_util.tree_map(lambda x: x * q, c)
                for k in want:
                    ctx.close(np.asarray(f.parameters.all_parameters[k].value), q * np.asarray(vs[k].value), f"{tag}: mapped variable {k}")
                # the same values written into a fresh object
                g = zoo.ZOO[n]()
                for k in want:
                    g.parameters.variables[k].value = q * np.asarray(vs[k].value)
                if f.ansatz is not None and n.count(".") == 0:
                    ctx.check(tclose(f, g), f"{tag}: the mapped object follows its variables")
                zoo.same(ctx, s, snap(c), f"{tag}: mapping leaves the object alone")
                # later updates of the rebuilt object stay with it, and reach its representation
                d.parameters.variables[want[0]].value = q * np.asarray(vs[want[0]].value)
                g = zoo.ZOO[n]()
                g.parameters.variables[want[0]].value = q * np.asarray(vs[want[0]].value)
                if d.ansatz is not None and n.count(".") == 0:
                    ctx.check(tclose(d, g), f"{tag}: the rebuilt object follows updates")
                zoo.same(ctx, s, snap(c), f"{tag}: updating the rebuilt object leaves the original alone")
            if len(ctx.fails) > 10:
                return
        ctx.see(n)
    ctx.traces += 1


def snap(c):
    """dictionaries are rebuilt with their keys in alphabetical order: the order of the parameters is in their list of names"""
    s = zoo.snapshot(c)
    s["parameters"] = dict(sorted(s["parameters"].items()))
    s["modes"] = (s["modes"], tuple(c.parameters.names))
    return s


def repr_safe(x):
    try:
        return repr(x)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def tclose(a, b, atol=1e-10):
    if hasattr(a.ansatz, "triple"):
        x, y = a.ansatz.triple, b.ansatz.triple
    else:
        x, y = [a.ansatz.array], [b.ansatz.array]
    return all(np.shape(p) == np.shape(q) and np.allclose(np.asarray(p), np.asarray(q), atol=atol, equal_nan=True) for p, q in zip(x, y))


def r_containers(case, ctx):
    import jax
    from mrmustard.math.parameter_set import ParameterSet
    from mrmustard.math.parameters import Constant, Variable

    lab = L()
    # parameters and parameter sets
    for p in (Constant(0.3, "a"), Constant([1.0, 2], "b"), Variable(0.4j, "c", (None, None)), Variable(np.eye(2), "d", (0, 1.0), "update_orthogonal")):
        leaves, tree = jax.tree_util.tree_flatten(p)
        q = jax.tree_util.tree_unflatten(tree, leaves)
        ctx.eq((type(q).__name__, q.name, getattr(q, "bounds", None), getattr(q, "update_fn", None)), (type(p).__name__, p.name, getattr(p, "bounds", None), getattr(p, "update_fn", None)), f"parameter {p.name}")
        ctx.close(np.asarray(q.value), np.asarray(p.value), f"value of parameter {p.name}")
        ctx.eq(len(leaves), int(isinstance(p, Variable)), f"leaves of parameter {p.name}")
        ctx.transitions += 1
    pool = {"z": Variable(1.0, "z"), "a": Constant(2.0, "a"), "m": Variable([3.0, 4], "m", (0, None)), "b": Variable(5.0, "b"), "y": Constant([1, 2], "y")}
    for k in range(4):
        for seq in itertools.permutations(pool, k):
            ps = ParameterSet()
            for n in seq:
                ps.add_parameter(pool[n])
            leaves, tree = jax.tree_util.tree_flatten(ps)
            q = jax.tree_util.tree_unflatten(tree, leaves)
            ctx.eq(list(q.names), list(seq), f"{seq}: names in order")
            for n in seq:
                ctx.close(np.asarray(getattr(q, n).value), np.asarray(pool[n].value), f"{seq}: {n}")
                ctx.check(q.all_parameters[n] is getattr(q, n), f"{seq}: {n} by attribute and by name")
            r = jax.tree_util.tree_map(lambda x: x + 1, ps)
            for n in seq:
                ctx.close(np.asarray(r.all_parameters[n].value), np.asarray(pool[n].value) + isinstance(pool[n], Variable), f"{seq}: {n} after mapping")
            ctx.transitions += 1
    # circuits
    circs = {
        "empty": lambda: lab.Circuit([]),
        "plain": lambda: lab.Circuit([lab.Vacuum((0, 1)), lab.Sgate(0, 0.2), lab.BSgate((0, 1), 0.3)]),
        "train": lambda: lab.Circuit([lab.Coherent(5, 0.3, alpha_trainable=True), lab.Number(13, 1), lab.BSgate((5, 13), 0.3, 0.2, theta_trainable=True), lab.Attenuator(5, 0.4), lab.Number(13, 0).dual]),
        "same": lambda: (lambda s: lab.Circuit([lab.Vacuum(0), s, s, lab.TraceOut(0)]))(lab.Sgate(0, 0.2, r_trainable=True)),
        "noise": lambda: lab.Circuit([lab.Coherent(0, 0.3), lab.PhaseNoise(0, 0.2)]),
    }
    for k, mk in circs.items():
        c = mk()
        if len(c) > 2:
            c.path = [(0, i) for i in (2, 1)] + [(0, i) for i in range(3, len(c))] if k == "plain" else c.path
        leaves, tree = jax.tree_util.tree_flatten(c)
        d = jax.tree_util.tree_unflatten(tree, leaves)
        ctx.eq(type(d).__name__, "Circuit", f"circuit {k}: class")
        ctx.eq(list(d.path), list(c.path), f"circuit {k}: path")
        ctx.eq(len(d), len(c), f"circuit {k}: length")
        for x, y in zip(c.components, d.components):
            zoo.same(ctx, snap(x), snap(y), f"circuit {k}")
        if k != "noise":
            ctx.check(c == d, f"circuit {k}: equal")
        if len(c):
            a, b = c.contract(), d.contract()
            ctx.check(tclose(a, b) if hasattr(a, "ansatz") else np.allclose(a, b), f"circuit {k}: contraction")
        # nested containers
        box = {"x": [c, (c.components[0] if len(c) else None)], "y": 3.0}
        l2, t2 = jax.tree_util.tree_flatten(box)
        e = jax.tree_util.tree_unflatten(t2, l2)
        ctx.eq([type(v).__name__ for v in e["x"]], [type(v).__name__ for v in box["x"]], f"circuit {k} in a container")
        ctx.eq(e["y"], 3.0, f"circuit {k}: neighbours in a container")
        ctx.transitions += 1
        ctx.see(k)
    ctx.traces += 1


def r_ansatz(case, ctx):
    import jax

    for n, mk in zoo.STRUCT.items():
        for nv in (0, 1, 2, 3):
            try:
                a = mk(nv)
            except Exception:  # noqa: BLE001
                continue
            leaves, tree = jax.tree_util.tree_flatten(a)
            b = jax.tree_util.tree_unflatten(tree, leaves)
            ctx.eq(type(b).__name__, type(a).__name__, f"{n}/{nv}: class")
            ctx.eq((b.batch_dims, b._lin_sup, tuple(b.batch_shape), b.core_dims), (a.batch_dims, a._lin_sup, tuple(a.batch_shape), a.core_dims), f"{n}/{nv}: structure")
            x, y = (a.triple, b.triple) if hasattr(a, "triple") else ([a.array], [b.array])
            for i, (p, q) in enumerate(zip(x, y)):
                ctx.close(np.asarray(q), np.asarray(p), f"{n}/{nv}: array {i}")
            ctx.eq(leaves, [], f"{n}/{nv}: no leaves")
            ctx.transitions += 1
            ops = {"conj": lambda z: z.conj, "double": lambda z: z * 2.0, "add": lambda z: z + z, "and": lambda z: z & z, "trace": lambda z: z.trace((0,), (1,)), "contract": lambda z: z.contract(z, [0, 1], [1, 2], [0, 2])}
            for k, f in ops.items():
                if nv != 2 and k in ("trace", "contract"):
                    continue
                try:
                    want = f(a)
                except Exception:  # noqa: BLE001
                    continue

                def g(z, f=f):
                    r = f(z)
                    return r.triple if hasattr(r, "triple") else (r.array,)

                try:
                    got = jax.jit(g)(a)
                except Exception as e:  # noqa: BLE001
                    if "ansatz." + k in REFUSALS:
                        ctx.see("refused", k)
                    else:
                        ctx.fail(f"{n}/{nv}: {k} refused inside a compiled function", f"{type(e).__name__}: {e}"[:200].replace("\n", " "))
                    continue
                want = want.triple if hasattr(want, "triple") else (want.array,)
                for i, (p, q) in enumerate(zip(want, got)):
                    ctx.eq(np.shape(q), np.shape(p), f"{n}/{nv}: compiled {k}, shape {i}")
                    ctx.close(np.asarray(q), np.asarray(p), f"{n}/{nv}: compiled {k}, array {i}", atol=1e-9)
                ctx.transitions += 1
        ctx.see(n)
    ctx.traces += 1


# ---- building inside a compiled function ------------------------------------------------------------------
def _points(cls):
    """three parameter points per class, as flat dicts of arrays"""
    from mc import comps

    n = 2
    if cls in ("GKet", "Ggate"):
        return [{"symplectic": comps.S_lib(k, n)} for k in range(3)]
    if cls == "GDM":
        return [{"symplectic": comps.S_lib(k, n), "beta": np.array([1.1, 0.9 + 0.1 * k])} for k in range(3)]
    if cls == "Interferometer":
        return [{"unitary": comps.U_lib(k, n)} for k in range(3)]
    if cls == "RealInterferometer":
        return [{"orthogonal": comps.O_lib(k, n)} for k in range(3)]
    if cls == "GaussRandNoise":
        return [{"Y": comps.Y_lib(k, n)} for k in range(3)]
    v = (zoo.P1 if cls in zoo.P1 else zoo.P2)[cls][0]
    out = [dict(v)]
    out.append({k: x * 0.7 + (0.35 if k == "gain" else 0.0) for k, x in v.items()})
    out.append({k: x * 0.0 + (1.0 if k == "gain" else 0.0) for k, x in v.items()})
    return [{k: np.asarray(x) for k, x in p.items()} for p in out]


BUILD = [c for c in (*zoo.P1, *zoo.P2, "GKet", "GDM", "Ggate", "Interferometer", "RealInterferometer", "GaussRandNoise")]


def _family(c):
    names = [t.__name__ for t in type(c).mro()]
    for k in ("Ket", "DM", "Unitary", "Channel"):
        if k in names:
            return k
    return "Operation"


def _ops():
    lab = L()
    from mrmustard import math

    def vac(c):
        return lab.Vacuum(tuple(c.modes))

    def flat(r):
        if hasattr(r, "ansatz"):
            return tuple(r.ansatz.triple) if hasattr(r.ansatz, "triple") else (r.ansatz.array,)
        return r

    ops = {
        "triple": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: tuple(c.bargmann_triple())),
        "fock": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: c.fock_array(3)),
        "to_fock": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: c.to_fock(3).fock_array((2,) * len(c.wires.quantum))),
        "dual": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: flat(c.dual)),
        "adjoint": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: flat(c.adjoint)),
        "on": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: flat(c.on([20 + i for i in range(len(c.modes))]) >> lab.Dgate(20, 0.1))),
        "twice": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: flat(c + c)),
        "apply": (("Unitary", "Channel", "Operation"), lambda c: flat(vac(c) >> c)),
        "apply mixed": (("Unitary", "Channel", "Operation"), lambda c: flat(vac(c).dm() >> c)),
        "apply array": (("Unitary", "Channel", "Operation"), lambda c: (vac(c).to_fock(3) >> c).fock_array(2)),
        "circuit": (("Unitary", "Channel", "Operation"), lambda c: flat(lab.Circuit([vac(c), c]).contract())),
        "evolve": (("Ket", "DM"), lambda c: flat(c >> lab.Sgate(sorted(c.modes)[0], 0.1) >> lab.Attenuator(sorted(c.modes)[0], 0.7))),
        "project": (("Ket", "DM"), lambda c: (lambda r: r.fock_array(2) if hasattr(r, "ansatz") else r)(c >> lab.Number(sorted(c.modes)[0], 1).dual)),
        "project onto": (("Ket", "DM"), lambda c: (lambda r: flat(r) if hasattr(r, "ansatz") else r)(c >> lab.Coherent(sorted(c.modes)[0], 0.2).dual)),
        "trace": (("Ket", "DM"), lambda c: flat(c >> lab.TraceOut(sorted(c.modes)[0]))),
        "dm": (("Ket",), lambda c: flat(c.dm())),
        "probability": (("Ket", "DM"), lambda c: c.probability),
        "purity": (("Ket", "DM"), lambda c: c.purity),
        "normalize": (("Ket", "DM"), lambda c: flat(c.normalize())),
        "phase_space": (("Ket", "DM"), lambda c: tuple(c.phase_space(0))),
        "quadrature": (("Ket", "DM"), lambda c: c.quadrature(*[np.array([0.1, 0.3])] * len(c.wires.quantum))),
        "distribution": (("Ket", "DM"), lambda c: c.fock_distribution(3)),
        "expectation": (("Ket", "DM"), lambda c: c.expectation(lab.Coherent(sorted(c.modes)[0], 0.1))),
        "fidelity": (("Ket", "DM"), lambda c: c.fidelity(vac(c)) if _family(c) == "Ket" else c.fidelity(vac(c).dm())),
        "inverse": (("Unitary", "Channel"), lambda c: flat(c.inverse())),
        "symplectic": (("Unitary",), lambda c: c.symplectic),
        "XY": (("Channel",), lambda c: tuple(c.XY)),
        "noise": (("Ket", "DM"), lambda c: (c >> lab.PhaseNoise(sorted(c.modes)[0], 0.3)).fock_array(2)),
        "getitem": (("Ket", "DM"), lambda c: flat(c[sorted(c.modes)[0]])),
        "scaled": (("Ket", "DM", "Unitary", "Channel", "Operation"), lambda c: flat(c * 2.0)),
        "auto fock": (("Ket", "DM", "Unitary", "Channel"), lambda c: math.sum(math.abs(c.fock_array((2,) * len(c.wires.quantum))))),
    }
    return ops


def _leaves(x):
    if isinstance(x, (tuple, list)):
        return [np.asarray(y) for y in x]
    return [np.asarray(x)]


def compare(ctx, got, want, what, atol=1e-8):
    g, w = _leaves(got), _leaves(want)
    ctx.eq([x.shape for x in g], [x.shape for x in w], f"{what}: shapes")
    for i, (x, y) in enumerate(zip(g, w)):
        if x.shape == y.shape:
            ctx.check(np.allclose(x, y, atol=atol, equal_nan=True), f"{what}: values {i}", f"{x.ravel()[:3]} {y.ravel()[:3]}")


def r_build(case, ctx):
    import jax

    cls = case["cls"]
    pts = _points(cls)
    modes = (0, 1) if cls not in zoo.P1 else 0
    if cls in ("BSgate", "GKet", "Interferometer", "TwoModeSqueezedVacuum"):
        modes = (5, 13)
    lab = L()
    fam = _family(getattr(lab, cls)(modes, **pts[0]))
    for k, (fams, f) in _ops().items():
        if fam not in fams:
            continue
        if cls == "PhaseNoise" and k not in ("apply", "apply mixed", "apply array"):
            continue
        if cls in ("QuadratureEigenstate", "BargmannEigenstate") and k in ("phase_space", "normalize", "purity", "probability", "fidelity"):
            continue
        g = lambda p: f(getattr(lab, cls)(modes, **p))  # noqa: E731
        wants = []
        for p in pts:
            try:
                wants.append(g(p))
            except Exception as e:  # noqa: BLE001
                wants.append(e)
        jg = jax.jit(g)
        key = f"{cls}.{k}"
        for i in (0, 1, 2, 0):
            ctx.transitions += 1
            if isinstance(wants[i], Exception):
                continue
            try:
                got = jg({a: np.asarray(b) for a, b in pts[i].items()})
            except Exception as e:  # noqa: BLE001
                if f"{k}" in REFUSALS or key in REFUSALS:
                    ctx.see("refused", k)
                else:
                    ctx.fail(f"{key}: refused inside a compiled function", f"{type(e).__name__}: {e}"[:200].replace("\n", " "))
                break
            compare(ctx, got, wants[i], f"{key}: compiled at point {i}")
        else:
            # vectorised over the first two points
            try:
                vm = jax.vmap(g)({a: np.stack([pts[0][a], pts[1][a]]) for a in pts[0]})
            except Exception as e:  # noqa: BLE001
                if "v " + k in REFUSALS or "v " + key in REFUSALS:
                    ctx.see("not vectorised", k)
                else:
                    ctx.fail(f"{key}: refused when vectorised", f"{type(e).__name__}: {e}"[:200].replace("\n", " "))
                continue
            for i in (0, 1):
                if not isinstance(wants[i], Exception):
                    compare(ctx, [x[i] for x in _leaves(vm)], wants[i], f"{key}: vectorised, entry {i}")
            ctx.see(key)
    ctx.traces += 1


# ---- components as arguments --------------------------------------------------------------------------------
def _variants(group):
    lab = L()
    from mc import comps

    if group == "Coherent":
        return {
            "base": lambda: lab.Coherent(0, 0.3, alpha_trainable=True),
            "value": lambda: lab.Coherent(0, 0.1j, alpha_trainable=True),
            "mode": lambda: lab.Coherent(3, 0.3, alpha_trainable=True),
            "batch": lambda: lab.Coherent(0, [0.3, 0.1], alpha_trainable=True),
            "batch value": lambda: lab.Coherent(0, [0.2, 0.4j], alpha_trainable=True),
            "bounds": lambda: lab.Coherent(0, 0.2, alpha_trainable=True, alpha_bounds=(0, 1)),
            "constant": lambda: lab.Coherent(0, 0.3),
            "constant value": lambda: lab.Coherent(0, 0.1j),
            "constant batch": lambda: lab.Coherent(0, [0.3, 0.1]),
            "constant batch value": lambda: lab.Coherent(0, [0.2, 0.4j]),
            "array": lambda: lab.Coherent(0, 0.3).to_fock(4),
            "array value": lambda: lab.Coherent(0, 0.2).to_fock(4),
            "sum": lambda: lab.Coherent(0, 0.3) + lab.Coherent(0, -0.3),
            "sum value": lambda: lab.Coherent(0, 0.3) + lab.Coherent(0, -0.1),
            "manual": lambda: _shaped(lab.Coherent(0, 0.3, alpha_trainable=True), (3,)),
            "manual value": lambda: _shaped(lab.Coherent(0, 0.3, alpha_trainable=True), (2,)),
            "number": lambda: lab.Number(0, 1),
            "number value": lambda: lab.Number(0, 0, cutoff=2),
        }
    if group == "BSgate":
        return {
            "base": lambda: lab.BSgate((0, 1), 0.3, 0.1, theta_trainable=True),
            "value": lambda: lab.BSgate((0, 1), 0.7, 0.1, theta_trainable=True),
            "other constant": lambda: lab.BSgate((0, 1), 0.3, 0.9, theta_trainable=True),
            "other trainable": lambda: lab.BSgate((0, 1), 0.3, 0.1, phi_trainable=True),
            "both": lambda: lab.BSgate((0, 1), 0.3, 0.1, theta_trainable=True, phi_trainable=True),
            "modes": lambda: lab.BSgate((5, 13), 0.3, 0.1, theta_trainable=True),
            "mz": lambda: lab.MZgate((0, 1), 0.3, 0.1, phi_a_trainable=True),
            "mz internal": lambda: lab.MZgate((0, 1), 0.3, 0.1, phi_a_trainable=True, internal=True),
            "mz constant": lambda: lab.MZgate((0, 1), 0.3, 0.1),
            "matrix": lambda: lab.Interferometer((0, 1), comps.U_lib(0, 2)),
            "matrix value": lambda: lab.Interferometer((0, 1), comps.U_lib(1, 2)),
            "matrix trainable": lambda: lab.Interferometer((0, 1), comps.U_lib(1, 2), unitary_trainable=True),
        }
    if group == "Ket":
        return {
            "arr": lambda: lab.Ket.from_fock((0,), np.array([0.6, 0.8, 0.0])),
            "arr value": lambda: lab.Ket.from_fock((0,), np.array([0.8, 0.6, 0.0])),
            "arr shape": lambda: lab.Ket.from_fock((0,), np.array([0.8, 0.6])),
            "arr batch": lambda: lab.Ket.from_fock((0,), np.array([[0.8, 0.6], [0.6, 0.8]]), batch_dims=1),
            "poly": lambda: lab.Ket.from_bargmann((0,), lab.SqueezedVacuum(0, 0.2).bargmann_triple()),
            "poly value": lambda: lab.Ket.from_bargmann((0,), lab.SqueezedVacuum(0, 0.4).bargmann_triple()),
            "dm": lambda: lab.Thermal(0, 0.3),
            "dm value": lambda: lab.Thermal(0, 0.6),
            "sum": lambda: lab.Ket.from_bargmann((0,), lab.SqueezedVacuum(0, 0.2).bargmann_triple()) + lab.Ket.from_bargmann((0,), lab.Coherent(0, 0.2).bargmann_triple()),
        }
    if group == "Circuit":
        return {
            "base": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.2, r_trainable=True), lab.Dgate(0, 0.1)]),
            "value": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.4, r_trainable=True), lab.Dgate(0, 0.1)]),
            "constant": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.2, r_trainable=True), lab.Dgate(0, 0.3)]),
            "order": lambda: lab.Circuit([lab.Vacuum(0), lab.Dgate(0, 0.1), lab.Sgate(0, 0.2, r_trainable=True)]),
            "number": lambda: lab.Circuit([lab.Number(0, 1), lab.Sgate(0, 0.2, r_trainable=True), lab.Dgate(0, 0.1)]),
            "number value": lambda: lab.Circuit([lab.Number(0, 2), lab.Sgate(0, 0.2, r_trainable=True), lab.Dgate(0, 0.1)]),
            "longer": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.2, r_trainable=True), lab.Dgate(0, 0.1), lab.Rgate(0, 0.3)]),
            "mode": lambda: lab.Circuit([lab.Vacuum(4), lab.Sgate(4, 0.2, r_trainable=True), lab.Dgate(4, 0.1)]),
            "noise": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.2, r_trainable=True), lab.PhaseNoise(0, 0.1)]),
            "noise value": lambda: lab.Circuit([lab.Vacuum(0), lab.Sgate(0, 0.2, r_trainable=True), lab.PhaseNoise(0, 0.5)]),
        }
    raise KeyError(group)


ARGS = ("Coherent", "BSgate", "Ket", "Circuit")


def _shaped(c, s):
    c.manual_shape = s
    return c


def r_args(case, ctx):
    import jax

    lab = L()
    var = _variants(case["group"])
    g = case["group"]

    def f1(c):
        if g == "Circuit":
            r = c.contract()
            return r.fock_array((3,) * len(r.wires.quantum))
        if g == "BSgate":
            r = lab.SqueezedVacuum(sorted(c.modes)[0], 0.3) >> lab.Coherent(sorted(c.modes)[1], 0.2) >> c
            return r.fock_array((3, 3))
        s = c.auto_shape() if any(c.manual_shape) else (3,) * len(c.wires.quantum)
        return c.fock_array(s)

    def f2(c):
        if g == "Circuit":
            if any(x.name == "PhaseNoise" for x in c):
                return c.contract().fock_array((2, 2))
            return c.contract() >> lab.TraceOut(sorted(c.components[0].modes)[0])
        if g == "BSgate":
            return tuple((c >> c).bargmann_triple())
        return (c >> lab.Dgate(sorted(c.modes)[0], 0.2)).fock_array((2,) * len(c.wires.quantum))

    for fi, f in enumerate((f1, f2)):
        want = {k: f(mk()) for k, mk in var.items()}
        # one compiled function sees every variant after every other one; in the thorough tier also with a fresh cache for each pair
        seqs = [list(var) + list(var)[::-1], list(var)[::-1] + list(var)]
        if case.get("deep"):
            seqs += [[a, b, a] for a, b in itertools.permutations(var, 2)]
        for seq in seqs:
            jf = jax.jit(lambda c, f=f: f(c))
            for i, k in enumerate(seq):
                ctx.transitions += 1
                try:
                    got = jf(var[k]())
                except Exception as e:  # noqa: BLE001
                    ctx.fail(f"{g} f{fi}: {k} refused after {seq[max(0, i - 1):i]}", f"{type(e).__name__}: {e}"[:200].replace("\n", " "))
                    continue
                compare(ctx, got, want[k], f"{g} f{fi}: {k} after {seq[max(0, i - 1):i]}")
            if len(ctx.fails) > 6:
                return
        ctx.see(g, fi)
    # rebuilt objects returned from a compiled function
    for k, mk in var.items():
        c = mk()
        d = jax.jit(lambda c: c)(c)
        ctx.eq(type(d).__name__, type(c).__name__, f"{k}: class returned from a compiled function")
        compare(ctx, f1(d), f1(c), f"{k}: object returned from a compiled function")
    ctx.traces += 1


def r_mutate(case, ctx):
    """components made outside, variables set inside the compiled function"""
    import jax

    lab = L()
    bs = lab.BSgate((0, 1), 0.5, 0.5, theta_trainable=True, phi_trainable=True)
    st = lab.SqueezedVacuum(0, 0.3, 0.1, r_trainable=True, phi_trainable=True)
    att = lab.Attenuator(0, 0.6, transmissivity_trainable=True)

    def f(p):
        bs.parameters.theta.value = p[0]
        st.parameters.r.value = p[1]
        att.parameters.transmissivity.value = p[2]
        return (st >> st.on(1) >> bs >> att).fock_array((2, 3, 2, 3))

    def ref(p):
        s = lab.SqueezedVacuum(0, p[1], 0.1)
        return (s >> s.on(1) >> lab.BSgate((0, 1), p[0], 0.5) >> lab.Attenuator(0, p[2])).fock_array((2, 3, 2, 3))

    jf = jax.jit(f)
    pts = [np.array([0.1, 0.2, 0.3]), np.array([0.9, 0.4, 0.8]), np.array([0.0, 0.0, 1.0])]
    for seq in itertools.product(range(3), repeat=3):
        for i in seq:
            compare(ctx, jf(pts[i]), ref(pts[i]), f"{seq}: compiled update")
            ctx.transitions += 1
    g = jax.grad(lambda p: jax.numpy.real(f(p)[1, 1, 1, 1]))
    h = 1e-5
    for p in pts[:2]:
        num = np.array([(np.real(ref(p + h * e)[1, 1, 1, 1]) - np.real(ref(p - h * e)[1, 1, 1, 1])) / (2 * h) for e in np.eye(3)])
        ctx.close(np.asarray(g(p)), num, "gradient through updates", atol=1e-6)
    ctx.see("mutate")
    ctx.traces += 1
