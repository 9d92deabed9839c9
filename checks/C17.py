"""C17: parameters, updates and training: every short sequence of reads and updates on every trainable component; the update rules on
whole bases of gradients; the optimiser step by step against an independent derivative; the stopping rule on all short histories."""

import itertools
import warnings

import numpy as np

from mc import zoo

LEVEL = "model_checking"
RULE = ("every trainable component x every sequence of reads (triple, Fock array, contraction) and parameter updates up to depth 3, compared after each step with a component built afresh from the current values (also through copies, "
        "re-targeted copies and circuits made before the updates); parameter sets: every sequence of additions and slices; update rules: every basis matrix as gradient, dimensions 1-3, several steps; optimiser: every component kind and "
        "cost, stopped after 0..3 steps, step 1 against finite differences, history against recomputed costs, bounds against tight bounds; stopping rule on all histories from a small alphabet")
ASSUMPTIONS = ["training returns new objects (it does not write into the given ones); sharing of one variable between several components is followed up to the training step, which copies",
               "bounds are understood for real parameters"]
CASE_LIMIT = 300
BUDGET = 400

TRAIN = [n for n in zoo.ZOO if "train" in n and "." not in n and "PhaseNoise" not in n and "Sauron" not in n]


def cases(tier):
    out = []
    for n in TRAIN:
        out.append({"id": f"seq-{n}", "part": "seq", "name": n, "depth": 3 if tier == "quick" else 4})
    out.append({"id": "shared", "part": "shared"})
    out.append({"id": "pset", "part": "pset"})
    for b in ("numpy", "jax"):
        out.append({"id": f"variables-{b}", "part": "variables", "backend": b})
        for kind in ("orthogonal", "unitary", "symplectic"):
            for n in (1, 2, 3):
                out.append({"id": f"rule-{kind}{n}-{b}", "part": "rule", "kind": kind, "n": n, "backend": b})
    out.append({"id": "stop", "part": "stop"})
    for n in OPT:
        for how in ("sgd", "adamw"):
            out.append({"id": f"opt-{n}-{how}", "part": "opt", "name": n, "how": how, "steps": 3 if tier == "quick" else 6})
    for k in range(len(BOUNDED)):
        out.append({"id": f"bounds-{k}", "part": "bounds", "k": k})
    out.append({"id": "opt-kinds", "part": "kinds"})
    out.append({"id": "opt-constant", "part": "constant"})
    return out


def warm():
    from checks.C07 import warm as w

    w()


def L():
    import mrmustard.lab as lab

    return lab


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import math, settings

    settings.DEFAULT_FOCK_SIZE = 4
    settings.PROGRESSBAR = False
    if case.get("backend") == "jax" or case["part"] in ("opt", "bounds", "kinds", "constant", "stop"):
        math.change_backend("jax")
    globals()["r_" + case["part"]](case, ctx)


# ---- sequences of reads and updates ---------------------------------------------------------------------
def fresh(c, base):
    """a component of the same class with the current values as constants"""
    cls = type(base)
    kw = {k: np.array(v.value) for k, v in c.parameters.all_parameters.items()}
    if "internal" in getattr(c, "__dict__", {}):
        kw["internal"] = c.internal
    out = cls(tuple(base.modes), **kw)
    if base.ansatz._lin_sup:
        out.ansatz._lin_sup = True
    return out


def values_for(name, p, v):
    """three admissible values for a variable (shape kept)"""
    v = np.array(v)
    from mc import comps

    if p.update_fn == "update_symplectic":
        n = v.shape[-1] // 2
        return [comps.S_lib(k, n) for k in (2, 3)]
    if p.update_fn == "update_unitary":
        return [comps.U_lib(k, v.shape[-1]) for k in (2, 3)]
    if p.update_fn == "update_orthogonal":
        return [comps.O_lib(k, v.shape[-1]) for k in (2, 3)]
    if name == "Y":
        return [comps.Y_lib(k, v.shape[-1] // 2) for k in (2, 3)]
    out = [v * 0.8 + (1.3 - 0.8 if name == "gain" else 0.1 if name == "transmissivity" else -0.05)]
    out.append(np.ones(v.shape, dtype=float) if name != "transmissivity" else np.zeros(v.shape))
    return out


def trip(c):
    return [np.array(x) for x in c.ansatz.triple]


def agree(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, atol=1e-10, equal_nan=True) for x, y in zip(a, b))


def r_seq(case, ctx):
    lab = L()
    name = case["name"]
    base = zoo.ZOO[name]()
    vs = base.parameters.variables
    ops = [("read", None), ("fock", None), ("use", None)]
    for k, p in vs.items():
        for i, v in enumerate(values_for(k, p, p.value)):
            ops.append((f"{k}={i}", (k, v)))
    state = "Ket" in [t.__name__ for t in type(base).mro()] or "DM" in [t.__name__ for t in type(base).mro()]
    unread = lambda: zoo.ZOO[name]()  # noqa: E731

    def use(c):
        if state:
            return c >> lab.Dgate(sorted(c.modes)[0], 0.1)
        return lab.Vacuum(tuple(c.modes)) >> c

    consts = {k: np.array(v.value) for k, v in base.parameters.constants.items()}
    depth = case["depth"] if len(ops) <= 7 else 3
    for seq in itertools.product(ops, repeat=depth):
        if not any(a for _, a in seq):
            continue
        c = unread()
        other = c._light_copy()
        moved = c.on([50 + i for i in range(len(c.modes))])
        circ = lab.Circuit([c, lab.Identity(tuple(c.modes))]) if state else lab.Circuit([lab.Vacuum(tuple(c.modes)), c])
        tag = f"{name} " + ",".join(k for k, _ in seq)
        for k, a in seq:
            ctx.transitions += 1
            if a is not None:
                c.parameters.variables[a[0]].value = a[1]
            elif k == "fock":
                c.fock_array(3)
            elif k == "use":
                use(c)
            else:
                trip(c)
            ref = fresh(c, base)
            t = trip(ref)
            ctx.check(agree(trip(c), t), f"{tag}: the component follows its parameters")
            ctx.check(agree(trip(other), t), f"{tag}: a copy made before follows")
            ctx.check(agree(trip(moved), t), f"{tag}: a re-targeted copy made before follows")
            if k != "read":
                ctx.check(agree(trip(use(c)), trip(use(ref))), f"{tag}: contraction")
            if len(ctx.fails) > 6:
                return
        ctx.check(np.allclose(np.array(c.fock_array(3)), np.array(ref.fock_array(3)), atol=1e-10, equal_nan=True), f"{tag}: Fock array")
        x, y = circ.contract(), (ref >> lab.Identity(tuple(c.modes)) if state else lab.Vacuum(tuple(c.modes)) >> ref)
        ctx.check(agree(trip(x), trip(y)), f"{tag}: a circuit built before follows")
        for k, v in consts.items():
            ctx.check(np.array_equal(np.array(c.parameters.constants[k].value), v), f"{tag}: constant {k} unchanged")
        if np.array(base.ansatz.b).size:
            ctx.see(name, [np.round(x, 6).tobytes() for x in t])
    ctx.traces += 1


def r_shared(case, ctx):
    """components built from one variable all follow it"""
    lab = L()
    from mrmustard.math.parameters import Constant, Variable

    makers = {
        "alpha": (lambda v: lab.Coherent(0, v), lambda v: lab.Dgate(1, v), lambda v: lab.BargmannEigenstate(2, v), lambda v: lab.DisplacedSqueezed(0, v, 0.1, 0.2)),
        "r": (lambda v: lab.SqueezedVacuum(0, v), lambda v: lab.Sgate(1, v), lambda v: lab.S2gate((0, 1), v), lambda v: lab.TwoModeSqueezedVacuum((5, 13), v), lambda v: lab.DisplacedSqueezed(0, 0.1, v)),
        "phi": (lambda v: lab.SqueezedVacuum(0, 0.2, v), lambda v: lab.Sgate(1, 0.1, v), lambda v: lab.BSgate((0, 1), 0.4, v)),
        "s": (lambda v: lab.CXgate((0, 1), v), lambda v: lab.CZgate((0, 1), v)),
        "symplectic": (lambda v: lab.GKet((0,), v), lambda v: lab.Ggate((1,), v), lambda v: lab.GDM((2,), 0.9, v)),
    }
    from mc import comps

    vals = {"alpha": (0.1, 0.3j), "r": (0.1, 0.4), "phi": (0.2, 0.5), "s": (0.1, 0.2), "symplectic": (comps.S_lib(1, 1), comps.S_lib(2, 1))}
    for pname, ms in makers.items():
        for a, b in itertools.product(ms, repeat=2):
            v = Variable(vals[pname][0], pname)
            x, y = a(v), b(v)
            ctx.check(x.parameters.all_parameters[pname] is v and y.parameters.all_parameters[pname] is v, f"{pname}: both components hold the variable")
            for val in (vals[pname][1], vals[pname][0]):
                v.value = val
                ctx.check(agree(trip(x), trip(a(val))) and agree(trip(y), trip(b(val))), f"{pname}: both follow")
                ctx.transitions += 1
            cst = Constant(vals[pname][1], pname)
            ctx.check(agree(trip(a(cst)), trip(a(vals[pname][1]))), f"{pname}: a given constant")
            ctx.eq(list(a(cst).parameters.variables), [], f"{pname}: a given constant is not trainable")
        ctx.see(pname)
    ctx.traces += 1


def r_pset(case, ctx):
    from mrmustard.math.parameter_set import ParameterSet
    from mrmustard.math.parameters import Constant, Variable

    pool = [lambda: Constant(1, "a"), lambda: Constant([2.0, 3, 4], "b"), lambda: Variable(5.0, "c", (0, 9)), lambda: Variable(np.arange(3.0), "d", (None, 7), "update_orthogonal"), lambda: Variable([1.0, 2, 3], "a"), lambda: Constant(0.5, "c")]
    for seq in itertools.product(range(len(pool)), repeat=4):
        ps, model = ParameterSet(), []
        for i in seq:
            p = pool[i]()
            dup = p.name in [q.name for q in model]
            try:
                ps.add_parameter(p)
                ok = True
            except ValueError:
                ok = False
            ctx.eq(ok, not dup, f"{seq}: adding {p.name}")
            if ok:
                model.append(p)
            ctx.transitions += 1
        ctx.eq(list(ps.names), [p.name for p in model], f"{seq}: names in order of addition")
        ctx.eq(sorted(ps.constants), sorted(p.name for p in model if isinstance(p, Constant)), f"{seq}: constants")
        ctx.eq(sorted(ps.variables), sorted(p.name for p in model if isinstance(p, Variable)), f"{seq}: variables")
        for p in model:
            ctx.check(ps.all_parameters[p.name] is p and getattr(ps, p.name) is p, f"{seq}: parameter {p.name} by name")
        ctx.eq(bool(ps), bool(model), f"{seq}: truth value")
        d = ps.to_dict()
        for p in model:
            ctx.check(np.array_equal(d[p.name], p.value), f"{seq}: to_dict {p.name}")
            if isinstance(p, Variable):
                ctx.eq((d[p.name + "_trainable"], d[p.name + "_bounds"]), (True, p.bounds), f"{seq}: to_dict of variable {p.name}")
        ctx.eq(sorted(ps.tagged_variables("t")), sorted("t/" + p.name for p in model if isinstance(p, Variable)), f"{seq}: tagged")
        for idx in (0, 1, [0, 2], [2, 1]):
            q = ps[idx]
            ii = [idx] if isinstance(idx, int) else idx
            for p in model:
                got = q.all_parameters[p.name]
                want = np.array(p.value)[ii] if np.array(p.value).shape else np.array(p.value)
                ctx.check(np.array_equal(np.array(got.value), want), f"{seq}[{idx}]: value of {p.name}", f"{np.array(got.value)} {want}")
                ctx.eq((type(got).__name__, getattr(got, "bounds", None), getattr(got, "update_fn", None)), (type(p).__name__, getattr(p, "bounds", None), getattr(p, "update_fn", None)), f"{seq}[{idx}]: kind, bounds and rule of {p.name}")
        if len(ctx.fails) > 6:
            return
    ctx.see("pset")
    ctx.traces += 1


# ---- variables of matrix groups ---------------------------------------------------------------------------
def ingroup(kind, M, tol=1e-8):
    M = np.array(M)
    n = M.shape[-1]
    I = np.eye(n)
    if kind == "orthogonal":
        return np.allclose(M.imag, 0, atol=tol) and np.allclose(M @ M.T, I, atol=tol)
    if kind == "unitary":
        return np.allclose(M @ M.conj().T, I, atol=tol)
    J = np.block([[np.zeros((n // 2, n // 2)), np.eye(n // 2)], [-np.eye(n // 2), np.zeros((n // 2, n // 2))]])
    return np.allclose(M.imag, 0, atol=tol) and np.allclose(M @ J @ M.T, J, atol=tol)


def lib(kind, k, n):
    from mc import comps

    return {"orthogonal": comps.O_lib, "unitary": comps.U_lib, "symplectic": comps.S_lib}[kind](k, n)


def r_variables(case, ctx):
    from mrmustard import math
    from mrmustard.math.parameters import Variable

    for kind in ("orthogonal", "unitary", "symplectic"):
        mk = getattr(Variable, kind)
        for n in (1, 2, 3):
            for k in (0, 1):
                M = lib(kind, k, n)
                v = mk(M, "x", (None, None))
                ctx.close(np.array(v.value), M, f"{kind} {n}: the given value")
                ctx.eq((v.name, v.update_fn), ("x", "update_" + kind), f"{kind} {n}: name and rule")
                ctx.transitions += 1
            v = mk(None, "y", (None, None), n)
            ctx.eq(np.array(v.value).shape, np.array(lib(kind, 0, n)).shape, f"{kind} {n}: shape of a random one")
            ctx.check(ingroup(kind, v.value), f"{kind} {n}: a random one is {kind}")
            ctx.eq(v.update_fn, "update_" + kind, f"{kind} {n}: rule of a random one")
        # scaled parameters keep their name, bounds and rule
        v = Variable(lib(kind, 0, 2), "z", (0.0, 3.0), "update_" + kind)
        for w in (v * 2.0, 2.0 * v):
            ctx.close(np.array(w.value), 2 * lib(kind, 0, 2), f"{kind}: scaled value")
            ctx.eq((type(w).__name__, w.name, w.bounds, w.update_fn), ("Variable", "z", (0.0, 3.0), "update_" + kind), f"{kind}: scaled variable")
        ctx.close(np.array(v.value), lib(kind, 0, 2), f"{kind}: unscaled afterwards")
        ctx.see(kind)
    # functions of the two tangent-space projections
    for n in (1, 2, 3):
        U, S, O = lib("unitary", 1, n), lib("symplectic", 1, n), lib("orthogonal", 1, n)
        for i, j in itertools.product(range(n), repeat=2):
            E = np.zeros((n, n), dtype=complex)
            for z in (1.0, 1j):
                E[:] = 0
                E[i, j] = z
                Y = np.array(math.euclidean_to_unitary(math.astensor(U), math.astensor(E)))
                ctx.close(Y + Y.conj().T, 0 * Y, f"euclidean_to_unitary {n}: anti-hermitian")
                ctx.transitions += 1
            Y = np.array(math.euclidean_to_unitary(math.astensor(O), math.astensor(E.imag)))
            ctx.close(Y + Y.T, 0 * Y, f"euclidean_to_unitary {n}: antisymmetric on orthogonal")
        J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
        for i, j in itertools.product(range(2 * n), repeat=2):
            E = np.zeros((2 * n, 2 * n))
            E[i, j] = 1
            Y = np.array(math.euclidean_to_symplectic(math.astensor(S), math.astensor(E)))
            ctx.close(J @ Y + Y.T @ J, 0 * Y, f"euclidean_to_symplectic {n}: in the algebra")
            ctx.transitions += 1
    ctx.traces += 1


def r_rule(case, ctx):
    from mrmustard import math
    from mrmustard.training import parameter_update as pu

    kind, n = case["kind"], case["n"]
    mk = getattr(pu, "update_" + kind)
    d = 2 * n if kind == "symplectic" else n
    zs = (1.0, 1j) if kind == "unitary" else (1.0,)
    for lr in (1e-3, 0.3):
        rule = mk(lr)
        for k in (0, 1):
            M0 = np.array(lib(kind, k, n), dtype=complex if kind == "unitary" else float)
            for i, j in itertools.product(range(d), repeat=2):
                for z in zs:
                    E = np.zeros((d, d), dtype=complex if kind == "unitary" else float)
                    E[i, j] = z
                    M = M0
                    for step in range(3):  # loss = Re sum conj(E) M, gradient (conjugated, as handed over by the optimiser) = E
                        up, _ = rule.update({"x": math.astensor(E)}, None, {"x": math.astensor(M)})
                        up = np.array(up["x"])
                        ctx.eq(up.shape, M.shape, f"lr {lr}: shape of the update")
                        new = M + up
                        ctx.check(ingroup(kind, new, 1e-7), f"lr {lr}, gradient ({i},{j}) x {z}: step {step} stays {kind}")
                        if lr < 0.01:
                            dl = np.real(np.sum(np.conj(E) * up))
                            ctx.check(dl <= 1e-9, f"gradient ({i},{j}) x {z}: step {step} does not increase the loss", str(dl))
                            # no movement only if the point is stationary
                            X = M.conj().T @ E if kind != "symplectic" else None
                            if X is not None:
                                tang = np.linalg.norm(X - X.conj().T)
                                ctx.check((np.linalg.norm(up) > 1e-9) == (tang > 1e-7), f"gradient ({i},{j}) x {z}: moves unless stationary", f"{np.linalg.norm(up)} {tang}")
                        M = new
                        ctx.transitions += 1
    ctx.see(kind, n)
    ctx.traces += 1


# ---- stopping ---------------------------------------------------------------------------------------------
def r_stop(case, ctx):
    from mrmustard.training import Optimizer

    # all histories of 2-block shape from an alphabet, around the documented limits
    for th in (1e-6, 1e-2):
        opt = Optimizer(stable_threshold=th)
        for length in (1, 2, 3, 5, 19, 20, 21, 22, 40):
            for shape, step in itertools.product(("flat", "drift", "flat-then-jump", "jump-then-flat", "alternate", "late jump", "early jump"), (1e-9, th / 40, th / 10, 1.0)):
                h = [0.0] * length
                if shape == "drift":
                    h = [i * step for i in range(length)]
                elif shape == "flat-then-jump":
                    h[-1] = step
                elif shape == "jump-then-flat":
                    h = [step * 30] + h[1:]
                elif shape == "alternate":
                    h = [step * (i % 2) for i in range(length)]
                elif shape == "late jump":
                    h = [0.0 if i < length - 3 else step for i in range(length)]
                elif shape == "early jump":
                    h = [0.0 if i < length - 25 else step for i in range(length)]
                for ms in (0, 1, 2, 18, 19, 20, 21, 39, 40, 1000):
                    opt.opt_history = list(h)
                    got = bool(opt.should_stop(ms))
                    taken = length - 1
                    stable = taken >= 20 and sum(abs(h[-i] - h[-i - 1]) for i in range(1, 20)) < th
                    want = (ms != 0 and taken >= ms) or stable
                    ctx.eq(got, want, f"threshold {th}, {taken} steps ({shape}, {step}), max_steps {ms}")
                    ctx.eq(opt.opt_history, h, "history untouched")
                    ctx.transitions += 1
    ctx.see("stop")
    ctx.traces += 1


# ---- the optimiser ------------------------------------------------------------------------------------------
def _ov(c):
    """a smooth real cost for any component: |<target|result>|^2-like"""
    from mrmustard import math

    lab = L()
    T = lab.Coherent
    m = sorted(c.modes)
    tgt = T(m[0], 0.25 + 0.1j)
    for k in m[1:]:
        tgt = tgt >> lab.Coherent(k, 0.2 - 0.15j)
    names = [t.__name__ for t in type(c).mro()]
    if "Ket" in names:
        x = c >> tgt.dual
    elif "DM" in names:
        x = (c >> tgt.dual)
    elif "Unitary" in names or "Operation" in names:
        st = lab.Coherent(m[0], 0.3)
        for k in m[1:]:
            st = st >> lab.SqueezedVacuum(k, 0.2)
        x = st >> c >> tgt.dual
    else:
        st = lab.Coherent(m[0], 0.3).dm()
        for k in m[1:]:
            st = st >> lab.SqueezedVacuum(k, 0.2).dm()
        x = st >> c >> tgt.dual
    return -math.real(math.abs(x) ** 2)


OPT = ("Coherent", "SqueezedVacuum", "DisplacedSqueezed", "Thermal", "TwoModeSqueezedVacuum", "Dgate", "Sgate", "Rgate", "BSgate", "S2gate", "MZgate", "CXgate", "Attenuator", "Amplifier", "FockDamping", "GKet", "Ggate", "Interferometer", "RealInterferometer", "Circuit", "Variable", "Two", "FockCost", "PhaseNoise-circuit")


def _objects(name):
    """the list given to the optimiser, its cost, and how to read all variables"""
    lab = L()
    from mrmustard import math
    from mrmustard.math.parameters import Variable

    if name == "Circuit":
        c = lab.Circuit([lab.Vacuum((0, 1)), lab.Sgate(0, 0.2, 0.1, r_trainable=True), lab.Dgate(1, 0.3, alpha_trainable=True), lab.BSgate((0, 1), 0.4, 0.2, theta_trainable=True), lab.Attenuator(0, 0.8)])
        return [c], lambda c: -math.real(math.abs(c.contract().fock_array((3, 3, 3, 3))[1, 0, 1, 0]))
    if name == "PhaseNoise-circuit":
        c = lab.Circuit([lab.Coherent(0, 0.5, alpha_trainable=True), lab.Sgate(0, 0.2, r_trainable=True)])
        return [c], lambda c: -math.real((c.contract() >> lab.PhaseNoise(0, 0.3)).fock_array((4, 4))[0, 1])
    if name == "Variable":
        return [Variable(0.4, "x"), Variable(np.array([0.1, -0.2]), "y", (None, None))], lambda x, y: (x.value - 1) ** 2 + math.sum((y.value * x.value + 0.3) ** 2)
    if name == "Two":
        return [lab.Sgate(0, 0.3, 0.1, r_trainable=True), lab.Coherent(0, 0.2 + 0.1j, alpha_trainable=True)], lambda s, c: -math.real(math.abs((c >> s) >> lab.Coherent(0, 0.4).dual) ** 2)
    if name == "FockCost":
        return [lab.Coherent(0, 0.5, alpha_trainable=True)], lambda c: -math.real(math.abs(c.fock_array((5,))[1]) ** 2)
    c = zoo.ZOO[name + "-train"]()
    # no bounds here
    kw = {k: v.value for k, v in c.parameters.all_parameters.items()}
    for k in c.parameters.variables:
        kw[k + "_trainable"] = True
        if name not in ("GKet", "Ggate", "Interferometer", "RealInterferometer"):
            kw[k + "_bounds"] = (None, None)
    return [type(c)(tuple(c.modes), **kw)], _ov


def _vars(objs):
    """[(object index, path, Variable)]"""
    from mrmustard.math.parameters import Variable

    lab = L()
    out = []
    for i, o in enumerate(objs):
        if isinstance(o, Variable):
            out.append((i, "value", o))
        elif isinstance(o, lab.Circuit):
            for j, c in enumerate(o.components):
                out += [(i, f"{j}.{k}", v) for k, v in sorted(c.parameters.variables.items())]
        else:
            out += [(i, k, v) for k, v in sorted(o.parameters.variables.items())]
    return out


def _consts(objs):
    lab = L()
    out = []
    for o in objs:
        for c in o.components if isinstance(o, lab.Circuit) else [o]:
            if hasattr(c, "parameters"):
                out += [np.array(v.value) for v in c.parameters.constants.values()]
    return out


def r_opt(case, ctx):
    from mrmustard import math, settings
    from mrmustard.training import Optimizer

    settings.DEFAULT_FOCK_SIZE = 5
    name, how = case["name"], case["how"]
    import optax

    lr = 0.01
    opt = Optimizer(euclidean_lr=lr, symplectic_lr=lr, unitary_lr=lr, orthogonal_lr=lr)
    kw = {"euclidean_optim": optax.sgd} if how == "sgd" else {}
    objs, cost = _objects(name)
    start = [np.array(v.value) for _, _, v in _vars(objs)]
    c0 = float(np.real(cost(*objs)))
    prev, prevcosts = start, []
    for steps in range(1, case["steps"] + 1):
        objs, cost = _objects(name)
        res = opt.minimize(cost, by_optimizing=objs, max_steps=steps, **kw)
        ctx.transitions += steps
        hist = [float(np.real(x)) for x in opt.opt_history]
        ctx.eq(len(hist), steps + 1, f"{steps} steps: length of the history")
        ctx.close(hist[1], c0, f"{steps} steps: first recorded cost is the cost of the given objects", atol=1e-9)
        for i, x in enumerate(prevcosts):
            ctx.close(hist[2 + i], x, f"{steps} steps: recorded cost {1 + i} is the cost after {1 + i} steps", atol=1e-9)
        ctx.eq([type(o).__name__ for o in res], [type(o).__name__ for o in objs], f"{steps} steps: kinds of objects returned")
        for s, (_, k, v) in zip(start, _vars(objs)):
            ctx.check(np.array_equal(s, np.array(v.value)), f"{steps} steps: given object unchanged ({k})")
        vr = _vars(res)
        ctx.eq([(i, k, v.name, v.bounds, v.update_fn) for i, k, v in vr], [(i, k, v.name, v.bounds, v.update_fn) for i, k, v in _vars(objs)], f"{steps} steps: variables of the result")
        for a, b in zip(_consts(res), _consts(objs)):
            ctx.check(np.array_equal(a, b), f"{steps} steps: constants unchanged")
        vals = [np.array(v.value) for _, _, v in vr]
        for (_, k, v), s in zip(vr, start):
            ctx.eq(np.array(v.value).shape, s.shape, f"{steps} steps: shape of {k}")
            for g in ("orthogonal", "unitary", "symplectic"):
                if v.update_fn == "update_" + g:
                    ctx.check(ingroup(g, v.value, 1e-7), f"{steps} steps: {k} stays {g}")
        if steps == 1:
            step1(ctx, name, how, objs, start, vals, lr)
        # the result reflects its parameters
        objs2, _ = _objects(name)
        for (_, _, w), x in zip(_vars(objs2), vals):
            w.value = x
        cr = float(np.real(cost(*res)))
        ctx.close(cr, float(np.real(cost(*objs2))), f"{steps} steps: result behaves as one built from its parameters", atol=1e-9)
        prevcosts.append(cr)
        prev = vals
        for o, p in zip(res, objs2):
            if hasattr(o, "ansatz"):
                ctx.check(agree(trip(o), trip(p)), f"{steps} steps: representation of the result follows its parameters")
                ctx.eq((o.modes, o.name, o.wires), (p.modes, p.name, p.wires), f"{steps} steps: modes, name and wires of the result")
    if how == "sgd":
        ctx.check(prevcosts[-1] <= c0 + 1e-9, "the cost does not go up", f"{c0} {prevcosts}")
    ctx.see(name, how, round(prevcosts[-1], 9))
    ctx.traces += 1
    del prev, math


def step1(ctx, name, how, objs, start, vals, lr):
    """first step against central differences of the cost"""
    h = 1e-5
    for j, s in enumerate(start):
        v0 = _vars(objs)[j][2]
        grad = np.zeros(s.shape, dtype=complex)
        cplx = np.iscomplexobj(s)

        def at(x):
            o, cost = _objects(name)
            _vars(o)[j][2].value = x
            return float(np.real(cost(*o)))

        for idx in np.ndindex(*s.shape):
            for z in (1.0, 1j) if cplx else (1.0,):
                d = np.zeros(s.shape, dtype=complex if cplx else float)
                d[idx] = z * h
                grad[idx] += z * (at(s + d) - at(s - d)) / (2 * h)
        if not cplx:
            grad = grad.real
        kind = v0.update_fn
        moved = vals[j] - s
        label = f"first step of {_vars(objs)[j][1]}"
        if kind == "update_euclidean":
            if how == "sgd":
                ctx.close(moved, -lr * grad, label, atol=1e-6)
            else:  # adamw: sign-like first step, weight decay 1e-4
                want = -lr * (grad / (np.abs(grad) + 1e-8) + 1e-4 * s)
                big = np.abs(grad) > 1e-3
                ctx.close(np.where(big, moved, 0), np.where(big, want, 0), label, atol=1e-4)
        else:
            ctx.check(np.real(np.sum(np.conj(grad) * moved)) <= 1e-9, f"{label} goes downhill")
            ctx.check(np.linalg.norm(moved) > 1e-9 or np.linalg.norm(grad) < 1e-6, f"{label} moves")


# ---- bounds -----------------------------------------------------------------------------------------------
BOUNDED = [
    ("Attenuator", "transmissivity", 0.97, (0.0, 1.0), -1.0), ("Attenuator", "transmissivity", 0.03, (0.0, 1.0), 1.0), ("Sgate", "r", 0.05, (0.0, None), 1.0), ("Sgate", "r", 0.27, (None, 0.3), -1.0),
    ("Thermal", "nbar", 0.04, (0.0, None), 1.0), ("Amplifier", "gain", 1.02, (1.0, None), 1.0), ("BSgate", "theta", 0.29, (0.1, 0.3), -1.0), ("Rgate", "theta", -0.49, (-0.5, 0.5), 1.0), ("GaussRandNoise", None, None, None, None),
    ("Dgate", "alpha", 0.1, (None, None), -1.0),
]


def r_bounds(case, ctx):
    """a cost that pushes the parameter out of its interval"""
    import optax
    from mrmustard import math
    from mrmustard.training import Optimizer

    lab = L()
    cls, p, v, b, sign = BOUNDED[case["k"]]
    if p is None:
        ctx.see("none")
        return
    modes = (0, 1) if cls == "BSgate" else 0
    for opt_cls in (None, optax.sgd):
        for circuit in (False, True):
            for n in (1, 2, 4):
                obj = getattr(lab, cls)(modes, **{p: v, p + "_trainable": True, p + "_bounds": b})

                def cost(o):
                    c = o.components[1] if circuit else o
                    return sign * math.real(math.sum(getattr(c.parameters, p).value))

                given = lab.Circuit([lab.Vacuum(modes), obj]) if circuit and cls != "Thermal" else obj
                if circuit and cls == "Thermal":
                    continue
                opt = Optimizer(euclidean_lr=0.04)
                (res,) = opt.minimize(cost, by_optimizing=[given], max_steps=n, euclidean_optim=opt_cls)
                c = res.components[1] if circuit else res
                x = np.array(getattr(c.parameters, p).value)
                ctx.transitions += n
                lo, hi = b
                inside = (lo is None or np.real(x) >= lo - 1e-12) and (hi is None or np.real(x) <= hi + 1e-12)
                ctx.check(inside, f"{cls}.{p} stays within {b}", f"{x} after {n} steps")
                free = v - sign * 0.04 * n
                want = max(lo, free) if lo is not None else free
                want = min(hi, want) if hi is not None else want
                if opt_cls is not None:
                    ctx.close(x, want if inside else free, f"{cls}.{p} after {n} steps of gradient descent", atol=1e-6)
                ctx.eq(getattr(c.parameters, p).bounds, b, "bounds of the result")
                ref = getattr(lab, cls)(modes, **{p: x}) if inside else None
                if inside:  # constructors refuse values outside of the physical range
                    ctx.check(agree(trip(c), trip(ref)), f"{cls}: result reflects the parameter")
                ctx.see(cls, n)
    ctx.traces += 1


def r_kinds(case, ctx):
    """sequences of optimisations with one optimiser; zero-step and list/tuple arguments; failing costs"""
    import optax
    from mrmustard import math
    from mrmustard.math.parameters import Variable
    from mrmustard.training import Optimizer

    lab = L()
    opt = Optimizer(euclidean_lr=0.1)
    for order in itertools.permutations((("x", 1.0), ("y", -2.0), ("x", 3.0))):
        for n, t in order:
            v = Variable(0.5, n)
            (r,) = opt.minimize(lambda q, t=t: (q.value - t) ** 2, by_optimizing=[v], max_steps=2, euclidean_optim=optax.sgd)
            want = t + (0.5 - t) * 0.8**2
            ctx.close(np.array(r.value), want, f"{order}: two steps towards {t}", atol=1e-6)
            ctx.close([float(h) for h in opt.opt_history], [0, (0.5 - t) ** 2, ((0.5 - t) * 0.8) ** 2], f"{order}: history starts afresh", atol=1e-6)
            ctx.transitions += 1
    # the same cost function object with a changed target
    tgt = {"t": 1.0}
    f = lambda q: (q.value - tgt["t"]) ** 2  # noqa: E731
    for t in (1.0, -2.0):
        tgt["t"] = t
        (r,) = opt.minimize(f, by_optimizing=[Variable(0.5, "x")], max_steps=1, euclidean_optim=optax.sgd)
        ctx.close(np.array(r.value), t + (0.5 - t) * 0.8, "a later optimisation sees the current target", atol=1e-6)
    # tuple argument, several objects, constants only
    r = opt.minimize(lambda a, b: (a.value - b.value) ** 2, by_optimizing=(Variable(1.0, "a"), Variable(0.0, "b")), max_steps=1, euclidean_optim=optax.sgd)
    ctx.close([float(x.value) for x in r], [0.8, 0.2], "two variables in a tuple", atol=1e-6)
    # shape-(2,) bounded variable
    v = Variable(np.array([0.05, 0.9]), "v", (0.0, 1.0))
    (r,) = opt.minimize(lambda q: math.sum(q.value * math.astensor([1.0, -2.0])), by_optimizing=[v], max_steps=1, euclidean_optim=optax.sgd)
    x = np.array(r.value)
    ctx.check(np.all((x >= 0) & (x <= 1)), "each entry of an array stays within the bounds", str(x))
    ctx.close(np.clip(x, 0, 1), [0.0, 1.0], "each entry follows its own gradient", atol=1e-6)
    # an error in the cost leaves the objects alone
    c = lab.Sgate(0, 0.2, r_trainable=True)

    def bad(q):
        raise RuntimeError("no")

    try:
        opt.minimize(bad, by_optimizing=[c], max_steps=2)
    except RuntimeError:
        pass
    ctx.eq(float(c.parameters.r.value), 0.2, "after a failing cost")
    ctx.see("kinds")
    ctx.traces += 1


def r_constant(case, ctx):
    """stops by itself when the cost is stable"""
    from mrmustard import math
    from mrmustard.math.parameters import Variable
    from mrmustard.training import Optimizer

    import optax

    opt = Optimizer(euclidean_lr=0.1)
    opt.minimize(lambda q: 0.0 * q.value + 0.7, by_optimizing=[Variable(0.5, "x")], max_steps=0, euclidean_optim=optax.sgd)
    ctx.check(20 <= len(opt.opt_history) - 1 <= 22, "a constant cost stops after about 20 steps", str(len(opt.opt_history)))
    opt.minimize(lambda q: 0.0 * q.value + 0.7, by_optimizing=[Variable(0.5, "x")], max_steps=1000, euclidean_optim=optax.sgd)
    ctx.check(20 <= len(opt.opt_history) - 1 <= 22, "a constant cost stops before max_steps", str(len(opt.opt_history)))
    (r,) = opt.minimize(lambda q: (q.value - 1) ** 2, by_optimizing=[Variable(0.5, "x")], max_steps=0, euclidean_optim=optax.sgd)
    h = [float(x) for x in opt.opt_history]
    ctx.check(all(sum(abs(h[i - j] - h[i - j - 1]) for j in range(19)) >= 1e-6 for i in range(20, len(h) - 1)), "did not stop later than stable")
    ctx.check(sum(abs(h[-j] - h[-j - 1]) for j in range(1, 20)) < 1e-6, "stopped when stable")
    ctx.close(float(r.value), 1, "converged", atol=1e-2)
    ctx.see("constant")
    ctx.traces += 1
    del math
