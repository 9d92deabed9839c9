"""C18: the two backends.  Every numerical primitive on an alphabet of inputs, every operation on every component of the catalogue,
and every history of backend switches between making, using and combining components, run on the real code: the results (values,
shapes, refusals) of the two backends are compared, and those of histories with those of a session without switches."""

import itertools
import warnings

import numpy as np

from mc import zoo

LEVEL = "model_checking"
RULE = ("every public numerical primitive x an alphabet of inputs; every component of the catalogue x every operation of an alphabet; every assignment of a backend to each step of the programs make / use / combine / use up to the stated length; "
        "every component first used while a function is compiled, then outside of it and in another compiled function; all pairs of results compared")
ASSUMPTIONS = ["which result is right is decided by the other properties; here that there is one result",
               "a refusal by either backend must be a refusal by both; the type of the exception is not compared"]
CASE_LIMIT = 500
BUDGET = 420


def warm():
    from checks.C07 import warm as w

    w()


# ---- comparing ---------------------------------------------------------------------------------------------------
def canon(v):
    """plain data of a result"""
    from mrmustard import math
    from mrmustard.lab import CircuitComponent
    from mrmustard.physics.ansatz import ArrayAnsatz
    from mrmustard.physics.ansatz.base import Ansatz

    if isinstance(v, CircuitComponent):
        s = zoo.snapshot(v)
        return ("component", s["class"], s["wires"], s["ansatz"], s.get("wire attributes"), canon(s.get("values", [])), tuple((k, p[0], canon(p[2])) for k, p in sorted(s["parameters"].items())))
    if isinstance(v, ArrayAnsatz):
        return ("array", v.batch_dims, canon(v.array))
    if isinstance(v, Ansatz):
        return ("poly", v.batch_dims, bool(v._lin_sup), canon(list(v.triple)))
    if isinstance(v, (tuple, list)):
        return ("list", *[canon(x) for x in v])
    if v is None or isinstance(v, (str, bytes)):
        return v
    a = np.array(math.asnumpy(v) if not isinstance(v, (int, float, complex, bool, np.generic)) else v)
    if a.dtype == object:
        return ("object", str(v))
    if a.dtype == bool:
        return ("bool", a)
    return ("number", a)


def differ(x, y, path=""):
    """first difference of two canonical results, or None"""
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y) or (x and isinstance(x[0], str) and x[0] != y[0]):
            return f"{path}: {str(x)[:120]} / {str(y)[:120]}"
        for i, (a, b) in enumerate(zip(x, y)):
            d = differ(a, b, f"{path}.{i}")
            if d:
                return d
        return None
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape:
            return f"{path}: shapes {x.shape} / {y.shape}"
        if x.size:
            if not np.allclose(x, y, atol=1e-9, rtol=1e-8, equal_nan=True):
                return f"{path}: {x.reshape(-1)[:6]} / {y.reshape(-1)[:6]}"
        return None
    if type(x) is not type(y) and not (isinstance(x, (bool, np.bool_)) and isinstance(y, (bool, np.bool_))):
        return f"{path}: {str(x)[:80]} / {str(y)[:80]}"
    return None if x == y else f"{path}: {x} / {y}"


def finite(x):
    if isinstance(x, tuple):
        return all(finite(y) for y in x)
    return not isinstance(x, np.ndarray) or bool(np.all(np.isfinite(x)))


def attempt(f):
    try:
        return canon(f())
    except Exception as e:  # noqa: BLE001
        return ("refused", e)


def both(ctx, what, f):
    """f() under both backends"""
    from mrmustard import math

    res = {}
    for be in ("numpy", "jax"):
        math.change_backend(be)
        res[be] = attempt(f)
    compare(ctx, what, res["numpy"], res["jax"], "numpy", "jax")


def compare(ctx, what, x, y, nx, ny):
    ctx.ncmp += 1
    ctx.transitions += 1
    rx, ry = isinstance(x, tuple) and len(x) and isinstance(x[0], str) and x[0] == "refused", isinstance(y, tuple) and len(y) and isinstance(y[0], str) and y[0] == "refused"
    if rx or ry:
        if rx != ry and isinstance((x if rx else y)[1], np.linalg.LinAlgError) and not finite(y if rx else x):
            ctx.see("singular", what)  # a refusal in one, not a number in the other
        elif rx != ry:
            ctx.fail(f"{what}: one refuses", f"{nx}: {repr(x[1])[:150] if rx else 'accepts'}; {ny}: {repr(y[1])[:150] if ry else 'accepts'}")
        else:
            ctx.see("refused", what)
        return
    d = differ(x, y)
    ctx.check(d is None, f"{what}: {nx} and {ny} differ", str(d))


# ---- primitives -----------------------------------------------------------------------------------------------------
def re(seed, *sh):
    return np.random.RandomState(seed).uniform(-1, 1, sh)


def cx(seed, *sh):
    return re(seed, *sh) + 1j * re(seed + 50, *sh)


def prims():
    """name -> list of argument tuples (arrays become arrays of the backend in use)"""
    X = {"s": np.array(0.4), "cs": np.array(0.3 - 0.4j), "v": re(1, 3), "cv": cx(2, 3), "m": re(3, 3, 3), "cm": cx(4, 3, 3), "b": re(5, 2, 3, 3), "cb": cx(6, 2, 3, 3), "r": re(7, 2, 4), "e": re(8, 0), "i": np.array([3, 1, 2]), "i2": np.array([[0, 5], [-3, 2]])}
    al = list(X.values())
    fl = [x for x in al if x.dtype.kind != "i"]
    sq = [X[k] for k in ("m", "cm", "b", "cb")]
    spd = [x @ np.conj(np.swapaxes(x, -1, -2)) + 0.5 * np.eye(3) for x in sq]
    pos = [np.abs(x) + 0.1 for x in al if not np.iscomplexobj(x)]
    one = lambda xs: [(x,) for x in xs]
    P = {n: one(al) for n in ("abs", "angle", "conj", "real", "imag", "ones_like", "zeros_like", "sin", "cos", "sinh", "cosh", "exp", "isnan", "iscomplexobj", "astensor", "asnumpy", "infinity_like", "sum", "prod", "all", "any", "norm")}
    P["infinity_like"] = one(fl)
    P["angle"] = one(al[:8])
    P["all"] = P["any"] = one([x > 0.1 for x in al if x.dtype.kind != "c"])
    P["sum"] += [(x, a) for x in (X["m"], X["cb"]) for a in (0, -1, (0, 1), [0, 1])]
    P["prod"] += [(x, a) for x in (X["m"], X["cb"]) for a in (0, -1)]
    P["max"] = one([x for x in al if x.dtype.kind != "c" and x.size])
    P["log"] = one(pos) + one([X["cv"], X["cs"]])
    P["sqrt"] = one(pos) + one([X["cv"]]) + [(X["v"], "complex128"), (np.array(-0.3), "complex128")]
    P["lgamma"] = one([p for p in pos if p.dtype.kind == "f"])
    P["pow"] = [(X["v"], 2), (X["cv"], 3), (X["cm"], 2), (np.abs(X["v"]), 0.5), (np.array(2.0), X["v"]), (X["cv"], X["v"]), (0.3, 2)]
    P["xlogy"] = [(np.array([0.0, 0.5]), np.array([0.0, 0.3])), (X["v"], np.abs(X["v"]))]
    P["mod"] = [(X["v"], 0.3), (X["r"], 1.0), (X["i"], 2), (-X["i"], 2)]
    P["maximum"] = P["minimum"] = [(X["v"], 0.1), (X["m"], X["v"]), (X["i"], 2)]
    P["equal"] = [(X["i"], 2), (X["v"], X["v"]), (X["v"], X["cv"])]
    P["allclose"] = [(X["v"], X["v"] + d) for d in (0, 1e-10, 1e-7, 1e-3)] + [(X["v"], X["v"] + 1e-4, 1e-3), (X["cv"], X["cv"] + 1e-4j, 1e-3), (X["m"], X["b"])]
    P["arange"] = [(4,), (1, 5), (1, 9, 3), (0, 3, 1, "complex128"), (0, 3, 1, "int64")]
    P["atleast_nd"] = [(x, n) for x in (X["s"], X["cv"], X["b"]) for n in (1, 2, 3)] + [(X["v"], 2, "complex128")]
    P["block"] = [([[X["m"], X["cm"]], [X["cm"], X["m"]]],), ([[X["b"], X["cb"]], [X["cb"], X["b"]]],), ([[X["v"], X["v"]]], (0, -1)), ([[X["m"][:2, :1], X["m"][:2]], [X["m"][2:, :1], X["m"][2:]]],)]
    P["broadcast_arrays"] = [(X["s"], X["cv"]), (X["v"], X["m"], X["b"]), (X["v"], X["r"])]
    P["broadcast_to"] = [(X["v"], (2, 3)), (X["s"], (2, 2)), (X["m"], (4, 3, 3)), (X["v"], (3, 2)), (X["v"], (2, 3), "complex128")]
    P["cast"] = [(x, d) for x in (X["s"], X["v"], X["i"], X["cv"]) for d in ("complex128", "float64", "int64", None) if not (np.iscomplexobj(x) and d in ("float64", "int64"))]
    P["astensor"] = P["astensor"] + [(x, d) for x in (0.3, [1, 2], [[0.3, 1]], [0.2, 1j], 2, True) for d in (None, "complex128", "float64") if not (d == "float64" and x == [0.2, 1j])]
    P["clip"] = [(X["v"], -0.2, 0.3), (X["m"], 0.0, 1.0)]
    P["concat"] = [([X["v"], X["cv"]], 0), ([X["m"], X["r"][:, :3]], 0), ([X["m"], X["m"]], -1), ([X["b"], X["cb"]], 1), ([X["v"], X["i"]], -1)]
    P["stack"] = [([X["v"], X["cv"]], a) for a in (0, 1, -1)] + [([X["m"], X["m"]], 1), ([0.3, 1.0],)]
    P["det"] = P["inv"] = P["pinv"] = one(sq)
    P["pinv"] = one(sq) + one([X["m"] * 0, X["r"]])
    P["eigh"] = one(spd)
    P["eigvals"] = one([np.diag([0.3, 0.2, -0.4]), X["m"] + X["m"].T])
    P["expm"] = one(sq[:2])
    P["sqrtm"] = one(spd) + one([np.zeros((3, 3)), spd[0] * 1e-12]) + [(spd[0], "complex128"), (spd[1], "float64"), (-spd[0],)]
    P["solve"] = [(X["m"], X["v"]), (X["cm"], X["cv"]), (X["b"], X["r"][:, :3]), (X["m"], X["m"]), (X["cb"], X["b"])]
    P["diagonal"] = [(X["m"], 0, 0, 1), (X["b"], 1, -2, -1), (X["cb"], -1, 1, 2)]
    P["diag"] = [(x, k) for x in (X["v"], X["r"], X["m"], X["cb"]) for k in (0, 1, -1, 2)]
    P["diag_part"] = [(x, k) for x in (X["m"], X["cb"]) for k in (0, 1, -1)]
    P["einsum"] = [("ij,jk->ik", X["m"], X["cm"]), ("bij,bj->bi", X["b"], X["r"][:, :3]), ("ij->", X["m"]), ("ii->i", X["cm"]), ("bij,kj->bik", X["b"], X["m"])]
    P["expand_dims"] = [(x, a) for x in (X["s"], X["v"], X["b"]) for a in (0, -1)] + [(X["b"], 1)]
    P["eye"] = [(1,), (3,), (2, "complex128")]
    P["eye_like"] = one([X["m"], X["cm"], X["b"]])
    P["gather"] = [(X["v"], X["i"] % 3), (X["m"], X["i"] % 3, 0), (X["m"], X["i"] % 3, 1), (X["b"], np.array([1, 0, 1]), 0), (X["b"], np.array([2, 0]), -1), (X["cm"], [2, 0], 1), (X["v"], 1)]
    P["make_complex"] = [(X["v"], X["v"]), (X["s"], X["s"]), (0.2, 0.3)]
    P["matmul"] = [(X["m"], X["cm"]), (X["b"], X["m"]), (X["m"], X["cb"]), (X["m"], X["m"], X["cm"]), (X["r"], X["m"])]
    P["matvec"] = [(X["m"], X["v"]), (X["b"], X["r"][:, :3]), (X["cb"], X["v"]), (X["m"], X["cv"]), (X["b"], X["cb"][0])]
    P["moveaxis"] = [(X["b"], 0, 2), (X["b"], 2, 0), (X["cb"], (0, 1), (2, 0)), (X["m"], 0, -1)]
    P["ones"] = P["zeros"] = [((2, 3),), ((),), ((0, 2),), ((2,), "complex128"), ([2, 1],)]
    P["outer"] = [(X["v"], X["cv"]), (X["m"], X["v"]), (X["s"], X["v"]), (X["r"], X["m"])]
    P["pad"] = [(X["v"], [(1, 2)]), (X["m"], [(0, 1), (2, 0)]), (X["cm"], ((1, 0), (0, 0)), "CONSTANT", 0.5), (X["m"], ((1, 1), (1, 1)), "CONSTANT", 0)]
    P["kron"] = [(X["m"], X["cm"]), (X["r"], X["m"]), (X["v"], X["v"])]
    P["reshape"] = [(X["b"], s) for s in ((18,), (3, 6), (-1, 2), (2, 9, 1), [6, 3], (7, 2))]
    P["sort"] = [(X["v"],), (X["m"], 0), (X["b"], 1), (X["b"], -1), (X["i"],)]
    P["swapaxes"] = [(X["b"], 0, 1), (X["b"], -1, 0), (X["m"], 0, 1)]
    P["tensordot"] = [(X["m"], X["cm"], ((1,), (0,))), (X["b"], X["m"], ((1, 2), (0, 1))), (X["b"], X["cb"], ([0], [0])), (X["v"], X["v"], ((0,), (0,))), (X["m"], X["v"], ((), ())), (X["b"], X["m"], 1)]
    P["tile"] = [(X["v"], (2,)), (X["m"], (2, 3)), (X["s"], (2,)), (X["v"], (2, 2))]
    P["trace"] = one(sq) + [(X["m"], "complex128")]
    P["transpose"] = [(X["b"], None), (X["b"], (1, 2, 0)), (X["m"], (1, 0)), (X["cm"], [1, 0]), (X["m"],)]
    P["update_tensor"] = [(X["v"], np.array([0, 2]), np.array([0.5, 0.7])), (X["m"], np.array([0, 2]), X["r"][:, :3]), (X["m"], (np.array([0, 2]), np.array([1, 1])), np.array([0.5, 0.7])), (X["cm"], 1, X["cv"])]
    P["update_add_tensor"] = [(X["v"], np.array([[0], [2]]), np.array([0.5, 0.7])), (X["m"], np.array([[0, 1], [2, 2]]), np.array([0.5, 0.7])), (X["cm"], np.array([[1, 1]]), np.array([0.3j])), (X["v"], np.array([[0], [0]]), np.array([0.5, 0.7]))]
    P["dagger"] = one(sq)
    P["unitary_to_orthogonal"] = [(np.linalg.qr(X["cm"])[0],)]
    P["rotmat"] = [(1,), (2,), (3,)]
    P["all_diagonals"] = [(cx(9, 3, 3), r) for r in (True, False)] + [(cx(10, 2, 3, 2, 3), r) for r in (True, False)]
    S = np.array([[1.3, 0.2], [0.1, (1 + 0.02) / 1.3]])
    P["euclidean_to_symplectic"] = [(S, re(11, 2, 2)), (np.eye(4), re(12, 4, 4))]
    P["euclidean_to_unitary"] = [(np.linalg.qr(X["cm"])[0], cx(13, 3, 3))]
    P["displacement"] = [(a, sh) for a in (0.0, 0.3, 0.2 - 0.4j, 1.1j) for sh in ((3, 3), (2, 4), (4, 1), (1, 1))] + [(1e-4, (2, 2), 1e-3), (1e-4, (2, 2))]
    P["squeezer"] = [(r, p, sh) for r, p in ((0.0, 0.0), (0.3, 0.2), (-0.4, 1.0)) for sh in ((3, 3), (2, 5), (4, 1))]
    P["squeezed"] = [(r, p, sh) for r, p in ((0.0, 0.0), (0.3, 0.2), (-0.4, 1.0)) for sh in ((3,), (1,), (6,))]
    P["beamsplitter"] = [(t, p, sh, m) for t, p in ((0.0, 0.0), (0.3, 0.2), (-0.4, 1.0)) for sh, m in (((2, 3, 2, 3), "vanilla"), ((3, 2, 1, 3), "stable"), ((2, 2, 2, 2), "schwinger"), ((3, 3, 3, 3), "vanilla"), ((2, 2, 2, 2), "none"))]

    def abc(n, k, *bt):
        A = cx(20 + n + k, *bt, n, n) * 0.3
        return A + np.swapaxes(A, -1, -2), cx(30 + n + k, *bt, n) * 0.5, cx(40 + k, *bt)

    H = []
    for k in range(3):
        H += [(*abc(1, k), (4,)), (*abc(2, k), (3, 2)), (*abc(2, k), (1, 4)), (*abc(3, k), (2, 3, 2)), (*abc(4, k), (2, 2, 3, 1))]
    H += [(*abc(2, 0, 3), (3, 2)), (*abc(1, 0, 2, 2), (4,)), (abc(2, 0)[0], abc(2, 0, 3)[1], abc(2, 0)[2], (2, 3)), (abc(2, 0, 3)[0], abc(2, 0, 3)[1], abc(2, 0)[2], (2, 3))]
    H += [(np.zeros((0, 0)) + 0j, np.zeros(0) + 0j, np.array(0.3 + 0j), ())]
    P["hermite_renormalized"] = H + [(*h, True) for h in H]
    P["hermite_renormalized_diagonal"] = [(*abc(2 * len(c), k), c, ro) for k in (0, 1) for c in ((3,), (2, 3), (1, 2, 2)) for ro in (True, False)]
    P["hermite_renormalized_1leftoverMode"] = [(*abc(2 + 2 * len(c), k), o, c, ro) for k in (0, 1) for o, c in ((2, (1,)), (0, (2,)), (1, (1, 2))) for ro in (True, False)]
    P["hermite_renormalized_binomial"] = [(*abc(len(sh), 0), sh, l2, g) for sh in ((4,), (3, 2), (2, 2, 3)) for l2 in (None, 0.5, 1e6) for g in (None, 1, 2, 5)]
    P["conditional"] = [(np.array(c), "inc", "dec", X["v"]) for c in (True, False)]
    P["map_fn"] = [("inc", X["m"]), ("norm2", X["m"])]
    P["error_if"] = [(X["v"], c, "no") for c in (True, False)]
    P["issubdtype"] = [(a, b) for a in ("float64", "complex128", "int64") for b in ("float", "complex", "int")]
    return P


FUN = {"inc": lambda x: x + 1, "dec": lambda x: x - 1, "norm2": lambda x: (x * x).sum()}
NPARTS = 6


def r_prim(case, ctx):
    from mrmustard import math

    P = prims()
    for name in sorted(P)[case["k"]::NPARTS]:
        for j, args in enumerate(P[name]):
            def conv(a, top=True):
                if isinstance(a, np.ndarray):
                    return math.astensor(a.copy()) if name != "error_if" or a.dtype != bool else a
                if isinstance(a, list) and a and isinstance(a[0], (np.ndarray, list)) and name in ("concat", "stack", "block"):
                    return [conv(x) for x in a]
                if isinstance(a, str):
                    if a in FUN:
                        return FUN[a]
                    return getattr(math, a) if a in ("complex128", "float64", "int64") else {"float": float, "complex": complex, "int": int}.get(a, a)
                return a

            desc = ", ".join(f"{a.dtype}{list(a.shape)}" if isinstance(a, np.ndarray) else str(a)[:40] for a in args)
            both(ctx, f"{name} #{j} ({desc})", lambda: getattr(math, name)(*[conv(a) for a in args]))
            for made, used in (("numpy", "jax"), ("jax", "numpy")):  # arguments made before a switch
                math.change_backend(used)
                want = attempt(lambda: getattr(math, name)(*[conv(a) for a in args]))
                math.change_backend(made)
                given = attempt_raw(lambda: [conv(a) for a in args])
                math.change_backend(used)
                if given is not None and not name.startswith("update_"):  # in place
                    compare(ctx, f"{name} #{j} ({desc}) of {made} arguments in {used}", want, attempt(lambda: getattr(math, name)(*given)), "own arguments", "others")
    ctx.traces += 1
    ctx.states += 1


# ---- components -----------------------------------------------------------------------------------------------------
def ops():
    import mrmustard.lab as L

    def sh(c, k):
        return tuple([k, 2, 3, 2, 1, 2, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1][:len(c.wires)])

    def first(c):
        return sorted(c.modes)[0]

    O = {
        "itself": lambda c: c,
        "dual": lambda c: c.dual, "adjoint": lambda c: c.adjoint,
        "dm": lambda c: c.dm(), "probability": lambda c: c.probability, "purity": lambda c: c.purity, "L2 norm": lambda c: c.L2_norm, "is pure": lambda c: c.is_pure, "is physical": lambda c: c.is_physical,
        "array": lambda c: c.fock_array(sh(c, 3)), "converted": lambda c: c.to_fock(sh(c, 3)), "back": lambda c: c.to_fock(sh(c, 3)).to_bargmann(), "bargmann": lambda c: c.to_bargmann(), "triple": lambda c: c.bargmann_triple(),
        "quadrature": lambda c: c.quadrature(*[np.array([0.1, -0.3])] * len(c.wires), phi=0.2), "to quadrature": lambda c: c.to_quadrature(0.3), "quadrature triple": lambda c: c.quadrature_triple(0.1),
        "distribution": lambda c: c.quadrature_distribution(np.array([0.0, 0.4])), "photons": lambda c: c.fock_distribution(3),
        "phase space": lambda c: c.phase_space(0), "phase space 1": lambda c: c.phase_space(-1), "wigner": lambda c: c.wigner(*[np.array([0.2, -0.1])] * (2 * len(c.modes))), "auto shape": lambda c: c.auto_shape(),
        "normalized": lambda c: c.normalize(), "twice": lambda c: 2.0 * c, "sum": lambda c: c + c, "difference": lambda c: (c - 0.5 * c), "half": lambda c: c / 2, "i times": lambda c: c * 1j,
        "fidelity": lambda c: c.fidelity(L.Coherent(first(c), 0.3) if len(c.modes) == 1 else c), "expectation": lambda c: c.expectation(L.Coherent(first(c), 0.3)), "expectation of operator": lambda c: c.expectation(L.Rgate(first(c), 0.4)),
        "expectation of state": lambda c: c.expectation(L.Thermal(first(c), 0.4)), "expectation in number basis": lambda c: c.expectation(L.Number(first(c), 1)),
        "reduced": lambda c: c[first(c)], "inverse": lambda c: c.inverse(), "symplectic": lambda c: c.symplectic, "XY": lambda c: c.XY, "is CP": lambda c: c.is_CP, "is TP": lambda c: c.is_TP,
        "formal": lambda c: c.formal_stellar_decomposition([first(c)]), "stellar": lambda c: c.physical_stellar_decomposition([first(c)]),
        "moved": lambda c: c.on([m + 30 for m in c.modes]),
        "then displaced": lambda c: c >> L.Dgate(first(c), 0.2j), "then lost": lambda c: c >> L.Attenuator(first(c), 0.7), "then measured": lambda c: c >> L.Number(first(c), 1).dual, "then projected": lambda c: c >> L.Coherent(first(c), 0.1).dual, "then traced": lambda c: c >> L.TraceOut(first(c)),
        "then noise": lambda c: c >> L.PhaseNoise(first(c), 0.3), "then squeezed in number basis": lambda c: c >> L.Sgate(first(c), 0.2).to_fock((3, 3)), "applied": lambda c: L.SqueezedVacuum(first(c), 0.2) >> c, "applied to number": lambda c: L.Number(first(c), 1, 3) >> c, "then batch": lambda c: c >> L.Rgate(first(c), [0.1, 0.2]),
        "contracted with dual": lambda c: c.contract(c.dual), "zipped": lambda c: c.contract(c.adjoint, mode="zip"), "equal": lambda c: c == c, "equal to twice": lambda c: c == 2 * c,
    }
    A = {
        "conj": lambda a: a.conj, "trace": lambda a: a.trace([0], [1]), "contract": lambda a: a.contract(a, list(range(a.core_dims)), [9, *range(1, a.core_dims)], [*range(a.core_dims), 9]), "and": lambda a: a & a if not hasattr(a, "array") or a.core_dims < 5 else None, "scalar": lambda a: a.scalar,
        "reorder": lambda a: a.reorder([*range(1, a.core_dims), 0]), "called": lambda a: a(*[np.array([0.1, 0.2j])] * a.core_dims), "eval": lambda a: a.eval(*[0.3] * a.core_dims), "simplified": lambda a: a.simplify(), "decomposed": lambda a: a.decompose_ansatz(),
        "reduce": lambda a: a.reduce((2,) * a.core_dims), "PS": lambda a: a.PS, "negated": lambda a: -a, "eq": lambda a: a == a, "to dict": lambda a: list(a.to_dict().values()),
    }
    return {**O, **{"ansatz " + k: (lambda c, f=f: f(c.ansatz)) for k, f in A.items()}}


STRUCTS = [f"{k}:{s}" for k in ("Ket", "DM", "Unitary", "Channel", "CircuitComponent") for s in zoo.STRUCT]
SKIP = {"BargmannEigenstate-batchtrain"}


def names():
    out = [n for n in zoo.ZOO if "random" not in n]
    out += [s for s in STRUCTS if s not in out]
    return out


def make(n):
    if n in zoo.ZOO:
        return zoo.ZOO[n]()
    k, s = n.split(":")
    return zoo.abstract(k, s, (5, 13) if k in ("Ket", "DM", "CircuitComponent") else (3,))


def heavy(n):
    return "@3" in n


def cases(tier):
    T = tier == "thorough"
    out = [{"id": f"prim-{k}", "part": "prim", "k": k} for k in range(NPARTS)]
    N = [n for n in names() if T or not (heavy(n) or "@coll2" in n)]
    for n in N:
        out.append({"id": f"comp-{n}", "part": "comp", "name": n})
    some = [n for n in N if "." not in n and not any(x in n for x in ("@coll2", "train1", "batchtrain")) and n.split(":")[0] not in ("Unitary", "Channel")]
    for n in N if T else some:
        out.append({"id": f"hist-{n}", "part": "hist", "name": n, "depth": 3 if T else 2})
    for n in N:
        if "-train" not in n and "-batchtrain" not in n:
            out.append({"id": f"late-{n}", "part": "late", "name": n})
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    settings.DEFAULT_FOCK_SIZE = 3
    settings.AUTOSHAPE_MAX = 4
    settings.AUTOSHAPE_PROBABILITY = 1 - 1e-9
    globals()["r_" + case["part"]](case, ctx)


def r_comp(case, ctx):
    O = ops()
    n = case["name"]
    for o, f in O.items():
        if o == "to quadrature" and n.startswith("BtoPS"):
            continue  # the sign of a square root at its cut is undetermined
        both(ctx, o, lambda: f(make(n)))
    ctx.traces += 1
    ctx.states += len(O)


HIST = ("itself", "dual", "array", "converted", "then displaced", "then projected", "probability", "expectation", "applied", "zipped", "sum", "phase space", "triple", "ansatz decomposed", "ansatz simplified", "wigner")


def r_hist(case, ctx):
    """make, use, ... , use with every assignment of a backend to every step: the last result is that of a session in one backend"""
    from mrmustard import math

    O = ops()
    n = case["name"]
    math.change_backend("numpy")
    ref = {o: attempt(lambda: O[o](make(n))) for o in HIST}
    for be in itertools.product(("numpy", "jax"), repeat=case["depth"] + 1):
        if len(set(be)) == 1:
            continue
        for first in HIST if case["depth"] > 2 else ("dual", "array", "then displaced", "sum"):
            math.change_backend(be[0])
            c = attempt_raw(lambda: make(n))
            if c is None:
                continue
            for b in be[1:-1]:
                math.change_backend(b)
                attempt_raw(lambda: O[first](c))
            math.change_backend(be[-1])
            for o in HIST:
                compare(ctx, f"made and used ({first}) in {', '.join(be[:-1])}, then {o} in {be[-1]}", ref[o], attempt(lambda: O[o](c)), "one backend", "history")
    ctx.traces += 1
    ctx.states += 1


def attempt_raw(f):
    try:
        return f()
    except Exception:  # noqa: BLE001
        return None


def r_late(case, ctx):
    """made outside, first used while a function is compiled, then used outside and while another function is compiled"""
    import jax

    from mrmustard import math

    O = ops()
    n = case["name"]
    math.change_backend("jax")
    for first in ("array", "then projected", "triple", "phase space", "probability"):
        ref = {o: attempt(lambda: O[o](make(n))) for o in ("itself", "array", "triple", "then projected")}
        c = make(n)
        seen = []

        def f(x):
            r = attempt_raw(lambda: O[first](c))
            seen.append(r)
            return x

        jax.jit(f)(0.3)
        for o, r in ref.items():
            compare(ctx, f"first used ({first}) while compiling, then {o}", r, attempt(lambda: O[o](c)), "fresh", "after")
        ctx.transitions += 1
    ctx.traces += 1
    ctx.states += 1
