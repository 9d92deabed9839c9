"""A named catalogue of real objects: every public component class in several variants, and abstract components of every ansatz
structure.  ``ZOO[name]`` is a zero-argument constructor; ``tags(name)`` its features."""

from __future__ import annotations

import numpy as np

from . import comps

ZOO = {}
TAGS = {}


def z(name, *tags):
    def deco(fn):
        ZOO[name] = fn
        TAGS[name] = set(tags)
        return fn

    return deco


def _lab():
    import mrmustard.lab as L

    return L


# ---- every public class ---------------------------------------------------------------------------
# class -> (modes, params, batchable parameter values, trainable params with bounds)
P1 = {
    "Coherent": ({"alpha": 0.3 - 0.2j}, {"alpha": [0.3 - 0.2j, 0.1j]}, {"alpha": (None, 2.0)}),
    "DisplacedSqueezed": ({"alpha": 0.2 + 0.1j, "r": 0.3, "phi": 0.4}, {"alpha": [0.2, 0.1j, 0.3], "r": 0.3, "phi": [0.1, 0.2, 0.3]}, {"alpha": (0, None), "r": (-1.0, 1.0), "phi": (None, None)}),
    "SqueezedVacuum": ({"r": 0.3, "phi": 0.7}, {"r": [0.3, 0.1], "phi": 0.7}, {"r": (0.0, 2.0), "phi": (None, 3.0)}),
    "Thermal": ({"nbar": 0.4}, {"nbar": [0.4, 0.2]}, {"nbar": (0.0, 9.0)}),
    "BargmannEigenstate": ({"alpha": 0.3 + 0.1j}, {"alpha": [0.3, 0.1j]}, {"alpha": (None, None)}),
    "QuadratureEigenstate": ({"x": 0.3, "phi": 0.2}, {"x": [0.3, -0.3], "phi": 0.2}, {"x": (-1.0, 1.0), "phi": (None, None)}),
    "Dgate": ({"alpha": 0.3 - 0.2j}, {"alpha": [0.3 - 0.2j, 0.1j]}, {"alpha": (None, 2.0)}),
    "Sgate": ({"r": 0.3, "phi": 0.7}, {"r": [0.3, 0.1], "phi": 0.7}, {"r": (0.0, 2.0), "phi": (None, 3.0)}),
    "Rgate": ({"theta": 0.7}, {"theta": [0.7, 0.1]}, {"theta": (0.0, 6.0)}),
    "Pgate": ({"shearing": 0.3}, {"shearing": [0.3, -0.2]}, {"shearing": (None, 6.0)}),
    "Attenuator": ({"transmissivity": 0.7}, {"transmissivity": [0.7, 0.2]}, {"transmissivity": (0.1, 0.9)}),
    "Amplifier": ({"gain": 1.3}, {"gain": [1.3, 1.1]}, {"gain": (1.0, 3.0)}),
    "FockDamping": ({"damping": 0.3}, {"damping": [0.3, 0.1]}, {"damping": (0.0, 3.0)}),
    "PhaseNoise": ({"phase_stdev": 0.3}, None, {"phase_stdev": (0.0, 3.0)}),
}
P2 = {
    "TwoModeSqueezedVacuum": ({"r": 0.3, "phi": 0.7}, {"r": [0.3, 0.1], "phi": 0.7}, {"r": (0.0, 2.0), "phi": (None, 3.0)}),
    "BSgate": ({"theta": 0.3, "phi": 0.7}, {"theta": [0.3, 0.1], "phi": 0.7}, {"theta": (0.0, 2.0), "phi": (None, 3.0)}),
    "S2gate": ({"r": 0.3, "phi": 0.7}, {"r": [0.3, 0.1], "phi": 0.7}, {"r": (0.0, 2.0), "phi": (None, 3.0)}),
    "MZgate": ({"phi_a": 0.3, "phi_b": 0.7}, {"phi_a": [0.3, 0.1], "phi_b": 0.7}, {"phi_a": (0.0, 2.0), "phi_b": (None, 3.0)}),
    "CXgate": ({"s": 0.3}, {"s": [0.3, 0.1]}, {"s": (0.0, 2.0)}),
    "CZgate": ({"s": 0.3}, {"s": [0.3, 0.1]}, {"s": (0.0, 2.0)}),
}


def _mk(cls, modes, kw):
    def fn():
        return getattr(_lab(), cls)(modes, **{k: (v() if callable(v) else v) for k, v in kw.items()})

    return fn


def _tr(vals, bounds):
    out = dict(vals)
    for k, b in bounds.items():
        out[k + "_trainable"] = True
        out[k + "_bounds"] = b
    return out


for _table, _modes, _alt in ((P1, 3, 13), (P2, (0, 1), (5, 13))):
    for _c, (_v, _b, _t) in _table.items():
        _fam = "state" if _c in ("Coherent", "DisplacedSqueezed", "SqueezedVacuum", "Thermal", "BargmannEigenstate", "QuadratureEigenstate", "TwoModeSqueezedVacuum") else "gate"
        _two = _table is P2
        ZOO[_c] = _mk(_c, _modes, _v)
        TAGS[_c] = {"class", _fam}
        if _two:
            ZOO[_c + "@coll"] = _mk(_c, (5, 13), _v)
            TAGS[_c + "@coll"] = {"class", _fam}
            ZOO[_c + "@coll2"] = _mk(_c, (8, 16), _v)
            TAGS[_c + "@coll2"] = {"class", _fam}
        if _b is not None:
            ZOO[_c + "-batch"] = _mk(_c, _alt, _b)
            TAGS[_c + "-batch"] = {"class", _fam, "batch"}
        ZOO[_c + "-train"] = _mk(_c, _modes, _tr(_v, _t))
        TAGS[_c + "-train"] = {"class", _fam, "train"}
        if len(_t) > 1:
            _k = list(_t)[-1]
            ZOO[_c + "-train1"] = _mk(_c, _alt, _tr(_v, {_k: _t[_k]}))
            TAGS[_c + "-train1"] = {"class", _fam, "train"}
        if _b is not None:
            ZOO[_c + "-batchtrain"] = _mk(_c, _modes, _tr(_b, {k: x for k, x in _t.items() if isinstance(_b[k], list)}))
            TAGS[_c + "-batchtrain"] = {"class", _fam, "batch", "train"}

for _n, _m in (("", (0, 1)), ("@coll", (5, 13)), ("@coll2", (8, 16)), ("@3", (3, 8, 41)), ("@1", (7,))):
    _k = len(_m)
    for _c, _v, _t, _fam in (("GKet", {"symplectic": (lambda k=_k: comps.S_lib(1, k))}, ["symplectic"], "state"),
                             ("GDM", {"symplectic": (lambda k=_k: comps.S_lib(1, k)), "beta": (lambda k=_k: np.array([1.1, 1.4, 0.9][:k]))}, ["symplectic"], "state"),
                             ("Ggate", {"symplectic": (lambda k=_k: comps.S_lib(1, k))}, ["symplectic"], "gate"),
                             ("Interferometer", {"unitary": (lambda k=_k: comps.U_lib(1, k))}, ["unitary"], "gate"),
                             ("RealInterferometer", {"orthogonal": (lambda k=_k: comps.O_lib(1, k))}, ["orthogonal"], "gate"),
                             ("GaussRandNoise", {"Y": (lambda k=_k: comps.Y_lib(1, k))}, ["Y"], "gate")):
        ZOO[_c + _n] = _mk(_c, _m, _v)
        TAGS[_c + _n] = {"class", _fam}
        if _n in ("", "@1"):
            ZOO[_c + _n + "-train"] = _mk(_c, _m, {**_v, **{t + "_trainable": True for t in _t}})
            TAGS[_c + _n + "-train"] = {"class", _fam, "train", "matrix"}
    for _c, _fam in (("Vacuum", "state"), ("Identity", "gate"), ("TraceOut", "util"), ("BtoQ", "util")):
        ZOO[_c + _n] = _mk(_c, _m, {})
        TAGS[_c + _n] = {"class", _fam}
    for _c in ("BtoPS", "BtoChar"):
        for _s in ((0, -1, 0.5) if _c == "BtoPS" else (0, -1, 1)) if _n == "" else (0,):
            ZOO[f"{_c}{_s}{_n}"] = _mk(_c, _m, {"s": _s})
            TAGS[f"{_c}{_s}{_n}"] = {"class", "util"}
ZOO["BtoQ-phi"] = _mk("BtoQ", (1, 4), {"phi": 0.3})
ZOO["MZgate-internal"] = _mk("MZgate", (0, 1), {"phi_a": 0.3, "phi_b": 0.7, "internal": True})
ZOO["Number"] = _mk("Number", 3, {"n": 2})
ZOO["Number-cut"] = _mk("Number", 3, {"n": 2, "cutoff": 5})
ZOO["Number0"] = _mk("Number", 3, {"n": 0})
ZOO["Number-batch"] = _mk("Number", 3, {"n": [0, 3, 1]})
ZOO["Number-batch-cut"] = _mk("Number", 3, {"n": [0, 3, 1], "cutoff": 6})
ZOO["Sauron"] = _mk("Sauron", 3, {"n": 2})
ZOO["Sauron-eps"] = _mk("Sauron", 3, {"n": 3, "epsilon": 0.3})
ZOO["Thermal0"] = _mk("Thermal", 0, {})
ZOO["GDM-beta"] = _mk("GDM", (0, 1), {"beta": 0.9, "symplectic": lambda: comps.S_lib(0, 2)})
ZOO["Dgate0"] = _mk("Dgate", 0, {})
ZOO["Coherent-sum"] = lambda: _lab().Coherent(3, 0.3) + _lab().Coherent(3, -0.2j)
ZOO["Coherent-sumtrain"] = lambda: _lab().Coherent(3, 0.3, alpha_trainable=True) + _lab().Coherent(3, -0.2j, alpha_trainable=True)
ZOO["SqueezedVacuum-sum3"] = lambda: _lab().SqueezedVacuum(3, 0.3) + _lab().SqueezedVacuum(3, 0.2, 0.1) + _lab().SqueezedVacuum(3, 0.1)
ZOO["Dgate-sum"] = lambda: _lab().Dgate(3, 0.3) + _lab().Dgate(3, -0.2j)
ZOO["TMSV-sum"] = lambda: _lab().TwoModeSqueezedVacuum((5, 13), 0.3) + _lab().TwoModeSqueezedVacuum((5, 13), 0.1, 0.4)
TAGS["Coherent-sum"] = TAGS["Coherent-sumtrain"] = TAGS["SqueezedVacuum-sum3"] = TAGS["TMSV-sum"] = {"class", "state", "sum"}
TAGS["Dgate-sum"] = {"class", "gate", "sum"}
for _x in ("BtoQ-phi",):
    TAGS[_x] = {"class", "util"}
for _x in ("MZgate-internal", "Dgate0"):
    TAGS[_x] = {"class", "gate"}
for _x in ("Number", "Number-cut", "Number0", "Sauron", "Sauron-eps", "Thermal0", "GDM-beta"):
    TAGS[_x] = {"class", "state"}
for _x in ("Number-batch", "Number-batch-cut"):
    TAGS[_x] = {"class", "state", "batch"}


# ---- abstract components of every ansatz structure -------------------------------------------------
def rnd(seed, *shape):
    r = np.random.RandomState(seed)
    return r.randn(*shape) + 1j * r.randn(*shape)


def poly(nv, batch=(), derived=(), lin_sup=False, seed=0):
    from mrmustard.physics.ansatz import PolyExpAnsatz

    k = nv + len(derived)
    M = 0.12 * rnd(seed + 7 * k, *batch, k, k)
    A = M + np.swapaxes(M, -1, -2)
    b = 0.3 * rnd(seed + 1, *batch, k)
    c = 0.6 * rnd(seed + 2, *batch, *derived)
    return PolyExpAnsatz(A, b, c, lin_sup=lin_sup)


def arr(nv, batch=(), seed=0, n=3):
    from mrmustard.physics.ansatz import ArrayAnsatz

    return ArrayAnsatz(rnd(seed + 3, *batch, *[n + (i % 2) for i in range(nv)]) * 0.4, batch_dims=len(batch))


STRUCT = {
    "poly": lambda nv: poly(nv),
    "batch": lambda nv: poly(nv, (2,)),
    "batch2": lambda nv: poly(nv, (2, 3)),
    "sup": lambda nv: poly(nv, (3,), lin_sup=True),
    "batchsup": lambda nv: poly(nv, (2, 3), lin_sup=True),
    "derived": lambda nv: poly(nv, (), (3,)),
    "derived2": lambda nv: poly(nv, (), (2, 3)),
    "batchderived": lambda nv: poly(nv, (2,), (3,)),
    "supderived": lambda nv: poly(nv, (2,), (3,), lin_sup=True),
    "arr": lambda nv: arr(nv),
    "arrbatch": lambda nv: arr(nv, (2,)),
    "arrbatch2": lambda nv: arr(nv, (2, 3)),
}
KINDS = {  # kind -> (class name, wires for modes m)
    "Ket": lambda m: dict(modes_out_ket=m),
    "DM": lambda m: dict(modes_out_bra=m, modes_out_ket=m),
    "Unitary": lambda m: dict(modes_out_ket=m, modes_in_ket=m),
    "Operation": lambda m: dict(modes_out_ket=set(list(m)[:1]) or m, modes_in_ket=m),
    "Channel": lambda m: dict(modes_out_bra=m, modes_in_bra=m, modes_out_ket=m, modes_in_ket=m),
    "Map": lambda m: dict(modes_out_bra=m, modes_in_bra=m, modes_out_ket=m, modes_in_ket=m),
    "CircuitComponent": lambda m: dict(modes_in_bra=m, modes_out_ket=m),
}


def abstract(kind, struct, modes, name="obj"):
    from mrmustard.physics.wires import Wires

    m = set(modes)
    w = Wires(**KINDS[kind](m))
    a = STRUCT[struct](len(w.quantum))
    L = _lab()
    return getattr(L, kind)(a, w, name=name)


for _kind in KINDS:
    for _s in STRUCT:
        for _n, _m in (("", (5, 13)), ("@1", (2,))):
            if _n == "" and _kind in ("Channel", "Map") and _s in ("batch2", "batchsup", "derived2", "arrbatch2", "arr", "arrbatch"):
                continue
            ZOO[f"{_kind}:{_s}{_n}"] = (lambda k=_kind, s=_s, m=_m: abstract(k, s, m))
            TAGS[f"{_kind}:{_s}{_n}"] = {"abstract", _kind, _s}


# ---- derived objects -------------------------------------------------------------------------------
DER = {
    "dual": lambda c: c.dual,
    "adjoint": lambda c: c.adjoint,
    "dualadjoint": lambda c: c.dual.adjoint,
    "fock": lambda c: c.to_fock(4),
    "on": lambda c: c.on([20 + i for i in range(len(c.modes))]),
}
for _c in ("Coherent", "Dgate", "BSgate@coll", "Attenuator", "SqueezedVacuum-batch", "Number", "Thermal", "GKet@coll", "Sgate-train", "Ket:sup", "Ket:arr", "GaussRandNoise@coll", "TraceOut@coll", "BtoQ-phi", "BtoPS0", "BtoChar0"):
    for _d in DER:
        if (_d == "fock" and _c in ("PhaseNoise", "TraceOut@coll", "Ket:arr", "BtoQ-phi", "BtoPS0", "BtoChar0")) or (_d == "on" and _c == "Number"):
            continue
        ZOO[f"{_c}.{_d}"] = (lambda c=_c, d=_d: DER[d](ZOO[c]()))
        TAGS[f"{_c}.{_d}"] = {"derived"}


for _c in ("Dgate", "BSgate@coll", "Attenuator", "Sgate-train", "GKet@coll", "BtoQ-phi", "BtoChar0", "Ggate@coll", "Unitary:poly"):
    if _c != "GKet@coll":
        ZOO[f"{_c}.inverse"] = (lambda c=_c: ZOO[c]().inverse())
        TAGS[f"{_c}.inverse"] = {"derived"}
ZOO["MZgate-internal.fock"] = lambda: ZOO["MZgate-internal"]().to_fock(3)
ZOO["Number.bargmann"] = lambda: ZOO["Number"]().to_bargmann()
ZOO["Coherent-sum.fock"] = lambda: ZOO["Coherent-sum"]().to_fock(5)
ZOO["Coherent>>BtoQ"] = lambda: ZOO["Coherent"]() >> _lab().BtoQ(3, 0.2)
ZOO["TMSV>>BtoQ"] = lambda: ZOO["TwoModeSqueezedVacuum@coll"]() >> _lab().BtoQ((13,), 0.2)
ZOO["Coherent>>Dgate"] = lambda: ZOO["Coherent"]() >> ZOO["Dgate"]()
ZOO["GKet>>Att"] = lambda: ZOO["GKet@coll"]() >> _lab().Attenuator(5, 0.3)
ZOO["Vacuum.fock"] = lambda: ZOO["Vacuum"]().to_fock(3)
for _x in ("MZgate-internal.fock", "Number.bargmann", "Coherent-sum.fock", "Coherent>>BtoQ", "TMSV>>BtoQ", "Coherent>>Dgate", "GKet>>Att", "Vacuum.fock"):
    TAGS[_x] = {"derived"}


def snapshot(c):
    """everything observable about a component, as plain data"""
    from mrmustard import math
    from mrmustard.physics.ansatz import ArrayAnsatz

    a = c.ansatz
    out = {"class": type(c).__name__, "wires": tuple(tuple(sorted(x)) for x in c.wires.args), "modes": tuple(c.modes), "name": c.name}
    pars = {}
    for k, v in c.parameters.all_parameters.items():
        pars[k] = (type(v).__name__, v.name, np.array(math.asnumpy(v.value)), tuple(getattr(v, "bounds", ())), getattr(v, "update_fn", None))
    out["parameters"] = pars
    out["wire attributes"] = tuple((w.mode, w.is_out, w.is_ket, w.repr.name, w.fock_cutoff and int(w.fock_cutoff)) for w in c.wires.quantum.sorted_wires)
    if a is None:
        out["ansatz"] = None
        return out
    if isinstance(a, ArrayAnsatz):
        out["ansatz"] = ("array", a.batch_dims)
        out["values"] = [np.array(math.asnumpy(a.array))]
    else:
        out["ansatz"] = ("poly", a.batch_dims, a._lin_sup, a.num_derived_vars)
        out["values"] = [np.array(math.asnumpy(x)) for x in a.triple]
    return out


def same(ctx, s, t, what, atol=1e-12, name=True):
    for k in ("class", "wires", "modes", "name", "ansatz", "wire attributes"):
        if k == "name" and not name:
            continue
        ctx.eq(t[k], s[k], f"{what}: {k}")
    ctx.eq(tuple(t["parameters"]), tuple(s["parameters"]), f"{what}: parameter names")
    for k, v in s["parameters"].items():
        w = t["parameters"].get(k)
        if w is None:
            continue
        ctx.eq((w[0], w[1], w[3], w[4]), (v[0], v[1], v[3], v[4]), f"{what}: kind, name, bounds and update rule of parameter {k}")
        ctx.eq(w[2].shape, v[2].shape, f"{what}: shape of parameter {k}")
        ctx.close(w[2], v[2], f"{what}: value of parameter {k}", atol=atol)
    if s["ansatz"] is not None and t["ansatz"] == s["ansatz"]:
        for i, (x, y) in enumerate(zip(t["values"], s["values"])):
            ctx.eq(x.shape, y.shape, f"{what}: shape of array {i}")
            ctx.close(x, y, f"{what}: values of array {i}", atol=atol)
