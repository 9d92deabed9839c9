"""C10: gradients.  Every differentiable special function x every shape of a box x every parameter point x every element of the output
(real and imaginary part: a basis of all linear losses), every built-in component x every parameter x every element of its
representations, and every circuit of a family x every cost; the derivative is taken numerically from the forward computation."""

import itertools
import os
import warnings

import numpy as np

from mc import comps, ref, zoo

LEVEL = "model_checking"
RULE = ("every function with a hand-written gradient x every shape of a box x every parameter point x every output element (basis of the linear losses) x every argument direction; every parameter of every built-in component "
        "x every element of its exponential and of its arrays in every method and batch layout; words of states, gates, representation changes and costs (thorough: all up to the stated length)")
ASSUMPTIONS = ["forward values are decided by C02, C07 and C09; here the derivative of the computed forward function is compared, by five-point differences",
               "the matrix A of an exponential is symmetric: its gradient is compared along symmetric directions"]
CASE_LIMIT = 500
BUDGET = 450


def shapes(n, top):
    return list(itertools.product(range(1, top + 1), repeat=n))


def cases(tier):
    T = tier == "thorough"
    out = []

    def fn(kind, shs, **kw):
        ch = CH.get(kind, 6)
        for i in range(0, len(shs), ch):
            out.append({"id": f"fn-{kind}{''.join('-' + str(v) for v in kw.values())}-{len(shs[0])}-{i // ch:02d}", "part": "fn", "kind": kind, "shapes": [list(s) if isinstance(s, tuple) else s for s in shs[i:i + ch]], **kw})

    for n, top in ((1, 6), (2, 5 if T else 4), (3, 4 if T else 3), (4, 3 if T else 2)):
        fn("hermite", shapes(n, top), stable=False)
        fn("hermite", shapes(n, 3 if n < 3 else 2), stable=True)
        fn("binomial", shapes(n, min(top, 4) if n < 3 else 2 + (n == 3 and T)))
    fn("hermite_batch", shapes(1, 3) + shapes(2, 3) + (shapes(3, 2) if T else [(2, 1, 2)]))
    fn("diagonal", [(k,) for k in range(1, 5)] + shapes(2, 3 if T else 3) + (shapes(3, 2) if T else [(2, 1, 2)]))
    fn("leftover", [(o, p) for o in range(0, 3) for p in ([(k,) for k in range(0, 3)] + ([(0, 1), (1, 1), (1, 0), (2, 1), (1, 2)] if T else [(1, 0), (1, 1), (0, 1)]))])
    fn("squeezed", [(k,) for k in range(1, 8)])
    fn("squeezer", shapes(2, 6 if T else 5))
    fn("displacement", shapes(2, 6 if T else 5))
    for m in ("vanilla", "stable"):
        fn("beamsplitter", shapes(4, 3), method=m)
    fn("beamsplitter", [(i, k, i, k) for i in range(1, 4) for k in range(1, 4)], method="schwinger")
    for n in comp_list():
        out.append({"id": f"comp-{n}", "part": "comp", "name": n, "deep": T})
    for i, s in enumerate(STATES):
        for j, g in enumerate(GATES):
            if not T and (i + j) % 4:
                continue
            out.append({"id": f"word-{i}-{j:02d}", "part": "word", "s": i, "g": j, "deep": T})
    return out


CH = {"hermite": 8, "squeezed": 7, "squeezer": 9, "displacement": 9, "beamsplitter": 9, "binomial": 6, "leftover": 4, "diagonal": 4, "hermite_batch": 4}




def warm():
    """compile what most cases use in a process that is thrown away: the workers read it from the cache"""
    from checks.C07 import warm as w

    w()
    import mrmustard.lab  # noqa: F401

    for job in (warm_batch, warm_gates):
        if (pid := os.fork()) == 0:
            try:
                job()
            finally:
                os._exit(0)
    for _ in (0, 1):
        os.wait()


def warm_batch():
    from mrmustard import math

    for nb in (1, 2):
        for n in (1, 2, 4):
            A, b, c = (np.stack(x) for x in zip(*[abc(n, 0)] * nb))
            G = math.hermite_renormalized(A, b, c, (2,) * n)
            from mrmustard.math.lattice import strategies

            strategies.vanilla_batch_vjp_numba(G, c, G)


def warm_gates():
    from mrmustard import math
    from mrmustard.math.lattice import strategies

    for n in (1, 2, 4):
        A, b, c = abc(n, 0)
        G = math.hermite_renormalized(A, b, c, (2,) * n)
        strategies.vanilla_vjp_numba(G, c, G)


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import math, settings

    settings.DEFAULT_FOCK_SIZE = 4
    settings.AUTOSHAPE_MAX = 4
    settings.AUTOSHAPE_PROBABILITY = 1 - 1e-9
    math.change_backend("jax")
    COMPILED.clear()
    globals()["r_" + case["part"]](case, ctx)


def fd(f, x, d, h=2e-3):
    """five-point derivative of f at x along d"""
    return (8 * (f(x + h * d) - f(x - h * d)) - (f(x + 2 * h * d) - f(x - 2 * h * d))) / (12 * h)


def directions(x, sym=False):
    """real directions of an array"""
    x = np.asarray(x)
    units = (1.0, 1j) if np.iscomplexobj(x) else (1.0,)
    for i in np.ndindex(x.shape):
        if sym and i[-2] > i[-1]:
            continue
        for u in units:
            d = np.zeros(x.shape, dtype=x.dtype)
            d[i] = u
            if sym:
                d[(*i[:-2], i[-1], i[-2])] = u
            yield i, u, d


COMPILED = {}


def tangents(M, kind):
    """basis of the directions along which a matrix stays symplectic, unitary, orthogonal or symmetric"""
    M = np.asarray(M)
    n = M.shape[-1]
    e = [(i, j) for i in range(n) for j in range(n)]
    if kind == "Y":
        return list(directions(M, True))
    out = []
    for i, j in e:
        E = np.zeros((n, n))
        E[i, j] = 1
        if kind == "symplectic":
            if i <= j:
                out.append(((i, j), 1.0, M @ ref.J(n // 2) @ (E + E.T)))
        elif i < j:
            out.append(((i, j), 1.0, M @ (E - E.T) + (0j if kind == "unitary" else 0)))
        if kind == "unitary" and i <= j:
            out.append(((i, j), 1j, M @ (E + E.T) * 1j))
    return out


def jacobian_check(ctx, what, f, args, sym=(), atol=2e-8, key=None, num=None, dirs=None):
    """f(*args) -> array under the second backend; the pullback of every basis covector against differences of f (evaluated with the
    backend in use at the time num is called)"""
    import jax
    import jax.numpy as jnp

    from mrmustard import math

    def pullbacks(args, E):
        y, vjp = jax.vjp(f, *args)
        return y, jax.lax.map(vjp, E)

    math.change_backend("numpy")
    num = num or f
    x0 = [np.asarray(a) for a in args]
    yn = np.asarray(num(*x0))
    J = []  # derivative of y along each direction of each argument
    for a, x in enumerate(x0):
        for i, u, d in (dirs[a] if dirs and a in dirs else directions(x, a in sym)):
            J.append((a, i, u, d, fd(lambda v: np.asarray(num(*x0[:a], v, *x0[a + 1:])), x, d)))
    math.change_backend("jax")
    if not J:
        return
    basis = [(k, v) for k in np.ndindex(yn.shape) for v in ((1.0, 1j) if np.iscomplexobj(yn) else (1.0,))]
    E = np.zeros((len(basis), *yn.shape), dtype=yn.dtype)
    for n, (k, v) in enumerate(basis):
        E[(n, *k)] = v
    fn = COMPILED.get(key) if key is not None else None
    if fn is None:
        fn = jax.jit(pullbacks)
        if key is not None:
            COMPILED[key] = fn
    y, cts = fn([jnp.asarray(a) for a in x0], jnp.asarray(E))
    if not ctx.close(y, yn, f"{what}: value", atol=1e-8):
        return
    cts = [np.asarray(c) for c in cts]
    want = np.array([[(v * g[k]).real for a, i, u, d, g in J] for k, v in basis])
    got = np.stack([np.sum(cts[a] * d, axis=tuple(range(1, cts[a].ndim))).real for a, i, u, d, g in J], axis=1)
    ctx.ncmp += got.size
    ctx.transitions += len(basis)
    scale = 1 + np.max(np.abs(want), initial=0)
    bad = np.argwhere(~(np.abs(got - want) <= atol * scale))
    if len(bad):
        n, m = bad[0]
        (k, v), (a, i, u, d, g) = basis[n], J[m]
        ctx.fail(f"{what}: derivative of {'real' if v == 1 else 'imaginary'} part of element {k} with respect to argument {a}", f"entry {i} direction {u}: got {got[n, m]:.8g}, want {want[n, m]:.8g}")
    ctx.see_arr(yn, 5)
    ctx.states += 1


# ---- special functions ------------------------------------------------------------------------------------------
def abc(n, k):
    A = zoo.rnd(10 * n + k, n, n) * 0.25
    A = (A + A.T) / 2
    b = zoo.rnd(20 * n + k, n) * 0.4
    c = 0.7 - 0.2j
    if k == 1:
        b = b * 0
        A = A.real + 0j
    if k == 2:
        c = 0j
    if k == 3:
        A = A * 0
    if k == 4:
        A[0, :] = A[:, 0] = 0
    return A, b, np.complex128(c)


def r_fn(case, ctx):
    from mrmustard import math

    kind = case["kind"]
    for sh in case["shapes"]:
        sh = tuple(tuple(x) if isinstance(x, list) else x for x in sh)
        if kind in ("hermite", "binomial"):
            n = len(sh)
            for k in range(5):
                args = abc(n, k)
                if kind == "hermite":
                    jacobian_check(ctx, f"exponential {k} at shape {sh}", lambda A, b, c: math.hermite_renormalized(A, b, c, sh, case["stable"]), args, sym=(0,), key=(kind, sh, case["stable"]))
                    continue
                full = sum(sh) - n + 1
                jacobian_check(ctx, f"by photon number, exponential {k} at shape {sh}", lambda A, b, c: math.hermite_renormalized_binomial(A, b, c, sh, 1e9, None), args, sym=(0,), key=(kind, sh))
                for cut in range(1, full):
                    jacobian_check(ctx, f"by photon number, exponential {k} at shape {sh} cutoff {cut}", lambda A, b, c: math.hermite_renormalized_binomial(A, b, c, sh, 1e9, cut), args, sym=(0,), key=(kind, sh, cut))
                # stop at half of the norm of each weight
                G = np.asarray(math.hermite_renormalized(*map(np.asarray, args), sh))
                w = np.add.reduce(np.indices(sh)) if n else 0
                tot = np.cumsum([np.sum(np.abs(G[w == j]) ** 2) for j in range(full)])
                for j in range(1, full):
                    if tot[j] - tot[j - 1] > 0.1 * tot[j]:
                        l2 = (tot[j] + tot[j - 1]) / 2
                        jacobian_check(ctx, f"by photon number, exponential {k} at shape {sh} norm {j}", lambda A, b, c: math.hermite_renormalized_binomial(A, b, c, sh, float(l2), None), args, sym=(0,))
        elif kind == "hermite_batch":
            n = len(sh)
            for ks in ((0, 1), (2, 0), (0, 3, 4)):
                A, b, c = (np.stack(x) for x in zip(*[abc(n, k) for k in ks]))
                for stable in (False, True):
                    jacobian_check(ctx, f"batch {ks} at shape {sh} stable={stable}", lambda A, b, c: math.hermite_renormalized(A, b, c, sh, stable), (A, b, c), sym=(0,))
                jacobian_check(ctx, f"batch {ks} of two axes at shape {sh}", lambda A, b, c: math.hermite_renormalized(A, b, c, sh), (A[:, None], b[:, None], c[:, None]), sym=(0,))
                jacobian_check(ctx, f"batch {ks} of vectors at shape {sh}", lambda A, b, c: math.hermite_renormalized(A, b, c, sh), (A[0], b, c[0]), sym=(0,))
        elif kind == "diagonal":
            for k in range(5):
                for re in (True, False):
                    jacobian_check(ctx, f"diagonal of exponential {k}, cutoffs {sh}, reordered={re}", lambda A, b, c: math.hermite_renormalized_diagonal(A, b, c, sh, re), abc(2 * len(sh), k), sym=(0,), key=(kind, sh, re))
        elif kind == "leftover":
            o, p = sh
            for k in range(5):
                for re in (True, False):
                    jacobian_check(ctx, f"first mode of exponential {k}, cutoffs {o} {p}, reordered={re}", lambda A, b, c: math.hermite_renormalized_1leftoverMode(A, b, c, o, p, re), abc(2 + 2 * len(p), k), sym=(0,), key=(kind, sh, re))
        elif kind in ("squeezed", "squeezer"):
            for r, phi in itertools.product((0.0, 0.4, -0.3), (0.0, 0.7, -2.0)):
                jacobian_check(ctx, f"{kind} {sh} at {r}, {phi}", lambda r, p: getattr(math, kind)(r, p, sh), (r, phi), key=(kind, sh))
        elif kind == "displacement":
            for al in (0j, 0.4 + 0.3j, -0.2j, 0.5 + 0j, -1.1 + 0.2j):
                jacobian_check(ctx, f"displacement {sh} at {al}", lambda a: math.displacement(a, sh), (np.complex128(al),), key=(kind, sh))
        elif kind == "beamsplitter":
            for t, p in ((0.0, 0.0), (0.4, 0.0), (0.4, 0.7), (-1.2, 2.0), (np.pi / 2, 0.3)):
                jacobian_check(ctx, f"beamsplitter {case['method']} {sh} at {t}, {p}", lambda t, p: math.beamsplitter(t, p, sh, case["method"]), (float(t), float(p)), key=(kind, sh, case["method"]))
    ctx.traces += 1


# ---- components ---------------------------------------------------------------------------------------------------
def comp_list():
    out = []
    for table in (zoo.P1, zoo.P2):
        for c, (v, b, t) in table.items():
            out.append(c)
            if b is not None:
                out.append(c + "-batch")
    return [*out, "GKet", "GDM", "Ggate", "Interferometer", "RealInterferometer", "GaussRandNoise"]


def observe(c, deep):
    """the quantities of a component that are differentiated: name -> function of the component giving an array"""
    n = len(c.wires)
    out = {}
    if c.ansatz is not None and hasattr(c.ansatz, "triple"):
        out["A"] = lambda c: c.ansatz.A
        out["b"] = lambda c: c.ansatz.b
        out["c"] = lambda c: c.ansatz.c
        shs = {1: [(1,), (4,)], 2: [(2, 3), (3, 2), (1, 3)], 4: [(2, 2, 2, 2), (2, 3, 2, 1)] + ([(1, 3, 2, 2), (3, 2, 2, 3)] if deep else []), 8: [(2, 1, 2, 1, 1, 2, 1, 2)]}.get(n, [])
        for sh in shs:
            out[f"array {sh}"] = lambda c, sh=sh: c.fock_array(sh)
            out[f"converted {sh}"] = lambda c, sh=sh: c.to_fock(sh).ansatz.array
    return out


def r_comp(case, ctx):
    import jax.numpy as jnp

    import mrmustard.lab as lab
    name = case["name"]
    cls = name.split("-")[0]
    C = getattr(lab, cls)
    if cls in ("GKet", "GDM", "Ggate", "Interferometer", "RealInterferometer", "GaussRandNoise"):
        mats = {"GKet": ("symplectic", comps.S_lib), "GDM": ("symplectic", comps.S_lib), "Ggate": ("symplectic", comps.S_lib), "Interferometer": ("unitary", comps.U_lib), "RealInterferometer": ("orthogonal", comps.O_lib), "GaussRandNoise": ("Y", comps.Y_lib)}
        key, lib = mats[cls]
        for nm, modes in ((1, (5,)), (2, (0, 5))):
            kw = {"beta": np.array([1.1, 0.9])[:nm]} if cls == "GDM" else {}
            M = np.asarray(lib(1, nm))
            for q, f in observe(C(modes, **{key: M}, **kw), case["deep"]).items():
                jacobian_check(ctx, f"{name} on {nm} modes, {q}", lambda M: f(C(modes, **{key: M}, **kw)), (M,), atol=1e-6, dirs={0: tangents(M, key)})
            if kw:
                for q, f in observe(C(modes, **{key: M}, **kw), case["deep"]).items():
                    jacobian_check(ctx, f"{name} on {nm} modes, temperatures, {q}", lambda b: f(C(modes, **{key: M}, beta=b)), (kw["beta"],), atol=1e-6)
        ctx.traces += 1
        return
    two = cls in zoo.P2
    v, b, _ = (zoo.P2 if two else zoo.P1)[cls]
    vals = b if name.endswith("-batch") else v
    modes = (0, 5) if two else 3
    points = [vals]
    if not name.endswith("-batch"):
        points.append({k: (0.0 if cls not in ("Attenuator", "Amplifier") else x) * (1 if not isinstance(x, complex) else 1 + 0j) for k, x in vals.items()})
        points.append({k: (-x if cls not in ("Attenuator", "Amplifier", "Thermal", "PhaseNoise", "FockDamping") else x * 1.1) for k, x in vals.items()})
    keys = list(vals)
    for ip, pt in enumerate(points):
        args = [np.asarray(pt[k]) + (0j if k == "alpha" else 0.0) for k in keys]
        if ip == 1 and cls in ("Thermal", "PhaseNoise", "FockDamping", "Attenuator", "Amplifier"):
            continue  # at the edge of the domain
        if True:
            if cls == "PhaseNoise":
                obs = {"acting": lambda c: (lab.Coherent(3, 0.4).to_fock(4) >> c).ansatz.array}
            else:
                obs = observe(C(modes, **dict(zip(keys, args))), case["deep"])
            for m, sh in (("vanilla", (2, 3, 2, 3)), ("schwinger", (2, 2, 2, 2))) if cls == "BSgate" else ():
                obs[f"array {sh} by {m}"] = lambda c, m=m, sh=sh: c.fock_array(sh, method=m)
            for q, f in obs.items():

                def g(*a):
                    return f(C(modes, **dict(zip(keys, a))))

                jacobian_check(ctx, f"{name} at {pt}, {q}", g, args, atol=1e-7)
    ctx.traces += 1


# ---- circuits -----------------------------------------------------------------------------------------------------
STATES = [
    ("Coherent", lambda L, p: L.Coherent(0, p + 0.2j) >> L.Vacuum(5)),
    ("SqueezedVacuum", lambda L, p: L.SqueezedVacuum(0, p, 0.4) >> L.Coherent(5, 0.3)),
    ("TMSV", lambda L, p: L.TwoModeSqueezedVacuum((0, 5), p, 0.3)),
    ("Thermal", lambda L, p: L.Thermal(0, p) >> L.SqueezedVacuum(5, 0.2)),
    ("fock", lambda L, p: (L.Coherent(0, p) >> L.SqueezedVacuum(5, 0.3)).to_fock((4, 4))),
    ("sup", lambda L, p: (L.Coherent(0, p) + L.Coherent(0, -0.3)) >> L.Vacuum(5)),
    ("batch", lambda L, p: L.Coherent(0, [0.1, 0.3]) >> L.SqueezedVacuum(5, p)),
]
GATES = [
    ("D", lambda L, q: L.Dgate(0, q + 0.1j)),
    ("S", lambda L, q: L.Sgate(5, q, 0.3)),
    ("R", lambda L, q: L.Rgate(0, q)),
    ("P", lambda L, q: L.Pgate(5, q)),
    ("BS", lambda L, q: L.BSgate((0, 5), q, 0.4)),
    ("BSphi", lambda L, q: L.BSgate((0, 5), 0.5, q)),
    ("S2", lambda L, q: L.S2gate((0, 5), q, 0.2)),
    ("MZ", lambda L, q: L.MZgate((0, 5), q, 0.3)),
    ("CX", lambda L, q: L.CXgate((0, 5), q)),
    ("CZ", lambda L, q: L.CZgate((0, 5), q)),
    ("Att", lambda L, q: L.Attenuator(0, q)),
    ("Amp", lambda L, q: L.Amplifier(5, 1 + q)),
    ("damp", lambda L, q: L.FockDamping(0, q)),
    ("fock", lambda L, q: L.Sgate(0, q).to_fock((4, 4))),
    ("fockBS", lambda L, q: L.BSgate((0, 5), q, 0.3).to_fock((4, 4, 4, 4))),
    ("fockD", lambda L, q: L.Dgate(5, q).to_fock((4, 4))),
    ("dual", lambda L, q: L.Dgate(0, q).dual),
]


def costs(L):
    from mrmustard import math

    N = {}
    for be in ("numpy", "jax"):  # made outside of compiled functions
        math.change_backend(be)
        N[be] = {(m, n): L.Number(m, n, 4) for m, n in ((0, 1), (5, 0), (5, 1))}

    def num(m, n):
        return N[math.backend_name][m, n]

    return {
        "norm": lambda s: s.probability,
        "purity": lambda s: s.purity,
        "element": lambda s: s.fock_array((3, 2) if isinstance(s, L.Ket) else (2, 2, 2, 2)).reshape(-1) if not s.ansatz.batch_shape else s.fock_array((3, 2) if isinstance(s, L.Ket) else (2, 2, 2, 2)),
        "overlap": lambda s: s.expectation(L.Coherent(0, 0.2)),
        "two modes": lambda s: s.expectation(num(0, 1) >> num(5, 0)),
        "projected": lambda s: (s >> num(5, 1).dual >> L.Coherent(0, 0.1).dual),
        "traced": lambda s: s[0].fock_array((2, 2)),
        "operator": lambda s: s.expectation(L.Dgate(0, 0.2)),
    }


def r_word(case, ctx):
    import mrmustard.lab as lab
    from mrmustard import math

    (sn, st), (gn, gt) = STATES[case["s"]], GATES[case["g"]]
    COSTS = costs(lab)
    followers = [None] + (list(GATES) if case["deep"] else ([GATES[(case["g"] + case["s"] + 1) % len(GATES)]] if sn != "batch" else []))
    for fol in followers:
        names = [n for n in COSTS if not (sn in ("sup", "batch") and n == "purity")]

        def g(p, q, cn):
            s = st(lab, p) >> gt(lab, q)
            if fol is not None:
                s = s >> fol[1](lab, 0.2 + q * 0.5)
            return math.reshape(math.astensor(COSTS[cn](s)), (-1,))

        what = f"{sn} >> {gn}{' >> ' + fol[0] if fol else ''}"
        math.change_backend("numpy")
        ok = []
        for cn in names:
            try:
                if len(np.asarray(g(np.asarray(0.31), np.asarray(0.23), cn))) <= 40:
                    ok.append(cn)
            except Exception as e:  # noqa: BLE001
                ctx.see("refused", what, cn, type(e).__name__)
        if not ok:
            continue

        def f(p, q):
            out = [g(p, q, cn) for cn in ok]
            return math.concat([math.cast(x, "complex128") for x in out], axis=0)

        jacobian_check(ctx, f"{what}, {', '.join(ok)}", f, (0.31, 0.23), atol=1e-6)
    ctx.traces += 1
