"""C01: Gaussian circuits, against an independent phase-space model (affine maps on means/covariance)."""

import itertools

import numpy as np

from mc import comps, ref

LEVEL = "model_checking"
RULE = ("(a) every built-in Gaussian component x parameter grid (incl. boundary values) x every placement on label sets {0,1,2} and {2,7,30}, "
        "applied to a fully correlated probe, at hbar in {1, 2, 0.6}; (b) all words of length 2 over all component placements on 3 labels, and of "
        "length 3 on 2 labels (thorough: length 3 on 3 labels, 4 on 2), starting from empty/partial registers with state insertions, partial traces "
        "and reductions as letters; (c) composed unitaries and channels (symplectic, XY, from_symplectic, from_XY, from_phase_space, Circuit)")
ASSUMPTIONS = ["documented phase-space actions of each component (mc/comps.py XYd, gs_state)", "compared quantities: means, covariance, coefficient of phase_space(0), "
               "probability, mean photon numbers; absolute tolerance 1e-7", "modes are given in increasing order (order handling is C21)"]

LABELS = [(0, 1, 2), (2, 7, 30)]
HB = [1.0, 2.0, 0.6]

PI = float(np.pi)
GRID = {
    "D": [(0.0, 0.0), (0.5, -0.8), (-1.3, 0.0), (0.0, 2.1)],
    "S": [(0.0, 0.0), (0.6, 0.0), (0.6, 2.2), (0.4, -1.1), (0.3, PI), (-0.5, 0.4)],
    "R": [(0.0,), (0.7,), (PI,), (-2.0,), (7.5,)],
    "P": [(0.0,), (0.4,), (-0.9,)],
    "BS": [(0.0, 0.0), (PI / 4, 0.0), (0.7, 1.3), (PI / 2, 0.5), (-0.4, 2.0), (2.5, -0.3), (0.3, PI)],
    "S2": [(0.0, 0.0), (0.5, 0.0), (0.5, 1.9), (0.3, -0.6), (-0.3, 0.4)],
    "MZ": [(0.3, 1.1, 0), (0.3, 1.1, 1), (0.0, 0.0, 0), (0.0, 0.0, 1), (-0.8, 0.2, 1), (1.7, -2.2, 0)],
    "CX": [(0.0,), (0.6,), (-0.8,)],
    "CZ": [(0.0,), (0.6,), (-0.8,)],
    "U": [(0,), (1,), (2,)],
    "O": [(0,), (1,), (2,)],
    "G": [(0,), (1,), (2,)],
    "Id": [()],
    "Att": [(0.0,), (0.3,), (0.85,), (1.0,)],
    "Amp": [(1.0,), (1.4,), (2.5,)],
    "GRN": [(0,), (1,)],
    "Tr": [()],
}
ARITY = {"D": 1, "S": 1, "R": 1, "P": 1, "BS": 2, "S2": 2, "MZ": 2, "CX": 2, "CZ": 2, "U": 0, "O": 0, "G": 0, "Id": 0, "Att": 1, "Amp": 1, "GRN": 0, "Tr": 0}
STATE_GRID = {
    "Vac": (0, [()]), "Coh": (1, [(0.7, -0.4), (0.0, 0.0), (-1.0, 1.0)]), "Sq": (1, [(0.5, 0.0), (0.5, 1.2), (-0.4, 2.0), (0.0, 0.0)]),
    "DSq": (1, [(0.4, 0.3, 0.5, 0.9), (-0.8, 0.1, 0.3, 0.0), (0.0, 0.5, -0.4, 2.5)]), "TMSV": (2, [(0.4, 0.0), (0.6, 1.3), (-0.3, 0.7)]),
    "Th": (1, [(0.0,), (0.8,), (2.0,)]), "GKet": (0, [(0,), (1,)]), "GDM": (0, [(0, 0.9), (1, 1.7)]),
}


def placements(arity, labels, maxn=3):
    if arity:
        return [list(c) for c in itertools.combinations(labels, arity)]
    return [list(c) for k in range(1, maxn + 1) for c in itertools.combinations(labels, k)]


def probe_specs(labels, mixed):
    a, b, c = labels
    s = [["DSq", [a], 0.3, -0.2, 0.4, 0.7], ["Coh", [b], -0.5, 0.6], ["Sq", [c], 0.35, 1.1] if not mixed else ["Th", [c], 0.7]]
    s += [["BS", [a, b], 0.6, 0.4], ["S2", [b, c], 0.3, 0.8], ["BS", [a, c], 0.9, -0.5]]
    return s


# alphabet with one generic parameter set per component
def alphabet(labels, traces=True, states=True):
    L = []
    g = {"D": (0.4, -0.3), "S": (0.35, 0.8), "R": (0.9,), "P": (0.5,), "BS": (0.7, 0.5), "S2": (0.3, 1.0), "MZ": (0.4, 1.2, 0), "CX": (0.5,), "CZ": (-0.4,),
         "Att": (0.7,), "Amp": (1.3,)}
    for k, p in g.items():
        for m in itertools.combinations(labels, ARITY[k]):
            L.append([k, list(m), *p])
    for m in itertools.combinations(labels, min(2, len(labels))):
        L.append(["G", list(m), 1])
        L.append(["GRN", list(m), 0])
    if len(labels) == 3:
        L.append(["U", list(labels), 0])
        L.append(["G", list(labels), 0])
        L.append(["U", [labels[0], labels[2]], 1])
    if traces:
        for m in labels:
            L.append(["Tr", [m]])
    if states:
        for m in labels:
            L.append(["DSq", [m], 0.5, -0.1, 0.3, 0.4])
        L.append(["Th", [labels[0]], 0.5])
        L.append(["TMSV", [labels[0], labels[-1]], 0.4, 0.3])
    return L


def legal(spec, modes):
    if spec[0] in comps.STATES:
        return not (set(spec[1]) & set(modes))
    if spec[0] == "Tr":
        return set(spec[1]) < set(modes)
    return set(spec[1]) <= set(modes)


def cases(tier):
    out = []
    for li, lab in enumerate(LABELS):
        for k, grid in GRID.items():
            for hi, h in enumerate(HB):
                if hi and li and tier == "quick":
                    continue
                out.append({"id": f"single-{k}-L{li}-h{hi}", "kind": "single", "comp": k, "lab": lab, "h": h})
        for k in STATE_GRID:
            for hi, h in enumerate(HB):
                out.append({"id": f"state-{k}-L{li}-h{hi}", "kind": "state", "comp": k, "lab": lab, "h": h})
    n3 = len(alphabet((0, 1, 2)))
    n2 = len(alphabet((0, 1)))
    d3, d2 = (2, 3) if tier == "quick" else (3, 4)
    starts3 = ["full", "fullmixed", "mid"]
    for st in starts3:
        for i in range(n3):
            out.append({"id": f"word3-{st}-{i}", "kind": "word", "lab": (0, 1, 2) if st != "mid" else (2, 7, 30), "start": st, "first": i, "depth": d3 if st != "fullmixed" else 2, "h": 1.0})
    for i in range(n2):
        out.append({"id": f"word2-{i}", "kind": "word", "lab": (5, 9), "start": "vac", "first": i, "depth": d2, "h": 2.0 if i % 2 else 1.0})
    for li, lab in enumerate(LABELS):
        for h in (1.0, 2.0):
            for i in range(n3):
                out.append({"id": f"comp-L{li}-h{h}-{i}", "kind": "comp", "lab": lab, "first": i, "h": h})
    return out


def compare(ctx, st, g, label, norm=True):
    """full comparison of a real state with the model state."""
    from mrmustard import math

    ctx.traces += 1
    if not ctx.eq(tuple(st.modes), tuple(sorted(g.modes)), label + ": modes"):
        return
    gg = g.keep(tuple(sorted(g.modes)))
    cov, mean, coeff = st.phase_space(0)
    ctx.close(cov, gg.cov, label + ": cov")
    ctx.close(mean, gg.mean, label + ": means")
    ctx.close(coeff, 1.0, label + ": coefficient", shape=False)
    ctx.see_arr(np.concatenate([gg.cov.ravel(), gg.mean]))
    if norm:
        ctx.close(st.probability, 1.0, label + ": probability", shape=False)
        from mrmustard.physics.gaussian import number_means

        ctx.close(number_means(cov, mean), gg.nbar(), label + ": photon numbers")


def run(case, ctx):
    from mrmustard import settings

    with settings(HBAR=case["h"]):
        globals()["r_" + case["kind"]](case, ctx)


def do(specs, h):
    st, g = None, None
    for s in specs:
        c = comps.build(s)
        if st is None:
            st, g = c, comps.gs_state(s, h)
        else:
            st, g = st >> c, comps.gs_apply(s, g)
    return st, g


def r_single(case, ctx):
    lab, k, h = case["lab"], case["comp"], case["h"]
    for mixed in (False, True):
        ps = probe_specs(lab, mixed)
        st, g = do(ps, h)
        if k == "D":
            compare(ctx, st, g, "probe")
        for m in placements(ARITY[k], lab, 2 if k == "Tr" else 3):
            for p in GRID[k]:
                s = [k, m, *p]
                ctx.transitions += 1
                ctx.sub = f"{s} on {'mixed' if mixed else 'pure'} probe"
                compare(ctx, st >> comps.build(s), comps.gs_apply(s, g), "out")
                # as dm from the start
                if not mixed and p == GRID[k][-1]:
                    compare(ctx, st.dm() >> comps.build(s), comps.gs_apply(s, g), "dm out")
                ctx.sub = ""


def r_state(case, ctx):
    lab, k, h = case["lab"], case["comp"], case["h"]
    ar, grid = STATE_GRID[k]
    for m in placements(ar, lab):
        for p in grid:
            s = [k, m, *p]
            if k == "GDM" and len(m) > 1:
                p2 = [p[0], [0.6 + 0.5 * i for i in range(len(m))]]
                compare(ctx, comps.build([k, m, *p2]), comps.gs_state([k, m, *p2], h), f"{k} {m} {p2}")
            ctx.transitions += 1
            st, g = comps.build(s), comps.gs_state(s, h)
            compare(ctx, st, g, f"{s}")
            if hasattr(st, "dm"):
                compare(ctx, st.dm(), g, f"{s}.dm()")
            # reductions by indexing, in any order of the kept modes
            for r in range(1, len(m)):
                for keep in itertools.permutations(m, r):
                    compare(ctx, st[keep if r > 1 else keep[0]], g.keep(tuple(sorted(keep))), f"{s}[{keep}]")
            # rebuilt from phase space
            from mrmustard.lab import DM, Ket

            cls = Ket if k not in ("Th", "GDM") else DM
            r1 = cls.from_phase_space(m, (g.cov, g.mean, 1.0))
            compare(ctx, r1, g, f"{cls.__name__}.from_phase_space({s})")
            compare(ctx, DM.from_phase_space(m, (g.cov, g.mean, 1.0)), g, f"DM.from_phase_space({s})")
            # tensored with a neighbour before/after
            for other in lab:
                if other not in m:
                    o = ["DSq", [other], 0.2, 0.5, 0.3, -0.4]
                    compare(ctx, st >> comps.build(o), g.join(comps.gs_state(o, h)), f"{s} >> {o}")
                    compare(ctx, comps.build(o) >> st, g.join(comps.gs_state(o, h)), f"{o} >> {s}")


def r_word(case, ctx):
    lab, h = case["lab"], case["h"]
    A = alphabet(lab)
    start = {"full": lambda: probe_specs(lab, False), "fullmixed": lambda: probe_specs(lab, True),
             "mid": lambda: [["DSq", [lab[1]], 0.3, 0.2, 0.4, 0.1], ["TMSV", [lab[0], lab[2]], 0.3, 0.5], ["Tr", [lab[2]]]],
             "vac": lambda: [["Vac", list(lab)]]}[case["start"]]()
    st, g = do(start, h)

    def rec(st, g, word, depth):
        for i, s in enumerate(A):
            if not word and i != case["first"]:
                continue
            if not legal(s, g.modes):
                continue
            ctx.transitions += 1
            st2, g2 = st >> comps.build(s), comps.gs_apply(s, g)
            w = word + [comps.name(s)]
            compare(ctx, st2, g2, ">>".join(w), norm=depth == 1)
            if len(ctx.fails) > 10:
                return
            if depth > 1:
                rec(st2, g2, w, depth - 1)

    rec(st, g, [], case["depth"])


def embed(spec, modes, h):
    """(X,Y,d) on the union of modes."""
    n = len(modes)
    X0, Y0, d0 = comps.XYd(spec, h)
    ix = [modes.index(m) for m in spec[1]]
    ix = ix + [n + i for i in ix]
    X, Y, d = np.eye(2 * n), np.zeros((2 * n, 2 * n)), np.zeros(2 * n)
    X[np.ix_(ix, ix)] = X0
    if Y0 is not None:
        Y[np.ix_(ix, ix)] = Y0
    if d0 is not None:
        d[ix] = d0
    return X, Y, d


def r_comp(case, ctx):
    """two composed transformations, without a state: symplectic / XY and their reconstruction."""
    from mrmustard.lab import Channel, Circuit, Unitary

    lab, h = case["lab"], case["h"]
    A = alphabet(lab, traces=False, states=False)
    if case["first"] >= len(A):
        return
    s1 = A[case["first"]]
    st, g = do(probe_specs(lab, False), h)
    for s2 in A:
        modes = sorted(set(s1[1]) | set(s2[1]))
        c1, c2 = comps.build(s1), comps.build(s2)
        ctx.transitions += 1
        ctx.traces += 1
        T = c1 >> c2
        ctx.sub = f"{comps.name(s1)}>>{comps.name(s2)}"
        X1, Y1, d1 = embed(s1, modes, h)
        X2, Y2, d2 = embed(s2, modes, h)
        X, Y, d = X2 @ X1, X2 @ Y1 @ X2.T + Y2, X2 @ d1 + d2
        ch = {"Att", "Amp", "GRN"}
        ctx.eq(tuple(T.modes), tuple(modes), "modes")
        if s1[0] not in ch and s2[0] not in ch:
            if ctx.check(isinstance(T, Unitary), "composition of unitaries is a Unitary", type(T)):
                ctx.close(T.symplectic, X, "symplectic")
            U = Unitary.from_symplectic(modes, X)
            ctx.close(U.symplectic, X, "from_symplectic -> symplectic")
            compare(ctx, st >> U, g.affine(tuple(modes), X), "state >> from_symplectic", norm=False)
        else:
            if ctx.check(isinstance(T, Channel), "composition is a Channel", type(T)):
                x, y = T.XY
                ctx.close(x, X, "XY: X")
                ctx.close(y, Y, "XY: Y")
        C = Channel.from_XY(modes, modes, X, Y, d if np.any(d) else None)
        compare(ctx, st >> C, g.affine(tuple(modes), X, Y, d if np.any(d) else None), "state >> from_XY", norm=False)
        compare(ctx, st >> T, g.affine(tuple(modes), X, Y, d), "state >> (a >> b)", norm=True)
        compare(ctx, Circuit([st, c1, c2]).contract(), g.affine(tuple(modes), X, Y, d), "Circuit.contract", norm=False)
        if len(ctx.fails) > 10:
            return
    ctx.sub = ""
