"""C03: confluence of network contraction.

State = a convex group of components (subset); transition = contracting two groups with ``>>``.  For Gaussian networks
every way of splitting every group is executed on the implementation and must give the same component, which by
induction covers every bracketing (connected or not, in either textual order when the two groups are causally
unrelated).  For networks mixing representations the tree of all bracketings is executed for every assignment.
"""

import itertools
from functools import reduce

import numpy as np

from mc import comps, ref

LEVEL = "model_checking"
RULE = ("Gaussian networks on 3 modes: every word of length 2 (quick: and every other of length 3; thorough: all of length 3 and a third of length 4) over 15 gates/channels with no state, every word of length 1 and every eighth (thorough: all) of length 2 after {3-mode ket, three separate states} and before "
        "{nothing, ket effect, trace, homodyne, mixed effect}: every split of every convex group of components; mode labels (0,1,2) and (5,13,21); "
        "Fock/Bargmann assignments: every subset of the components converted to Fock (or to Bargmann) for 12 closed and open circuits of up to 5 components, every bracketing of each; "
        "circuit objects: every contraction path of Circuit.path and every concatenation of two Circuits, compared with the chain; every interleaving of 7 closed with 9 open parts; 1-3 (thorough 4) independent strongly squeezed or hot modes joined and contracted at once for 12 phases (overlaps, traces, expectations, products and inverses)")
ASSUMPTIONS = ["groups without open wires are only formed by the last contraction (a scalar amplitude cannot be promoted to a probability later)",
               "in mixed representations compared up to the truncation bound of the retained Fock cutoff (photon-number preserving circuits are exact)"]
CASE_LIMIT = 200
BUDGET = 300

OPS = [["D", [0], 0.3, -0.2], ["S", [1], 0.3, 0.4], ["R", [2], 0.7], ["P", [0], 0.4], ["BS", [0, 1], 0.6, 0.3], ["BS", [1, 2], 0.4, -0.7], ["BS", [0, 2], 0.9, 0.2], ["S2", [0, 2], 0.3, 0.5],
       ["CX", [0, 1], 0.4], ["MZ", [1, 2], 0.3, 0.8, 1], ["U", [0, 1, 2], 0], ["G", [0, 2], 1], ["Att", [1], 0.7], ["Amp", [0], 1.3], ["GRN", [1, 2], 0]]
INITS = {"none": [], "gket": [["GKet", [0, 1, 2], 0]], "sep": [["Sq", [0], 0.4, 0.3], ["DSq", [1], 0.2, 0.3, 0.2, 0.5], ["Th", [2], 0.6]], "two": [["TMSV", [0, 2], 0.4, 0.2], ["Coh", [1], 0.3, 0.4]]}
EFFS = {"none": [], "ket": [["Coh*", [1], 0.2, -0.3]], "tr": [["Tr", [0, 2]]], "hom": [["Hom", [2], 0.3, 0.4]], "dm": [["Th*", [1], 0.5], ["Coh*", [0], 0.3, 0.1]], "closed": [["Coh*", [0], 0.2, 0.1], ["Sq*", [1], 0.3, 0.2], ["Coh*", [2], -0.1, 0.4]]}


def relabel(spec, lab):
    return [spec[0], [lab[m] for m in spec[1]], *spec[2:]]


def make(spec):
    if spec[0].endswith("*"):
        return comps.build([spec[0][:-1], *spec[1:]]).dual
    if spec[0] == "Hom":
        import mrmustard.lab as lab

        return lab.QuadratureEigenstate(spec[1][0], spec[2], spec[3]).dual
    return comps.build(spec)


def cases(tier):
    out = []
    L = 3
    labs = [(0, 1, 2), (5, 13, 21)]
    for k, pre in enumerate(itertools.product(range(len(OPS)), repeat=2 if tier == "quick" else 2)):
        out.append({"id": f"w-{pre[0]}-{pre[1]}", "kind": "words", "pre": list(pre), "L": L if tier == "quick" else 4, "lab": labs[k % 2], "tier": tier})
    for ini in INITS:
        for eff in EFFS:
            if ini == "none" and eff == "none":
                continue
            for g in range(len(OPS)):
                out.append({"id": f"n-{ini}-{eff}-{g}", "kind": "net", "ini": ini, "eff": eff, "first": g, "lab": labs[g % 2], "tier": tier})
    for i in range(len(MIX)):
        out.append({"id": f"mix-{i}", "kind": "mix", "i": i, "tier": tier})
    for i in range(len(CIRC)):
        out.append({"id": f"circ-{i}", "kind": "circ", "i": i, "tier": tier})
    for i in range(len(CLOSED)):
        for j in range(len(OPEN)):
            out.append({"id": f"closed-{i}-{j}", "kind": "closed", "i": i, "j": j})
    for m in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for what in BRANCH:
            out.append({"id": f"branch-{what}-{m}", "kind": "branch", "what": what, "m": m})
    return out


def warm():
    from mrmustard.math.lattice.strategies.vanilla.core import vanilla_numba

    for D in (1, 2, 3, 4):
        A, b = 0.1 * np.eye(D, dtype=complex), np.ones(D, complex)
        for c in (1 + 0j, np.array(1 + 0j)):
            vanilla_numba((2,) * D, A, b, c, None)
    for s in (["BS", [0, 1], 0.3, 0.2], ["D", [0], 0.1, 0.1], ["S", [0], 0.1, 0.2], ["R", [0], 0.3], ["Sq", [0], 0.1, 0.2], ["Att", [0], 0.6], ["Amp", [0], 1.1], ["Th", [0], 0.3]):
        make(s).fock_array(3)


def run(case, ctx):
    globals()["r_" + case["kind"]](case, ctx)


# ---- causal structure ------------------------------------------------------------------------------------


class Net:
    def __init__(self, parts):
        self.parts = parts
        self.n = n = len(parts)
        last = {}
        self.edges = set()
        # per mode, the sequence of components acting on it
        self.open = []
        for i, c in enumerate(parts):
            for m in c.wires.modes:
                if m in c.wires.input.modes and m in last:
                    self.edges.add((last[m], i))
                if m in c.wires.output.modes:
                    last[m] = i
                else:
                    last.pop(m, None)
        reach = [[False] * n for _ in range(n)]
        for a, b in self.edges:
            reach[a][b] = True
        for k in range(n):
            for i in range(n):
                for j in range(n):
                    reach[i][j] = reach[i][j] or (reach[i][k] and reach[k][j])
        self.reach = reach

    def convex(self, S):
        return not any(x not in S and any(self.reach[a][x] for a in S) and any(self.reach[x][b] for b in S) for x in range(self.n))

    def closed(self, S):
        """no open wire left"""
        outs, ins = set(), set()
        free = 0
        last = {}
        for i in sorted(S):
            w = self.parts[i].wires
            for m in w.modes:
                if m in w.input.modes and last.pop(m, None) is None:
                    free += 1
                if m in w.output.modes:
                    last[m] = i
        return free == 0 and not last

    def slots_ok(self, S):
        """no mode has two components with an unconnected input/output inside the group"""
        ins, outs, last = set(), set(), {}
        for i in sorted(S):
            w = self.parts[i].wires
            for m in w.input.modes:
                if m in last:
                    last.pop(m)
                elif m in ins:
                    return False
                else:
                    ins.add(m)
            for m in w.output.modes:
                if m in last:
                    return False
                last[m] = i
        return True

    def splits(self, S):
        S = sorted(S)
        for r in range(1, 2 ** len(S) - 1):
            A = frozenset(S[i] for i in range(len(S)) if r >> i & 1)
            B = frozenset(S) - A
            if any(self.reach[b][a] for a in A for b in B):
                continue
            if self.convex(A) and self.convex(B) and not self.closed(A) and not self.closed(B) and self.slots_ok(A) and self.slots_ok(B):
                yield A, B


def desc(x):
    from mrmustard.lab import CircuitComponent

    if isinstance(x, CircuitComponent):
        return type(x).__name__
    return "scalar"


def value(x):
    """comparable value of a Gaussian component"""
    from mrmustard.lab import CircuitComponent

    if not isinstance(x, CircuitComponent):
        return None, None, np.asarray(x)
    A, b, c = x.ansatz.triple
    return np.asarray(A), np.asarray(b), np.asarray(c)


def kindof(x):
    from mrmustard.lab import DM, Channel, CircuitComponent, Ket, Map, Operation, Unitary

    for t in (Ket, DM, Unitary, Channel, Operation, Map):
        if isinstance(x, t):
            return t.__name__
    return "CC" if isinstance(x, CircuitComponent) else "scalar"


def same_comp(ctx, x, y, label, atol=1e-7):
    from mrmustard.lab import CircuitComponent

    if isinstance(x, CircuitComponent) != isinstance(y, CircuitComponent):
        ctx.fail(f"{label}: one order gives a component and another a number")
        return
    if isinstance(x, CircuitComponent):
        ctx.eq(x.wires.args, y.wires.args, f"{label}: wires")
        ctx.eq(tuple(w.index for w in x.wires.sorted_wires), tuple(range(len(x.wires))), f"{label}: wire indices")
    for u, v, t in zip(value(x), value(y), "Abc"):
        if u is not None:
            ctx.close(u, v, f"{label}: {t}", atol=atol, rtol=1e-6, shape=t != "c")


def confluence(ctx, parts, label):
    net = Net(parts)
    full = frozenset(range(net.n))
    val = {frozenset([i]): p for i, p in enumerate(parts)}
    how = {}
    for size in range(2, net.n + 1):
        for S in itertools.combinations(range(net.n), size):
            S = frozenset(S)
            if not net.convex(S) or not net.slots_ok(S) or (net.closed(S) and S != full):
                continue
            ctx.states += 1
            for A, B in net.splits(S):
                if A not in val or B not in val:
                    continue
                ctx.transitions += 1
                lab = f"{label}: {sorted(A)}>>{sorted(B)}"
                try:
                    r = val[A] >> val[B]
                except Exception as e:  # noqa: BLE001
                    ctx.fail(f"{lab} raised", f"{type(e).__name__}: {str(e)[:150]}")
                    continue
                if S not in val:
                    val[S], how[S] = r, lab
                else:
                    same_comp(ctx, r, val[S], f"{lab} against {how[S].split(': ')[-1]}")
                if S == full:
                    ctx.eq(kindof(r), kindof(val[S]), f"{lab}: kind of result")
    ctx.traces += 1
    return val.get(full)


def labelled(specs, lab):
    return [make(relabel(s, lab)) for s in specs]


def r_words(case, ctx):
    lab = case["lab"]
    pre = [OPS[i] for i in case["pre"]]
    tails = [[]] + [[g] for g in OPS]
    if case["L"] == 4:
        tails += [[g, h] for g in OPS[::2] for h in OPS[::2]]
    for k, t in enumerate(tails):
        if case["tier"] == "quick" and t and (k + sum(case["pre"])) % 2:
            continue
        w = pre + t
        r = confluence(ctx, labelled(w, lab), " ".join(comps.name(s) for s in w))
        if r is not None and len(w) == 2:
            A, b, c = value(r)
            ctx.see_arr(np.round(A, 8))


def r_net(case, ctx):
    lab = case["lab"]
    for j, g2 in enumerate([None] + OPS):
        if case["tier"] == "quick" and g2 is not None and (j + case["first"]) % 8:
            continue
        w = INITS[case["ini"]] + [OPS[case["first"]]] + ([g2] if g2 else []) + EFFS[case["eff"]]
        # effects need a wire to act on; with no state at all they close outputs of gates
        if case["ini"] == "none":
            have = {m for s in w if s[0] not in ("Tr", "Hom") and not s[0].endswith("*") for m in s[1]}
            if not {m for s in EFFS[case["eff"]] for m in s[1]} <= have:
                continue
        r = confluence(ctx, labelled(w, lab), " ".join(comps.name(s) for s in w))
        if r is not None:
            ctx.see_arr(np.round(value(r)[2], 6))


# ---- mixed representations -----------------------------------------------------------------------------

# (specs, K, exact?)  -- photon-number bounded passive circuits are exact at the cutoff
MIX = [
    ([["Num", [0], 1], ["Num", [1], 2], ["BS", [0, 1], 0.6, 0.3], ["R", [1], 0.4]], 5, 1e-9),
    ([["Num", [0], 2], ["Num", [1], 1], ["BS", [0, 1], 0.6, 0.3], ["Num*", [0], 1], ["Num*", [1], 2]], 5, 1e-9),
    ([["Num", [0], 1], ["Coh", [1], 0.2, 0.1], ["BS", [0, 1], 0.6, 0.3], ["Num*", [0], 1]], 10, 1e-6, 2),
    ([["Num", [0], 2], ["Att", [0], 0.6], ["R", [0], 0.3], ["Num*", [0], 1]], 5, 1e-9),
    ([["Num", [0], 1], ["BS", [0, 1], 0.5, 0.2], ["Att", [0], 0.7]], 4, 1e-9),
    ([["Sq", [0], 0.15, 0.3], ["D", [0], 0.1, 0.1], ["R", [0], 0.4], ["Num*", [0], 2]], 14, 1e-6),
    ([["Sq", [0], 0.15, 0.3], ["Num", [1], 1], ["BS", [0, 1], 0.5, 0.2], ["Num*", [1], 2]], 10, 1e-6, 1),
    ([["Num", [0], 1], ["Num", [1], 1], ["Num", [2], 0], ["BS", [0, 1], 0.5, 0.2], ["BS", [1, 2], 0.8, -0.3]], 4, 1e-9),
    ([["Coh", [0], 0.2, 0.1], ["Att", [0], 0.6], ["Amp", [0], 1.05], ["Num*", [0], 1]], 10, 1e-5),
    ([["Th", [0], 0.05], ["Num", [1], 1], ["BS", [0, 1], 0.5, 0.2], ["Tr", [1]]], 8, 1e-4, 2),
    ([["Num", [0], 2], ["Att", [0], 0.6], ["Tr", [0]]], 4, 1e-9),
    ([["Num", [3], 1], ["Num", [10], 1], ["BS", [3, 10], 0.5, 0.2], ["Att", [10], 0.5], ["Num*", [3], 1]], 4, 1e-9),
]


def tofock(x, specs_i, K):
    return x.to_fock(K) if specs_i[0] != "Tr" else x


def low(x, M):
    """array of the result on the corner below M (zero padded)"""
    from mrmustard.lab import CircuitComponent

    if not isinstance(x, CircuitComponent):
        return np.asarray(x)
    a = np.asarray(x.fock_array(M) if type(x.ansatz).__name__ == "PolyExpAnsatz" else x.ansatz.array)
    if a.ndim == 0:
        return a
    out = np.zeros((M,) * a.ndim, complex)
    sl = tuple(slice(0, min(M, s)) for s in a.shape)
    out[sl] = a[sl]
    return out


def r_mix(case, ctx):
    from mrmustard import settings

    specs, K, tol, *M = MIX[case["i"]]
    M = M[0] if M else min(K, 4)
    with settings(DEFAULT_FOCK_SIZE=K):
        n = len(specs)
        want = None
        for assign in itertools.product((0, 1), repeat=n):
            for rep in ("Fock",) if case["tier"] == "quick" else ("Fock",):
                parts = [tofock(make(s), s, K) if a else make(s) for s, a in zip(specs, assign)]
                net = Net(parts)
                full = frozenset(range(n))
                memo = {}

                def trees(S):
                    """all (order, value) of a group"""
                    if S in memo:
                        return memo[S]
                    if len(S) == 1:
                        memo[S] = [(str(next(iter(S))), parts[next(iter(S))])]
                        return memo[S]
                    out = []
                    for A, B in net.splits(S):
                        for (la, va), (lb, vb) in itertools.product(trees(A), trees(B)):
                            ctx.transitions += 1
                            try:
                                out.append((f"({la}>>{lb})", va >> vb))
                            except Exception as e:  # noqa: BLE001
                                ctx.fail(f"reps {assign}: ({la}>>{lb}) raised", f"{type(e).__name__}: {str(e)[:150]}")
                        if len(out) > (14 if case["tier"] == "quick" else 600):
                            break
                    memo[S] = out
                    return out

                res = trees(full)
                ctx.states += len(memo)
                for order, v in res:
                    got = low(v, M)
                    # states of two or more modes: compare below the total photon number the cutoff can hold
                    if want is None:
                        want = got
                    ctx.traces += 1
                    ctx.close(mask(got, v), mask(want, v), f"reps {assign}: {order}", atol=tol, rtol=0)
        ctx.see_arr(np.round(want, 8))
        exp = expected(specs, K)
        if exp is not None:
            ctx.close(want, exp, "independent calculation", atol=max(tol, 1e-7), rtol=0, shape=False)


def mask(a, v):
    """keep entries whose inputs hold few enough photons not to meet the cutoff"""
    from mrmustard.lab import CircuitComponent

    if not isinstance(v, CircuitComponent) or not v.wires.input:
        return a
    a = a.copy()
    ins = [w.index for w in v.wires.sorted_wires if not w.is_out]
    for idx in itertools.product(*map(range, a.shape)):
        if any(sum(idx[w.index] for w in v.wires.sorted_wires if not w.is_out and w.is_ket == k) > 1 for k in (True, False)):
            a[idx] = 0
    return a if ins else a


def expected(specs, K):
    """scalar results of the photon-number circuits, from dense operators"""
    if specs[-1][0] == "Num*" and all(s[0] in ("Num", "BS", "R", "Num*") for s in specs):
        N = 6
        v = {s[1][0]: ref.num_vec(s[2], N) for s in specs if s[0] == "Num"}
        e = {s[1][0]: ref.num_vec(s[2], N) for s in specs if s[0] == "Num*"}
        if set(v) != set(e) or len(v) != 2:
            return None
        t = np.multiply.outer(v[0], v[1])
        for s in specs:
            if s[0] == "BS":
                t = np.tensordot(comps.fock_unitary(s, N), t, axes=([2, 3], [0, 1]))
        return np.sum(np.multiply.outer(e[0], e[1]) * t)
    return None


# ---- Circuit objects ------------------------------------------------------------------------------------

CIRC = [
    INITS["sep"][:2] + [OPS[4], OPS[0]],
    INITS["gket"] + [OPS[4], OPS[5], OPS[6]],
    INITS["two"] + [OPS[4], EFFS["ket"][0]],
    INITS["sep"] + [OPS[10], EFFS["tr"][0]],
    [OPS[4], OPS[5], OPS[12], OPS[4]],
    [OPS[0], OPS[4], OPS[1], OPS[13]],
    INITS["two"] + [OPS[5]] + EFFS["closed"][:1],
    INITS["gket"] + [OPS[7], OPS[12]] + EFFS["closed"],
    [["Num", [0], 1], ["Num", [1], 1], ["BS", [0, 1], 0.4, 0.1], ["Num*", [0], 1], ["Num*", [1], 1]],
    [["Num", [0], 1], ["Num", [1], 0], ["BS", [0, 1], 0.4, 0.1], ["Att", [0], 0.5]],
]


def all_paths(net, groups=None):
    """every valid sequence of (i,j) contractions, i being the representative kept"""
    if groups is None:
        groups = {i: frozenset([i]) for i in range(net.n)}
    if len(groups) == 1:
        yield []
        return
    for i, j in itertools.permutations(groups, 2):
        A, B = groups[i], groups[j]
        S = A | B
        if any(net.reach[b][a] for a in A for b in B) or not net.convex(S) or not net.slots_ok(S) or (net.closed(S) and len(groups) > 2):
            continue
        g2 = {k: v for k, v in groups.items() if k != j}
        g2[i] = S
        for rest in all_paths(net, g2):
            yield [(i, j), *rest]


def r_circ(case, ctx):
    from mrmustard import settings
    from mrmustard.lab import Circuit

    specs = CIRC[case["i"]]
    fock = any(s[0].startswith("Num") for s in specs)
    cap = 50 if case["tier"] == "quick" else 5000

    def cmp(got, want, label):
        if fock:
            ctx.close(low(got, 3), low(want, 3), label, atol=1e-8, rtol=0)
        else:
            same_comp(ctx, got, want, label)

    with settings(DEFAULT_FOCK_SIZE=5):
        parts = [make(s) for s in specs]
        want = reduce(lambda a, b: a >> b, parts)
        net = Net(parts)
        circ = Circuit(parts)
        cmp(circ.contract(), want, "Circuit.contract with the default path")
        ctx.eq(len(circ), len(parts), "number of components")
        for k, p in enumerate(all_paths(net)):
            if k >= cap:
                break
            circ.path = p
            ctx.traces += 1
            ctx.transitions += len(p)
            try:
                r = circ.contract()
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"path {p} raised", f"{type(e).__name__}: {str(e)[:150]}")
                continue
            cmp(r, want, f"path {p}")
        for cut in range(len(parts) + 1):
            c = Circuit(parts[:cut]) >> Circuit(parts[cut:])
            ctx.eq(len(c), len(parts), f"concatenation at {cut}")
            cmp(c.contract(), want, f"concatenation at {cut}")
            ctx.eq(c == Circuit(parts), True, f"concatenation at {cut} equals the circuit")
        c = Circuit()
        for p in parts:
            c = c >> p
        cmp(c.contract(), want, "built with >>")
        for bad in ([], [(0, 1)] * (len(parts) - 2)):
            c.path = bad
            ctx.raises(ValueError, c.contract, "incomplete path is refused")
        # a circuit object is a list: permuting causally unrelated neighbours changes nothing
        for i in range(len(parts) - 1):
            if not net.reach[i][i + 1] and not set(parts[i].wires.modes) & set(parts[i + 1].wires.modes):
                q = parts[:i] + [parts[i + 1], parts[i]] + parts[i + 2:]
                cmp(Circuit(q).contract(), want, f"swap of components {i},{i + 1}")
                ctx.transitions += 1
        ctx.see(case["i"])


# ---- a closed part next to an open one -----------------------------------------------------------------

# amplitudes next to ket-only parts, probabilities next to parts with both sides (a mixture of the two has no definite meaning)
CLOSED = [
    ("k", [["Coh", [0], 0.3, 0.2], ["Coh*", [0], -0.1, 0.4]]),
    ("k", [["Num", [0], 1], ["Coh*", [0], 0.3, 0.4]]),
    ("k", [["Sq", [0], 0.3, 0.2], ["D", [0], 0.2, 0.1], ["Coh*", [0], 0.1, 0.4]]),
    ("k", [["TMSV", [0, 7], 0.4, 0.2], ["Coh*", [0], 0.1, 0.4], ["Coh*", [7], 0.2, 0.1]]),
    ("b", [["Th", [0], 0.4], ["Th*", [0], 0.7]]),
    ("b", [["Th", [0], 0.4], ["Att", [0], 0.4], ["Coh*", [0], 0.3, 0.1]]),
    ("b", [["Coh", [0], 0.4, 0.2], ["Th*", [0], 0.7]]),
]
OPEN = [
    ("k", [["Coh", [5], 0.4, -0.3]]),
    ("k", [["Num", [5], 2], ["R", [5], 0.4]]),
    ("k", [["Sq", [5], 0.4, 0.1], ["Coh", [3], 0.2, 0.1], ["BS", [3, 5], 0.4, 0.2]]),
    ("k", [["D", [5], 0.2, 0.1], ["S", [5], 0.2, 0.3]]),
    ("k", [["Coh*", [5], 0.4, -0.3]]),
    ("b", [["Th", [5], 0.4]]),
    ("b", [["Th", [5], 0.3], ["D", [5], 0.4, 0.1]]),
    ("b", [["Att", [5], 0.4]]),
    ("b", [["GRN", [3], 0]]),
]


def r_closed(case, ctx):
    """every interleaving of a closed and an open part, from left to right and as circuit object: the number of the one times the component of the other"""
    from mrmustard import settings
    from mrmustard.lab import Circuit

    (s1, p1), (s2, p2) = CLOSED[case["i"]], OPEN[case["j"]]
    ctx.see((case["i"], case["j"]))
    if s1 != s2:
        return
    with settings(DEFAULT_FOCK_SIZE=14, AUTOSHAPE_PROBABILITY=1 - 1e-9):
        A, B = [make(s) for s in p1], [make(s) for s in p2]
        z, x = reduce(lambda a, b: a >> b, A), reduce(lambda a, b: a >> b, B)
        ctx.eq(kindof(z), "scalar", "the closed part is a number")
        K = 4
        want = low(x, K) * np.asarray(z)
        for tag, got in (("z >> x", lambda: z >> x), ("complex(z) >> x", lambda: complex(z) >> x), ("x >> z", lambda: x >> z), ("z * x", lambda: complex(z) * x), ("x * z", lambda: x * z)):
            ctx.transitions += 1
            try:
                r = got()
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"{tag} raised", f"{type(e).__name__}: {str(e)[:150]}")
                continue
            ctx.eq(kindof(r), kindof(x), f"{tag}: kind")
            if kindof(r) == kindof(x):
                ctx.eq(r.wires.args, x.wires.args, f"{tag}: wires")
                ctx.close(low(r, K), want, f"{tag}: value", atol=1e-9, rtol=1e-7)
        n = len(A) + len(B)
        for comb in itertools.combinations(range(n), len(A)):
            pos = "start" if comb == tuple(range(len(A))) else comb
            a, b = iter(A), iter(B)
            seq = [next(a) if k in comb else next(b) for k in range(n)]
            for tag, f in ((">>", lambda seq=seq: reduce(lambda u, v: u >> v, seq)), ("Circuit", lambda seq=seq: Circuit(seq).contract())):
                ctx.transitions += 1
                ctx.traces += 1
                try:
                    r = f()
                except Exception as e:  # noqa: BLE001
                    ctx.fail(f"{tag} with the closed part at {pos} raised", f"{type(e).__name__}: {str(e)[:150]}")
                    continue
                ctx.eq(kindof(r) == "scalar", False, f"{tag} with the closed part at {pos} is a component")
                if kindof(r) != "scalar":
                    ctx.eq(r.wires.args, x.wires.args, f"{tag} with the closed part at {pos}: wires")
                    ctx.close(low(r, K), want, f"{tag} with the closed part at {pos}: value", atol=1e-7 if "Num" not in str(p1 + p2) else 2e-4, rtol=1e-6)


# ---- many wires at once against one wire at a time: the branch of the square root ------------------------
BRANCH = ["overlap", "trace", "gates", "expect", "inverse"]


def r_branch(case, ctx):
    """m independent strongly squeezed (or hot) modes, joined first and contracted on all wires at once: the m-th power of the one-mode number"""
    import mrmustard.lab as lab

    m, what = case["m"], case["what"]
    modes = list(range(m))
    join = lambda xs: reduce(lambda a, b: a >> b, xs)  # noqa: E731
    n = 12
    for k in range(n):
        phi = 2 * np.pi * k / n + 0.05
        ctx.see(what, m, k)
        ctx.transitions += 1
        if what == "overlap":
            for r in (0.8, 1.4, 1.9):
                t = np.tanh(r)
                z = np.cosh(r) ** -1 / np.sqrt(1 - t * t * np.exp(1j * phi) + 0j)
                f = lambda i: lab.SqueezedVacuum(i, r, phi + np.pi)  # noqa: E731,B023
                g = lambda i: lab.SqueezedVacuum(i, r, np.pi).dual  # noqa: E731,B023
                A, B = join([f(i) for i in modes]), join([g(i) for i in modes])
                z1 = complex(np.asarray(lab.SqueezedVacuum(0, r, phi + np.pi) >> g(0)))
                ctx.close(z1, z, f"one mode r={r} {k}", rtol=1e-9, atol=1e-14)
                ctx.close(complex(np.asarray(A >> B)), z1**m, f"overlap r={r} {k}", rtol=1e-8, atol=1e-14)
                U = join([lab.Rgate(i, 0.3) for i in modes])
                ctx.close(complex(np.asarray(A >> U >> U.dual >> B)), z1**m, f"overlap through gates r={r} {k}", rtol=1e-8, atol=1e-14)
                ctx.traces += 3
        if what in ("trace", "expect"):
            for nbar in (1.0, 6.0, 20.0):
                x = nbar / (nbar + 1)
                z1 = (1 - x) / (1 - x * np.exp(1j * phi))
                rho = join([lab.Thermal(i, nbar) for i in modes])
                U = join([lab.Rgate(i, phi) for i in modes])
                if what == "expect":
                    got = complex(np.asarray(rho.expectation(U)))
                    ctx.close(got, z1**m, f"expectation nbar={nbar} {k}", rtol=1e-8, atol=1e-14)
                else:
                    got = rho.contract(U) >> lab.TraceOut(tuple(modes))
                    ctx.close(complex(np.asarray(got if kindof(got) == "scalar" else got.ansatz.scalar)), z1**m, f"traced operator nbar={nbar} {k}", rtol=1e-8, atol=1e-14)
                ctx.traces += 1
        if what == "gates":
            for r in (0.8, 1.9):
                one = lab.Sgate(0, r, 0.0) >> lab.Rgate(0, phi) >> lab.Sgate(0, r, 0.4)
                c1 = complex(np.asarray(one.ansatz.c))
                S, R, T = (join(x) for x in ([lab.Sgate(i, r, 0.0) for i in modes], [lab.Rgate(i, phi) for i in modes], [lab.Sgate(i, r, 0.4) for i in modes]))
                for tag, V in (("left", (S >> R) >> T), ("right", S >> (R >> T))):
                    ctx.close(complex(np.asarray(V.ansatz.c)), c1**m, f"gates {tag} r={r} {k}", rtol=1e-8, atol=1e-14)
                ctx.traces += 2
        if what == "inverse":
            for r in (0.8, 1.9):
                I = np.eye(m)
                A = np.block([[0.9 * np.tanh(r) * np.exp(1j * phi) * I, 0.5 * I], [0.5 * I, 0.9 * np.tanh(r) * np.exp(0.3j) * I]])
                T = lab.Operation.from_bargmann(modes, modes, (A, np.array([0.1] * m + [0.2j] * m), 0.7))
                inv = T.inverse()
                E = T >> inv
                ctx.close(complex(np.asarray(E.ansatz.c)), 1, f"operation then its inverse r={r} {k}", rtol=1e-7, atol=1e-9)
                ctx.traces += 1
