"""C04: path optimisation.

Model: an independent description of the contraction graph (legs between components), in which the states are the
partitions of the components and the transitions are the valid contractions.  The optimiser's nondeterminism
(`random.choice`) is put under a controller and explored exhaustively on small graphs.
"""

import itertools
from functools import lru_cache

import numpy as np

from mc import comps

LEVEL = "model_checking"
RULE = ("closed circuits: 1-3 modes, every gate word of length<=3 over {BS on every pair, R, S} that gives a connected graph, times patterns of Fock / Bargmann / joint "
        "initial states and measurements, plus density-matrix circuits with loss: (a) every sequence of outcomes of the optimiser's random choices (DFS, capped at 400 runs per graph), "
        "(b) optimal cost without heuristics compared with the exact minimum over ALL contraction orders (all partitions of the components), for n_init in {1,3} and three choice policies, "
        "(c) Circuit.optimize with and without heuristics executed and compared with circuit-order contraction and with an exact photon-number calculation, "
        "(d) every valid path executed after shape optimisation for graphs of up to 5 nodes")
ASSUMPTIONS = ["documented cost model re-implemented from the docstring of contraction_cost", "photon-number inputs with passive gates make Fock truncation exact, so results are compared tightly",
               "valid path = each contraction joins two connected groups with no other component between them"]
BUDGET = 500
CASE_LIMIT = 300


def cases(tier):
    out = []
    L = 3 if tier == "quick" else 4
    al = {1: [["R", [0], 0.4], ["S", [0], 0.3, 0.2]], 2: [["BS", [0, 1], 0.6, 0.3], ["R", [1], 0.5]], 3: [["BS", [0, 1], 0.6, 0.3], ["BS", [1, 2], 0.4, -0.7], ["BS", [0, 2], 0.9, 0.2]]}
    for n in (1, 2, 3):
        for l in range(0, L + 1):
            for w in itertools.product(range(len(al[n])), repeat=l):
                if n == 3 and l == L and w[0] > w[-1]:
                    continue
                out.append({"id": f"g{n}-{''.join(map(str, w))}", "kind": "graph", "n": n, "word": [al[n][i] for i in w], "tier": tier})
    out.append({"id": "dm-loss", "kind": "dm", "tier": tier})
    out.append({"id": "dm-two", "kind": "dm2", "tier": tier})
    out.append({"id": "reject", "kind": "reject", "tier": tier})
    out.append({"id": "big-cost", "kind": "big", "tier": tier})
    for n in (2, 8, 12, 16):
        out.append({"id": f"rare-{n}", "kind": "rare", "nph": n, "tier": tier})
    out.append({"id": "rare-bs", "kind": "rarebs", "tier": tier})
    out.append({"id": "shapes", "kind": "shapes", "tier": tier})
    return out


def warm():
    from mrmustard.math.lattice import strategies as st
    from mrmustard.math.lattice.strategies.vanilla.core import stable_numba, vanilla_numba

    for D in (1, 2, 3, 4):
        A, b = 0.1 * np.eye(D, dtype=complex), np.ones(D, complex)
        for c in (1 + 0j, np.array(1 + 0j)):
            vanilla_numba((2,) * D, A, b, c, None)
    st.stable_beamsplitter((2, 2, 2, 2), np.array(0.3), np.array(0.2))
    st.squeezer((2, 2), np.array(0.3), np.array(0.2))
    from mrmustard.lab import Coherent

    Coherent(0, 0.3).auto_shape()


def run(case, ctx):
    globals()["r_" + case["kind"]](case, ctx)


# ---- controller for random.choice ---------------------------------------------------------------------


class Chooser:
    """stands in for the random module inside the optimiser"""

    def __init__(self, policy=None, prefix=()):
        self.policy, self.prefix, self.trace = policy, list(prefix), []

    def pick(self, n):
        k = len(self.trace)
        if self.policy == "first":
            i = 0
        elif self.policy == "last":
            i = n - 1
        elif self.policy == "mid":
            i = (n // 2 + k) % n
        else:
            i = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((i, n))
        return i

    def choice(self, seq):
        seq = list(seq)
        return seq[self.pick(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def sample(self, population, k, **_):
        pop = list(population)
        return [pop.pop(self.pick(len(pop))) for _ in range(k)]

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def randrange(self, a, b=None, *_):
        lo, hi = (0, a) if b is None else (a, b)
        return lo + self.pick(hi - lo)

    def randint(self, a, b):
        return a + self.pick(b - a + 1)

    def __getattr__(self, name):
        import random

        return getattr(random, name)


class controlled:
    def __init__(self, ch):
        self.ch = ch

    def __enter__(self):
        import mrmustard.path.branch_and_bound as bb
        import random

        self.saved = bb.__dict__.get("random")
        bb.random = self.ch
        # also catch a direct `from random import choice`
        self.mod = {k: getattr(random, k) for k in ("choice", "choices", "sample", "shuffle", "randrange", "randint")}
        self.names = {k: bb.__dict__[k] for k in self.mod if k in bb.__dict__}
        for k in self.names:
            setattr(bb, k, getattr(self.ch, k))
        return self.ch

    def __exit__(self, *a):
        import mrmustard.path.branch_and_bound as bb

        bb.random = self.saved
        for k, v in self.names.items():
            setattr(bb, k, v)


def explore(fn, cap):
    """stateless DFS over every choice sequence of fn(chooser)"""
    prefix, n = [], 0
    while n < cap:
        ch = Chooser(prefix=prefix)
        fn(ch)
        n += 1
        t = ch.trace
        while t and t[-1][0] == t[-1][1] - 1:
            t = t[:-1]
        if not t:
            return n, True
        prefix = [i for i, _ in t[:-1]] + [t[-1][0] + 1]
    return n, False


# ---- model --------------------------------------------------------------------------------------------


class Model:
    """nodes with legs; a leg joins an output of an earlier node with an input of a later one"""

    def __init__(self, components, shapes, kinds):
        self.N = len(components)
        self.kind = kinds
        self.legs = [dict() for _ in components]  # leg id -> own shape
        self.edges = set()
        openleg = {}
        nid = 0
        self.dangling = False
        for i, c in enumerate(components):
            w = c.wires
            slots = [(s, d, m) for s, d in (("b", "o"), ("b", "i"), ("k", "o"), ("k", "i"))
                     for m in sorted(getattr(getattr(w, "bra" if s == "b" else "ket"), "output" if d == "o" else "input").modes)]
            assert len(slots) == len(shapes[i])
            own = dict(zip(slots, shapes[i]))
            for (s, d, m), n in own.items():
                if d == "i":
                    if (s, m) in openleg:
                        j, leg = openleg.pop((s, m))
                        self.edges.add((j, i))
                        self.legs[i][leg] = int(n)
                    else:
                        self.dangling = True
            for (s, d, m), n in own.items():
                if d == "o":
                    nid += 1
                    openleg[(s, m)] = (i, nid)
                    self.legs[i][nid] = int(n)
        self.dangling = self.dangling or bool(openleg)

    def start(self):
        return frozenset(frozenset([i]) for i in range(self.N))

    def group(self, S):
        """legs on the boundary of S with their shapes, and whether everything inside is Bargmann"""
        cnt = {}
        for i in S:
            for leg, n in self.legs[i].items():
                cnt.setdefault(leg, []).append(n)
        return {leg: v[0] for leg, v in cnt.items() if len(v) == 1}, all(self.kind[i] for i in S)

    def cost(self, S, T):
        a, A = self.group(S)
        b, B = self.group(T)
        sh = set(a) & set(b)
        m, nA, nB = len(sh), len(a) - len(sh), len(b) - len(sh)
        if A and B:
            return m**3 + (m + 1) * m * nA + (m + 1) * m * nB + (m + 1) * m + m**3
        x = 1
        for leg in set(a) | set(b):
            x *= min(a.get(leg, 10**9), b.get(leg, 10**9))
        ca = cb = 1
        for v in a.values():
            ca *= v
        for v in b.values():
            cb *= v
        return x + (ca if A else 0) + (cb if B else 0)

    def quotient(self, P):
        of = {i: g for g in P for i in g}
        return {(of[i], of[j]) for i, j in self.edges if of[i] != of[j]}

    def moves(self, P):
        E = self.quotient(P)
        succ = {}
        for a, b in E:
            succ.setdefault(a, set()).add(b)

        def reach(x, t):
            seen, st = set(), [x]
            while st:
                y = st.pop()
                if y == t:
                    return True
                if y not in seen:
                    seen.add(y)
                    st += list(succ.get(y, ()))
            return False

        for a, b in sorted(E, key=lambda e: (sorted(e[0]), sorted(e[1]))):
            if any(x != b and reach(x, b) for x in succ[a]):
                continue
            yield a, b

    def best(self):
        memo = {}

        def f(P):
            if P not in memo:
                memo[P] = min((self.cost(a, b) + f(P - {a, b} | {a | b}) for a, b in self.moves(P)), default=0 if len(P) == 1 else float("inf"))
            return memo[P]

        v = f(self.start())
        self.nstates = len(memo)
        return v

    def check_path(self, ctx, path, label):
        """valid and complete; returns its cost"""
        P = self.start()
        name = {i: frozenset([i]) for i in range(self.N)}
        tot = 0
        for i, j in path:
            if i not in name or j not in name or i == j:
                ctx.fail(f"{label}: path refers to a component that is no longer there", f"{path}")
                return None
            a, b = name[i], name[j]
            if (a, b) not in set(self.moves(P)):
                ctx.fail(f"{label}: invalid contraction ({i},{j})", f"path {path}")
                return None
            tot += self.cost(a, b)
            P = P - {a, b} | {a | b}
            name[i] = a | b
            del name[j]
        ctx.check(len(P) == 1, f"{label}: path is complete", f"{path}")
        return tot

    def paths(self, P=None, name=None):
        """all valid paths (sequence of pairs in the Circuit.path convention)"""
        if P is None:
            P = self.start()
            name = {frozenset([i]): i for i in range(self.N)}
        mv = list(self.moves(P))
        if not mv:
            yield []
            return
        for a, b in mv:
            n2 = dict(name)
            i, j = n2.pop(a), n2.pop(b)
            n2[a | b] = i
            for rest in self.paths(P - {a, b} | {a | b}, n2):
                yield [(i, j), *rest]


def connected(model):
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [b for a, b in model.edges if a == x] + [a for a, b in model.edges if b == x]
    return len(seen) == model.N


# ---- circuits -------------------------------------------------------------------------------------------

NS = {1: [(2,), (1,)], 2: [(1, 1), (2, 0)], 3: [(1, 1, 0), (0, 1, 1)]}
ALPHA = [0.5 + 0.2j, -0.3 + 0.4j, 0.25 - 0.3j]


def ini(kind, n, which=0):
    import mrmustard.lab as lab

    if kind == "N":
        return [lab.Number(m, k) for m, k in enumerate(NS[n][which])]
    if kind == "C":
        return [lab.Coherent(m, ALPHA[m]) for m in range(n)]
    if kind == "M":
        return [lab.Number(m, NS[n][which][m]) if m % 2 == 0 else lab.Coherent(m, ALPHA[m]) for m in range(n)]
    if kind == "J":
        return [lab.Vacuum(tuple(range(n))) >> lab.Dgate(0, 0.6)]
    raise KeyError


PATTERNS = [("N", "N"), ("C", "C"), ("C", "N"), ("N", "C"), ("M", "N"), ("J", "N"), ("N", "J"), ("J", "J")]
QUICK2 = [("N", "N"), ("M", "N"), ("J", "N"), ("C", "C")]
QUICK3 = [("N", "N"), ("J", "N")]


def circuit(n, word, a, b):
    return ini(a, n, 0) + [comps.build(g) for g in word] + [x.dual for x in ini(b, n, 1)]


def exact_amp(n, word, a, b):
    """<out| U |in> in a truncated space that is exact or converged (passive gates)"""
    K = 16 if n < 3 else 11
    from mc import ref

    def vec(kind, which):
        vs = []
        for m in range(n):
            if kind == "N" or (kind == "M" and m % 2 == 0):
                vs.append(ref.num_vec(NS[n][which][m], K))
            elif kind == "J":
                vs.append(ref.coh_vec(0.6, K) if m == 0 else ref.num_vec(0, K))
            else:
                vs.append(ref.coh_vec(ALPHA[m], K))
        t = vs[0]
        for v in vs[1:]:
            t = np.multiply.outer(t, v)
        return t

    v = vec(a, 0)
    for g in word:
        if g[0] == "BS":
            i, j = g[1]
            v = np.moveaxis(np.tensordot(_bs(g[2], g[3], K), v, axes=([2, 3], [i, j])), [0, 1], [i, j])
        else:
            U = comps.fock_unitary(g, K) if g[0] != "S" else comps.fock_unitary(g, K)
            v = np.moveaxis(np.tensordot(U, v, axes=([1], [g[1][0]])), 0, g[1][0])
    return np.sum(vec(b, 1).conj() * v)


@lru_cache(None)
def _bs(t, p, K):
    return comps.fock_unitary(["BS", [0, 1], t, p], K)


def analyse(ctx, comps_fn, label, tier, want=None, tol=1e-6, exec_all=True, fock=8):
    """everything checked for one closed circuit"""
    import mrmustard.path.branch_and_bound as bb
    from mrmustard import settings
    from mrmustard.lab import Circuit
    from mrmustard.path import optimal_path

    with settings(DEFAULT_FOCK_SIZE=fock):
        cs = comps_fn()
        if len(cs) < 2:
            return
        g = bb.parse_components(cs)
        kinds = [type(c.ansatz).__name__ == "PolyExpAnsatz" for c in cs]
        M = Model(cs, [g.component(i).shape for i in range(len(cs))], kinds)
        ctx.eq(set(g.edges), M.edges, f"{label}: graph edges")
        if M.dangling or not connected(M):
            ctx.raises((ValueError, NotImplementedError), lambda: optimal_path(cs, verbose=False), f"{label}: disconnected or open circuits are refused")
            return
        ref = None
        try:
            ref = Circuit(comps_fn()).contract()
        except ValueError:
            ctx.fail(f"{label}: circuit order contraction failed")
        if want is not None:
            ctx.close(ref, want, f"{label}: circuit-order contraction", atol=tol, shape=False)
        # (a) every choice sequence
        bb.assign_costs(g)
        cap = (24 if len(cs) > 5 else 60) if tier == "quick" else 1000

        def one(ch):
            with controlled(ch):
                r = bb.random_solution(g)
            c = M.check_path(ctx, r.solution, f"{label}: random solution")
            if c is not None:
                ctx.eq(r.cost, c, f"{label}: cost of random solution")
            ctx.see(label, tuple(r.solution))

        n, _ = explore(one, cap)
        ctx.transitions += n
        ctx.traces += n
        # (b) optimum: with and without the shape optimisation
        large = tier == "quick" and len(cs) >= 8
        for shapes_opt in (True,) if large else (False, True):
            cs = comps_fn()
            g = bb.parse_components(cs)
            if shapes_opt:
                g.optimize_fock_shapes(cs, verbose=False)
                for i, c in enumerate(cs):
                    ctx.eq(tuple(c.manual_shape), tuple(g.component(i).shape), f"{label}: shapes assigned to the components")
            M2 = Model(cs, [g.component(i).shape for i in range(len(cs))], kinds)
            best = M2.best()
            ctx.states += M2.nstates
            ctx.transitions += M2.nstates
            for pol, n_inits in (("first", (1,)), ("last", (3,)), ("mid", (2,))) if tier == "quick" else (("first", (1, 3)), ("last", (1, 3)), ("mid", (1, 3))):
                if tier == "quick" and pol != ("last" if shapes_opt else "first"):
                    continue
                for n_init in n_inits:
                    with controlled(Chooser(pol)):
                        o = bb.optimal_contraction(g, n_init, (), False)
                    c = M2.check_path(ctx, o.solution, f"{label}: optimal_contraction {pol}")
                    ctx.eq(o.cost, c, f"{label}: reported cost {pol}")
                    ctx.eq(c, best, f"{label}: no valid path has lower cost ({pol}, n_init {n_init}, shapes optimised {shapes_opt})")
                    ctx.traces += 1
        # (c) the public entry point
        for heur in (True,) if large else (True, False):
            for pol in ("first", "last", "mid") if tier != "quick" else (("last",) if heur else ("first",)):
                circ = Circuit(comps_fn())
                with controlled(Chooser(pol)):
                    circ.optimize(n_init=2, with_BF_heuristic=heur, verbose=False)
                Mc = Model(circ.components, [c.manual_shape for c in circ.components], kinds)
                Mc.check_path(ctx, circ.path, f"{label}: Circuit.optimize heuristics={heur} {pol}")
                got = circ.contract()
                ctx.traces += 1
                ctx.close(got, ref, f"{label}: optimised contraction heuristics={heur} {pol}", atol=tol, shape=False)
                ctx.eq([type(c).__name__ for c in circ.components], [type(c).__name__ for c in comps_fn()], f"{label}: components kept")
        # (d) every valid path with the optimised shapes
        if exec_all and len(cs) <= 5:
            circ = Circuit(comps_fn())
            with controlled(Chooser("first")):
                circ.optimize(n_init=1, verbose=False)
            for k, p in enumerate(M.paths()):
                if k >= (12 if tier == "quick" else 400):
                    break
                circ.path = p
                ctx.traces += 1
                ctx.close(circ.contract(), ref, f"{label}: path {p} after shape optimisation", atol=tol, shape=False)


def r_graph(case, ctx):
    n, word = case["n"], case["word"]
    active = any(g[0] == "S" for g in word)
    for a, b in PATTERNS:
        if case["tier"] == "quick" and (n == 3 or len(word) == 3) and (a, b) not in (QUICK3 if len(word) == 3 else QUICK2):
            continue
        if active and "N" in a + b:
            continue
        if "M" in (a, b) and n == 1:
            continue
        want = exact_amp(n, word, a, b)
        # measured states that are superpositions of all photon numbers are cut at the default Fock size
        tol = 1e-6 if (b == "N" or "N" in (a,) or (a in "CJ" and b in "CJ")) else 1e-4
        analyse(ctx, lambda: circuit(n, word, a, b), f"{a}>{b}", case["tier"], want, tol)


def r_dm(case, ctx):
    import mrmustard.lab as lab

    for eta in (0.7, 1.0):
        for k, j in ((2, 1), (1, 1), (2, 0)):
            def mk():
                return [lab.Number(0, k).dm(), lab.Attenuator(0, eta), lab.Number(0, j).dm().dual]

            from math import comb

            analyse(ctx, mk, f"loss {eta} {k}>{j}", case["tier"], comb(k, j) * eta**j * (1 - eta) ** (k - j), 1e-7, fock=5)

    def mk():
        return [lab.Coherent(0, 0.6).dm(), lab.Attenuator(0, 0.5), lab.Amplifier(0, 1.2), lab.Vacuum(0).dm().dual]

    analyse(ctx, mk, "bargmann channel chain", case["tier"], None, 1e-8)


def r_dm2(case, ctx):
    import mrmustard.lab as lab

    for k, j in (((1, 1), (1, 0)), ((2, 0), (1, 1)), ((1, 0), (0, 1))):
        def mk():
            bs = lab.BSgate((0, 1), 0.6, 0.3)
            return [lab.Number(0, k[0]).dm(), lab.Number(1, k[1]).dm(), bs.contract(bs.adjoint), lab.Attenuator(1, 0.7), lab.Number(0, j[0]).dm().dual, lab.Number(1, j[1]).dm().dual]

        from mc import ref

        K = 4
        U = comps.fock_unitary(["BS", [0, 1], 0.6, 0.3], K)
        psi = U[:, :, k[0], k[1]]
        Ks = ref.kraus_att(0.7, K)
        want = sum(abs((psi @ Kr.T)[j[0], j[1]]) ** 2 for Kr in Ks)
        analyse(ctx, mk, f"dm {k}>{j}", case["tier"], want, 1e-7, exec_all=False, fock=4)


def r_reject(case, ctx):
    import mrmustard.lab as lab
    from mrmustard.lab import Circuit

    open_ = [[lab.Number(0, 1)], [lab.Number(0, 1), lab.Rgate(0, 0.2)], [lab.Rgate(0, 0.1), lab.Number(0, 1).dual], [lab.Vacuum((0, 1)), lab.BSgate((0, 1), 0.4), lab.Number(0, 1).dual],
             [lab.Number(0, 1), lab.Number(0, 1).dual, lab.Number(1, 1), lab.Number(1, 1).dual], [lab.Vacuum(0), lab.Vacuum(0)], [lab.BSgate((0, 1), 0.1), lab.Vacuum(1)]]
    for i, cs in enumerate(open_):
        c = Circuit(cs)
        before = list(c.path)
        shapes = [x.manual_shape for x in c]
        ctx.raises((ValueError, NotImplementedError), lambda: c.optimize(verbose=False), f"circuit {i} cannot be optimised")
        ctx.eq(c.path, before, f"circuit {i}: path unchanged after refusal")
        ctx.eq([x.manual_shape for x in c], shapes, f"circuit {i}: shapes unchanged after refusal")
        ctx.see(i)
        ctx.transitions += 1
        ctx.traces += 1


def r_big(case, ctx):
    """cost of components with many large indices: exact integers"""
    import mrmustard.path.branch_and_bound as bb
    from mrmustard.physics.wires import Wires

    for n in (1, 2, 4, 6, 8):
        for s in (2, 50, 100):
            for A, B in itertools.product(("PolyExpAnsatz", "ArrayAnsatz"), repeat=2):
                modes = set(range(n))
                a = bb.GraphComponent(A, Wires(modes, set(), modes, set()), [s] * (2 * n))
                b = bb.GraphComponent(B, Wires(modes, modes, modes, modes), [s] * (4 * n))
                m, nA, nB = 2 * n, 0, 2 * n
                if A == B == "PolyExpAnsatz":
                    want = 2 * m**3 + (m + 1) * m * (nA + nB + 1)
                else:
                    want = s ** (4 * n) + (s ** (2 * n) if A == "PolyExpAnsatz" else 0) + (s ** (4 * n) if B == "PolyExpAnsatz" else 0)
                ctx.eq(a.contraction_cost(b), want, f"cost n={n} shape={s} {A} {B}")
                c = a @ b
                ctx.eq(c.cost, want, "accumulated cost")
                ctx.eq(list(c.shape), [s] * (2 * n), "shape")
                ctx.eq(c.ansatz, "PolyExpAnsatz" if A == B == "PolyExpAnsatz" else "ArrayAnsatz", "ansatz")
                ctx.see(n, s, A, B)
                ctx.transitions += 1
                ctx.traces += 1


def r_rare(case, ctx):
    """a detection event outside the 99.9% photon-number support of a Bargmann state"""
    from mrmustard.lab import Circuit, Number, SqueezedVacuum
    from mc import ref

    n = case["nph"]
    want = ref.f_S(0.5, 0.0)[n, 0]
    c = Circuit([SqueezedVacuum(0, 0.5), Number(0, n).dual])
    ctx.close(c.contract(), want, "before optimisation", shape=False)
    c.optimize(verbose=False)
    ctx.close(c.contract(), want, "after optimisation", shape=False)
    ctx.see(n)
    ctx.transitions += 2
    ctx.traces += 2


def r_rarebs(case, ctx):
    from mrmustard import settings
    from mrmustard.lab import BSgate, Circuit, Coherent, Number, Vacuum
    from mc import ref

    with settings(DEFAULT_FOCK_SIZE=12):
        def mk():
            return Circuit([Coherent(0, 1.0), Vacuum(1), BSgate((0, 1), 0.5, 0.0), Number(0, 8).dual, Number(1, 0).dual])

        v = ref.coh_vec(np.cos(0.5) * 1.0, 12)[8] * np.exp(-0.5 * np.sin(0.5) ** 2)
        c = mk()
        ctx.close(c.contract(), v, "before optimisation", shape=False)
        c.optimize(verbose=False)
        ctx.close(c.contract(), v, "after optimisation", shape=False)
    ctx.see(1)
    ctx.transitions += 2
    ctx.traces += 2


def r_shapes(case, ctx):
    """shape propagation never goes below the exact photon-number support of number states through passive gates"""
    import mrmustard.path.branch_and_bound as bb
    from mrmustard import settings
    from mrmustard.lab import BSgate, Number, Rgate

    with settings(DEFAULT_FOCK_SIZE=30):
        for n0, n1, n2 in itertools.product(range(4), repeat=3):
            for word in ([(0, 1)], [(0, 1), (1, 2)], [(0, 1), (0, 1)], [(0, 1), (1, 2), (0, 2)], [(1, 2), (0, 1)]):
                cs = [Number(0, n0), Number(1, n1), Number(2, n2)] + [BSgate(w, 0.4) for w in word]
                top = [n0, n1, n2]
                g = bb.parse_components(cs)
                g.optimize_fock_shapes(cs, verbose=False)
                lab = f"{(n0, n1, n2)} {word}"
                for c, n in zip(cs[:3], (n0, n1, n2)):
                    ctx.check(c.manual_shape[0] >= n + 1, f"{lab}: state shape", c.manual_shape)
                for c, w in zip(cs[3:], word):
                    a, b = top[w[0]], top[w[1]]
                    s = c.manual_shape
                    ctx.check(s[2] >= a + 1 and s[3] >= b + 1, f"{lab}: input shape of {w}", s)
                    top[w[0]] = top[w[1]] = a + b
                    ctx.check(s[0] >= a + b + 1 and s[1] >= a + b + 1, f"{lab}: output shape of {w} keeps {a + b} photons", s)
                    # a tighter shape is used downstream, so it also has to be a cut of the original
                    ctx.check(all(x <= 30 for x in s), f"{lab}: shapes never grow", s)
                ctx.see(lab, tuple(c.manual_shape for c in cs))
                ctx.transitions += 1
                ctx.traces += 1
