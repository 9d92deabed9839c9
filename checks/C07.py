"""C07: ansatz algebra.  Reference model: a PolyExpAnsatz *is* a batch of number-basis tensors (its power-series
coefficients, superposition and derived variables summed out); every operation is a tensor operation on that model.
Every labelling, permutation, pairing and None-pattern of the bounded space is executed on the real classes."""

import itertools
from functools import lru_cache

import numpy as np

from mc import ref

LEVEL = "model_checking"
RULE = ("PolyExp configurations: 0-3 variables x derived shapes {(),(3,),(3,2),(2,3)} x batch shapes {(),(2,),(1,),(2,3)} x superposition size {none,1,2}; unary operations: every permutation, every ordered list of traced pairs, "
        "every None-pattern with scalar/batched points and batch strings; contraction: every ordered injective pairing of 0-3 x 0-3 variables with every output order, and every batch labelling/output order for 2x2 variables; "
        "sum/product of every pair of configurations; complex Gaussian integrals over 1-3 pairs for every combination of 3-5 phases of each of the 2m factors of the determinant; equality over every ordered pair of a family of 26 variants; ArrayAnsatz: every labelling of up to 3x3 axes (kept, summed, shared), shapes, traces, paddings")
ASSUMPTIONS = ["derived variables carry the 1/sqrt(k!) normalisation used by evaluation", "equality of superpositions is term-wise up to order (like terms are merged only by simplify)"]
CASE_LIMIT = 200
BUDGET = 300
ROTATE = True

BATCH = [(), (2,), (1,), (2, 3)]
DER = [(), (3,), (3, 2), (2, 3)]


def val(n, k, s=1.0):
    """deterministic generic complex numbers in the unit disc"""
    t = np.arange(1, n + 1) * (0.754877666 + 0.01 * k) + 0.569840291 * k
    u = np.arange(1, n + 1) * 0.38196601 + 0.2317 * k
    return s * (0.35 + 0.65 * (t % 1.0)) * np.exp(2j * np.pi * (u % 1.0))


@lru_cache(None)
def triple(n, der, batch, ls, k):
    D = n + len(der)
    L = tuple(batch) + ((ls,) if ls else ())
    cnt = int(np.prod(L)) if L else 1
    A = val(cnt * D * D, k, 0.26 / max(1, D) ** 0.5).reshape(cnt, D, D)
    A = (A + A.transpose(0, 2, 1)) / 2
    b = val(cnt * D, k + 7, 0.35).reshape(cnt, D)
    c = val(cnt * int(np.prod(der, initial=1)), k + 13, 1.0).reshape((cnt, *der))
    return A.reshape(*L, D, D), b.reshape(*L, D), c.reshape(L + tuple(der))


def tensor(A, b, c, ls, shape):
    """coefficients: array of shape batch+shape; sum over the last batch axis when ls"""
    A, b, c = map(np.asarray, (A, b, c))
    L = A.shape[:-2]
    n = len(shape)
    der = c.shape[len(L):]
    assert A.shape[-1] == n + len(der), (A.shape, c.shape, shape)
    out = np.zeros(L + tuple(shape), complex)
    for i in np.ndindex(*L):
        H = ref.hermite_ref(A[i], b[i], 1.0, tuple(shape) + tuple(der)) if n + len(der) else np.ones(())
        out[i] = np.tensordot(H, c[i], axes=(list(range(n, n + len(der))), list(range(len(der))))) if der else H * c[i]
    return out.sum(axis=len(L) - 1) if ls else out


NREF = 13


@lru_cache(None)
def rtensor(n, der, batch, ls, k, N):
    return tensor(*triple(n, der, batch, ls, k), bool(ls), (N,) * n)


def ansatz(n, der, batch, ls, k):
    from mrmustard.physics.ansatz import PolyExpAnsatz

    return PolyExpAnsatz(*triple(n, der, batch, ls, k), lin_sup=bool(ls))


def evalref(A, b, c, ls, z):
    """value at points z (list of n arrays of one shape): points first, then batch"""
    A, b, c = map(np.asarray, (A, b, c))
    L = A.shape[:-2]
    der = c.shape[len(L):]
    n = A.shape[-1] - len(der)
    z = [np.asarray(x, complex) for x in z]
    P = np.broadcast_shapes(*[x.shape for x in z]) if z else ()
    z = [np.broadcast_to(x, P) for x in z]
    out = np.zeros(P + L, complex)
    for p in np.ndindex(*P):
        zz = np.array([x[p] for x in z], complex)
        for i in np.ndindex(*L):
            e = np.exp(0.5 * zz @ A[i][:n, :n] @ zz + b[i][:n] @ zz)
            H = ref.hermite_ref(A[i][n:, n:], b[i][n:] + A[i][n:, :n] @ zz, 1.0, der) if der else np.ones(())
            out[p + i] = e * np.sum(H * c[i])
    return out.sum(axis=-1) if ls else out


def got_tensor(x, M=None):
    n = x.num_CV_vars
    M = M or (4 if n <= 3 else 3)
    return tensor(x.A, x.b, x.c, x._lin_sup, (M,) * n), M


def cmp(ctx, x, want, label, bsh=None, atol=1e-6):
    """want: tensor batch+core with core sizes >= M"""
    try:
        got, M = got_tensor(x)
    except AssertionError as e:
        ctx.fail(label, f"malformed result {e}")
        return
    n = x.num_CV_vars
    nb = want.ndim - n
    if nb < 0:
        ctx.fail(label, f"result has {n} variables, expected array of {want.ndim} axes")
        return
    want = want[(slice(None),) * nb + (slice(0, M),) * n]
    ctx.close(got, want, label, atol=atol, rtol=1e-6)


# ---------------------------------------------------------------------------------------------------------


def cases(tier):
    out = []
    cfgs = [(n, d, b, l) for n in range(4) for d in DER for b in BATCH for l in (0, 1, 2)]
    for n, d, b, l in cfgs:
        if tier == "quick" and (n == 3 and d and len(b) == 2):
            continue
        out.append({"id": f"un-{n}-{d}-{b}-{l}".replace(" ", ""), "kind": "unary", "cfg": [n, d, b, l], "tier": tier})
    for n1, n2 in itertools.product(range(4), repeat=2):
        for d1, d2 in itertools.product([(), (3,), (2, 3)] if tier == "thorough" else [(), (3,)], repeat=2):
            if n1 + n2 == 6 and (d1 or d2) and tier == "quick":
                continue
            out.append({"id": f"core-{n1}{n2}-{d1}-{d2}".replace(" ", ""), "kind": "core", "n": [n1, n2], "der": [d1, d2], "tier": tier})
    for b1, b2 in itertools.product([(), (2,), (3,), (2, 3), (2, 2)], repeat=2):
        for l1, l2 in itertools.product((0, 1, 2), repeat=2):
            for d1, d2 in (((), ()), ((3,), ()), ((), (2, 3)), ((2,), (3,))):
                out.append({"id": f"batch-{b1}-{b2}-{l1}{l2}-{d1}-{d2}".replace(" ", ""), "kind": "batch", "b": [b1, b2], "ls": [l1, l2], "der": [d1, d2], "tier": tier})
    pc = [(n, d, b, l) for n in (1, 2) for d in [(), (3,), (2, 3)] for b in [(), (2,), (2, 3)] for l in (0, 1, 2)]
    for i, c in enumerate(pc):
        out.append({"id": f"bin-{i}", "kind": "binary", "c": c, "others": pc, "tier": tier})
    out.append({"id": "eq", "kind": "equality"})
    out.append({"id": "eq-sup", "kind": "equality", "known": "sup"})
    out.append({"id": "eq-rank", "kind": "equality", "known": "rank"})
    out.append({"id": "ps", "kind": "ps"})
    out.append({"id": "joinreal", "kind": "joinreal"})
    for m in (1, 2, 3):
        for k in range(3):
            out.append({"id": f"branch-{m}-{k}", "kind": "branch", "m": m, "k": k, "angles": [-80, -40, 0, 40, 80] if m < 3 or tier == "thorough" else [-75, 0, 75]})
    for n1, n2 in itertools.product(range(4), repeat=2):
        out.append({"id": f"arr-{n1}{n2}", "kind": "arr", "n": [n1, n2], "tier": tier})
    for n in range(5):
        out.append({"id": f"arru-{n}", "kind": "arru", "n": n, "tier": tier})
    out.append({"id": "arrbin", "kind": "arrbin"})
    return out


def tup(x):
    return tuple(tup(i) if isinstance(i, (list, tuple)) else i for i in x)


def run(case, ctx):
    globals()["r_" + case["kind"]](case, ctx)


def warm():
    from mrmustard.math.lattice.strategies.vanilla.core import vanilla_numba

    for D in (1, 2, 3, 4):
        for c in (1 + 0j, np.array(1 + 0j)):
            vanilla_numba((2,) * D, 0.1 * np.eye(D, dtype=complex), np.ones(D, complex), c, None)


# ---- unary ----------------------------------------------------------------------------------------------


def r_unary(case, ctx):
    from mrmustard import math
    from mrmustard.physics.ansatz import PolyExpAnsatz

    n, der, batch, ls = tup(case["cfg"])
    k = 3
    A, b, c = triple(n, der, batch, ls, k)
    N = NREF if n < 3 else 11
    R = rtensor(n, der, batch, ls, k, N)
    nb = len(batch)
    F = ansatz(n, der, batch, ls, k)
    lazy = PolyExpAnsatz.from_function(lambda s, t: (A * s, b, c * t), s=1.0, t=1.0)
    lazy._lin_sup = bool(ls)
    keep = [np.array(x) for x in F.triple]
    L = batch + ((ls,) if ls else ())
    for f, tag in ((F, ""), (lazy, "lazy ")):
        ctx.eq((f.num_CV_vars, f.num_derived_vars, f.batch_shape, f.shape_derived_vars, f.num_vars, f.core_dims), (n, len(der), L, der, n + len(der), n), tag + "sizes")
        cmp(ctx, f, R, tag + "itself")
    ctx.transitions += 1
    cmp(ctx, F.conj, R.conj(), "conj")
    cmp(ctx, -F, -R, "neg")
    for s in (2.0, 0.3 - 0.2j, 3, 0):
        cmp(ctx, F * s, R * s, f"times {s}")
        cmp(ctx, s * F, R * s, f"{s} times")
    cmp(ctx, PolyExpAnsatz.from_dict(F.to_dict()) if not ls else F, R, "dict round trip")
    try:
        q = F / 2.0
    except NotImplementedError:
        q = None
    if q is not None:
        cmp(ctx, q, R / 2, "divided")
    if batch:
        w = val(int(np.prod(batch)), 5).reshape(batch)
        want = R * w.reshape(batch + (1,) * n)
        ww = math.astensor(w.reshape(batch + (1,) * (bool(ls) + len(der))))
        cmp(ctx, F * ww, want, "times an array aligned with the coefficients")
        cmp(ctx, F / ww, R / w.reshape(batch + (1,) * n), "divided by an array aligned with the coefficients")
        ctx.transitions += 1
    for p in itertools.permutations(range(n)):
        ctx.transitions += 1
        cmp(ctx, F.reorder(p), np.transpose(R, list(range(nb)) + [nb + i for i in p]), f"reorder {p}")
        cmp(ctx, F.reorder(list(p)), np.transpose(R, list(range(nb)) + [nb + i for i in p]), f"reorder list {p}")
    for bad in range(n + 2):
        if bad != n:
            ctx.raises(ValueError, lambda: F.reorder(list(range(bad))), "reorder of wrong length")
    for p in itertools.permutations(range(nb)):
        ctx.transitions += 1
        q = list(p) + ([nb] if ls else [])
        cmp(ctx, F.reorder_batch(q), np.transpose(R, list(p) + [nb + i for i in range(n)]), f"reorder_batch {p}")
    # traces: every ordered list of disjoint pairs
    for m in range(n // 2 + 1):
        for idx in itertools.permutations(range(n), 2 * m):
            iz, ic = idx[:m], idx[m:]
            t = R
            ctx.transitions += 1
            rest = [i for i in range(n) if i not in idx]
            t = np.transpose(t, list(range(nb)) + [nb + i for i in (*rest, *iz, *ic)])
            for j in range(m):
                ax = nb + len(rest)
                t = np.trace(t, axis1=ax, axis2=ax + m - j)
            cmp(ctx, F.trace(iz, ic), t, f"trace {iz} {ic}")
    if n >= 2:
        for bad in (((0,), (0,)), ((0, 0), (1, 1)), ((0,), ()), ((0,), (n,))):
            ctx.raises(ValueError, lambda: F.trace(*bad), f"trace {bad} refused")
    # evaluation: every None pattern
    pts = {"scalar": [0.3 - 0.2j, 0.1 + 0.4j, -0.25 + 0.1j][:n], "vec": [val(2, 20 + i, 0.4) for i in range(n)],
           "mixed": [val(2, 20 + i, 0.4) if i % 2 == 0 else np.complex128(0.2 - 0.1j * i) for i in range(n)],
           "real": [0.3, -0.2, 0.1][:n], "grid": [val(2 + i, 20 + i, 0.4).reshape([-1 if j == i else 1 for j in range(n)]) for i in range(n)]}
    for tag, z in pts.items():
        ctx.transitions += 1
        full = evalref(A, b, c, ls, z)
        ctx.close(F(*z), full, f"value at {tag} points", atol=1e-8)
        if n == 0:
            break
        for pat in itertools.product((0, 1), repeat=n):
            if all(pat) or (tag == "grid" and n == 3 and sum(pat) > 1):
                continue
            args = [x if s else None for x, s in zip(z, pat)]
            given = [x for x, s in zip(z, pat) if s]
            left = [x for x, s in zip(z, pat) if not s]
            if not given:
                continue
            G = F(*args)
            P1 = np.broadcast_shapes(*[np.shape(x) for x in given])
            ctx.eq((G.num_CV_vars, G.batch_shape), (n - sum(pat), P1 + L), f"{tag} {pat} partial evaluation: sizes")
            zz = [0.15 + 0.1j * i for i in range(len(left))]
            it = iter(zz)
            want = evalref(A, b, c, ls, [x if s else next(it) for x, s in zip(z, pat)])
            ctx.close(G(*zz), want, f"{tag} {pat} partial then the rest", atol=1e-8)
            G2 = F.eval(*args, batch_string=None) if all(np.ndim(x) == 0 for x in given) else None
            if G2 is not None:
                ctx.close(G2(*zz), want, f"{tag} {pat} eval partial then the rest", atol=1e-8)
    if n >= 1:
        zs = [val(2, 30 + i, 0.4) for i in range(n)]
        # default batch string = outer product
        outer = evalref(A, b, c, ls, [x.reshape([-1 if j == i else 1 for j in range(n)]) for i, x in enumerate(zs)])
        ctx.close(F.eval(*zs), outer, "eval: outer product of points", atol=1e-8)
        letters = "ijk"[:n]
        for perm in itertools.permutations(range(n)):
            s = ",".join(letters) + "->" + "".join(letters[i] for i in perm)
            want = np.transpose(outer, list(perm) + list(range(n, outer.ndim)))
            ctx.close(F.eval(*zs, batch_string=s), want, f"eval {s}", atol=1e-8)
            ctx.transitions += 1
        ctx.close(F.eval(*zs, batch_string=",".join("i" * n) + "->i"), evalref(A, b, c, ls, zs), "eval zip", atol=1e-8)
        if n >= 2:
            z2 = [val(6, 41, 0.4).reshape(2, 3), val(3, 42, 0.4), 0.1][:n]
            s = "ab,b" + (",->ab" if n == 3 else "->ab")
            ctx.close(F.eval(*z2, batch_string=s), evalref(A, b, c, ls, z2), f"eval {s}", atol=1e-8)
            s = s.replace("->ab", "->ba")
            w = evalref(A, b, c, ls, z2)
            ctx.close(F.eval(*z2, batch_string=s), np.swapaxes(w, 0, 1), f"eval {s}", atol=1e-8)
        ctx.raises(ValueError, lambda: F.eval(*([0.1] * (n + 1))), "too many arguments refused")
        ctx.raises(ValueError, lambda: F(*([0.1] * (n + 1))), "call with too many arguments refused")
    # vacuum
    ctx.close(F.scalar, R[(...,) + (0,) * n], "scalar", atol=1e-8)
    # decomposition
    if n:
        G = F.decompose_ansatz()
        cmp(ctx, G, R, "decompose_ansatz")
        ctx.close(G(*pts["vec"]), evalref(A, b, c, ls, pts["vec"]), "decomposed: value", atol=1e-8)
    # simplify
    if ls and not batch:
        G = F.simplify()
        cmp(ctx, G, R, "simplify")
        dup = PolyExpAnsatz(np.concatenate([A, A[:1], A]), np.concatenate([b, b[:1], b]), np.concatenate([c, 2 * c[:1], -0.5 * c]), lin_sup=True)
        before = [np.array(x) for x in dup.triple]
        S = dup.simplify()
        want = 0.5 * R + 2 * tensor(A[:1], b[:1], c[:1], True, R.shape)
        cmp(ctx, S, want, "simplify repeated terms")
        ctx.eq(S.batch_size, ls if n + len(der) else 1, "simplify keeps one term of each kind")
        cmp(ctx, S.simplify(), want, "simplify twice")
        for x, y in zip(dup.triple, before):
            ctx.close(x, y, "simplify leaves its operand alone", atol=0, rtol=0)
    for x, y in zip(F.triple, keep):
        ctx.close(x, y, "operand unchanged", atol=0, rtol=0)
    ctx.see_arr(R.ravel()[:50])
    ctx.traces += 1


# ---- contraction ----------------------------------------------------------------------------------------


def pairings(n1, n2):
    """(core1, core2) labels: every ordered injective pairing"""
    for m in range(min(n1, n2) + 1):
        for s1 in itertools.combinations(range(n1), m):
            for s2 in itertools.permutations(range(n2), m):
                core1 = list(range(n1))
                core2 = [10 + i for i in range(n2)]
                for i, j in zip(s1, s2):
                    core2[j] = core1[i]
                yield core1, core2


def einsum_ref(T1, l1, T2, l2, lo):
    """labels -> numpy einsum; shared axes cut to the shorter one"""
    ids = {x: i for i, x in enumerate(dict.fromkeys([*l1, *l2]))}
    size = {}
    for T, l in ((T1, l1), (T2, l2)):
        for s, x in zip(T.shape, l):
            size[x] = min(s, size.get(x, s))
    T1 = T1[tuple(slice(0, size[x]) for x in l1)]
    T2 = T2[tuple(slice(0, size[x]) for x in l2)]
    return np.einsum(T1, [ids[x] for x in l1], T2, [ids[x] for x in l2], [ids[x] for x in lo])


def r_core(case, ctx):
    n1, n2 = case["n"]
    d1, d2 = tup(case["der"])
    F, G = ansatz(n1, d1, (), 0, 1), ansatz(n2, d2, (), 0, 2)
    N = NREF if max(n1, n2) < 3 else 10
    T1, T2 = rtensor(n1, d1, (), 0, 1, N), rtensor(n2, d2, (), 0, 2, N)
    for core1, core2 in pairings(n1, n2):
        left = [x for x in core1 if x not in core2] + [x for x in core2 if x not in core1]
        perms = list(itertools.permutations(left))
        if len(perms) > 24:
            perms = perms[:: len(perms) // (6 if case["tier"] == "quick" else 24)]
        # labels are only names: relabelling must not matter
        for p in perms:
            ctx.transitions += 1
            cut1 = T1[tuple(slice(0, 4) if x in left else slice(None) for x in core1)]
            cut2 = T2[tuple(slice(0, 4) if x in left else slice(None) for x in core2)]
            want = einsum_ref(cut1, core1, cut2, core2, p)
            for ren in (lambda x: x, lambda x: (7 * x + 3) % 29):
                r = F.contract(G, [ren(x) for x in core1], [ren(x) for x in core2], [ren(x) for x in p])
                cmp(ctx, r, want, f"contract {core1} {core2} -> {list(p)}" + (" (renamed)" if ren(0) else ""), atol=3e-6)
                if len(left) > 3:
                    break
        ctx.see_arr(einsum_ref(T1[(slice(0, 4),) * 0], core1, T2, core2, left)[(slice(0, 2),) * len(left)])
    # refused requests
    good1, good2 = list(range(n1)), [10 + i for i in range(n2)]
    ctx.raises(ValueError, lambda: F.contract(G, [*good1, 5], good2, [*good1, 5, *good2]), "too many labels")
    if n1 and n2:
        ctx.raises(ValueError, lambda: F.contract(G, good1, [0, *good2[1:]], [0, *good1[1:], *good2[1:]]), "contracted label in the output")
        ctx.raises(ValueError, lambda: F.contract(G, good1, good2, good1), "missing output label")
    ctx.traces += 1


def labelings(b1, b2):
    L1 = ["a", "b"][: len(b1)]
    for pick in itertools.product([*L1, None], repeat=len(b2)):
        used = [x for x in pick if x]
        if len(set(used)) != len(used):
            continue
        if any(x and b1[L1.index(x)] != b2[i] for i, x in enumerate(pick)):
            continue
        yield L1, [x or "xy"[i] for i, x in enumerate(pick)]


def r_batch(case, ctx):
    b1, b2 = tup(case["b"])
    l1, l2 = case["ls"]
    d1, d2 = tup(case["der"])
    F, G = ansatz(2, d1, b1, l1, 1), ansatz(2, d2, b2, l2, 2)
    T1, T2 = rtensor(2, d1, b1, l1, 1, NREF), rtensor(2, d2, b2, l2, 2, NREF)
    k = 0
    for L1, L2 in labelings(b1, b2):
        labels = list(dict.fromkeys(L1 + L2))
        perms = list(itertools.permutations(labels))
        if len(perms) > 6 and case["tier"] == "quick":
            perms = perms[:: len(perms) // 6]
        for p in perms:
            for core1, core2, co in (([0, 1], [1, 2], [2, 0]), ([0, 1], [1, 0], []), ([0, 1], [2, 3], [0, 3, 1, 2]), ([0, 1], [0, 1], [])):
                k += 1
                if case["tier"] == "quick" and k % 2:
                    continue
                ctx.transitions += 1
                want = einsum_ref(T1[(...,) + tuple(slice(0, 4) if x in co else slice(None) for x in core1)], [*L1, *core1],
                                  T2[(...,) + tuple(slice(0, 4) if x in co else slice(None) for x in core2)], [*L2, *core2], [*p, *co])
                r = F.contract(G, [*L1, *core1], [*L2, *core2], [*p, *co])
                cmp(ctx, r, want, f"contract {L1}{core1} {L2}{core2} -> {list(p)}{co}")
    if labels:
        ctx.raises(ValueError, lambda: F.contract(G, [*L1, 0, 1], [*L2, 2, 3], [*labels[1:], 0, 1, 2, 3]), "dropping a batch label")
    if b1 and b2 and b1[0] != b2[0]:
        L1, L2 = ["a", "b"][: len(b1)], ["a", "y"][: len(b2)]
        ctx.raises(ValueError, lambda: F.contract(G, [*L1, 0, 1], [*L2, 2, 3], [*dict.fromkeys(L1 + L2), 0, 1, 2, 3]), "sharing a label of two sizes")
    ctx.see(case["id"])
    ctx.traces += 1


def r_binary(case, ctx):
    n, d, b, l = tup(case["c"])
    F = ansatz(n, d, b, l, 1)
    T1 = rtensor(n, d, b, l, 1, 6)
    for j, o in enumerate(case["others"]):
        n2, d2, b2, l2 = tup(o)
        G = ansatz(n2, d2, b2, l2, 2)
        T2 = rtensor(n2, d2, b2, l2, 2, 6)
        tag = f"{o}"
        ctx.transitions += 1
        want = np.multiply.outer(T1, T2)  # b, n, b2, n2
        nb, nb2 = len(b), len(b2)
        want = np.transpose(want, [*range(nb), *range(nb + n, nb + n + nb2), *range(nb, nb + n), *range(nb + n + nb2, want.ndim)])
        if len(b) + len(b2) < 4 or case["tier"] == "thorough" or j % 3 == 0:
            cmp(ctx, F & G, want, f"{tag} tensor product")
        if n != n2:
            ctx.raises(ValueError, lambda: F + G, f"{tag} sum with another number of variables refused")
            continue
        if b or b2:
            ctx.raises(ValueError, lambda: F + G, f"{tag} sum of batched ansatz refused")
            continue
        cmp(ctx, F + G, T1 + T2, f"{tag} sum")
        cmp(ctx, F - G, T1 - T2, f"{tag} difference")
        cmp(ctx, (F + G) + F, 2 * T1 + T2, f"{tag} sum of three")
        cmp(ctx, ((F + G) + F).simplify(), 2 * T1 + T2, f"{tag} simplified sum of three")
        z = [0.2 - 0.1j, 0.15j][:n]
        ctx.close((F + G)(*z), np.asarray(F(*z)) + np.asarray(G(*z)), f"{tag} value of the sum", atol=1e-9)
    ctx.see(case["id"])
    ctx.traces += 1


# ---- equality -------------------------------------------------------------------------------------------


def stored_equal(f, g):
    if f.num_vars != g.num_vars or f.shape_derived_vars != g.shape_derived_vars:
        return False
    try:
        return all(np.allclose(np.asarray(x), np.asarray(y), atol=1e-8) for x, y in zip(f.triple, g.triple))
    except ValueError:
        return False


def r_equality(case, ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    A, b, c = triple(2, (), (2, 3), 0, 1)
    sh = lambda X, s, k: X.reshape(tuple(s) + X.shape[2:])  # noqa: E731
    V = {}

    def add(name, A, b, c, ls):
        V[name] = PolyExpAnsatz(A, b, c, lin_sup=ls)

    def T(x):
        n = x.num_CV_vars
        return x.batch_shape[:-1] if x._lin_sup else x.batch_shape, tensor(x.A, x.b, x.c, x._lin_sup, (4,) * n)

    add("full", A, b, c, False)
    add("same", A.copy(), b.copy(), c.copy(), False)
    add("noise", A * (1 + 1e-13), b - 1e-13, c + 1e-13, False)
    add("rows swapped", A[::-1], b[::-1], c[::-1], False)
    add("cols swapped", A[:, ::-1], b[:, ::-1], c[:, ::-1], False)
    add("flat", sh(A, (6,), 2), sh(b, (6,), 1), sh(c, (6,), 0), False)
    add("transposed", A.transpose(1, 0, 2, 3), b.transpose(1, 0, 2), c.T, False)
    add("reshaped", sh(A, (3, 2), 2), sh(b, (3, 2), 1), sh(c, (3, 2), 0), False)
    add("flat sup", sh(A, (6,), 2), sh(b, (6,), 1), sh(c, (6,), 0), True)
    add("flat sup rev", sh(A, (6,), 2)[::-1], sh(b, (6,), 1)[::-1], sh(c, (6,), 0)[::-1], True)
    add("batch sup", A, b, c, True)
    add("batch sup rev", A[:, ::-1], b[:, ::-1], c[:, ::-1], True)
    add("batch sup rowswap", A[::-1], b[::-1], c[::-1], True)
    add("one", A[0, 0], b[0, 0], c[0, 0], False)
    add("one in batch 1", A[:1, 0], b[:1, 0], c[:1, 0], False)
    add("one as sup 1", A[:1, 0], b[:1, 0], c[:1, 0], True)
    add("repeated", np.stack([A[0, 0]] * 2), np.stack([b[0, 0]] * 2), np.stack([c[0, 0]] * 2), False)
    add("repeated sup", np.stack([A[0, 0]] * 2), np.stack([b[0, 0]] * 2), np.stack([c[0, 0]] * 2), True)
    add("c differs", A, b, c * (1 + 1e-3), False)
    add("b differs", A, b + 1e-3, c, False)
    add("A differs", A * 1.001, b, c, False)
    add("one c differs", A, b, np.where(np.arange(6).reshape(2, 3) == 4, c + 0.01, c), False)
    A3, b3, c3 = triple(1, (2,), (), 0, 1)
    add("derived", A3, b3, c3, False)
    add("derived as batchlike", A3, b3, c3[0], False)
    add("scalar var", *triple(1, (), (), 0, 1), False)
    A4, b4, c4 = triple(2, (), (), 2, 1)
    near = [A4 + 0, b4 + 0, c4 + 0]
    near[0][1], near[1][1] = near[0][0], near[1][0]  # terms that differ only in c, by more than the tolerance but little
    near[2][1] = near[2][0] + 1e-3
    add("near", *near, True)
    wob = [near[0] + 0, near[1] + 0, near[2] + 0]
    wob[1][0] += 1e-14
    wob[1][1] -= 1e-14
    add("near wobble", wob[0][::-1], wob[1][::-1], wob[2][::-1], True)
    for (x, f), (y, g) in itertools.product(V.items(), repeat=2):
        ctx.transitions += 1
        (sx, tx), (sy, ty) = T(f), T(g)
        want = sx == sy and tx.shape == ty.shape and np.allclose(tx, ty, atol=1e-8, rtol=1e-7)
        stored = f._lin_sup != g._lin_sup and stored_equal(f, g)
        if case.get("known") == "sup":
            if stored and not want and (x, y) in (("flat", "flat sup"), ("full", "batch sup"), ("repeated", "repeated sup")):
                ctx.eq(bool(f == g), False, f"batch and superposition with the same stored terms: {x} == {y}")
            continue
        if case.get("known") == "rank" or (stored and not want):
            continue
        try:
            got = f == g
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{x} == {y} raised", f"{type(e).__name__}: {e}"[:200])
            continue
        if want and (f._lin_sup != g._lin_sup or (f._lin_sup and f.batch_shape != g.batch_shape)):
            ctx.ncmp += 1  # the same function with a different number of stored terms: either answer
            continue
        if not want and got and sx != sy and tx.ndim - len(sx) == ty.ndim - len(sy) and not (f._lin_sup or g._lin_sup):
            try:  # a batch may equal a single ansatz that each of its entries equals
                if np.allclose(tx, ty, atol=1e-8, rtol=1e-7):
                    ctx.ncmp += 1
                    continue
            except ValueError:
                pass
        ctx.eq(bool(got), want, f"{x} == {y}")
        ctx.eq(bool(f != g), not bool(got), f"{x} != {y}")
        ctx.see(x, y, bool(got))
    ctx.eq(V["one"] == 3, False, "ansatz == number")
    ctx.eq(V["one"] == ArrayAnsatz(np.ones((2, 2))), False, "PolyExp == Array")
    # arrays
    a = val(12, 1).reshape(2, 6)
    W = {"22": ArrayAnsatz(a), "b2": ArrayAnsatz(a, 1), "bb": ArrayAnsatz(a, 2), "23": ArrayAnsatz(a.reshape(2, 2, 3)), "23b": ArrayAnsatz(a.reshape(2, 2, 3), 1), "v": ArrayAnsatz(a.ravel()),
         "T": ArrayAnsatz(a.T), "dif": ArrayAnsatz(a + 0.01), "noise": ArrayAnsatz(a + 1e-13), "swap": ArrayAnsatz(a[::-1], 1), "s": ArrayAnsatz(a[0, 0])}
    for (x, f), (y, g) in itertools.product(W.items(), repeat=2):
        ctx.transitions += 1
        if f.batch_shape == g.batch_shape and f.core_dims == g.core_dims and f.core_shape != g.core_shape:
            continue  # arrays of different cutoffs are compared on the common corner
        rank = f.batch_shape == g.batch_shape and f.core_dims != g.core_dims
        if rank != (case.get("known") == "rank") or case.get("known") == "sup":
            continue
        want = f.batch_shape == g.batch_shape and f.core_shape == g.core_shape and np.allclose(f.array, g.array, atol=1e-8)
        try:
            ctx.eq(bool(f == g), want, f"array {x} == {y}")
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"array {x} == {y} raised", f"{type(e).__name__}: {e}"[:200])
    ctx.traces += 1


# ---- phase-space variables ------------------------------------------------------------------------------


def r_ps(case, ctx):
    from mrmustard import settings

    for h in (1.0, 2.0):
        with settings(HBAR=h):
            for n in (2, 4):
                for batch in BATCH:
                    for ls in (0, 1, 2):
                        for der in ((), (3, 3), (2, 2), (2, 3), (3, 2)) if n == 2 else ((),):
                            ctx.transitions += 1
                            lab = f"h={h} n={n} batch={batch} ls={ls} der={der}"
                            tr = triple(n, der, batch, ls, 4)
                            F = ansatz(n, der, batch, ls, 4)
                            try:
                                P = F.PS
                            except Exception as e:  # noqa: BLE001
                                ctx.fail(f"{lab} raised", f"{type(e).__name__}: {e}"[:200])
                                continue
                            k = n // 2
                            x = np.array([0.3, -0.2, 0.15, 0.25])[: 2 * k]
                            q, p = x[:k], x[k:]
                            z = np.concatenate([(q + 1j * p), (q - 1j * p)]) / np.sqrt(2 * h)
                            want = evalref(*tr, ls, list(z)) / (2 * h) ** k
                            ctx.close(P(*x), want, f"{lab} value in phase space", atol=1e-8)
                            ctx.see(lab)
            ctx.raises(ValueError, lambda: ansatz(3, (), (), 0, 4).PS, "odd number of variables refused")
    ctx.traces += 1


def r_joinreal(case, ctx):
    from mrmustard.physics.gaussian_integrals import join_Abc_real, real_gaussian_integral

    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        t1 = [np.asarray(x) for x in triple(n1, (), (), 0, 1)]
        t2 = [np.asarray(x) for x in triple(n2, (), (), 0, 2)]
        for m in range(1, min(n1, n2) + 1):
            for i1 in itertools.permutations(range(n1), m):
                for i2 in itertools.permutations(range(n2), m):
                    ctx.transitions += 1
                    A, b, c = map(np.asarray, join_Abc_real(t1, t2, i1, i2))
                    # the result's variables: fused ones (order of idx1), rest of 1, rest of 2
                    x = [0.2 + 0.1j, -0.15, 0.3j][:m]
                    r1 = [0.11 - 0.2j, 0.23][: n1 - m]
                    r2 = [0.17, 0.09 + 0.3j][: n2 - m]
                    z1, z2 = np.zeros(n1, complex), np.zeros(n2, complex)
                    z1[list(i1)], z2[list(i2)] = x, x
                    z1[[i for i in range(n1) if i not in i1]] = r1
                    z2[[i for i in range(n2) if i not in i2]] = r2
                    want = ref.poly_exp_eval(*t1, z1) * ref.poly_exp_eval(*t2, z2)
                    ctx.eq(A.shape, (n1 + n2 - m,) * 2, f"join {n1}{n2} {i1} {i2} size")
                    ctx.close(ref.poly_exp_eval(A, b, c, np.array([*x, *r1, *r2])), want, f"join {n1}{n2} {i1} {i2}", atol=1e-9)
                    ctx.see(i1, i2)
    # real integrals: exact formula on a real positive form, every subset and order
    for n in (1, 2, 3):
        A0, b0, _ = triple(n, (), (), 0, 5)
        A0, b0 = A0.real - np.eye(n) * 1.5, b0.real
        for m in range(n + 1):
            for idx in itertools.permutations(range(n), m):
                A, b, c = real_gaussian_integral((A0, b0, 0.7), idx)
                rest = [i for i in range(n) if i not in idx]
                y = np.array([0.3, -0.4, 0.2][: len(rest)])
                M = A0[np.ix_(idx, idx)]
                v = b0[list(idx)] + A0[np.ix_(idx, rest)] @ y
                want = 0.7 * np.exp(0.5 * y @ A0[np.ix_(rest, rest)] @ y + b0[rest] @ y)
                if m:
                    want *= np.sqrt((2 * np.pi) ** m / np.linalg.det(-M)) * np.exp(-0.5 * v @ np.linalg.solve(M, v))
                A, b = np.reshape(np.asarray(A), (len(rest),) * 2), np.reshape(np.asarray(b), (len(rest),))
                ctx.close(ref.poly_exp_eval(A, b, np.asarray(c), y), want, f"real integral {n} {idx}", atol=1e-9)
                ctx.transitions += 1
    ctx.traces += 1


def r_branch(case, ctx):
    """convergent complex Gaussian integrals over m pairs: the square root of the determinant is the product of the principal roots of the
    factors, for every combination of the phases of the 2m factors"""
    from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_1

    m, k = case["m"], case["k"]
    th = np.deg2rad(np.array(list(itertools.product(case["angles"], repeat=2 * m))))
    lam = np.exp(1j * th) * (0.6 + 0.15 * np.arange(2 * m))
    O = np.linalg.qr(np.real(val(4 * m * m, k, 1.0)).reshape(2 * m, 2 * m))[0] if k else np.eye(2 * m)
    I = np.eye(m)
    W = np.block([[I, 1j * I], [I, -1j * I]]) / np.sqrt(2)
    M = -np.einsum("ij,jk,bk,lk,ml->bim", W.conj(), O, lam, O, W.conj())
    X = np.block([[0 * I, I], [I, 0 * I]])
    B = len(th)
    n = 2 * m + 1
    # the remaining variable stands between the z and the z*
    pos = list(range(m)) + list(range(m + 1, n))
    A = np.zeros((B, n, n), complex)
    A[np.ix_(range(B), pos, pos)] = M + X
    g = val(2 * m, k + 3, 0.2)
    A[:, pos, m] = g
    A[:, m, pos] = g
    A[:, m, m] = 0.1j
    b = np.broadcast_to(val(n, k + 5, 0.3), (B, n))
    c = np.full(B, 0.7 - 0.2j)
    y = 0.3 - 0.1j
    v = b[0][pos] + g * y
    want = c * np.prod(1 / np.sqrt(lam), axis=1) * np.exp(-0.5 * np.einsum("i,bij,j->b", v, np.linalg.inv(M), v) + 0.05j * y * y + b[0][m] * y)
    zi, zc = tuple(range(m)), tuple(range(m + 1, n))
    for tag, i1, i2 in (("", zi, zc), (" reversed", zi[::-1], zc[::-1]), (" swapped", zc, zi)):
        got = [np.asarray(t) for t in complex_gaussian_integral_1((A, b, np.log(c)), i1, i2)]
        ctx.close(got[2] * np.exp(0.5 * got[0][:, 0, 0] * y * y + got[1][:, 0] * y), want, f"integral over {m} pairs{tag}: every combination of phases", rtol=1e-8, atol=1e-12)
        ctx.transitions += B
    # the same entries one at a time, one pair at a time
    for q in range(0, B, max(1, B // 60)):
        t = (A[q], b[q], np.log(c[q]))
        one = [np.asarray(x) for x in complex_gaussian_integral_1(t, zi, zc)]
        ctx.close(one[2] * np.exp(0.5 * one[0][0, 0] * y * y + one[1][0] * y), want[q], f"integral over {m} pairs, entry {q}", rtol=1e-8, atol=1e-12)
        for _ in range(m):
            h = (np.asarray(t[1]).shape[-1] - 1) // 2
            a_, b_, c_ = complex_gaussian_integral_1(t, (0,), (h + 1,))
            t = (a_, b_, np.log(np.asarray(c_)))
        a_, b_, c_ = (np.asarray(x) for x in (t[0], t[1], np.exp(t[2])))
        ctx.close(c_ * np.exp(0.5 * a_[0, 0] * y * y + b_[0] * y), want[q], f"pair by pair, entry {q}", rtol=1e-8, atol=1e-12)
        ctx.transitions += 1
    ctx.see(m, k)
    ctx.traces += 1


# ---- arrays ---------------------------------------------------------------------------------------------


def arr(shape, k):
    return val(int(np.prod(shape, initial=1)), k).reshape(shape)


def r_arr(case, ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz

    n1, n2 = case["n"]
    s1, s2 = (2, 3, 4)[:n1], (3, 2, 5)[:n2]
    for nb1, nb2 in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2)):
        B1, B2 = (2, 3)[:nb1], {0: (), 1: (2,), 2: (3, 2)}[nb2]
        X, Y = arr(B1 + s1, 1), arr(B2 + s2, 2)
        F, G = ArrayAnsatz(X, nb1), ArrayAnsatz(Y, nb2)
        for core1, core2 in pairings(n1, n2):
            left = [x for x in core1 if x not in core2] + [x for x in core2 if x not in core1]
            shared = [x for x in core1 if x in core2]
            for L1, L2 in labelings(B1, B2):
                labels = list(dict.fromkeys(L1 + L2))
                outs = [(labels, left)] if nb1 + nb2 > 1 else [(labels, p) for p in itertools.permutations(left)]
                if len(labels) > 1:
                    outs += [(labels[::-1], left[::-1]), (labels[1:], left)]
                if shared:
                    outs += [(labels, left + shared), (labels, shared[:1] + left)]
                if left:
                    outs.append((labels, left[1:]))
                for bo, co in outs:
                    ctx.transitions += 1
                    l1, l2, lo = [*L1, *core1], [*L2, *core2], [*bo, *co]
                    r = F.contract(G, l1, l2, lo)
                    ctx.close(r.array, einsum_ref(X, l1, Y, l2, lo), f"{l1} {l2} -> {lo}")
                    ctx.eq(r.batch_dims, len(bo), f"{l1} {l2} -> {lo}: batch dims")
        ctx.raises(ValueError, lambda: F.contract(G, [*"abcdefg"], [*"tuvwxyz"], ["a"]), "wrong number of labels")
    ctx.see(case["id"])
    ctx.traces += 1


def r_arru(case, ctx):
    import warnings

    from mrmustard.physics.ansatz import ArrayAnsatz

    warnings.simplefilter("ignore")
    n = case["n"]
    core = (2, 3, 2, 4)[:n]
    for batch in BATCH:
        nb = len(batch)
        X = arr(batch + core, 3)
        F = ArrayAnsatz(X, nb)
        lazy = ArrayAnsatz.from_function(lambda s: X * s, batch_dims=nb, s=1.0)
        for f in (F, lazy):
            ctx.eq((f.batch_shape, f.core_shape, f.num_vars, f.core_dims, f.batch_dims), (batch, core, n, n, nb), f"{batch} sizes")
        ctx.close(lazy.array, X, f"{batch} lazy")
        ctx.close(F.conj.array, X.conj(), f"{batch} conj")
        ctx.close((-F).array, -X, f"{batch} neg")
        ctx.close((F * (2 - 1j)).array, X * (2 - 1j), f"{batch} times")
        ctx.close(((2 - 1j) * F).array, X * (2 - 1j), f"{batch} times left")
        ctx.close((F / (2 - 1j)).array, X / (2 - 1j), f"{batch} divided")
        ctx.close(F.scalar, X[(...,) + (0,) * n], f"{batch} scalar")
        for g in (F.conj, -F, F * 2, F / 2):
            ctx.eq(g.batch_dims, nb, f"{batch} batch dims kept")
        for p in itertools.permutations(range(n)):
            ctx.transitions += 1
            ctx.close(F.reorder(p).array, np.transpose(X, [*range(nb), *[nb + i for i in p]]), f"{batch} reorder {p}")
        for p in itertools.permutations(range(nb)):
            r = F.reorder_batch(p)
            ctx.close(r.array, np.transpose(X, [*p, *range(nb, nb + n)]), f"{batch} reorder_batch {p}")
            ctx.eq(r.batch_shape, tuple(batch[i] for i in p), f"{batch} reorder_batch {p}: shape")
        for m in range(n // 2 + 1):
            for idx in itertools.permutations(range(n), 2 * m):
                iz, ic = idx[:m], idx[m:]
                rest = [i for i in range(n) if i not in idx]
                t = np.transpose(X, [*range(nb), *[nb + i for i in (*rest, *iz, *ic)]])
                for j in range(m):
                    ax = nb + len(rest)
                    t = np.trace(t, axis1=ax, axis2=ax + m - j)
                ctx.transitions += 1
                if m:
                    r = F.trace(iz, ic)
                    ctx.close(r.array, t, f"{batch} trace {iz} {ic}")
                    ctx.eq(r.batch_shape, batch, f"{batch} trace {iz} {ic}: batch")
        if n >= 2:
            ctx.raises(ValueError, lambda: F.trace((0,), (0,)), f"{batch} trace of one index with itself refused")
        for shape in itertools.product((1, 2, 3, 5), repeat=n):
            ctx.transitions += 1
            r = F.reduce(shape)
            w = np.zeros(batch + shape, complex)
            sl = (slice(None),) * nb + tuple(slice(0, min(a, b)) for a, b in zip(shape, core))
            w[sl] = X[sl]
            ctx.close(r.array, w, f"{batch} reduce {shape}")
            ctx.eq(r.batch_shape, batch, f"{batch} reduce {shape}: batch")
        ctx.raises(ValueError, lambda: F.reduce((2,) * (n + 1)), f"{batch} reduce to another rank refused")
        ctx.see_arr(X)
    ctx.traces += 1


def r_arrbin(case, ctx):
    import warnings

    from mrmustard.physics.ansatz import ArrayAnsatz

    warnings.simplefilter("ignore")
    shapes = [(), (2,), (3,), (2, 3), (3, 2), (1, 4)]
    for b1, b2 in itertools.product(BATCH + [(3, 2)], repeat=2):
        for s1, s2 in itertools.product(shapes, repeat=2):
            X, Y = arr(b1 + s1, 1), arr(b2 + s2, 2)
            F, G = ArrayAnsatz(X, len(b1)), ArrayAnsatz(Y, len(b2))
            tag = f"{b1}{s1} {b2}{s2}"
            ctx.transitions += 1
            if b1 == b2:
                want = np.einsum("ab,ac->abc", X.reshape(int(np.prod(b1, initial=1)), -1), Y.reshape(int(np.prod(b1, initial=1)), -1)).reshape(b1 + s1 + s2)
                r = F & G
                ctx.close(r.array, want, f"{tag} tensor product")
                ctx.eq((r.batch_shape, r.core_shape), (b1, s1 + s2), f"{tag} tensor product: shapes")
            else:
                ctx.raises(ValueError, lambda: F & G, f"{tag} tensor product of different batches refused")
            if len(b1) != len(b2):
                ctx.raises(ValueError, lambda: F + G, f"{tag} sum of different batch ranks refused")
            elif b1 == b2 and len(s1) == len(s2):
                # the sum of arrays with different cutoffs is the sum of the zero-padded arrays
                S = tuple(map(max, zip(s1, s2)))
                w = np.zeros(b1 + S, complex)
                w[(slice(None),) * len(b1) + tuple(slice(0, s) for s in s1)] += X
                w[(slice(None),) * len(b1) + tuple(slice(0, s) for s in s2)] += Y
                for r, ww, op in ((F + G, w, "sum"),):
                    a = np.zeros(b1 + S, complex)
                    ra = np.asarray(r.array)
                    sl = (slice(None),) * len(b1) + tuple(slice(0, min(u, v)) for u, v in zip(ra.shape[len(b1):], S))
                    a[sl] = ra[sl]
                    if tuple(map(min, zip(s1, s2))) in (s1, s2):
                        ctx.close(a, ww, f"{tag} {op}")
                    else:
                        cm = (slice(None),) * len(b1) + tuple(slice(0, min(u, v)) for u, v in zip(s1, s2))
                        ctx.close(a[cm], ww[cm], f"{tag} {op} on the common corner")
                ctx.eq((F + G).batch_shape, b1, f"{tag} sum: batch")
            ctx.see(tag)
    ctx.traces += 1
