"""C20: mm_einsum.  Reference: one dense einsum over number-basis tensors.  All contraction sequences in all three path
notations, all operand kinds, all assignments of Fock dimensions, all output orders and batch labellings of a family of networks."""

import itertools
import warnings

import numpy as np

from checks.C07 import arr, triple, val  # noqa: F401
from checks.C07 import tensor as ptensor

LEVEL = "model_checking"
RULE = ("networks: pair, vector-matrix, beamsplitter, chain, triangle, star, disconnected, 3-way shared index, kept shared index; every operand kind in {Gaussian, Gaussian with derived variables, superposition, array (two sizes)} per position; "
        "every contraction sequence in SSA, LA and UA notation (both pair orders); every assignment of {0,K} to the Hilbert indices; every output order; batch labels {none,x,y,xy} per operand with every output order")
ASSUMPTIONS = ["a request mixing Fock and Bargmann indices, or keeping a contracted index in Bargmann form, may be refused with ValueError but never answered differently"]
CASE_LIMIT = 300
BUDGET = 300
ROTATE = True

NETS = {"pair": ([[0], [0]], []), "vm": ([[0], [1, 0]], [1]), "bs": ([[0], [1], [2, 3, 0, 1]], [2, 3]), "chain": ([[0], [1, 0], [2, 1], [2]], []), "tri": ([[0, 1], [1, 2], [2, 0]], []),
        "star": ([[0, 1, 2], [1], [0], [2]], []), "dis": ([[0], [1]], [0, 1]), "three": ([[0], [0], [0]], []), "keep": ([[0], [0]], [0]), "keep3": ([[0, 1], [0], [1, 2]], [0, 2]),
        "swap": ([[0, 1], [1, 0]], []), "open": ([[7, 3], [3, 11], [5]], [5, 7, 11]), "double": ([[0, 1], [1, 2, 0, 3], [3, 2]], [])}
K = 4
N0 = {1: 16, 2: 14, 3: 11, 4: 9}


def cases(tier):
    out = []
    for net, (idx, _) in NETS.items():
        n = len(idx)
        pool = "GDLA" if n < 4 else "GLA"
        for kinds in itertools.product(pool, repeat=n):
            if n == 4 and tier == "quick" and kinds.count("G") < 2:
                continue
            out.append({"id": f"{net}-{''.join(kinds)}", "kind": "core", "net": net, "kinds": "".join(kinds), "tier": tier})
        for kinds in ("G" * n, "A" * n, ("GA" * n)[:n], ("LDGA" * n)[:n], ("AL" * n)[:n], ("DDG" * n)[:n]):
            out.append({"id": f"b-{net}-{kinds}-{len(out)}", "kind": "batch", "net": net, "kinds": kinds, "tier": tier})
    out.append({"id": "paths", "kind": "paths"})
    return out


def warm():
    from checks.C07 import warm as w

    w()


_cache = {}


def operand(kind, n, pos, batch=()):
    """(ansatz, tensor with batch axes first; core axes of size N0[n] or natural)"""
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    key = (kind, n, pos, batch)
    if key not in _cache:
        k = pos * 3 + n
        if kind == "A":
            a = arr(batch + (3, 2, 4, 3)[:n], k)
            _cache[key] = (lambda: ArrayAnsatz(a.copy(), len(batch))), a
        else:
            der, ls = {"G": ((), 0), "D": ((2,), 0), "L": ((), 2)}[kind]
            t = triple(n, der, batch, ls, k)
            _cache[key] = (lambda: PolyExpAnsatz(*t, lin_sup=bool(ls))), ptensor(*t, bool(ls), (N0[n],) * n)
    mk, T = _cache[key]
    return mk(), T


def sequences(n):
    """all contraction sequences in linear notation"""
    if n == 1:
        yield []
        return
    for a, b in itertools.combinations(range(n), 2):
        for rest in sequences(n - 1):
            yield [(a, b), *rest]


def linear_to(path, n):
    """(SSA, UA) forms of a linear path"""
    ids, rep, nxt = list(range(n)), [i for i in range(n)], n
    ssa, ua = [], []
    for a, b in path:
        ssa.append((ids[a], ids[b]))
        ua.append((rep[a], rep[b]))
        na, nb = ids[a], ids[b]  # noqa: F841
        r = rep[b]
        ids = [x for i, x in enumerate(ids) if i not in (a, b)] + [nxt]
        rep = [x for i, x in enumerate(rep) if i not in (a, b)] + [r]
        nxt += 1
    return ssa, ua


def want_tensor(tensors, labels, out, dims):
    size = {}
    for T, l in zip(tensors, labels):
        for s, x in zip(T.shape, l):
            size[x] = min(s, size.get(x, 10**9))
    for x, d in dims.items():
        if d:
            size[x] = min(size.get(x, d), d)
    args = []
    ids = {x: i for i, x in enumerate(size)}
    for T, l in zip(tensors, labels):
        args += [T[tuple(slice(0, size[x]) for x in l)], [ids[x] for x in l]]
    return np.einsum(*args, [ids[x] for x in out], optimize=True)


def value(res, M=3):
    """(array on corner M (zero padded), batch dims)"""
    from mrmustard.physics.ansatz import ArrayAnsatz

    if isinstance(res, ArrayAnsatz):
        a, nb = np.asarray(res.array), res.batch_dims
    else:
        n = res.num_CV_vars
        a = ptensor(res.A, res.b, res.c, res._lin_sup, (M,) * n)
        nb = a.ndim - n
    return corner(a, nb, M)


def corner(a, nb, M):
    out = np.zeros(a.shape[:nb] + (M,) * (a.ndim - nb), complex)
    sl = (slice(None),) * nb + tuple(slice(0, min(M, s)) for s in a.shape[nb:])
    out[sl] = a[sl]
    return out


def go(ctx, ops, labels, out, dims, path, ptype, want, label, may_refuse):
    from mrmustard.physics.mm_einsum import mm_einsum

    args = [x for o, l in zip(ops, labels) for x in (o, list(l))]
    ctx.transitions += 1
    try:
        r = mm_einsum(*args, output=list(out), fock_dims=dict(dims), contraction_path=list(path), path_type=ptype)
    except ValueError as e:
        if not may_refuse:
            ctx.fail(f"{label} raised", str(e)[:200])
        ctx.ncmp += 1
        return None
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"{label} raised", f"{type(e).__name__}: {str(e)[:200]}")
        return None
    nb = sum(isinstance(x, str) for x in out)
    ctx.close(value(r), corner(want, nb, 3), label, atol=1e-6, rtol=1e-6)
    return r


def run(case, ctx):
    warnings.simplefilter("ignore")
    globals()["r_" + case["kind"]](case, ctx)


def r_core(case, ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    labels, out0 = NETS[case["net"]]
    n = len(labels)
    ops, Ts = zip(*[operand(k, len(l), p) for p, (k, l) in enumerate(zip(case["kinds"], labels))])
    idx = list(dict.fromkeys(i for l in labels for i in l))
    count = {i: sum(i in l for l in labels) for i in idx}
    keepish = any(count[i] > 2 or (count[i] == 2 and i in out0) for i in idx)
    full = case["tier"] == "thorough"
    notations = full or case["kinds"] in ("G" * n, "A" * n, "GALD"[:n], "LGAG"[:n])
    seqs = list(sequences(n))
    outs = list(itertools.permutations(out0))
    for dvals in itertools.product((0, K), repeat=len(idx)):
        if len(idx) > 3 and not full and 0 < sum(map(bool, dvals)) < len(idx) and sum(map(bool, dvals)) != 2:
            continue
        dims = dict(zip(idx, dvals))
        pure = len(set(dvals)) == 1
        # an index with dimension 0 that must stay open while another is contracted in Fock form, etc.: may be refused
        refuse = (not pure) or (keepish and dvals[0] == 0)
        want = {}
        for oi, out in enumerate(outs):
            want[out] = want_tensor(Ts, labels, out, dims)
            for si, seq in enumerate(seqs):
                if n == 4 and not full and (si + oi + sum(dvals)) % 3:
                    continue
                ssa, ua = linear_to(seq, n)
                for ptype, p in (("LA", seq), ("SSA", ssa), ("UA", ua)):
                    if ptype != "LA" and not (notations and (pure or full)):
                        continue
                    r = go(ctx, ops, labels, out, dims, p, ptype, want[out], f"dims {dims} {ptype} {p} -> {list(out)}", refuse)
                    if r is not None and pure and out:
                        if dvals[0] == 0:
                            ctx.check(isinstance(r, PolyExpAnsatz), f"dims {dims}: result is in Bargmann form")
                        elif all(any(i in l and k == "A" for l, k in zip(labels, case["kinds"])) for i in out) and count[out[0]] == 2:
                            ctx.check(isinstance(r, ArrayAnsatz), f"dims {dims}: result is in Fock form")
                rev = [(b, a) for a, b in seq]
                go(ctx, ops, labels, out, dims, rev, "LA", want[out], f"dims {dims} LA reversed {rev} -> {list(out)}", refuse)
        ctx.see_arr(want[outs[0]].ravel()[:20])
    if set(case["kinds"]) == {"A"}:
        for out in outs:
            for seq in seqs:
                go(ctx, ops, labels, out, {}, seq, "LA", want_tensor(Ts, labels, out, {}), f"no dims {seq} -> {list(out)}", keepish or case["net"] in ("open", "dis"))
    for o, k, l, p in zip(ops, case["kinds"], labels, range(n)):
        f = operand(k, len(l), p)[0]
        for x, y in zip(o.triple if k != "A" else [o.array], f.triple if k != "A" else [f.array]):
            ctx.close(x, y, "operand unchanged", atol=0, rtol=0)
    ctx.traces += 1


SZ = {"x": 2, "y": 3}


def r_batch(case, ctx):
    labels, out0 = NETS[case["net"]]
    n = len(labels)
    idx = list(dict.fromkeys(i for l in labels for i in l))
    seqs = list(sequences(n))
    full = case["tier"] == "thorough"
    count = {i: sum(i in l for l in labels) for i in idx}
    keepish = any(count[i] > 2 or (count[i] == 2 and i in out0) for i in idx)
    combos = list(itertools.product(((), ("x",), ("y",), ("x", "y"), ("y", "x")), repeat=n))
    if not full and n > 2:
        combos = combos[1 :: max(1, len(combos) // 20)]
    for ci, bl in enumerate(combos):
        names = list(dict.fromkeys(x for b in bl for x in b))
        ops, Ts = zip(*[operand(k, len(l), p, tuple(SZ[x] for x in b)) for p, (k, l, b) in enumerate(zip(case["kinds"], labels, bl))])
        full_l = [[*b, *l] for b, l in zip(bl, labels)]
        for bo in itertools.permutations(names):
            out = [*bo, *out0]
            for d in (0, K):
                dims = {i: d for i in idx}
                want = want_tensor(Ts, full_l, out, dims)
                for si, seq in enumerate(seqs):
                    if not full and len(seqs) > 3 and (si + ci) % 6:
                        continue
                    go(ctx, ops, full_l, out, dims, seq, "LA", want, f"{full_l} -> {out} dims {d} {seq}", keepish and d == 0)
                    # long batch names are only names
                    ren = {"x": "hello", "y": "b"}
                    go(ctx, ops, [[ren.get(i, i) for i in l] for l in full_l], [ren.get(i, i) for i in out], dims, seq, "LA", want, f"renamed {full_l} -> {out} dims {d} {seq}", keepish and d == 0)
            ctx.see(tuple(bl), bo)
        # dropping a batch label: summed over, or refused
        if names:
            out = [*names[1:], *out0]
            for d in (0, K):
                dims = {i: d for i in idx}
                go(ctx, ops, full_l, out, dims, seqs[0], "LA", want_tensor(Ts, full_l, out, dims), f"{full_l} -> {out} (label dropped) dims {d}", True)
    ctx.traces += 1


def r_paths(case, ctx):
    """path notations; incomplete or impossible requests"""
    from mrmustard.physics.mm_einsum import mm_einsum, ua_to_linear

    for n in (2, 3, 4, 5):
        for seq in sequences(n):
            _, ua = linear_to(seq, n)
            ctx.eq(ua_to_linear(ua), [tuple(sorted(p)) for p in seq], f"union notation {ua}")
            # any member of a group may name it
            groups, alt = [{i} for i in range(n)], []
            for a, b in seq:
                alt.append((min(groups[a]), max(groups[b])))
                g = groups[a] | groups[b]
                groups = [x for i, x in enumerate(groups) if i not in (a, b)] + [g]
            ctx.eq(ua_to_linear(alt), [tuple(sorted(p)) for p in seq], f"union notation {alt}")
            ctx.transitions += 2
            ctx.see(tuple(seq))
    labels, _ = NETS["chain"]
    ops, _ = zip(*[operand("G", len(l), p) for p, l in enumerate(labels)])
    args = [x for o, l in zip(ops, labels) for x in (o, l)]
    for bad in ([], [(0, 1)], [(0, 1), (0, 1)], [(0, 3), (0, 1)]):
        ctx.raises(ValueError, lambda: mm_einsum(*args, output=[], fock_dims=dict.fromkeys(range(3), 0), contraction_path=bad), f"incomplete path {bad}")
    ctx.raises((ValueError, IndexError), lambda: mm_einsum(*args, output=[], fock_dims=dict.fromkeys(range(3), 0), contraction_path=[(0, 1), (0, 5), (0, 1)]), "operand out of range")
    ctx.raises((ValueError, KeyError), lambda: mm_einsum(*args, output=[9], fock_dims=dict.fromkeys(range(3), 0), contraction_path=[(0, 1)] * 3), "unknown output index")
    ctx.raises(ValueError, lambda: mm_einsum(*args, output=[], fock_dims={0: 0, 1: 4, 2: 4}, contraction_path=[(1, 2), (0, 1), (0, 1)]), "mixed dimensions")
    # single operand
    for k in "GDLA":
        o, T = operand(k, 3, 1, (2, 3))
        for p in itertools.permutations((0, 1, 2)):
            for b in (["x", "y"], ["y", "x"]):
                go(ctx, [o], [["x", "y", 0, 1, 2]], [*b, *p], {}, [], "LA", want_tensor([T], [["x", "y", 0, 1, 2]], [*b, *p], {}), f"one operand {k} {b} {p}", False)
        for out in (["x", 0, 1, 2], ["x", "y", 0, 1], ["x", "y", 1], [0, 1, 2], ["y", "x"]):
            go(ctx, [o], [["x", "y", 0, 1, 2]], out, {}, [], "LA", want_tensor([T], [["x", "y", 0, 1, 2]], out, {}) if k == "A" else np.zeros(()), f"one operand {k}: dropping indices -> {out}", True)
    ctx.traces += 1
