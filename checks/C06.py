"""C06: wire bookkeeping.  Reference model: plain sets of (kind, side, direction, mode, tag) tuples.

States of the model are wire layouts; transitions are compose / add / subtract / view / adjoint / dual / copy.
Every layout of the bounded space, every ordered pair and every triple of the reduced space is enumerated and each
transition is replayed on the real ``Wires`` class.
"""

import itertools

from mrmustard.physics.wires import ReprEnum, Wires

LEVEL = "model_checking"
RULE = ("all wire layouts over 2 modes (4 quantum groups, 256 layouts; for two label pairs) and over 1 mode with classical wires "
        "(64 layouts); every ordered pair composed with and without per-wire attributes; every triple of 1-mode layouts and of "
        "component-shaped 2-mode layouts for associativity; every view, view of view, and word of length<=3 over {adjoint, dual, copy}")
ASSUMPTIONS = ["reference composition: out = B.out + (A.out - B.in), in = A.in + (B.in - A.out), per side, as documented on Wires.__matmul__"]

G = ("bo", "bi", "ko", "ki", "co", "ci")
ORD = {g: i for i, g in enumerate(G)}
REPRS = [ReprEnum.BARGMANN, ReprEnum.FOCK, ReprEnum.QUADRATURE, ReprEnum.PHASESPACE]


def subsets(modes):
    return [frozenset(c) for r in range(len(modes) + 1) for c in itertools.combinations(modes, r)]


def layouts(modes, classical=False):
    s = subsets(modes)
    for q in itertools.product(s, repeat=4):
        if classical:
            for c in itertools.product(s, repeat=2):
                yield q + c
        else:
            yield q + (frozenset(), frozenset())


# -- model ------------------------------------------------------------------------------------------


def model(layout, tag, deco):
    """dict (group, mode) -> (tag, repr, cutoff)"""
    m = {}
    k = 0
    for g, s in zip(G, layout):
        for mode in sorted(s):
            q = g[0] != "c"
            rep = REPRS[(k + deco) % 4] if deco else (ReprEnum.BARGMANN if q else ReprEnum.UNSPECIFIED)
            cut = (10 * tag + k) if deco and q else None
            m[(g, mode)] = ((tag, g, mode), rep, cut)
            k += 1
    return m


def order(keys):
    return sorted(keys, key=lambda k: (ORD[k[0]], k[1]))


class Reject(Exception):
    pass


def m_union(a, b):
    if set(a) & set(b):
        raise Reject
    return {**a, **b}


def m_compose(a, b):
    link = {(o, i): None for o, i in (("bo", "bi"), ("ko", "ki"), ("co", "ci"))}
    conn = []
    ra, rb = dict(a), dict(b)
    for o, i in link:
        for g, m in list(a):
            if g == o and (i, m) in b:
                conn.append((a[(o, m)][0], b[(i, m)][0]))
                ra.pop((o, m))
                rb.pop((i, m))
    res = m_union(ra, rb)
    comb = [ra[k][0] for k in order(ra)] + [rb[k][0] for k in order(rb)]
    perm = [comb.index(res[k][0]) for k in order(res)]
    return res, conn, perm


def m_map(a, f):
    return {(f[k[0]], k[1]): v for k, v in a.items()}


ADJ = dict(bo="ko", bi="ki", ko="bo", ki="bi", co="co", ci="ci")
DUAL = dict(bo="bi", bi="bo", ko="ki", ki="ko", co="ci", ci="co")

# -- implementation side ------------------------------------------------------------------------------


def key(w):
    if hasattr(w, "is_ket"):
        return (("k" if w.is_ket else "b") + ("o" if w.is_out else "i"), w.mode)
    return ("c" + ("o" if w.is_out else "i"), w.mode)


def build(layout, mod, ids):
    W = Wires(*[set(s) for s in layout])
    for w in W.sorted_wires:
        tag, rep, cut = mod[key(w)]
        w.repr = rep
        if hasattr(w, "fock_cutoff"):
            w.fock_cutoff = cut
        ids[w.id] = tag
    # rebuilt so that set membership is consistent with the attributes
    W = Wires.from_wires(quantum=list(W._quantum_wires), classical=list(W._classical_wires))
    return W


def snap(W):
    return [(key(w), w.index, w.repr, getattr(w, "fock_cutoff", None), w.id) for w in W.sorted_wires]


def same(ctx, W, mod, ids, label, index=True):
    want = order(mod)
    got = [key(w) for w in W.sorted_wires]
    if not ctx.eq(got, want, label + ": wires in standard order"):
        return False
    if ids is not None:
        ctx.eq([ids.get(w.id) for w in W.sorted_wires], [mod[k][0] for k in want], label + ": identity of wires")
    ctx.eq([w.repr for w in W.sorted_wires], [mod[k][1] for k in want], label + ": repr")
    ctx.eq([getattr(w, "fock_cutoff", None) for w in W.sorted_wires], [mod[k][2] for k in want], label + ": cutoff")
    if index:
        ctx.eq(list(W.indices), list(range(len(want))), label + ": indices")
    ctx.eq(W.modes, {k[1] for k in want}, label + ": modes")
    ctx.eq(len(W), len(want), label + ": len")
    ctx.eq(bool(W), bool(want), label + ": truth")
    byg = tuple({m for g, m in want if g == gg} for gg in G)
    ctx.eq(tuple(set(x) for x in W.args), byg, label + ": args")
    return True


def pair(ctx, A, ma, B, mb, ids, label):
    ctx.transitions += 1
    ctx.traces += 1
    sa, sb = snap(A), snap(B)
    try:
        want, conn, perm = m_compose(ma, mb)
    except Reject:
        want = None
    if want is None:
        ctx.raises(ValueError, lambda: A @ B, label + ": overlapping composition must be rejected")
    else:
        got = A @ B
        W, p = got
        if same(ctx, W, want, ids, label):
            ctx.eq(list(p), perm, label + ": perm")
        ctx.see(order(want))
        ia, ib = A.contracted_indices(B)
        a_s, b_s = A.sorted_wires, B.sorted_wires
        ctx.eq(len(ia), len(ib), label + ": contracted_indices length")
        gotc = {(key(a_s[i]), key(b_s[j])) for i, j in zip(ia, ib)}
        wantc = {(t1[1:], t2[1:]) for t1, t2 in conn if t1[1][0] != "c"}
        # connection as current keys, not build keys
        cur_a = {v[0]: k for k, v in ma.items()}
        cur_b = {v[0]: k for k, v in mb.items()}
        wantc = {(cur_a[t1], cur_b[t2]) for t1, t2 in conn if cur_a[t1][0] != "co"}
        ctx.eq(gotc, wantc, label + ": contracted_indices")
        if not any(k[0][0] == "c" for k in list(ma) + list(mb)):
            la, lb, lo = A.contracted_labels(B)
            okl = len(la) == len(a_s) and len(lb) == len(b_s) and len(set(la)) == len(la) and len(set(lb)) == len(lb)
            ctx.check(okl, label + ": contracted_labels shape", (la, lb))
            if okl:
                shared = {(key(a_s[la.index(x)]), key(b_s[lb.index(x)])) for x in set(la) & set(lb)}
                ctx.eq(shared, wantc, label + ": contracted_labels shared")
                src = {x: ma[key(a_s[i])][0] for i, x in enumerate(la) if x not in lb}
                src.update({x: mb[key(b_s[i])][0] for i, x in enumerate(lb) if x not in la})
                ctx.eq([src.get(x) for x in lo], [want[k][0] for k in order(want)], label + ": contracted_labels out")
    ob, ok = A.overlap(B)
    ctx.eq((set(ob), set(ok)), ({m for g, m in ma if g == "bo" and ("bi", m) in mb}, {m for g, m in ma if g == "ko" and ("ki", m) in mb}), label + ": overlap")
    # plain union
    try:
        mu = m_union(ma, mb)
    except Reject:
        ctx.raises(ValueError, lambda: A + B, label + ": overlapping union must be rejected")
    else:
        S = A + B
        same(ctx, S, mu, ids, label + " +", index=False)
    D = A - B
    bm = {k[1] for k in mb}
    same(ctx, D, {k: v for k, v in ma.items() if k[1] not in bm}, ids, label + " -", index=False)
    ctx.eq(snap(A), sa, label + ": left operand unchanged")
    ctx.eq(snap(B), sb, label + ": right operand unchanged")
    ctx.eq(A == B, {k for k in ma} == {k for k in mb}, label + ": equality")


VIEWS = {
    "input": lambda k: k[0][1] == "i", "output": lambda k: k[0][1] == "o", "ket": lambda k: k[0][0] == "k",
    "bra": lambda k: k[0][0] == "b", "classical": lambda k: k[0][0] == "c", "quantum": lambda k: k[0][0] != "c",
}


def views(ctx, A, ma, ids, modes):
    s0 = snap(A)
    for v1, f1 in VIEWS.items():
        m1 = {k: v for k, v in ma.items() if f1(k)}
        V1 = getattr(A, v1)
        ctx.transitions += 1
        same(ctx, V1, m1, ids, f"view {v1}", index=False)
        # views keep the index of the parent
        ctx.eq(list(V1.indices), [i for i, k in enumerate(order(ma)) if k in m1], f"view {v1}: parent indices")
        for v2, f2 in VIEWS.items():
            m2 = {k: v for k, v in m1.items() if f2(k)}
            same(ctx, getattr(V1, v2), m2, ids, f"view {v1}.{v2}", index=False)
        for s in subsets(modes):
            same(ctx, V1[tuple(s)], {k: v for k, v in m1.items() if k[1] in s}, ids, f"view {v1}[{sorted(s)}]", index=False)
    for m in modes:
        same(ctx, A[m], {k: v for k, v in ma.items() if k[1] == m}, ids, f"[{m}]", index=False)
    ctx.eq(snap(A), s0, "views leave the layout unchanged")


def words(ctx, A, ma, ids, depth=3):
    s0 = snap(A)
    allids = {w.id for w in A.sorted_wires}
    for n in range(1, depth + 1):
        for word in itertools.product(("adjoint", "dual", "copy"), repeat=n):
            W, m = A, ma
            for op in word:
                ctx.transitions += 1
                if op == "copy":
                    W = W.copy()
                else:
                    W = getattr(W, op)
                    m = m_map(m, ADJ if op == "adjoint" else DUAL)
            same(ctx, W, m, None, ".".join(word))
            if any(o != "copy" for o in word):
                ctx.check(not ({w.id for w in W.sorted_wires} & allids), ".".join(word) + ": fresh wires")
    # independence of copies, adjoints, duals: mutate the attributes of the derived object
    for op in ("adjoint", "dual", "copy", "copy_new"):
        W = A.copy() if op == "copy" else A.copy(new_ids=True) if op == "copy_new" else getattr(A, op)
        for w in W.sorted_wires:
            w.index += 100
            w.repr = ReprEnum.CHARACTERISTIC
        ctx.eq(snap(A), s0, f"changing a {op} does not reach back")
        A.__dict__.pop(op, None)
    c = A.copy()
    ctx.eq([w.id for w in c.sorted_wires], [w.id for w in A.sorted_wires], "copy keeps ids")


def cases(tier):
    out = []
    for modes in [(0, 1), (3, 250_000)] if tier == "quick" else [(0, 1), (3, 250_000), (9999, 5), (8, 16)]:
        L = list(layouts(tuple(sorted(modes))))
        for i in range(len(L)):
            out.append({"id": f"pair2-{modes[0]}.{modes[1]}-{i}", "kind": "pair2", "modes": sorted(modes), "i": i})
    for i in range(64):
        out.append({"id": f"pairc-{i}", "kind": "pairc", "modes": [4], "i": i})
    for i in range(16):
        out.append({"id": f"trip1-{i}", "kind": "trip1", "modes": [2], "i": i})
    n2 = len(SHAPED((0, 7)))
    for i in range(n2):
        out.append({"id": f"trip2-{i}", "kind": "trip2", "modes": [0, 7], "i": i})
    for modes in [(0, 1, 5)] if tier == "quick" else [(0, 1, 5), (2, 11, 19)]:
        for i in range(len(SHAPED(modes))):
            out.append({"id": f"pair3-{modes[2]}-{i}", "kind": "pair3", "modes": modes, "i": i})
    for i in range(16):
        out.append({"id": f"derived-{i}", "kind": "derived", "modes": [3], "i": i})
    if tier == "thorough":
        for i in range(64):
            out.append({"id": f"tripc-{i}", "kind": "tripc", "modes": [4], "i": i})
    return out


def SHAPED(modes):
    """component-like layouts: ket, dm, unitary-like (out/in may differ), channel-like, povm, bra."""
    s = subsets(modes)
    e = frozenset()
    L = set()
    for o, i in itertools.product(s, repeat=2):
        L.add((e, e, o, i, e, e))
        L.add((o, i, o, i, e, e))
    for o in s:
        L.add((o, e, e, o, e, e))
        L.add((o, e, e, e, e, e))
    return sorted(L, key=lambda x: tuple(tuple(sorted(y)) for y in x))


def triple(ctx, ls, deco):
    ids = {}
    mods = [model(x, t + 1, deco) for t, x in enumerate(ls)]
    ws = [build(x, m, ids) for x, m in zip(ls, mods)]
    ctx.transitions += 4
    ctx.traces += 2

    def m2(a, b):
        try:
            return m_compose(a, b)[0]
        except Reject:
            return None

    ab, bc = m2(mods[0], mods[1]), m2(mods[1], mods[2])
    left = m2(ab, mods[2]) if ab is not None else None
    right = m2(mods[0], bc) if bc is not None else None
    if left is not None and right is not None:
        ctx.eq(order(left), order(right), "model associative")
        L = (ws[0] @ ws[1])[0] @ ws[2]
        R = ws[0] @ (ws[1] @ ws[2])[0]
        same(ctx, L[0], left, ids, "(AB)C")
        same(ctx, R[0], right, ids, "A(BC)")
        ctx.see(order(left))
    elif left is not None:
        same(ctx, ((ws[0] @ ws[1])[0] @ ws[2])[0], left, ids, "(AB)C only")
    elif right is not None:
        same(ctx, (ws[0] @ (ws[1] @ ws[2])[0])[0], right, ids, "A(BC) only")
    elif ab is not None:
        w = (ws[0] @ ws[1])[0]
        ctx.raises(ValueError, lambda: w @ ws[2], "(AB)C must be rejected")


def run(case, ctx):
    k, modes, i = case["kind"], tuple(case["modes"]), case["i"]
    if k in ("pair2", "pairc", "pair3"):
        L = list(layouts(modes, True)) if k == "pairc" else SHAPED(modes) if k == "pair3" else list(layouts(modes))
        la = L[i]
        for deco in (0, 1):
            ids = {}
            ma = model(la, 1, deco)
            A = build(la, ma, ids)
            same(ctx, A, ma, ids, f"construction deco={deco}")
            views(ctx, A, ma, ids, modes)
            words(ctx, A, ma, ids)
        step = 1
        for j, lb in enumerate(L[::step]):
            deco = (0, 2)[j % 2] if k == "pair2" and modes != (0, 1) else None
            for d in (0, 2) if deco is None else (deco,):
                ids = {}
                ma, mb = model(la, 1, d), model(lb, 2, d and d + 1)
                A, B = build(la, ma, ids), build(lb, mb, ids)
                ctx.sub = f"{[sorted(x) for x in la]}@{[sorted(x) for x in lb]} deco={d}"
                pair(ctx, A, ma, B, mb, ids, "compose")
                ctx.sub = ""
            if len(ctx.fails) > 10:
                return
    elif k in ("trip1", "trip2", "tripc"):
        L = SHAPED(modes) if k == "trip2" else list(layouts(modes, k == "tripc"))
        for lb in L:
            for lc in L:
                ctx.sub = f"{[sorted(x) for x in L[i]]},{[sorted(x) for x in lb]},{[sorted(x) for x in lc]}"
                triple(ctx, (L[i], lb, lc), 0)
                if k == "trip1":
                    triple(ctx, (L[i], lb, lc), 1)
                if len(ctx.fails) > 10:
                    return
    elif k == "derived":
        # composition of adjoints / duals / results with fresh layouts
        L = list(layouts(modes))
        for lb in L:
            for opa in ("adjoint", "dual", "copy", None):
                for opb in ("adjoint", "dual", "copy", None):
                    ids = {}
                    ma, mb = model(L[i], 1, 0), model(lb, 2, 0)
                    A, B = build(L[i], ma, ids), build(lb, mb, ids)
                    r = []
                    for W, m, op in ((A, ma, opa), (B, mb, opb)):
                        if op == "copy":
                            W2 = W.copy()
                        elif op:
                            W2 = getattr(W, op)
                            m = m_map(m, ADJ if op == "adjoint" else DUAL)
                            for w in W2.sorted_wires:
                                ids[w.id] = m[key(w)][0]
                        else:
                            W2 = W
                        r += [W2, m]
                    ctx.sub = f"{[sorted(x) for x in L[i]]}.{opa} @ {[sorted(x) for x in lb]}.{opb}"
                    pair(ctx, r[0], r[1], r[2], r[3], ids, "derived compose")
                    ctx.sub = ""
                    if len(ctx.fails) > 10:
                        return
