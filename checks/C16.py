"""C16: samplers.  The random generator is replaced by a controlled one: every call of ``choice`` is a choice point, all outcome
sequences are explored, and the distribution handed to every call is compared with the Born-rule conditional distribution computed
from the number-basis tensor (or its quadrature wavefunctions).  Seeds: all interleavings with other users of the generator."""

import itertools
import warnings

import numpy as np

from checks.C12 import state as mkstate
from mc import ref

LEVEL = "model_checking"
RULE = ("photon-number and homodyne samplers and user-defined samplers (component or list of projectors) on pure and mixed states (Gaussian, superposed, arrays, with derived variables) of 1-3 modes under two labellings: every outcome sequence above 1e-6 probability, "
        "every conditional distribution on the way; shapes of the results for several sample counts; reproducibility for seeds {0,1,2^31-1} under every placement of one foreign use of the global generator")
ASSUMPTIONS = ["the states are normalised (required by the library); outcome grids cover the distribution up to 1e-4 (the library refuses otherwise)"]
CASE_LIMIT = 400
BUDGET = 300
LAB = {"std": (0, 1, 2), "coll": (5, 13, 8)}


def cases(tier):
    out = []
    for samp in ("pnr", "hom0", "hom1", "list", "comp"):
        for fam, kind in (("ket", "G"), ("ket", "L"), ("ket", "A"), ("ket", "D"), ("dm", "G"), ("dm", "M"), ("dm", "X"), ("dm", "A"), ("dm", "E")):
            for n in (1, 2, 3):
                if n == 3 and not (fam == "ket" and kind in "GA" and samp in ("pnr", "list", "hom0")):
                    continue
                for lab in LAB:
                    if tier == "quick" and n != 2 and lab == "std":
                        continue
                    out.append({"id": f"{samp}-{fam}{kind}-{n}-{lab}", "part": "born", "samp": samp, "fam": fam, "kind": kind, "n": n, "lab": lab, "tier": tier})
    for samp in ("pnr", "hom0", "list"):
        for n in (1, 2, 3):
            out.append({"id": f"seed-{samp}-{n}", "part": "seed", "samp": samp, "n": n})
    out.append({"id": "cfg", "part": "cfg"})
    return out


def warm():
    from checks.C07 import warm as w

    w()


class Ctrl(np.random.Generator):
    """generator whose ``choice`` follows a script; records what it was asked"""

    def __init__(self):
        super().__init__(np.random.PCG64(1))
        self.calls = []
        self.script = []

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = np.asarray(p, float)
        k = len(self.calls)
        pick = self.script[k] if k < len(self.script) else [int(np.argmax(p))]
        self.calls.append((items, p, size))
        n = 1 if size is None else int(np.prod(size))
        idx = np.resize(np.asarray(pick), n)
        return items[idx] if size is not None else items[idx[0]]


def sampler(name):
    from mrmustard import lab as L

    if name == "pnr":
        return L.PNRSampler(9), "number", np.arange(9), None
    if name.startswith("hom"):
        phi = 0.0 if name == "hom0" else 0.7
        q = np.linspace(-6, 6, 49)
        return L.HomodyneSampler(phi, (-6, 6), 49), "quad", q, phi

    class My(L.Sampler):
        def __init__(self, outs, povms, arg):
            super().__init__(outs, povms)
            self._outcome_arg = arg

        def probabilities(self, state, atol=1e-4):
            return self._validate_probs(state.fock_distribution(9), atol)

    if name == "list":  # outcome k is called 10 - k
        outs = [10 - k for k in range(9)]
        return My(outs, [L.Number(0, k) for k in range(9)], None), "number", np.array(outs), None
    return My(list(range(9)), L.Number(0, 1, 9), "n"), "number", np.arange(9), None


def kernels(kind, grid, phi, N):
    """vectors <outcome|, one row per outcome, including the measure"""
    if kind == "number":
        return np.eye(N, dtype=complex)[:9] if N >= 9 else np.concatenate([np.eye(N, dtype=complex), np.zeros((9 - N, N))])
    step = grid[1] - grid[0]
    return ref.osc_all(N, grid, 1.0).T * np.exp(-1j * phi * np.arange(N)) * np.sqrt(step) if ref.osc_all(N, grid, 1.0).shape[0] == N else ref.osc_all(N, grid, 1.0) * np.exp(-1j * phi * np.arange(N)) * np.sqrt(step)


def run(case, ctx):
    warnings.simplefilter("ignore")
    globals()["r_" + case["part"]](case, ctx)


def joint(T, pure, K):
    """joint distribution over outcomes, axes in mode order"""
    n = T.ndim if pure else T.ndim // 2
    if pure:
        A = T
        for _ in range(n):
            A = np.tensordot(A, K, axes=(0, 1))
        return np.abs(A) ** 2
    R = T  # [b.., k..]
    letters = "abcdefgh"
    for i in range(n):
        pass
    ins = letters[: 2 * n]
    outs = "zyx"[:n]
    args = [ins]
    ops = [R]
    for i in range(n):
        args += [outs[i] + ins[i], outs[i] + ins[n + i]]
        ops += [K.conj(), K]
    return np.real(np.einsum(",".join(args) + "->" + outs, *ops, optimize=True))


def r_born(case, ctx):
    from mrmustard import settings

    settings.AUTOSHAPE_PROBABILITY = 1 - 1e-9
    modes = sorted(LAB[case["lab"]][: case["n"]])
    n = len(modes)
    st, T, _ = mkstate(case["fam"], case["kind"], modes)
    pure = case["fam"] == "ket"
    nrm = np.linalg.norm(T) ** 2 if pure else np.trace(T.reshape((int(np.prod(T.shape[:n])),) * 2)).real
    st = st.normalize()
    T = T / (np.sqrt(nrm) if pure else nrm)
    s, kind, grid, phi = sampler(case["samp"])
    K = kernels(kind, grid, phi, T.shape[0])
    P = joint(T, pure, K)
    m = P.shape[0]
    tol = 2e-4 if n < 3 else 5e-4
    # marginal probabilities
    try:
        pr = np.asarray(s.probabilities(st))
    except Exception as e:  # noqa: BLE001
        ctx.fail("probabilities raised", f"{type(e).__name__}: {e}"[:200])
        return
    if n < 3:
        ctx.close(pr, P.ravel() / P.sum(), "probabilities", atol=tol)
        ctx.close(pr.sum(), 1.0, "probabilities sum", atol=1e-9)
    ctx.transitions += 1
    old = settings.rng
    marg = P.sum(axis=tuple(range(1, n)))
    first = [k for k in range(m) if marg[k] > (1e-4 if n < 3 else 1e-2)]
    if n == 3 and case["tier"] == "quick":
        first = first[:: max(1, len(first) // 3)]
    try:
        # every sequence of outcomes: first choice returns all the listed outcomes, later ones are scripted
        depth2 = range(m) if n > 1 else [0]
        if n > 1:
            step2 = 1 if kind == "number" else 6
            depth2 = [k for k in range(0, m, step2)]
        if n == 3:
            depth2 = [k for k in range(m) if P.sum(axis=2)[:, k].max() > 2e-2][:3]
        for second in depth2:
            c = Ctrl()
            settings.rng = c
            # order of calls: first mode (all outcomes at once), then per unique outcome the sub-choices in increasing order of the label
            order = np.argsort(grid[first]) if n > 1 else range(len(first))
            labels = [first[i] for i in order]
            c.script = [first] if n == 1 else None
            if n == 1:
                want_calls = 1
            else:
                c.script = [first] + [x for _ in labels for x in ([[second]] * (n - 1))]
                want_calls = 1 + len(labels) * (n - 1)
            try:
                out = np.asarray(s.sample(st, n_samples=len(first)))
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"sampling outcome {second} after each of {len(first)} outcomes raised", f"{type(e).__name__}: {e}"[:200])
                if len(ctx.fails) > 10:
                    return
                continue
            ctx.transitions += len(c.calls)
            ctx.eq(out.shape, (len(first), n), "shape of the samples")
            if len(c.calls) != want_calls:
                continue  # the implementation draws in another way: nothing is known about the order of its choice points
            p0 = c.calls[0][1]
            ctx.close(p0, marg / marg.sum(), f"distribution of the first outcome (mode {modes[0]})", atol=tol)
            ctx.eq(np.asarray(c.calls[0][0]).shape[0], m, "number of outcomes offered")
            if n == 1:
                ctx.close(out.ravel(), grid[first], "samples are the outcomes drawn", atol=1e-12)
                ctx.close(np.asarray(c.calls[0][0]).ravel(), grid, "outcomes offered in order", atol=1e-12)
                continue
            rows = []
            k = 1
            for a in labels:
                J = P[a]
                marg2 = J.sum(axis=tuple(range(1, n - 1)))
                rel = 3e-3 if kind == "quad" else 1e-3
                ctx.close(c.calls[k][1], marg2 / marg2.sum(), f"distribution of mode {modes[1]} after outcome {grid[a]:.3g}", atol=max(tol, rel, 1e-5 / marg[a]))
                if n == 3:
                    J2 = J[second]
                    if J2.sum() > 1e-3:
                        ctx.close(c.calls[k + 1][1], J2 / J2.sum(), f"distribution of mode {modes[2]} after outcomes {grid[a]:.3g}, {grid[second]:.3g}", atol=max(tol, rel, 1e-5 / J2.sum()))
                k += n - 1
                rows.append([grid[a]] + [grid[second]] * (n - 1))
            got = out[np.lexsort(out.T[::-1])]
            want = np.array(rows)
            ctx.close(got, want[np.lexsort(want.T[::-1])], "samples are the outcomes drawn", atol=1e-12)
            ctx.see(second)
    finally:
        settings.rng = old
    ctx.traces += 1


def r_seed(case, ctx):
    from mrmustard import settings

    modes = [5, 13, 8][: case["n"]]
    st, T, _ = mkstate("ket", "G", sorted(modes))
    st = st.normalize()
    s, kind, grid, _ = sampler(case["samp"])
    N = 40 if case["n"] < 3 else 12
    old = settings.SEED
    real = settings.rng
    try:
        for seed in (0, 1, 2**31 - 1):
            settings.rng = np.random.default_rng(5)
            base = np.asarray(s.sample(st, N, seed=seed))
            ctx.eq(base.shape, (N, case["n"]), "shape")
            # placement of a foreign use: before, and before the k-th use of the global generator by the sampler
            for place in range(0, 4):
                settings.rng = np.random.default_rng(99 + place)
                if place:
                    settings.rng.random(place)
                again = np.asarray(s.sample(st, N, seed=seed))
                ctx.transitions += 1
                ctx.close(again, base, f"seed {seed}: same samples whatever the state of the global generator ({place})", atol=0)
            # the seeded run does not disturb the global generator
            settings.rng = np.random.default_rng(3)
            s.sample(st, N, seed=seed)
            ctx.close(settings.rng.random(), np.random.default_rng(3).random(), f"seed {seed}: the global generator is left alone", atol=0)
            np.random.seed(4)
            s.sample(st, N, seed=seed)
            ctx.see(seed)
        # without a seed the global one rules
        for k in (0, 3, 11):
            settings.SEED = k
            a = np.asarray(s.sample(st, N))
            b = np.asarray(s.sample(st, N))
            settings.SEED = k
            c = np.asarray(s.sample(st, N))
            ctx.close(c, a, "same global seed, same samples", atol=0)
            if case["n"] < 3:
                ctx.check(not np.array_equal(a, b), "consecutive calls draw new samples")
            ctx.transitions += 3
    finally:
        settings.SEED = old
        settings.rng = real
    ctx.traces += 1


def r_cfg(case, ctx):
    from mrmustard import lab as L
    from mrmustard import settings

    for c in range(1, 12):
        s = L.PNRSampler(c)
        ctx.eq(list(s.meas_outcomes), list(range(c)), f"outcomes of cutoff {c}")
        for k in range(c):
            d = s._get_povm(k, 7)
            ctx.eq(tuple(d.modes), (7,), "mode of the projector")
            ctx.close(np.asarray(d.fock_array(c)), np.eye(c)[k], f"projector {k} of cutoff {c}")
            ctx.transitions += 1
        if c > 2:
            p = np.asarray(s.probabilities(L.Number(3, 2)))
            ctx.close(p, np.eye(c)[2], f"probabilities of a number state, cutoff {c}")
        else:
            ctx.raises(Exception, lambda: s.probabilities(L.Number(3, 2)), f"cutoff {c} too small is reported")
    for b, num, phi in itertools.product(((-5, 5), (-3, 6)), (40, 101), (0.0, 1.1)):
        s = L.HomodyneSampler(phi, b, num)
        ctx.close(np.asarray(s.meas_outcomes), np.linspace(*b, num), "grid of the homodyne sampler")
        st = L.SqueezedVacuum(4, 0.3, 0.2)
        p = np.asarray(s.probabilities(st, atol=1e-2))
        v = ref.osc_all(40, np.linspace(*b, num), 1.0)
        v = v if v.shape[0] == 40 else v.T
        a = ref.f_S(0.3, 0.2)[:40, 0]
        w = np.abs((a * np.exp(-1j * phi * np.arange(40))) @ v) ** 2
        ctx.close(p, w / w.sum(), f"homodyne probabilities {b} {num} {phi}", atol=1e-6)
        ctx.transitions += 1
    s = L.HomodyneSampler(0, (-1, 1), 20)
    ctx.raises(Exception, lambda: s.probabilities(L.Coherent(0, 3.0)), "a grid that misses the distribution is reported")
    for N in (1, 2, 7):
        ctx.eq(np.asarray(L.PNRSampler(6).sample(L.Coherent(0, 0.3), N)).shape, (N, 1), f"{N} samples of one mode")
        ctx.eq(np.asarray(L.PNRSampler(6).sample(L.Coherent(0, 0.3) >> L.Coherent(1, 0.2), N)).shape, (N, 2), f"{N} samples of two modes")
    del settings
    ctx.see("cfg")
    ctx.traces += 1
