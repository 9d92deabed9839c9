"""C13: settings discipline.  Model: values + stack of saved values (last in, first out); every word over the alphabet of settings
operations up to a depth is replayed on the real object.  Histories of computations under changing settings are replayed in forked
processes and compared with the value obtained in a freshly forked process with only the final settings."""

import itertools
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np

LEVEL = "model_checking"
RULE = ("(a) every word of length 4 (5 thorough), contexts left open being left at the end, over {assign, assign unknown, call, enter one/two-setting context, re-enter without values, leave, leave by exception, failing context} on three settings, for four choices of the three settings; "
        "(b) every ordered pair (and return) of setting assignments x every observable, and every permutation of sweeps of all observables over four assignments, each compared with a fresh process; contexts and plain assignment; "
        "(c) every dimensionless observable at hbar in {.5,1,2,3.7}; every observable that a setting must not influence")
ASSUMPTIONS = ["objects are rebuilt after a change of hbar (the library warns that objects built before a change keep the old value)"]
CASE_LIMIT = 600
BUDGET = 300

OBS = {}


def obs(*free):
    """free: names of settings the value must not depend on"""

    def dec(f):
        OBS[f.__name__[2:]] = (f, set(free))
        return f

    return dec


ALLF = ("HBAR", "DEFAULT_REPRESENTATION", "AUTOSHAPE_PROBABILITY", "AUTOSHAPE_MAX", "DEFAULT_FOCK_SIZE", "EINSUM_OPTIMIZE", "STABLE_FOCK_CONVERSION", "DISCRETIZATION_METHOD")
NOH = ALLF[1:]


def A(x):
    return np.asarray(x)


@obs(*NOH)
def o_osc():
    from mrmustard.physics.fock_utils import oscillator_eigenstate

    return [A(oscillator_eigenstate(np.array([0.3, -0.7]), n)) for n in (3, 5)]


@obs(*NOH)
def o_quadarray():
    from mrmustard.lab import Ket

    k = Ket.from_fock((0,), np.array([0.6, 0.3j, 0.1]))
    return [A(k.quadrature(np.array([0.3, -0.7]), phi=p)) for p in (0.0, 0.4)] + [A(k.dm().quadrature_distribution(np.array([0.3, -0.7])))]


@obs(*NOH)
def o_quadgauss():
    from mrmustard.lab import Coherent, SqueezedVacuum

    k = SqueezedVacuum(0, 0.3, 0.2)
    return [A(k.quadrature(np.array([0.3, -0.7]), phi=0.4)), A(Coherent(0, 0.3 + 0.1j).dm().quadrature_distribution(np.array([0.3, -0.7])))]


@obs(*NOH[:-1])
def o_wigdisc():
    from mrmustard.physics.wigner import wigner_discretized

    rho = np.diag([0.5, 0.3, 0.2]).astype(complex)
    rho[0, 1] = rho[1, 0] = 0.1
    return [A(wigner_discretized(rho, np.array([0.0, 0.5]), np.array([-0.3, 0.4]))[0])]


@obs(*NOH)
def o_wigner():
    from mrmustard.lab import Coherent

    return [A(Coherent(0, 0.3 + 0.1j).dm().wigner(np.array([0.1]), np.array([0.4])))]


@obs(*NOH)
def o_phasespace():
    from mrmustard.lab import SqueezedVacuum, Thermal

    return [A(x) for x in SqueezedVacuum(0, 0.3).dm().phase_space(0)] + [A(x) for x in Thermal(0, 0.7).phase_space(-1)]


@obs(*ALLF)
def o_fock():
    from mrmustard.lab import Amplifier, Attenuator, BSgate, Coherent, Dgate, Number, Sgate, Thermal, TwoModeSqueezedVacuum

    out = [Coherent(0, 0.4 + 0.1j).fock_array(5), Number(0, 2).fock_array(4), Thermal(0, 0.6).fock_array(4), TwoModeSqueezedVacuum((0, 1), 0.3).fock_array(3)]
    out += [g.fock_array(4) for g in (Dgate(0, 0.2 - 0.1j), Sgate(0, 0.2, 0.4), BSgate((0, 1), 0.4, 0.2), Attenuator(0, 0.7), Amplifier(0, 1.2))]
    return [A(x) for x in out]


@obs(*ALLF)
def o_triples():
    from mrmustard.lab import CXgate, CZgate, Pgate, Rgate, S2gate, SqueezedVacuum, Thermal

    out = []
    for c in (S2gate((0, 1), 0.3, 0.1), Rgate(0, 0.4), CXgate((0, 1), 0.3), CZgate((0, 1), 0.3), Pgate(0, 0.4), SqueezedVacuum(0, 0.2), Thermal(0, 0.5)):
        out += [A(x) for x in c.bargmann_triple()]
    return out


@obs(*NOH)
def o_noise():
    from mrmustard.lab import GaussRandNoise

    return [A(x) for x in GaussRandNoise((0,), np.array([[0.3, 0.05], [0.05, 0.2]])).bargmann_triple()]


@obs(*ALLF)
def o_noise_scaled():
    from mrmustard import settings
    from mrmustard.lab import GaussRandNoise

    return [A(x) for x in GaussRandNoise((0,), settings.HBAR * np.array([[0.3, 0.05], [0.05, 0.2]])).bargmann_triple()]


@obs("HBAR", "DEFAULT_REPRESENTATION", "DEFAULT_FOCK_SIZE", "EINSUM_OPTIMIZE", "STABLE_FOCK_CONVERSION", "DISCRETIZATION_METHOD")
def o_autoshape():
    from mrmustard.lab import Coherent, Thermal, TwoModeSqueezedVacuum

    return [A(x.auto_shape()) for x in (Coherent(0, 0.8), Thermal(0, 1.1), TwoModeSqueezedVacuum((0, 1), 0.5), Coherent(0, 0.8).dm())]


@obs("HBAR", "EINSUM_OPTIMIZE", "STABLE_FOCK_CONVERSION", "DISCRETIZATION_METHOD")
def o_defaultfock():
    from mrmustard.lab import Coherent, Sgate

    return [A(Coherent(0, 0.8).to_fock().ansatz.array), A(Sgate(0, 0.1).to_fock().ansatz.array.shape)]


@obs("HBAR", "EINSUM_OPTIMIZE", "STABLE_FOCK_CONVERSION", "DISCRETIZATION_METHOD")
def o_mixed():
    from mrmustard.lab import Coherent, Dgate, Number

    r = Number(0, 1).to_fock(4) >> Dgate(0, 0.2)
    return [A(type(r.ansatz).__name__ == "ArrayAnsatz"), A(r.fock_array(4)), A((Coherent(0, 0.5) >> Number(0, 1).to_fock().dual))]


@obs(*ALLF)
def o_circuit():
    from mrmustard.lab import Attenuator, BSgate, Circuit, Number, SqueezedVacuum

    c = [SqueezedVacuum(0, 0.3), SqueezedVacuum(1, 0.2), BSgate((0, 1), 0.6), Attenuator(0, 0.8), Number(0, 1).to_bargmann().dual, Number(1, 1).to_bargmann().dual]
    return [A(Circuit(c).contract())]


@obs(*ALLF)
def o_symplectic():
    from mrmustard.lab import Attenuator, Sgate, Unitary

    S = np.array([[1.2, 0.3], [0.1, (1 + 0.03) / 1.2]])
    return [A(Unitary.from_symplectic((0,), S).bargmann_triple()[0]), A(Sgate(0, 0.3).symplectic), A(Attenuator(0, 0.5).XY[0])]


@obs(*NOH)
def o_channelY():
    from mrmustard.lab import Attenuator

    return [A(Attenuator(0, 0.5).XY[1])]


@obs(*ALLF)
def o_gaussian():
    from mrmustard import settings
    from mrmustard.physics import gaussian as g

    c1 = settings.HBAR * np.diag([0.6, 0.7])
    c2 = settings.HBAR * np.diag([0.9, 0.4])
    m = np.sqrt(settings.HBAR) * np.array([0.2, -0.1])
    return [A(g.purity(c1)), A(g.symplectic_eigenvals(c1)), A(g.von_neumann_entropy(c1)), A(g.fidelity(m, c1, 0 * m, c2)), A(g.number_means(c1, m))]


@obs(*ALLF)
def o_stats():
    from mrmustard.lab import Attenuator, Coherent, SqueezedVacuum

    s = SqueezedVacuum(0, 0.4) >> Attenuator(0, 0.7)
    return [A(s.purity), A(s.probability), A(s.fidelity(Coherent(0, 0.1).dm())), A(s.fock_distribution(4)), A(s.L2_norm)]


@obs("DEFAULT_REPRESENTATION", "AUTOSHAPE_PROBABILITY", "AUTOSHAPE_MAX", "DEFAULT_FOCK_SIZE", "EINSUM_OPTIMIZE", "STABLE_FOCK_CONVERSION", "DISCRETIZATION_METHOD", "HBAR")
def o_random():
    from mrmustard import math, settings
    from mrmustard.lab import Ket

    settings.SEED = 7
    return [A(Ket.random((0,)).bargmann_triple()[0]), A(math.random_symplectic(2))]


@obs(*NOH)
def o_qeig():
    from mrmustard.lab import Number, QuadratureEigenstate

    return [A(Number(0, 1).to_bargmann() >> QuadratureEigenstate(0, 0.3, 0.2).dual)]


@obs(*ALLF)
def o_pnr():
    from mrmustard.lab import Coherent, PNRSampler

    return [A(PNRSampler(5).probabilities(Coherent(0, 0.3)))]


@obs(*ALLF)
def o_mats():
    from mrmustard import math

    return [A(math.J(2)), A(math.Xmat(2)), A(math.Zmat(1)), A(math.rotmat(2)), A(math.einsum("ij,jk->ik", np.eye(2), np.ones((2, 2))))]


@obs(*NOH)
def o_bargutils():
    from mrmustard.physics import bargmann_utils as b

    cov, mean = np.diag([0.8, 0.9]), np.array([0.2, 0.3])
    t = b.wigner_to_bargmann_rho(cov, mean)
    X, Y = b.XY_of_channel(np.asarray(b.au2Symplectic(np.array([[0, 1], [1, 0]], complex)))) if False else (0, 0)
    return [A(x) for x in t] + [A(x) for x in b.bargmann_Abc_to_phasespace_cov_means(*t)] + [A(X), A(Y)]


@obs(*ALLF)
def o_diag():
    from mrmustard import math
    from mrmustard.lab import Thermal

    A_, b_, c_ = Thermal(0, 0.6).bargmann_triple()
    return [A(math.hermite_renormalized_diagonal(A(A_), A(b_), A(c_), (5,)))]


VALUES = {
    "HBAR": (1.0, 2.0, 0.5, 3.7),
    "DEFAULT_REPRESENTATION": ("Fock", "Bargmann"),
    "AUTOSHAPE_PROBABILITY": (0.99999, 0.9, 0.999999999),
    "AUTOSHAPE_MAX": (50, 3),
    "DEFAULT_FOCK_SIZE": (50, 6),
    "EINSUM_OPTIMIZE": ("greedy", "optimal", True),
    "STABLE_FOCK_CONVERSION": (False, True),
    "DISCRETIZATION_METHOD": ("clenshaw", "iterative"),
}
COMBO = [{}, {"HBAR": 2.0}, {"HBAR": 0.5, "AUTOSHAPE_PROBABILITY": 0.9}, {"AUTOSHAPE_MAX": 3, "DEFAULT_FOCK_SIZE": 6}, {"STABLE_FOCK_CONVERSION": True, "DISCRETIZATION_METHOD": "iterative"},
         {"DEFAULT_REPRESENTATION": "Bargmann", "HBAR": 3.7}, {"EINSUM_OPTIMIZE": "optimal", "AUTOSHAPE_PROBABILITY": 0.999999999, "HBAR": 2.0}]


def cases(tier):
    out = []
    for names in (("ATOL", "HBAR", "AUTOSHAPE_MAX"), ("HBAR", "SEED", "DEFAULT_REPRESENTATION"), ("CACHE_DIR", "ATOL", "HBAR"), ("PROGRESSBAR", "AUTOSHAPE_PROBABILITY", "STABLE_FOCK_CONVERSION")):
        if tier == "quick" and names[0] == "PROGRESSBAR":
            continue
        for first in range(len(ALPHA)):
            out.append({"id": f"lifo-{names[0]}-{first}", "part": "lifo", "names": names, "first": first, "depth": 4 if tier == "quick" else 5})
    for f in OBS:
        out.append({"id": f"pair-{f}", "part": "pair", "f": f, "tier": tier})
        out.append({"id": f"free-{f}", "part": "free", "f": f})
    for i, p in enumerate(itertools.permutations((0, 1, 2, 4))):
        out.append({"id": f"sweep-{i}", "part": "sweep", "perm": p})
    if tier == "thorough":
        for i, p in enumerate(itertools.permutations(range(7), 4)):
            out.append({"id": f"sweepT-{i}", "part": "sweep", "perm": p})
    return out


def warm():
    """compile in a throw-away process (numba keeps the machine code on disk): this process stays free of computed values"""
    import mrmustard.lab  # noqa: F401

    import numba

    numba.njit(lambda x: x + 1)(1)  # starts the compiler itself
    pids = []
    names = sorted(OBS)
    for k in range(8):
        pid = os.fork()
        if pid == 0:
            try:
                warnings.simplefilter("ignore")
                for f in names[k::8]:
                    for c in COMBO:
                        apply(c)
                        compute(f)
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)


# ---- (a) ------------------------------------------------------------------------------------------------
ALPHA = ["set0", "set1", "unknown", "call0", "enter0", "enter01", "enter2", "enter-", "leave", "raise", "badctx"]


class Model:
    def __init__(self, vals):
        self.v, self.stack = dict(vals), []


def vals_of(name, d):
    return {"ATOL": [1e-8, 1e-3, 1e-5, 1e-6], "HBAR": [1.0, 2.0, 0.5, 3.0], "AUTOSHAPE_MAX": [50, 7, 11, 13], "SEED": [11, 3, 4, 5], "DEFAULT_REPRESENTATION": ["Fock", "Bargmann", "Fock", "Bargmann"],
            "PROGRESSBAR": [True, False, True, False], "AUTOSHAPE_PROBABILITY": [0.99999, 0.9, 0.5, 0.3], "STABLE_FOCK_CONVERSION": [False, True, False, True],
            "CACHE_DIR": [os.path.join(d, x) for x in "abcd"]}[name]


def r_lifo(case, ctx):
    from pathlib import Path

    from mrmustard import settings

    names = case["names"]
    d = tempfile.mkdtemp(dir=os.environ.get("MC_WORK"))
    V = {n: vals_of(n, d) for n in names}
    orig = {n: getattr(settings, n) for n in names}

    def get():
        return {n: (str(getattr(settings, n)) if n == "CACHE_DIR" else getattr(settings, n)) for n in names}

    def reset():
        for n in names:
            setattr(settings, n, V[n][0])

    def step(model, act, stack):
        """apply to the model and the real settings; returns False if the act is not enabled"""
        a, b, c = names
        if act == "set0":
            settings.__setattr__(a, V[a][1])
            model.v[a] = V[a][1]
        elif act == "set1":
            setattr(settings, b, V[b][1])
            model.v[b] = V[b][1]
        elif act == "unknown":
            try:
                settings.NOT_A_SETTING = 3
                ctx.fail("unknown setting accepted", "")
            except AttributeError:
                pass
        elif act == "call0":
            r = settings(**{a: V[a][2]})
            model.v[a] = V[a][2]
            if r is not settings:
                pass
        elif act.startswith("enter"):
            kw = {"enter0": {a: V[a][3]}, "enter01": {a: V[a][1], b: V[b][2]}, "enter2": {c: V[c][1]}, "enter-": {}}[act]
            cm = settings(**kw)
            cm.__enter__()
            stack.append(cm)
            model.stack.append({k: model.v[k] for k in kw})
            model.v.update(kw)
        elif act in ("leave", "raise"):
            if not model.stack:
                return False
            cm = stack.pop()
            e = (None, None, None) if act == "leave" else (KeyError, KeyError("x"), None)
            if cm.__exit__(*e):
                ctx.fail("context swallowed the exception", "")
            model.v.update(model.stack.pop())
        elif act == "badctx":
            try:
                with settings(**{b: V[b][3], "NOT_A_SETTING": 1}):
                    ctx.fail("unknown setting accepted in a context", "")
            except AttributeError:
                pass
        return True

    try:
        for rest in itertools.product(range(len(ALPHA)), repeat=case["depth"] - 1):
            word = [ALPHA[case["first"]]] + [ALPHA[i] for i in rest]
            if any(w in ("unknown", "badctx") for w in word[1:-1]) and word.count("unknown") + word.count("badctx") > 1:
                continue
            bal = 0
            ok = True
            for w in word:
                bal += w.startswith("enter")
                if w in ("leave", "raise"):
                    bal -= 1
                    ok = ok and bal >= 0
            if not ok:
                continue
            reset()
            m, st = Model({n: V[n][0] for n in names}), []
            good = True
            for i, w in enumerate(word):
                step(m, w, st)
                ctx.transitions += 1
                if get() != m.v:
                    ctx.fail(f"after {' '.join(word[: i + 1])}", f"settings {get()}, expected {m.v}")
                    good = False
                    break
            while st:  # leave the remaining contexts
                st.pop().__exit__(None, None, None)
                m.v.update(m.stack.pop())
                if good and get() != m.v:
                    ctx.fail(f"after {' '.join(word)} and leaving", f"settings {get()}, expected {m.v}")
                    good = False
            ctx.states += 1
            if ctx.fails and len(ctx.fails) > 15:
                break
        ctx.see(case["first"], names)
        ctx.check(True, "lifo")
        ctx.eq(get()["CACHE_DIR"] if "CACHE_DIR" in names else "", str(Path(get()["CACHE_DIR"])) if "CACHE_DIR" in names else "", "cache dir")
    finally:
        for n in names:
            setattr(settings, n, orig[n])
        shutil.rmtree(d, ignore_errors=True)
    ctx.traces += 1


# ---- (b) ------------------------------------------------------------------------------------------------
def apply(assign):
    from mrmustard import settings

    for k, v in VALUES.items():
        setattr(settings, k, assign.get(k, v[0]))


def compute(f):
    try:
        return [np.array(x) for x in OBS[f][0]()]
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:200]


def forked(fn):
    """run fn in a forked process, return its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(fn(), fh)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else "process failed"


_F = {}


def fresh(f, i):
    if (f, i) not in _F:
        def go():
            apply(COMBO[i])
            return compute(f)

        _F[f, i] = forked(go)
    return _F[f, i]


def same(ctx, got, want, label):
    if isinstance(want, str) or isinstance(got, str):
        ctx.eq(got if isinstance(got, str) else "ok", want if isinstance(want, str) else "ok", label)
        return
    ctx.eq(len(got), len(want), label)
    for k, (g, w) in enumerate(zip(got, want)):
        ctx.close(g, w, f"{label} [{k}]", atol=1e-10)


def r_pair(case, ctx):
    from mrmustard import settings

    f = case["f"]
    n = len(COMBO)
    for i in range(n):
        w = fresh(f, i)
        if isinstance(w, str):
            ctx.fail(f"{f} under {COMBO[i]}", w)
            return
    for i, j in itertools.product(range(n), repeat=2):
        if i == j:
            continue
        for style in ("assign", "context"):
            if case["tier"] == "quick" and (i > j or style == "context" and i):
                continue

            def go():
                apply(COMBO[i])
                out = [(i, compute(f))]
                if style == "assign":
                    apply(COMBO[j])
                    out.append((j, compute(f)))
                    apply(COMBO[i])
                else:
                    full = {k: COMBO[j].get(k, v[0]) for k, v in VALUES.items()}
                    with settings(**full):
                        out.append((j, compute(f)))
                out.append((i, compute(f)))
                return out

            for k, (s, r) in enumerate(forked(go)):
                ctx.transitions += 1
                same(ctx, r, fresh(f, s), f"{f}: step {k} of {COMBO[i]} -> {COMBO[j]} -> back ({style})")
        ctx.see(f, i, j)
    ctx.traces += 1


def r_sweep(case, ctx):
    perm = case["perm"]

    def go():
        out = []
        for i in (*perm, perm[0]):
            apply(COMBO[i])
            out += [(f, i, compute(f)) for f in OBS]
        return out

    for f, i, r in forked(go):
        ctx.transitions += 1
        same(ctx, r, fresh(f, i), f"{f} in the sweep {perm} at {COMBO[i]}")
    ctx.see(perm)
    ctx.traces += 1


# ---- (c) ------------------------------------------------------------------------------------------------
def r_free(case, ctx):
    f = case["f"]
    base = forked(lambda: (apply({}), compute(f))[1])
    if isinstance(base, str):
        ctx.fail(f"{f}", base)
        return
    for s, vals in VALUES.items():
        if s not in OBS[f][1]:
            continue
        for v in vals[1:]:
            for extra in ({}, {"HBAR": 2.0}) if "HBAR" in OBS[f][1] else ({},):
                r = forked(lambda: (apply({**extra, s: v}), compute(f))[1])
                ctx.transitions += 1
                same(ctx, r, base, f"{f} must not depend on {s} ({s}={v} {extra})")
                ctx.see(f, s, str(v))
    ctx.traces += 1


def run(case, ctx):
    warnings.simplefilter("ignore")
    globals()["r_" + case["part"]](case, ctx)
