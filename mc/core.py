"""Exploration core.

A check module ``checks/<ID>.py`` provides

  LEVEL, RULE, ASSUMPTIONS
  cases(tier)  -> list of JSON-able dicts with a unique "id" -- a FINITE, fully enumerated set (no sampling)
  run(case, ctx) -> None    executes the real code on one case and compares with the reference model through ctx

The core enumerates every case (forked workers, a shared cursor), never samples, and reports a cap if the wall-clock
guard was hit.  VERIF_SEED only rotates the order in which cases are visited; the set visited does not depend on it.
"""

from __future__ import annotations

import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("MC_REPO", "/repo"))


class CaseTimeout(Exception):
    pass


class Fail(Exception):
    pass


class Ctx:
    """Collects comparisons made on one case."""

    def __init__(self, case):
        self.case = case
        self.ncmp = 0
        self.fails: list[tuple[str, str]] = []
        self.obs: set[str] = set()
        self.nontrivial = False
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.sub = ""

    # -- oracle primitives -------------------------------------------------------------------
    def fail(self, label, detail=""):
        if self.sub:
            label = f"{self.sub}: {label}"
        if len(self.fails) < 20:
            self.fails.append((label, str(detail)[:1500]))

    def check(self, cond, label, detail=""):
        self.ncmp += 1
        if not bool(cond):
            self.fail(label, detail)
            return False
        return True

    def eq(self, got, want, label):
        self.ncmp += 1
        if got != want:
            self.fail(label, f"got {got!r}, want {want!r}")
            return False
        return True

    def close(self, got, want, label, atol=1e-7, rtol=1e-6, shape=True):
        self.ncmp += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if shape and g.shape != w.shape:
                self.fail(label, f"shape got {g.shape} want {w.shape}")
                return False
            ok = np.allclose(g, w, atol=atol, rtol=rtol, equal_nan=False)
        except (TypeError, ValueError) as e:
            self.fail(label, f"not comparable: {e}; got {got!r:.200}")
            return False
        if not ok:
            with np.errstate(all="ignore"):
                d = np.abs(np.broadcast_arrays(g - w)[0])
            i = np.unravel_index(int(np.nanargmax(d)) if not np.all(np.isnan(d)) else 0, d.shape) if d.shape else ()
            self.fail(label, f"max dev {np.nanmax(d) if d.size else None} at {tuple(int(x) for x in i)}; "
                             f"got {np.array2string(g.ravel()[:8], precision=6)} want {np.array2string(np.broadcast_to(w, g.shape).ravel()[:8], precision=6)}")
            return False
        return True

    def raises(self, exc, fn, label):
        self.ncmp += 1
        try:
            r = fn()
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            self.fail(label, f"raised {type(e).__name__}: {e} instead of {exc}")
            return False
        self.fail(label, f"no exception; returned {type(r).__name__}")
        return False

    def see(self, *what):
        """Record an observed outcome (used to count distinct outcomes and show that runs collide)."""
        self.obs.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def see_arr(self, a, digits=6):
        a = np.asarray(a)
        a = np.round(np.where(np.abs(a) < 10.0**-digits, 0, a), digits) + 0.0
        self.obs.add(hashlib.sha1(repr(a.shape).encode() + a.astype(complex).tobytes()).hexdigest()[:16])


def load(pid):
    return importlib.import_module(f"checks.{pid}")


def known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [e for e in json.loads(p.read_text()) if e["property"] == pid and e["status"] == "known"]


def run_case(mod, case, limit):
    ctx = Ctx(case)

    def onalarm(*_):
        raise CaseTimeout

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        mod.run(case, ctx)
    except CaseTimeout:
        ctx.fail("timeout", f"case did not finish within {limit}s")
    except Fail as e:
        ctx.fail("fail", str(e))
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{Path(f.filename).name}:{f.name}" for f in reversed(tb) if "/mrmustard/" in f.filename), "?")
        ctx.fail(f"exception {type(e).__name__}", f"{e} @ {where}\n" + "".join(traceback.format_exception(e)[-6:]))
    finally:
        signal.alarm(0)
    return ctx


def worker(mod, cases, cursor, stop, wid, path, limit, deadline):
    out = open(path, "w")
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    code = 0
    limit_mem = max(RETIRE, resident() + 1.2e9)
    while True:
        if resident() > limit_mem:  # compiled functions pile up: a fresh process takes over
            code = 78
            break
        with cursor.get_lock():
            i = cursor.value
            cursor.value += 1
        if i >= len(cases) or stop.value >= 12 or time.time() > deadline:
            break
        case = cases[i]
        out.write(json.dumps({"start": i}) + "\n")
        out.flush()
        ctx = run_case(mod, case, limit)
        if ctx.fails:
            kf = KNOWN
            if any(not matches(kf, case["id"], lab) for lab, _ in ctx.fails):
                with stop.get_lock():
                    stop.value += 1
        out.write(json.dumps({"i": i, "ncmp": ctx.ncmp, "fails": ctx.fails, "obs": sorted(ctx.obs),
                              "nt": bool(ctx.nontrivial or ctx.obs), "st": ctx.states, "tr": ctx.transitions,
                              "tv": ctx.traces}) + "\n")
        out.flush()
    out.write(json.dumps({"end": wid}) + "\n")
    out.close()
    os._exit(code)


RETIRE = 2.6e9


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


KNOWN: list = []


def matches(entries, cid, label):
    for e in entries:
        if fnmatch.fnmatchcase(cid, e["case"]) and fnmatch.fnmatchcase(label, e.get("label", "*")):
            return e
    return None


def main(argv):
    global KNOWN
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(argv) > 1:
        if argv[1] == "--replay":
            replay = json.loads(Path(argv[2]).read_text())
        else:
            tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(10000)
    mod = load(pid)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    limit = getattr(mod, "CASE_LIMIT", 240)
    budget = float(os.environ.get("MC_BUDGET", 0)) or (getattr(mod, "BUDGET", 420) if tier == "quick" else getattr(mod, "BUDGET_T", 840))
    if replay:
        ctx = run_case(mod, replay["case"], limit)
        for lab, det in ctx.fails:
            print("FAIL", lab, "\n   ", det)
        print("replayed", replay["case"]["id"], "comparisons", ctx.ncmp, "failures", len(ctx.fails))
        return 1 if ctx.fails else 0
    cases = list(mod.cases(tier))
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    only = os.environ.get("MC_ONLY")
    if only:
        cases = [c for c in cases if fnmatch.fnmatchcase(c["id"], only)]
    n = len(cases)
    rot = (seed * 7919) % n if n else 0
    if getattr(mod, "ROTATE", False):
        cases = cases[rot:] + cases[:rot]
    KNOWN = known(pid)
    if hasattr(mod, "warm"):
        mod.warm()
    nproc = int(os.environ.get("MC_PROCS", 0)) or min(8, os.cpu_count() or 1, max(1, n))
    cursor = mp.Value("q", 0)
    stop = mp.Value("q", 0)
    work = Path(os.environ.get("MC_WORK", "/tmp"))
    procs = []
    deadline = t0 + budget

    def spawn(w):
        path = work / f"w{w}.jsonl"
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try:
                if not os.environ.get("MC_VERBOSE"):
                    dn = os.open("/dev/null", os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get("MC_STDERR"):
                        os.dup2(dn, 2)
                worker(mod, cases, cursor, stop, w, path, limit, deadline)
            except BaseException:  # noqa: BLE001
                (work / f"w{w}.err").write_text(traceback.format_exc())
                os._exit(77)
        return p, w, path

    for w in range(nproc):
        procs.append(spawn(w))
    results = {}
    crashed = []
    harness_err = []
    alive = {p: (w, path) for p, w, path in procs}
    hard = deadline + limit + 30
    while alive:
        for p in list(alive):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                w, path = alive.pop(p)
                started, ended = None, False
                for line in path.read_text().splitlines() if path.exists() else []:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    elif "end" in d:
                        ended = True
                    else:
                        results[d["i"]] = d
                        started = None
                if not ended:
                    if (work / f"w{w}.err").exists():
                        harness_err.append((work / f"w{w}.err").read_text())
                    elif started is not None:
                        crashed.append((started, st))
                    else:
                        harness_err.append(f"worker {w} ended with status {st} outside a case")
                elif os.waitstatus_to_exitcode(st) == 78:
                    p2, w2, path2 = spawn(w + 100)
                    alive[p2] = (w2, path2)
        if alive:
            if time.time() > hard:
                for p, (w, path) in alive.items():
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.05)
    for i, r in list(results.items()):
        if any(lab.endswith("timeout") for lab, _ in r["fails"]):
            crashed.append((i, "timeout"))
    for i, st in sorted(crashed, key=lambda x: x[0])[:4]:
        # a death or a timeout must reproduce in a process of its own before it is believed
        path = work / f"retry{i}.jsonl"
        one = mp.Value("q", 0)
        p = os.fork()
        if p == 0:
            try:
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                worker(mod, [cases[i]], one, mp.Value("q", 0), 99, path, limit * 2, time.time() + 10)
            finally:
                os._exit(77)
        _, st2 = os.waitpid(p, 0)
        lines = [json.loads(x) for x in path.read_text().splitlines()] if path.exists() else []
        rec = next((x for x in lines if "i" in x), None)
        if rec is not None:
            results[i] = {**rec, "i": i}
            crashed = [c for c in crashed if c[0] != i]
            print(f"note: case {cases[i]['id']} ended abnormally ({st}) and was repeated alone", file=sys.stderr)
    for i, st in crashed:
        if st == "timeout":
            continue
        results[i] = {"i": i, "ncmp": 0, "fails": [["process died", f"the process running this case died, wait status {st}"]],
                      "obs": [], "nt": False, "st": 0, "tr": 0, "tv": 0}
    if harness_err:
        print("HARNESS ERROR\n" + "\n".join(harness_err)[:4000], file=sys.stderr)
        return 2
    # -- verdict --------------------------------------------------------------------------------
    viol, kfound = [], {}
    for i in sorted(results):
        for lab, det in results[i]["fails"]:
            e = matches(KNOWN, cases[i]["id"], lab)
            if e:
                kfound.setdefault(e["what"], []).append((cases[i]["id"], lab))
            else:
                viol.append((i, lab, det))
    done = len(results)
    capped = done < n and not viol
    obs = set()
    for r in results.values():
        obs.update(r["obs"])
    ncmp = sum(r["ncmp"] for r in results.values())
    nt = sum(1 for r in results.values() if r["nt"])
    pick = [cases[i] for i in sorted(results)]
    samples = [pick[k] for k in sorted({0, len(pick) // 3, 2 * len(pick) // 3, len(pick) - 1})] if pick else []
    cov = {"rule": mod.RULE, "cases_in_bound": n, "samples": samples, "exhaustive": bool(done == n and not only)}
    if mod.LEVEL == "model_checking":
        cov["states"] = len(obs)
        cov["transitions"] = sum(r["tr"] for r in results.values())
        cov["traces_validated_against_impl"] = sum(r["tv"] for r in results.values())
        cov["oracle_comparisons"] = ncmp
    else:
        cov["cases_explored"] = done
        cov["evaluations"] = ncmp
        cov["distinct_nontrivial"] = len(obs)
    if capped:
        cov["capped"] = f"wall-clock guard of {budget:.0f}s reached after {done} of {n} cases (in enumeration order)"
    if kfound:
        cov["known_findings"] = {k: len(v) for k, v in kfound.items()}
    extra = getattr(mod, "evidence_extra", None)
    if extra:
        cov.update(extra(tier))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for what in sorted(kfound):
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid} {tier}: {done}/{n} cases, {ncmp} comparisons, {len(obs)} distinct outcomes, {time.time()-t0:.1f}s"
          + (" CAPPED" if capped else ""))
    if viol:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        seen = set()
        k = 0
        for i, lab, det in viol:
            if (i, ) in seen:
                continue
            seen.add((i, ))
            f = rd / f"{pid}-{k}.json"
            f.write_text(json.dumps({"property": pid, "case": cases[i], "label": lab, "detail": det,
                                     "how": f"cd /verif && ./run {pid} --replay {f}"}, indent=1, default=str))
            print(f"VIOLATION property={pid} replay={f}")
            print(f"  case {cases[i]['id']} | {lab} | {det.splitlines()[0] if det else ''}")
            k += 1
            if k >= int(os.environ.get("MC_STOP", 8)):
                break
        return 1
    return 0


if __name__ == "__main__":
    import mc.core as _core  # run under the importable name, so that worker state is shared with checks

    rc = _core.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
