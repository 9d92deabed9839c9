"""C15: the store of saved objects as a key-value store: every sequence of saves, loads and removals over a small alphabet of names is
replayed on the real files and compared with a dictionary; faults are injected at every file-system event and at every byte written."""

import hashlib
import itertools
import os
import resource
import signal
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np

LEVEL = "fault_injection"
RULE = ("every sequence up to depth 3 (thorough 4) of {save zipped, save plain, save without arrays, load, load and remove} over names {a, b, a.b, automatic} with distinct contents, replayed on a real directory and compared with a dictionary of what each returned path must hold; "
        "every single file-system event (open, remove, rename, ...) of save and load made to fail, and every write cut at each of a ladder of byte counts, over a store that already holds other objects; foreign files in the directory")
ASSUMPTIONS = ["one process; two saves under the same name are the same object, the last one wins for the path it returned"]
CASE_LIMIT = 600
BUDGET = 500
NAMES = ("a", "b", "a.b", None)


class Obj:
    """object of the documented serialisation interface"""

    def __init__(self, **kw):
        self.kw = kw

    @classmethod
    def deserialize(cls, data):
        return cls(**data)


class Picky(Obj):
    @classmethod
    def deserialize(cls, data):
        raise RuntimeError("not today")


OPS = [("save", n, m) for n in NAMES for m in ("zip", "plain", "bare")] + [("load", i, rm) for i in (0, 1, 2) for rm in (False, True)]


def cases(tier):
    out = []
    for first in range(12):
        out.append({"id": f"seq-{OPS[first][1]}-{OPS[first][2]}", "part": "seq", "first": first, "depth": 3 if tier == "quick" else 4})
    for mode in ("zip", "plain", "bare", "circuit"):
        for name in ("c", "a.c", None, "c.json"):
            out.append({"id": f"fault-save-{mode}-{name}", "part": "fault", "op": "save", "mode": mode, "name": name})
    for mode in ("zip", "plain", "bare", "circuit"):
        for rm in (False, True):
            out.append({"id": f"fault-load-{mode}-{'rm' if rm else 'keep'}", "part": "fault", "op": "load", "mode": mode, "rm": rm, "name": "c"})
    for mode in ("zip", "plain", "bare", "circuit"):
        out.append({"id": f"torn-{mode}", "part": "torn", "mode": mode})
    out.append({"id": "foreign", "part": "foreign"})
    out.append({"id": "bad", "part": "bad"})
    out.append({"id": "names", "part": "names"})
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    from mrmustard import settings

    old = settings.CACHE_DIR
    with tempfile.TemporaryDirectory(dir=os.environ.get("MC_WORK")) as d:
        settings.CACHE_DIR = Path(d)
        try:
            globals()["r_" + case["part"]](case, ctx, Path(d))
        finally:
            settings.CACHE_DIR = old


def content(k):
    return {"x": np.arange(3.0) + k, "m": np.array([[1j * k, 2.0]])}, {"tag": f"t{k}", "n": k}


def do_save(name, mode, k):
    from mrmustard.utils.serialize import save

    if mode == "circuit":
        return circ(k).serialize(filestem=name)
    arrays, data = content(k)
    return Path(save(Obj, filename=name, do_zip=mode == "zip", arrays=None if mode == "bare" else arrays, **data))


def circ(k):
    from mrmustard.lab import Circuit, Coherent, Dgate

    return Circuit([Coherent(0, 0.1 * k), Dgate(0, 0.2 + 0.1j * k)])


def matches(obj, mode, k):
    if mode == "circuit":
        return obj == circ(k)
    arrays, data = content(k)
    if set(obj.kw) != set(data) | (set() if mode == "bare" else set(arrays)):
        return False
    return all(obj.kw[n] == v for n, v in data.items()) and (mode == "bare" or all(np.array_equal(np.asarray(obj.kw[n]), v) for n, v in arrays.items()))


def snap(d):
    return {str(p.relative_to(d)): (hashlib.sha1(p.read_bytes()).hexdigest() if p.is_file() else "dir") for p in sorted(d.rglob("*"))}


def members(p):
    """files an object may own, given the path that was returned"""
    return {p.name} if p.suffix == ".zip" else {p.name, p.with_suffix(".npz").name}


def r_seq(case, ctx, d):
    """depth-first over all operation sequences, the directory being rebuilt for every sequence"""
    first = OPS[case["first"]]
    n = 0
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (first, *rest)
        # only sequences whose loads refer to something saved before
        saves = 0
        ok = True
        for o in seq:
            if o[0] == "save":
                saves += 1
            elif o[1] >= saves:
                ok = False
                break
        if not ok:
            continue
        replay(ctx, seq, d)
        n += 1
        if len(ctx.fails) > 5:
            return
    ctx.traces += n


def replay(ctx, seq, d):
    from mrmustard.utils.serialize import load

    for p in d.iterdir():
        p.unlink()
    live = {}  # returned path -> (mode, content number)
    order = []
    foreign = d / "unrelated.txt"
    foreign.write_text("mine")
    ctx.sub = " ; ".join(f"{o[0]} {o[1]} {o[2]}" for o in seq)
    for step, o in enumerate(seq):
        before = snap(d)
        if o[0] == "save":
            _, name, mode = o
            try:
                p = do_save(name, mode, step + 1)
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"step {step}: save raised", f"{type(e).__name__}: {e}"[:200])
                return
            stem = p.name[: -len(p.suffix)]
            if name is not None:
                ctx.eq(stem, name, "name of the saved file")
            ctx.eq(p.parent, d, "directory of the saved file")
            # the same name: earlier paths under it are overwritten
            live = {q: v for q, v in live.items() if q.name[: -len(q.suffix)] != stem}
            live[p] = (mode, step + 1)
            order.append(p)
            after = snap(d)
            own = {stem + s for s in (".json", ".npz", ".zip")}
            changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
            ctx.check(changed <= own, f"step {step}: saving only touches files of that name", f"{sorted(changed - own)}")
        else:
            _, i, rm = o
            p = order[i]
            if p not in live:
                # removed or overwritten: an error or the current holder of that name, but nobody else is harmed
                try:
                    load(p, remove_after=False)
                except Exception:  # noqa: BLE001
                    pass
                ctx.eq(snap(d), before, f"step {step}: loading what is no longer there changes nothing")
                ctx.transitions += 1
                continue
            mode, k = live[p]
            try:
                obj = load(p, remove_after=rm)
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"step {step}: load raised", f"{type(e).__name__}: {e}"[:200])
                return
            ctx.check(matches(obj, mode, k), f"step {step}: loaded what was last saved under that name")
            after = snap(d)
            changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
            if rm:
                own = members(p)
                ctx.check(changed <= own and p.name not in after, f"step {step}: only the object asked for is removed", f"changed {sorted(changed)}")
                del live[p]
            else:
                ctx.eq(changed, set(), f"step {step}: loading changes no file")
        ctx.transitions += 1
    # in the end everything alive loads
    for p, (mode, k) in live.items():
        try:
            obj = load(p)
            ctx.check(matches(obj, mode, k), "at the end: every stored object loads back to what was last saved")
        except Exception as e:  # noqa: BLE001
            ctx.fail("at the end: a stored object does not load", f"{p.name}: {type(e).__name__}: {e}"[:200])
    ctx.check(foreign.read_text() == "mine", "unrelated files are left alone")
    ctx.see(len(live))
    ctx.sub = ""


# ---- faults ---------------------------------------------------------------------------------------------
class Faults:
    """an audit hook that counts the file-system events under a directory and makes the k-th one fail"""

    EV = ("open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.copyfile", "shutil.move", "shutil.rmtree", "os.chmod", "os.utime")

    def __init__(self):
        self.on = False
        self.count = 0
        self.at = None
        self.fired = None
        sys.addaudithook(self.hook)

    def hook(self, ev, args):
        if not self.on or ev not in self.EV:
            return
        path = args[0] if args else None
        if not isinstance(path, (str, bytes, os.PathLike)) or not os.fspath(path if not isinstance(path, bytes) else path.decode()).startswith(self.root):
            return
        k = self.count
        self.count += 1
        if self.at == k:
            self.fired = (ev, str(path))
            raise OSError(28, f"injected fault at event {k}: {ev}")

    def arm(self, root, at):
        self.root, self.at, self.count, self.fired, self.on = str(root), at, 0, None, True

    def off(self):
        self.on = False


FAULTS = None


def populate(d):
    """other objects in the store; returned as {path: (mode, k)}"""
    live = {}
    for k, (name, mode) in enumerate((("a", "zip"), ("b", "plain"), ("a.b", "bare"), ("cc", "zip"), ("c.d", "plain"), ("circ", "circuit")), 20):
        live[do_save(name, mode, k)] = (mode, k)
    return live


def others_ok(ctx, d, live, base, own, what):
    from mrmustard.utils.serialize import load

    now = snap(d)
    hurt = [f for f in base if f not in own and now.get(f) != base[f]]
    ctx.check(not hurt, f"{what}: files of other names are untouched", str(hurt))
    for p, (mode, k) in live.items():
        try:
            good = matches(load(p), mode, k)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{what}: an object of another name no longer loads", f"{p.name}: {type(e).__name__}: {e}"[:200])
            continue
        ctx.check(good, f"{what}: an object of another name changed")


def r_fault(case, ctx, d):
    from mrmustard.utils.serialize import load

    global FAULTS
    if FAULTS is None:
        FAULTS = Faults()
    name, mode = case["name"], case["mode"]
    for at in range(0, 60):
        for p in d.iterdir():
            p.unlink()
        live = populate(d)
        if case["op"] == "load":
            mine = do_save(name, mode, 3)
        base = snap(d)
        what = f"event {at} fails"
        res = err = None
        FAULTS.arm(d, at)
        try:
            if case["op"] == "save":
                res = do_save(name, mode, 3)
            else:
                res = load(mine, remove_after=case["rm"])
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            FAULTS.off()
        own = {(name.removesuffix(".json") if name else "") + s for s in (".json", ".npz", ".zip")} if name else set()
        if case["op"] == "load":
            own = members(mine)
        others_ok(ctx, d, live, base, own, what)
        ctx.transitions += 1
        if FAULTS.fired is None:
            ctx.check(err is None, "without a fault the operation succeeds", repr(err))
            break
        ctx.see(FAULTS.fired[0])
        if err is None:
            # survived: then it must have done its job
            if case["op"] == "save":
                ctx.check(matches(load(res), mode, 3), f"{what} ({FAULTS.fired}): the fault was swallowed and the object is not stored")
            else:
                ctx.check(matches(res, mode, 3), f"{what} ({FAULTS.fired}): the fault was swallowed and the object is wrong")
        else:
            ctx.check(isinstance(err, Exception), f"{what}: reported")
            if case["op"] == "load" and not case["rm"]:
                ctx.eq({f: h for f, h in snap(d).items() if f in base}, base, f"{what}: a failed load changes no stored file")
                ctx.check(matches(load(mine), mode, 3), f"{what}: the object still loads after a failed load")
            if case["op"] == "save":  # the operation can be repeated
                q = do_save(name, mode, 4)
                ctx.check(matches(load(q), mode, 4), f"{what}: saving again works")
    else:
        ctx.fail("more file-system events than expected", "60")
    ctx.traces += at


def r_torn(case, ctx, d):
    """writes cut after k bytes (file-size limit): the save is reported as failed or the object is complete"""
    from mrmustard.utils.serialize import load

    mode = case["mode"]
    live = populate(d)
    ref = do_save("zz", mode, 3)
    size = max(p.stat().st_size for p in d.iterdir())
    for p in members(ref):
        (d / p).unlink(missing_ok=True)
    base = snap(d)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for lim in sorted({*range(0, 64, 8), *range(64, size + 96, 61), size - 1, size}):
        err = res = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        try:
            res = do_save("c", mode, 3)
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        what = f"writes cut at {lim} bytes"
        others_ok(ctx, d, live, base, {"c.json", "c.npz", "c.zip"}, what)
        if err is None:
            try:
                good = matches(load(res), mode, 3)
            except Exception as e:  # noqa: BLE001
                good = False
                err = e
            ctx.check(good, f"{what}: the save was not reported as failed and the object does not load", repr(err))
        else:
            # nothing that loads as the object may have another content
            for s in (".zip", ".json"):
                q = d / ("c" + s)
                if q.exists():
                    try:
                        obj = load(q)
                    except Exception:  # noqa: BLE001
                        continue
                    ctx.check(matches(obj, mode, 3), f"{what}: a torn object loads with another content")
        for p in d.glob("c.*"):
            if p.name in ("c.json", "c.npz", "c.zip"):
                p.unlink()
        ctx.transitions += 1
        ctx.see(err is None)
    ctx.traces += 1


def r_foreign(case, ctx, d):
    """files of the same stem that were not written by the library, and archives that were moved"""
    from mrmustard.utils.serialize import load

    for mode in ("zip", "plain", "circuit"):
        for p in d.iterdir():
            if p.is_file():
                p.unlink()
        p = do_save("a", mode, 5)
        if p.suffix == ".zip":
            # another object kept unpacked next to the archive under the same stem
            (d / "a.txt").write_text("x")
            base = snap(d)
            ctx.check(matches(load(p), mode, 5), f"{mode}: loads")
            ctx.eq(snap(d), base, f"{mode}: files next to the archive")
            other = do_save("o", "plain", 6)
            keep_json, keep_npz = other.read_bytes(), other.with_suffix(".npz").read_bytes()
            (d / "a.json").write_bytes(keep_json)
            (d / "a.npz").write_bytes(keep_npz)
            base = snap(d)
            ctx.check(matches(load(p), mode, 5), f"{mode}: loads with namesakes next to it")
            ctx.eq(snap(d), base, f"{mode}: unpacked files next to the archive survive its loading")
            ctx.check(matches(load(d / "a.json"), "plain", 6), f"{mode}: the unpacked object is still itself")
            base = snap(d)
            ctx.check(matches(load(p, remove_after=True), mode, 5), f"{mode}: loads and removes")
            ctx.eq(snap(d), {k: v for k, v in base.items() if k != "a.zip"}, f"{mode}: removing the archive leaves its namesakes")
            ctx.check(matches(load(d / "a.json"), "plain", 6), f"{mode}: the unpacked object is still itself after the removal")
        ctx.transitions += 4
        ctx.see(mode)
    ctx.traces += 1


def r_bad(case, ctx, d):
    """refused requests change nothing"""
    from mrmustard import math
    from mrmustard.utils.serialize import load, save

    live = populate(d)
    base = snap(d)
    ctx.raises(ValueError, lambda: save(Obj, filename="q", arrays={"x": np.ones(2)}, x=3), "clashing names")
    ctx.eq(snap(d), base, "clashing names: nothing written")
    ctx.raises(TypeError, lambda: save(Obj, filename="q", x=object()), "content that cannot be stored")
    others_ok(ctx, d, live, base, {"q.json"}, "content that cannot be stored")
    ctx.raises(TypeError, lambda: save(Obj, filename="q2", arrays={"x": np.ones(2)}, y={1, 2}), "content that cannot be stored, with arrays")
    others_ok(ctx, d, live, base, {"q.json", "q2.json", "q2.npz"}, "content that cannot be stored, with arrays")
    for rm in (False, True):
        for bad in ("missing.json", "missing.zip", "missing"):
            ctx.raises(Exception, lambda: load(d / bad, remove_after=rm), f"{bad} is reported")
    junk = d / "junk.json"
    junk.write_text("{not json")
    ctx.raises(Exception, lambda: load(junk), "a corrupt file is reported")
    ctx.check(junk.exists(), "a corrupt file is kept")
    junkz = d / "junk.zip"
    junkz.write_bytes(b"PK\x03\x04 nothing")
    ctx.raises(Exception, lambda: load(junkz, remove_after=True), "a corrupt archive is reported")
    ctx.check(junkz.exists(), "a corrupt archive is kept")
    others_ok(ctx, d, live, base, set(), "corrupt files")
    for z in (True, False):
        pk = Path(save(Picky, filename="pk", do_zip=z, arrays={"x": np.ones(2)}, y=1))
        base = snap(d)
        for rm in (False, True):
            ctx.raises(RuntimeError, lambda: load(pk, remove_after=rm), "an object that cannot be rebuilt is reported")
            ctx.eq(snap(d), base, "an object that could not be rebuilt is kept")
    p, q = do_save("jz", "zip", 1), do_save("jp", "plain", 2)
    base = snap(d)
    if math.backend_name == "numpy":
        math.change_backend("jax")
        try:
            for rm in (False, True):
                ctx.raises(TypeError, lambda: load(p, remove_after=rm), "other backend, archive")
                ctx.raises(TypeError, lambda: load(q, remove_after=rm), "other backend, plain")
                ctx.eq(snap(d), base, "other backend: files kept")
        finally:
            math.change_backend("numpy")
        ctx.check(matches(load(p), "zip", 1) and matches(load(q), "plain", 2), "still there for the right backend")
    ctx.transitions += 12
    ctx.see("bad")
    ctx.traces += 1


def r_names(case, ctx, d):
    """automatic names never collide; odd names stay separate"""
    from mrmustard.utils.serialize import load

    paths = [do_save(None, m, k) for k, m in enumerate(("zip", "plain", "bare") * 20)]
    ctx.eq(len(set(p.stem for p in paths)), 60, "automatic names are distinct")
    for k, (p, m) in enumerate(zip(paths, ("zip", "plain", "bare") * 20)):
        ctx.check(matches(load(p), m, k), "automatically named objects load")
    names = ["n", "n.zip", "n.npz", "n.json.x", "N", "n n", "n.", ".n", "é", "n-1", "n.1", "n.1.2", "sub/n", "sub2/n", "sub/n.1"]
    from mrmustard import settings

    for x in ("sub", "sub2"):
        (Path(settings.CACHE_DIR) / x).mkdir(exist_ok=True)
    for modes in itertools.product(("zip", "plain"), repeat=2):
        got = {}
        for k, n in enumerate(names):
            got[n] = (do_save(n, modes[k % 2], k), modes[k % 2], k)
        for n, (p, m, k) in got.items():
            try:
                ctx.check(matches(load(p), m, k), f"name {n!r} loads ({modes})")
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"name {n!r} does not load ({modes})", f"{type(e).__name__}: {e}"[:150])
        for n, (p, m, k) in got.items():
            try:
                load(p, remove_after=True)
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"name {n!r} does not load for removal ({modes})", f"{type(e).__name__}: {e}"[:150])
        ctx.transitions += len(names)
    ctx.see("names")
    ctx.traces += 1
