"""Planted bugs.  usage:
  seed.py make ID PROP NEEDS BREAKS   patch := diff of /tmp/seed/w (a copy of /repo), which is then reset
  seed.py test ID... [--tests] [--check]   in a private mount namespace where a patched copy sits on /repo
"""
import json, os, subprocess, sys, shutil, tempfile

ROOT = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def make(ID, prop, needs, breaks):
    d = f"{ROOT}/{ID}"
    os.makedirs(d, exist_ok=True)
    p = sh("git -C /tmp/seed/w diff").stdout
    assert p.strip(), "no change"
    open(f"{d}/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if not os.path.exists(f"{d}/demo.sh"):
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH=/repo\nW=$(mktemp -d) || exit 3\ntrap \'rm -rf "$W"\' EXIT\nexport NUMBA_CACHE_DIR=$W/numba WORK=$W\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    sh("git -C /tmp/seed/w checkout -- .")


def test(ID, tests, check):
    d = f"{ROOT}/{ID}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    T = tempfile.mkdtemp(prefix="seedrun.", dir="/tmp/seed")
    sh(f"cp -a /repo {T}/repo && cp -a /verif {T}/verif && rm -rf {T}/verif/seeded {T}/verif/evidence/* && cp -a {d} {T}/d && rm -f {T}/d/patch.diff {T}/d/meta.json && chmod -R a+rX {T}")
    script = f"""
mount --bind {T}/repo /repo; mount --bind {T}/verif /verif; cd /repo
git apply --check {T}/p.diff || echo APPLY-FAIL
bash {T}/d/demo.sh >{T}/demo0 2>&1; echo demo-clean $?
git apply {T}/p.diff
bash /opt/vp/build.sh >{T}/build 2>&1; echo build $?
bash {T}/d/demo.sh >{T}/demo1 2>&1; echo demo-patched $?
"""
    if check:
        script += f"cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./run {prop} quick >{T}/chk 2>&1; echo check $?; cd /repo\n"
    if tests:
        script += f"bash /opt/vp/test.sh {T}/out.json >{T}/tests 2>&1; echo tests $?\n"
    shutil.copy(f"{d}/patch.diff", f"{T}/p.diff")
    r = sh(f"unshare -Urm bash -c '{script}'")
    print(f"== {ID} [{prop}]: " + ", ".join(r.stdout.split("\n")).strip(", "), r.stderr[-300:])
    print("   clean:", open(f"{T}/demo0").read().strip()[-200:].replace("\n", " | "))
    print("   patched:", open(f"{T}/demo1").read().strip()[-300:].replace("\n", " | "))
    if check:
        print("   check:", "\n          ".join(l[:220] for l in open(f"{T}/chk").read().split("\n")[:7]))
    if tests and os.path.exists(f"{T}/out.json"):
        o = json.load(open(f"{T}/out.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set(o.get("passed", []))
        bad = sorted(stable - passed)
        print(f"   tests: {len(stable)-len(bad)}/{len(stable)} stable pass", bad[:5])
    assert T.startswith("/tmp/seed/seedrun.")
    shutil.rmtree(T)
    sys.stdout.flush()


if sys.argv[1] == "make":
    make(*sys.argv[2:6])
else:
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    for i in ids or sorted(os.listdir(ROOT)):
        test(i, "--tests" in sys.argv, "--check" in sys.argv)
