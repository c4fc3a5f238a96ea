"""Plant a bug: confirm it in a scratch copy of /repo and keep it under /verif/seeded/<id>/.
   seed(id, prop, [(file, old, new), ...], demo, needs, breaks)     (used from small scripts)
   python tools/seed.py check [id ...]    re-confirm kept bugs and say which checks catch them
"""
import atexit, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedcopy-%d" % os.getpid()
atexit.register(lambda: shutil.rmtree(COPY, ignore_errors=True))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
DEMO_SH = """#!/bin/bash
# run in the repository: exit 0 if the property holds
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def fresh():
    shutil.rmtree(COPY, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", COPY])
    subprocess.check_call(["git", "-C", COPY, "checkout", "-q", "--", "."])


def tests(cwd):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "--maxfail=4", "tests"], cwd=cwd,
                       env=ENV, capture_output=True, text=True)
    m = re.search(r"(\d+) failed, (\d+) passed|(\d+) passed", r.stdout)
    return m.group(0) if m else r.stdout[-500:]


def demo(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True)


def check(prop, repo=COPY):
    r = subprocess.run([PY, os.path.join(ROOT, "checks", "run.py"), prop], env=dict(ENV, VF_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
    return r.returncode, r.stdout[-300:]


def seed(id, prop, edits, demo_code, needs, breaks):
    fresh()
    for f, a, b in edits:
        p = os.path.join(COPY, f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", COPY, "diff"], capture_output=True, text=True).stdout
    files = {f for f, _, _ in edits}
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    orig = {l for f in files for l in subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True).split("\n")}
    gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    if not all(l in orig for l in gone):
        print(id, "CHANGES LINES NOT IN THE ORIGINAL", [l for l in gone if l not in orig])
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(d, "demo.py"), "w").write(demo_code)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a, b, t = demo(d, "/repo"), demo(d, COPY), tests(COPY)
    ok = a.returncode == 0 and b.returncode != 0 and t.startswith("2 failed, 377 passed")
    rc, out = check(prop) if ok else (None, "")
    print(id, "demo", a.returncode, b.returncode, "| tests", t, "| check", rc, "CAUGHT" if rc == 1 else "MISSED" if rc == 0 else "?")
    if not ok:
        print("   NOT KEPT", a.stderr[-600:], b.stderr[-300:])
        shutil.rmtree(d)
    elif rc != 1:
        print(out)


if __name__ == "__main__" and sys.argv[1:2] == ["check"]:
    for id in sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        d = os.path.join(ROOT, "seeded", id)
        meta = json.load(open(os.path.join(d, "meta.json")))
        fresh()
        r = subprocess.run(["git", "-C", COPY, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            print(id, "PATCH DOES NOT APPLY", r.stderr[-200:])
            continue
        a, b = demo(d, "/repo"), demo(d, COPY)
        rc, out = check(meta["property"])
        print(id, meta["property"], "demo", a.returncode, b.returncode, "check", rc, "CAUGHT" if rc == 1 else "MISSED", flush=True)
    shutil.rmtree(COPY, ignore_errors=True)
