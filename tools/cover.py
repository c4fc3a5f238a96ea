"""Which lines of /repo/hrosailing do the checks execute?  python tools/cover.py [ids]  (sys.monitoring, quick tier)"""
import ast, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/cover"


def one(pid):
    sys.argv = ["run.py", pid]
    seen = {}
    m = sys.monitoring
    m.use_tool_id(3, "cover")

    def line(code, n):
        f = code.co_filename
        if "/hrosailing/" in f:
            seen.setdefault(f, set()).add(n)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    os.environ["VF_REPO"] = os.environ.get("VF_REPO", "/repo")
    import run
    rc = run.main(pid)
    os.makedirs(OUT, exist_ok=True)
    json.dump({f: sorted(v) for f, v in seen.items()}, open(os.path.join(OUT, pid + ".json"), "w"))
    sys.stdout.flush()
    os._exit(rc)


def code_lines(path):
    out = set()
    def walk(co):
        out.update(l for _, _, l in co.co_lines() if l)
        for k in co.co_consts:
            if hasattr(k, "co_lines"):
                walk(k)
    src = open(path).read()
    walk(compile(src, path, "exec"))
    doc = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.update(range(n.lineno, n.end_lineno + 1))
    return out - doc


if __name__ == "__main__" and len(sys.argv) == 3 and sys.argv[1] == "--one":
    one(sys.argv[2])
elif __name__ == "__main__":
    ids = sys.argv[1:] or sorted(json.load(open(os.path.join(ROOT, "tools", "checks.json"))))
    for i in ids:
        subprocess.run(["/opt/venv/bin/python", "-B", os.path.abspath(__file__), "--one", i], stdout=subprocess.DEVNULL, timeout=600, cwd=ROOT,
                       env=dict(os.environ, PYTHONHASHSEED="0"))
    tot = {}
    for f in os.listdir(OUT):
        for k, v in json.load(open(os.path.join(OUT, f))).items():
            tot.setdefault(k, set()).update(v)
    for d, _, fs in sorted(os.walk("/repo/hrosailing")):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                miss = sorted(code_lines(p) - tot.get(p, set()))
                n = len(code_lines(p))
                if miss:
                    print(p[6:], "%d of %d lines not executed:" % (len(miss), n), " ".join(map(str, miss)))
