"""Mutation testing of the checks (development only; no check uses it).
   mutate.py FILE... [-n MUTANTS_PER_FILE] [-s SEED] [-o OUT]
Mutants that the repository's tests do not notice are run against the checks whose properties name the file;
prints the survivors.  Works on a scratch copy of /repo per process."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n, end=False: off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def rep(a, z, new, what):
        out.append((b[:a] + new.encode() + b[z:], what))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef,)):
                if c.name in ("__str__", "__repr__"):
                    continue
                f = c.name
            if isinstance(c, (ast.Raise, ast.Import, ast.ImportFrom)):
                if isinstance(c, ast.Raise) and fn:
                    rep(pos(c), pos(c, True), "pass", "%d %s: raise removed" % (c.lineno, f))
                continue
            if f:
                visit(c, f)
            walk(c, f)

    def visit(n, f):
        txt = lambda x: b[pos(x):pos(x, True)].decode()
        w = lambda s: "%d %s: %s" % (getattr(n, "lineno", 0), f, s)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(pos(n.left, True), pos(n.comparators[0]), " %s " % o, w("%s -> %s" % (txt(n)[:60], o)))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                mid = b[pos(n.left, True):pos(n.right)].decode()
                new = re.sub(r"(\*\*|[-+*/%&|@])", lambda m: o, mid, 1)
                rep(pos(n.left, True), pos(n.right), new, w("%s -> %s" % (txt(n)[:60], o)))
        elif isinstance(n, ast.BoolOp):
            a, c = n.values[0], n.values[1]
            mid = b[pos(a, True):pos(c)].decode()
            new = mid.replace("and", "or") if isinstance(n.op, ast.And) else mid.replace("or", "and")
            rep(pos(a, True), pos(c), new, w("%s: and/or" % txt(n)[:60]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            rep(pos(n), pos(n, True), "(" + txt(n.operand) + ")", w("%s: negation removed" % txt(n)[:60]))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            rep(pos(n), pos(n, True), repr(n.value + 1), w("%r -> %r" % (n.value, n.value + 1)))
            if n.value == 1:
                rep(pos(n), pos(n, True), "0", w("1 -> 0"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(pos(n), pos(n, True), repr(not n.value), w("%r flipped" % n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all", "sorted", "list", "abs", "reversed", "set"):
            sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
            if n.func.id in sw:
                rep(pos(n.func), pos(n.func, True), sw[n.func.id], w("%s swapped" % txt(n)[:60]))
            elif len(n.args) == 1 and not n.keywords:
                rep(pos(n), pos(n, True), "(" + txt(n.args[0]) + ")", w("%s dropped" % txt(n)[:60]))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "ravel", "sort"):
            rep(pos(n), pos(n, True), "(" + txt(n.func.value) + ")", w("%s dropped" % txt(n)[:60]))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and all(not isinstance(a, ast.Starred) for a in n.args):
            x, y = n.args
            rep(pos(x), pos(y, True), txt(y) + b[pos(x, True):pos(y)].decode() + txt(x), w("arguments of %s swapped" % txt(n)[:60]))
        elif isinstance(n, ast.IfExp):
            rep(pos(n.test), pos(n.test, True), "not (" + txt(n.test) + ")", w("%s: condition negated" % txt(n)[:60]))
        elif isinstance(n, (ast.If, ast.While)):
            rep(pos(n.test), pos(n.test, True), "(not (" + txt(n.test) + "))", w("if/while %s negated" % txt(n.test)[:60]))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(pos(n), pos(n, True), "pass", w("%s: statement removed" % txt(n)[:60].replace("\n", " ")))
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(pos(n), pos(n, True), "pass", w("continue/break removed"))
        elif isinstance(n, ast.comprehension) and n.ifs:
            t = n.ifs[0]
            rep(pos(t), pos(t, True), "True", w("filter %s removed" % txt(t)[:60]))

        sem = lambda a, z, new, s: rep(a, z, new, "%d %s: sem: %s" % (getattr(n, "lineno", 0), f, s.replace("\n", " ")))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            sem(pos(n), pos(n, True), "(not %s)" % txt(n.left) if isinstance(n.ops[0], ast.Is) else "bool(%s)" % txt(n.left), txt(n) + " -> truth value")
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            sem(pos(n), pos(n, True), "(%s)" % txt(n.left), txt(n)[:50] + " -> mod dropped")
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            sem(pos(n), pos(n, True), "(%s) // (%s)" % (txt(n.left), txt(n.right)), txt(n)[:50] + " -> //")
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and len(n.targets) == 1 and txt(n.targets[0]) == txt(n.value.left):
            o = b[pos(n.value.left, True):pos(n.value.right)].decode().strip()
            sem(pos(n), pos(n, True), "%s %s= %s" % (txt(n.targets[0]), o, txt(n.value.right)), txt(n)[:50] + " -> in place")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            sem(pos(n.slice), pos(n.slice, True), "-1", txt(n)[:50] + " -> [-1]")
        if isinstance(n, ast.Call):
            name = txt(n.func)
            if name == "isinstance" and len(n.args) == 2:
                if isinstance(n.args[1], ast.Tuple):
                    for k in range(len(n.args[1].elts)):
                        sem(pos(n.args[1]), pos(n.args[1], True), "(%s,)" % ", ".join(txt(x) for j, x in enumerate(n.args[1].elts) if j != k), txt(n) + " -> without type %d" % k)
                else:
                    sem(pos(n), pos(n, True), "(type(%s) is %s)" % (txt(n.args[0]), txt(n.args[1])), txt(n) + " -> exact type")
            if name in ("np.isclose", "np.allclose") and len(n.args) >= 2:
                sem(pos(n), pos(n, True), "np.all((%s) == (%s))" % (txt(n.args[0]), txt(n.args[1])), txt(n)[:50] + " -> ==")
            if name.startswith("np.") and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
                sem(pos(n), pos(n, True), "(%s)" % txt(n.args[0]), txt(n)[:50] + " -> call dropped")
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                sem(pos(n), pos(n, True), "(%s)" % txt(n.func.value), txt(n)[:50] + " -> method dropped")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2:
                sem(pos(n), pos(n, True), "%s[%s]" % (txt(n.func.value), txt(n.args[0])), txt(n)[:50] + " -> []")
            for k in n.keywords:
                rest = [txt(x) for x in n.args] + [("**" if x.arg is None else x.arg + "=") + txt(x.value) for x in n.keywords if x is not k]
                sem(pos(n), pos(n, True), "%s(%s)" % (name, ", ".join(rest)), "%s(..) without %s" % (name[:40], k.arg))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for k in range(len(n.type.elts)):
                    sem(pos(n.type), pos(n.type, True), "(%s,)" % ", ".join(txt(x) for j, x in enumerate(n.type.elts) if j != k), "except without type %d" % k)
            else:
                sem(pos(n.type), pos(n.type, True), "Exception", "except %s -> Exception" % txt(n.type))
                sem(pos(n.type), pos(n.type, True), "()", "except %s -> nothing caught" % txt(n.type))

    walk(tree, None)
    res = []
    for new, what in out:
        if new == b:
            continue
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        res.append((new, what))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default="/tmp/mutants.log")
    ap.add_argument("-g", default="", help="only mutants whose description matches")
    ap.add_argument("-c", default="", help="comma separated checks instead of those naming the file")
    a = ap.parse_args()
    copy = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    repo = copy + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    log = open(a.o, "a")
    try:
        for f in a.files:
            src = open(os.path.join("/repo", f)).read()
            ms = [m for m in mutants(src) if re.search(a.g, m[1])]
            r = random.Random(a.s)
            r.shuffle(ms)
            checks = a.c.split(",") if a.c else [p["id"] for p in props if f in p["anchors"]["files"]] + ["C38"]
            cnt = dict(killed=0, caught=0, survived=0, machinery=0)
            for new, what in ms[:a.n]:
                open(os.path.join(repo, f), "wb").write(new)
                try:
                    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--maxfail=3", "tests"], cwd=repo, env=ENV, capture_output=True, text=True, timeout=200).stdout
                except subprocess.TimeoutExpired:
                    t = "timeout"
                if not re.search(r"2 failed, 377 passed", t):
                    cnt["killed"] += 1
                    continue
                verdict = "SURVIVED"
                for c in checks:
                    try:
                        rc = subprocess.run([PY, ROOT + "/checks/run.py", c], env=dict(ENV, VF_REPO=repo), capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        verdict = "caught by %s (timeout)" % c
                        break
                    if rc.returncode == 1:
                        verdict = "caught by " + c
                        break
                    if rc.returncode == 2:
                        verdict = "MACHINERY " + c + rc.stderr[-300:].replace("\n", " / ")
                cnt["caught" if "caught" in verdict else "survived" if verdict == "SURVIVED" else "machinery"] += 1
                print(f, "|", what.replace("\n", " "), "|", verdict, file=log, flush=True)
            open(os.path.join(repo, f), "w").write(src)
            print("==", f, len(ms), cnt, checks, file=log, flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    main()
