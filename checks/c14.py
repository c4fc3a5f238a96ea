"""C14: saving and loading polar diagrams against spec/Persist.tla."""
import os, hashlib, pathlib
import numpy as np
import vf
from num import q, qs, qm
import hrosailing.core.modelfunctions as mf
from hrosailing.polardiagram import (PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable,
                                     from_csv)


def r(x):
    return repr(float(x))


def content(d):
    """the diagram as a record of strings"""
    if isinstance(d, PolarDiagramMultiSails):
        return {"kind": "multi", "names": [str(x) for x in d.sails], "subs": [content(x) for x in d.diagrams]}
    if isinstance(d, PolarDiagramTable):
        c = ["table"] + [r(x) for x in d.wind_speeds] + ["/"] + [r(x) for x in d.wind_angles] + ["/"] + [r(x) for x in np.ravel(d.boat_speeds)]
    elif isinstance(d, PolarDiagramPointcloud):
        c = ["cloud", str(np.asarray(d.points).shape)] + [r(x) for x in np.ravel(d.points)]
    elif isinstance(d, PolarDiagramCurve):
        c = ["curve", d.curve.__name__, str(bool(d.radians))] + [r(x) for x in d.parameters]
    else:
        c = ["?"]
    return {"kind": "plain", "c": c}


def num(rng):
    x = rng.random()
    if x < .3:
        return float(rng.randint(0, 30))
    if x < .6:
        return rng.randint(0, 400) / 4
    if x < .9:
        return rng.random() * rng.choice([1, 20, 1e-7])
    return rng.choice([1e-300, 1e16, 0.1 + 0.2, 1 / 3])


def table(rng):
    W = rng.sample(range(0, 60), rng.randint(1, 4))
    A = rng.sample(range(0, 360), rng.randint(1, 4))
    if rng.random() < .05:      # measured finely
        W, A = rng.sample(range(0, 60), rng.choice([3, 24, 30])), rng.sample(range(0, 360), rng.randint(37, 110))
    if rng.random() < .25:      # dead ahead, no wind
        A = [0] + [a for a in A if a]
    if rng.random() < .15:
        W = [0] + [w for w in W if w]
    if rng.random() < .5:
        W, A = [w + rng.random() for w in W], [a + rng.random() / 3 for a in A]
    return PolarDiagramTable(W, A, [[num(rng) for _ in W] for _ in A])


def cloud(rng):
    n = rng.randint(0, 5) if rng.random() < .3 else rng.randint(1, 5)
    if rng.random() < .05:
        n = rng.randint(50, 160)
    return PolarDiagramPointcloud(np.array([[num(rng), rng.random() * 360, num(rng)] for _ in range(n)], float).reshape(-1, 3))


FUNS = ["ws_times_wa", "ws_concave_dt_wa", "ws_wa_s_dt", "ws_s_dt_wa_gauss", "ws_s_s_dt_wa_gauss_comb", "ws_s_wa_gauss", "ws_s_wa_gauss_and_square"]


def curve(rng):
    while True:
        f = getattr(mf, rng.choice(FUNS))
        p = [rng.choice([rng.randint(1, 9), rng.random() * 10, np.float64(rng.random()), -rng.random(), 2e-5, 0, 0.0, -3]) for _ in range(rng.choice([1, 9, 10, 10, 11, 12, 14]))]
        st, d = vf.call(PolarDiagramCurve, f, *p, radians=rng.random() < .5)
        if st == "ok":
            return d


def plain(rng):
    return rng.choice([table, table, cloud, curve])(rng)


NAMES = ["Jib", "Main sail", "Genoa:1", "a,b", 'quo"te', "ä", "", "Sail 1", "#", " Jib", "Jib ", "jib", "x  y", "0", "None"]


def diagram(rng, d):
    if d["kind"] == "plain":
        return plain(rng)
    return PolarDiagramMultiSails([plain(rng) for _ in d["subs"]], [rng.choice(NAMES) for _ in d["subs"]])


def snap(root):
    out = {}
    for b, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, root)] = hashlib.md5(g.read()).hexdigest()
    return out


def split(f):
    d, n = os.path.split(f)
    i = n.index(".") if "." in n else len(n)
    return [d, n[:i], n[i:]]


SEP = {"orc": ";", "opencpn": ",", "array": "\t"}


class World:
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        self.dir = os.path.join(c.scratch, "w%d" % rng.getrandbits(40))
        os.makedirs(os.path.join(self.dir, "cwd", "d"))
        os.makedirs(os.path.join(self.dir, "cwd", "e.x"))
        os.makedirs(os.path.join(self.dir, "cwd", "s p"))
        self.root = os.path.join(self.dir, "cwd")
        self.new = True

    def path(self, p):
        f = os.path.join(p[0], p[1] + p[2])
        x = self.rng.random()
        if x < .3:
            return os.path.join(self.root, f)
        if x < .45:
            return os.path.join(".", f)
        if x < .6:
            return pathlib.Path(f)
        return f

    def act(self, f):
        old = os.getcwd()
        a = snap(self.dir)
        os.chdir(self.root)
        try:
            st, v = vf.call(f)
        finally:
            os.chdir(old)
        b = snap(self.dir)
        ch = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        return st, v, [split(os.path.relpath(k, "cwd")) for k in ch], [split(os.path.relpath(k, "cwd")) for k in b]

    def ev(self, **k):
        self.c.ev(new=self.new, **k)
        self.new = False

    def save(self, p, d, fmt=None, kf=None):
        cd = content(d)
        st, v, ch, files = self.act(lambda: d.to_csv(self.path(p), **({"fmt": fmt} if fmt else {})))
        cells = self.cells(p, fmt) if st == "ok" and fmt in SEP and isinstance(d, PolarDiagramTable) else []
        self.ev(op="save", p=p, d=cd, out=vf.outcome(st, v), changed=ch, files=files, after=content(d), fmt=fmt or "", cells=cells,
                size=list(d.boat_speeds.shape) if isinstance(d, PolarDiagramTable) else [], **({"kf": kf} if kf else {}))

    def cells(self, p, fmt):
        """number of cells of every line of a written table file"""
        with open(os.path.join(self.root, p[0], p[1] + p[2]), encoding="utf-8") as f:
            return [len(ln.split(SEP[fmt])) for ln in f.read().split("\n") if ln]

    def load(self, p, fmt=None, kf=None):
        st, v, ch, files = self.act(lambda: from_csv(self.path(p), **({"fmt": fmt} if fmt else {})))
        self.ev(op="load", p=p, d=content(v) if st == "ok" else {"kind": "none"}, out=vf.outcome(st, v), changed=ch, **({"kf": kf} if kf else {}))
        return v if st == "ok" else None

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def replay(c, rng, h):
    w = World(c, rng)
    for o in h:
        d = diagram(rng, o["d"])
        w.save(o["p"], d)
        if isinstance(d, PolarDiagramTable) and rng.random() < .5:
            d.change_entries(np.full(d.boat_speeds.shape, 7.) if d.boat_speeds.size > 1 and min(d.boat_speeds.shape) > 1 else np.full(max(d.boat_speeds.shape), 7.))
        if rng.random() < .4:
            w.load(o["p"])
    ps = [["", "a", ".csv"], ["d", "a", ".csv"], ["", "b", ".csv"]]
    for p in ps:
        w.load(p)
    w.close()


def rand(c, rng):
    w = World(c, rng)
    ps = [["", "x", ".csv"], ["d", "x", ".v1.csv"], ["e.x", "x", ".csv"], ["e.x", "y", ""], ["", "zz", ".txt"], ["", "zz_1", ".csv"], ["", "zz_sail", ".csv"], ["s p", "my boat", ".csv"], ["", "My boat", ".csv"]]
    if rng.random() < .5:
        ps = rng.sample(ps, 5)
    fmts = {}
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(ps))
        if rng.random() < .6:
            k = rng.random()
            if k < .4:
                n = rng.randint(1, 4) if rng.random() < .85 else rng.randint(10, 13)
                w.save(ps[i], PolarDiagramMultiSails([plain(rng) for _ in range(n)], [rng.choice(NAMES) for _ in range(rng.randint(0, n))]))
                fmts[i] = None
            elif k < .7:
                fmts[i] = rng.choice(["hro", "orc", "opencpn", "array", None])
                w.save(ps[i], table(rng), fmts[i])
            else:
                w.save(ps[i], plain(rng))
                fmts[i] = None
        else:
            v = w.load(ps[i], fmts.get(i))
            if v is not None and rng.random() < .4:
                w.save(ps[i], v, fmts.get(i))      # save again what was loaded
    for i in range(len(ps)):
        w.load(ps[i], fmts.get(i))
    w.close()


def same_stem(c, rng):
    """known finding: the files of the sails are named after the stem of the file name only"""
    w = World(c, rng)
    mk = lambda: PolarDiagramMultiSails([table(rng)], ["s"])
    p1, p2 = ["", "a", ".v1.csv"], ["", "a", ".v2.csv"]
    w.save(p1, mk(), kf="same-stem")
    w.save(p2, mk(), kf="same-stem")
    w.load(p1, kf="same-stem")
    w.load(p2, kf="same-stem")
    w.close()


def s4(x, rng):
    x = x / 4
    return str(int(x)) if x == int(x) and rng.random() < .6 else str(x)


def foreign(c, rng):
    fmt = rng.choice(["orc", "opencpn", "array", "hro"])
    nw, na = rng.randint(1, 5), rng.randint(1, 5)
    W, A = rng.sample(range(1, 120), nw), rng.sample(range(0, 1440), na)
    if rng.random() < .6:
        W.sort()
        A.sort()
    b = [[rng.randint(0, 80) for _ in W] for _ in A]
    deg = fmt in ("orc", "opencpn") and rng.random() < .5
    sep = {"orc": ";", "opencpn": ",", "array": "\t", "hro": ","}[fmt]
    head = {"orc": "twa/tws", "opencpn": "TWA\\TWS", "array": "TWA\\TWS", "hro": ""}[fmt]
    cells = [[s4(x, rng) for x in r_] for r_ in b]
    if fmt in ("orc", "opencpn"):
        for i in range(na):
            for j in range(nw):
                if rng.random() < .1:
                    cells[i][j], b[i][j] = "", 0
    valid, err, bad = True, "", rng.random()
    Ws, As = [s4(x, rng) for x in W], [s4(x, rng) + ("°" if deg else "") for x in A]
    rf = fmt
    if bad < .3:
        valid = False
        k = rng.randrange(4)
        i, j = rng.randrange(na), rng.randrange(nw)
        if k == 0 and nw > 1:
            cells[i] = cells[i][:-1]
        elif k == 1:
            cells[i][j] = "abc"
        elif k == 2:
            rf, err = rng.choice(["csv", "ORC", ""]), "ValueError"
        elif k == 3 and fmt == "hro":
            err = "FileReadingException"
        else:
            Ws[j] = "fast"
    if fmt == "hro":
        name = "PolarDiagramTable" if err != "FileReadingException" else rng.choice(["PolarDiagram", "Table", "", "polardiagramtable", "TWS"])
        rows = [[name], ["TWS"], Ws, ["TWA"], As, ["BSP"]] + cells
    else:
        rows = [[head] + Ws] + ([["0"] * (nw + 1)] if fmt == "orc" else []) + [[a] + r_ for a, r_ in zip(As, cells)]
    nl = rng.choice(["\n", "\r\n"])
    text = nl.join(sep.join(x) for x in rows) + (nl if rng.random() < .8 else "")
    w = World(c, rng)
    with open(os.path.join(w.root, "f.csv"), "w", newline="", encoding="utf-8") as f:
        f.write(text)
    st, v, _, _ = w.act(lambda: from_csv("f.csv", fmt=rf) if rf != "hro" or rng.random() < .5 else from_csv("f.csv"))
    t = {"ws": [], "wa": [], "bsp": []}
    if st == "ok" and isinstance(v, PolarDiagramTable):
        t = {"ws": qs(v.wind_speeds), "wa": qs(v.wind_angles), "bsp": qm(v.boat_speeds)}
    c.ev(new=True, op="foreign", fmt=fmt, ws=W, wa=A, b=b, valid=valid, err=err, out=vf.outcome(st, v), t=t, text=text)
    w.close()


def main(c):
    for h in c.gen("MCPersist", limit=c.n(120, 4000)):
        replay(c, c.rng, h)
    for _ in range(c.n(80, 1500)):
        rand(c, c.rng)
    same_stem(c, c.rng)
    for _ in range(c.n(300, 4000)):
        foreign(c, c.rng)
    c.validate("TracePersist")
