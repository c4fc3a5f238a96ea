"""C36: printed diagrams, directions, data tables and fuzzy statements against spec/Show.tla."""
import operator
import re
import numpy as np
import vf
from hrosailing.core.data import Data
from hrosailing.cruising import Direction
from hrosailing.polardiagram import PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable
from hrosailing.processing import FuzzyVariable
from hrosailing.processing.weigher import FuzzyBool

REL = {"gt": operator.gt, "ge": operator.ge, "lt": operator.lt, "le": operator.le, "eq": operator.eq}
TY = {"<class 'float'>": "float", "<class 'str'>": "str"}


def lines(d):
    out = []
    for ln in str(d).split("\n"):
        w = ["+" if set(t) == {"+"} else t for t in ln.split()]
        if w:
            out.append(w)
    return out


def table(t):
    b = [[v / 4 for v in r] for r in t["b"]]
    return PolarDiagramTable([x / 2 for x in t["ws"]], [x / 2 for x in t["wa"]], b)


def build(d):
    if d["kind"] == "table":
        return table(d)
    if d["kind"] == "cloud":
        return PolarDiagramPointcloud(np.array(d["pts"], float).reshape(-1, 3) / 4)
    return PolarDiagramMultiSails([table(t) for t in d["parts"]], [" ".join(n) for n in d["names"]])


def apply(x, o, d):
    if o["op"] == "point":
        return x.add_points([[v / 4 for v in o["v"]]])
    t = d if o["op"] == "entry" else d["parts"][o["p"] - 1]
    y = x if o["op"] == "entry" else x.diagrams[o["p"] - 1]
    # the edited table is read back: sorted axes, so that the model's index is the table's
    y.change_entries(o["v"] / 4, ws=t["ws"][o["j"] - 1] / 2, wa=t["wa"][o["i"] - 1] / 2)


def history(c, d, ops):
    st, x = vf.call(build, d)
    if st != "ok":
        return c.ev(new=True, op="make", d=d, out=vf.outcome(st, x))
    show(c, x, op="make", new=True, d=d)
    for o in ops:
        st, r = vf.call(apply, x, o, d)
        if st != "ok":
            return c.ev(new=False, op=o["op"], o=o, out=vf.outcome(st, r))
        show(c, x, op=o["op"], new=False, o=o)


def show(c, x, **k):
    st, a = vf.call(lines, x)
    st2, b = vf.call(lines, x)
    c.ev(**k, out=vf.outcome(st, a), lines=a if st == "ok" else [], again=b if st2 == "ok" else [])


def rtable(rng, n=None):
    n = n or rng.choice([1, 2, 5, 9, 10, 11, 14, 15, 16, 17, 20, 31])
    m = rng.randint(1, 9)
    top = rng.choice([40, 400, 3999])
    return dict(kind="table", ws=sorted(rng.sample(range(1, 120), n)), wa=sorted(rng.sample(range(0, 720), m)),
                b=[[rng.randint(-40 if rng.random() < .1 else 0, top) for _ in range(n)] for _ in range(m)])


def rand(c, rng):
    k = rng.random()
    if k < .45:
        d = rtable(rng)
        ops = [dict(op="entry", i=rng.randint(1, len(d["wa"])), j=rng.randint(1, len(d["ws"])), v=rng.randint(0, 400)) for _ in range(rng.randint(0, 3))]
    elif k < .75:
        pt = lambda: [rng.randint(1, 200), rng.randint(0, 1439), rng.randint(-40 if rng.random() < .2 else 0, 120)]
        d = dict(kind="cloud", pts=[pt() for _ in range(rng.choice([0, 1, 2, 7, 40]))])
        ops = [dict(op="point", v=pt()) for _ in range(rng.randint(0, 3))]
    else:
        n = rng.randint(1, 4)
        d = dict(kind="multi", names=[rng.choice([["Genua"], ["G", str(i)], [str(i)]]) for i in range(n)], parts=[rtable(rng) for _ in range(n)])
        ops = []
        for _ in range(rng.randint(0, 3)):
            p = rng.randint(1, n)
            t = d["parts"][p - 1]
            ops.append(dict(op="part", p=p, i=rng.randint(1, len(t["wa"])), j=rng.randint(1, len(t["ws"])), v=rng.randint(0, 400)))
    history(c, d, ops)


def direction(c, rng):
    a, p = rng.randint(0, 1440), rng.randint(0, 16)
    s = rng.choice([None, "Genua", "Code 0", "0"])
    st, r = vf.call(lambda: str(Direction(a / 4, p / 16, s) if s or rng.random() < .5 else Direction(a / 4, p / 16)).split())
    c.ev(new=True, op="direction", a=a, p=25 * p, sail=s.split() if s else [], out=vf.outcome(st, r), text=r if st == "ok" else [])


def data(c, rng):
    n = rng.choice([1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 30, 130])
    keys = rng.sample(["TWS", "TWA", "BSP", "boat", "LAT"], rng.randint(1, 4))
    cols = {k: [rng.choice("abcxyz") + str(i) if k == "boat" else rng.randint(0, 400) / 4 for i in range(n)] for k in keys}
    old = cols if rng.random() < .6 else {k: v[:-1] + ["old" if k == "boat" else -1.5] for k, v in cols.items()}
    fs = [dict(key=k, type="str" if k == "boat" else "float", items=[str(v) for v in cols[k]]) for k in keys]

    def read():
        d = Data.from_dict(old)
        if old is not cols:        # printed before one row was replaced
            str(d)
            d.delete(n - 1)
            d.update({k: v[-1] for k, v in cols.items()})
        out = []
        for key, ty, items in re.findall(r"Data field '([^']*)' of type (<[^>]*>):\s*\[([^\]]*)\]", str(d)):
            out.append(dict(key=key, type=TY.get(ty, ty), items=[w.strip().strip("'") for w in items.split(",")]))
        return out
    st, r = vf.call(read)
    c.ev(new=True, op="data", fs=fs, out=vf.outcome(st, r), text=r if st == "ok" else [])


def fuzzy(c, rng):
    xs = {"": FuzzyVariable(), "TWS": FuzzyVariable(key="TWS"), "TWA": FuzzyVariable()["TWA"]}

    def tree(n):
        if n == 0:
            if rng.random() < .1:
                return dict(o="crisp"), FuzzyBool(lambda x: 1.)
            k, o, t = rng.choice(list(xs)), rng.choice(list(REL)), rng.choice([1, 2.5, 10, 0, 12.125, -3])
            x = xs[k](rng.randint(1, 9)) if rng.random() < .3 else xs[k]
            return dict(o=o, k=k, t=str(t)), REL[o](x, t)
        if rng.random() < .3:
            f, g = tree(n - 1)
            return dict(o="not", l=f), ~g
        f, g = tree(rng.randrange(n))
        f2, g2 = tree(rng.randrange(n))
        return (dict(o="and", l=f, r=f2), g & g2) if rng.random() < .5 else (dict(o="or", l=f, r=f2), g | g2)
    st, r = vf.call(tree, rng.randint(0, 4))
    f, g = r if st == "ok" else ({"o": "crisp"}, "")
    st, w = vf.call(lambda: re.findall(r"[()~&|]|[^\s()~&|]+", str(g))) if st == "ok" else (st, r)
    c.ev(new=True, op="fuzzy", f=f, out=vf.outcome(st, w), text=w if st == "ok" else [])


def main(c):
    for h in c.gen("MCShow", limit=c.n(400, 10 ** 9)):
        history(c, h[0]["d"], h[1:])
    for _ in range(c.n(300, 6000)):
        rand(c, c.rng)
    for _ in range(c.n(150, 3000)):
        direction(c, c.rng)
        data(c, c.rng)
        fuzzy(c, c.rng)
    c.validate("TraceShow")
