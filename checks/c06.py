"""C06: weighers against spec/Weigh.tla."""
import operator
from datetime import datetime, timedelta
import numpy as np
import vf
from num import fx, qm, q
from hrosailing.core.data import Data
from hrosailing.processing import (AllOneWeigher, CylindricMeanWeigher, CylindricMemberWeigher, FluctuationWeigher, Weigher)

BASE = datetime(2023, 8, 1, 23, 58, 0)
NORMS = {"max": lambda v: np.max(np.abs(v), axis=1), "l1": lambda v: np.sum(np.abs(v), axis=1)}
SCALE = {"TWS": 18, "AWS": 18, "TWA": 1, "AWA": 1, "lat": 1, "lon": 1, "BSP": 9, "SOG": 9}


SIZES = [1, 1, 1, 2.0 ** -30, 2.0 ** -10, 2.0 ** 12]
UNITS = [timedelta(seconds=1)] * 3 + [timedelta(milliseconds=1), timedelta(minutes=10), timedelta(hours=13)]


class Column(Weigher):
    """the weights are a column of the points"""

    def __init__(self, k):
        super().__init__()
        self.k = k

    def weigh(self, points):
        weights = np.array(points[self.k] if isinstance(points, Data) else points[:, ["TWS", "TWA", "BSP"].index(self.k)], float)
        self.set_statistics(weights)
        return weights


def resolve(e, cols):
    if "col" in e:
        return {"o": "w", "v": next(x["v"] for x in cols if x["k"] == e["col"])}
    return {k: resolve(v, cols) if isinstance(v, dict) else v for k, v in e.items()}


class Given(Weigher):
    def __init__(self, v):
        super().__init__()
        self.v = v

    def weigh(self, points):
        weights = np.array(self.v, float) / 4
        self.set_statistics(weights)
        return weights


def build(cols, t=None, text=False, rng=None, zf=1, unit=timedelta(seconds=1)):
    d = Data()
    ks = [x["k"] for x in cols]
    if t is not None:
        ks.insert(rng.randint(0, len(ks)), "datetime")
    if text:
        ks.insert(rng.randint(0, len(ks)), "remark")
    for k in ks:
        if k == "datetime":
            d.extend(k, [BASE + x * unit for x in t])
        elif k == "remark":
            d.extend(k, ["s"] * len(cols[0]["v"]))
        else:
            d.extend(k, [x / 4 * zf for x in dict((c["k"], c["v"]) for c in cols)[k]])
    return d


def weigh(c, w, pts, cols, sc, zf=1, **k):
    st, r = vf.call(w.weigh, pts)
    if isinstance(pts, Data):
        kept = all(x["k"] in pts and [q(v / zf) for v in pts[x["k"]]] == x["v"] for x in cols)
    else:
        kept = qm(pts / zf) == [[x["v"][i] for x in cols] for i in range(len(cols[0]["v"]))]
    s = w.get_latest_statistics() if st == "ok" else {}
    ws = [fx(x, sc) for x in r] if st == "ok" else []
    c.ev(cols=cols, out=vf.outcome(st, r), w=ws, kept=kept,
         stat=[fx(s.get("minimal_weight"), sc), fx(s.get("maximal_weight"), sc)], avg=fx(s.get("average_weight"), sc),
         tenths=[fx(x, 100) for x in s.get("quantiles") or []] if isinstance(s.get("quantiles"), list) else [], **k)


def no_boundary(cols, dims, r, anon):
    sc = [18, 1] if anon else [SCALE.get(k, 360) for k in dims]
    v = [dict((c["k"], c["v"]) for c in cols)[k] for k in dims]
    n = len(v[0])
    return all(4 * sum((s * (x[i] - x[j])) ** 2 for s, x in zip(sc, v)) != r * r for i in range(n) for j in range(i))


def table(rng, n, ks):
    cols = []
    for k in ks:
        big = {"TWA": 120, "AWA": 120, "lat": 100, "lon": 100}.get(k, (rng.choice([16, 40]) if n < 10 else 8) if k in SCALE else 3)
        if n > 24 and k in ("BSP", "SOG"):
            big = 3
        base = rng.randint(0, 60)
        pool = [rng.randint(0, big) + base for _ in range(max(1, rng.choice([2, n])))]
        cols.append({"k": k, "v": [rng.choice(pool) for _ in range(n)]})
    return cols


def expr(rng, n, depth):
    """(abstract expression, weigher)"""
    r = rng.random()
    if depth == 0 or r < .15:
        if rng.random() < .5:
            k = rng.choice(["TWS", "TWA", "BSP"])
            return {"col": k}, Column(k)
        v = [rng.choice([-3, -2, -1, 1, 2, 3, 4, 6, 8]) for _ in range(n)]
        return {"o": "w", "v": v}, Given(v)
    e, w = expr(rng, n, depth - 1)
    if r < .25:
        return {"o": "neg", "l": e}, -w
    if r < .38:
        k = rng.randint(0, 3)
        return {"o": "pow", "l": e, "k": k}, w ** k
    o = rng.choice(["add", "sub", "mul", "div"])
    f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}[o]
    r = rng.random()
    if r < .5:
        e2, w2 = expr(rng, n, depth - 1) if rng.random() < .8 else (e, w)
        return {"o": o, "l": e, "r": e2}, f(w, w2)
    x = rng.choice([-4, -1, 1, 2, 4, 8, 6])
    num = x / 4 if x % 4 or rng.random() < .5 else x // 4
    if r < .8:
        return {"o": o, "l": e, "r": {"o": "c", "v": x}}, f(w, num)
    if r < .92 and o != "sub":
        return {"o": o, "l": {"o": "c", "v": x}, "r": e}, f(num, w)
    v = [rng.choice([-4, -1, 1, 2, 3]) for _ in range(n)]
    return {"o": o, "l": e, "r": {"o": "a", "v": v}}, f(w, np.array(v, float) / 4)


def main(c):
    rng = c.rng
    for k in c.gen("MCWeigh", limit=c.n(700, 10 ** 9)):
        n = len(k["x"])
        cols = [{"k": "TWS", "v": k["x"]}, {"k": "BSP", "v": k["b"]}]
        zf = rng.choice(SIZES)
        pts = build(cols, zf=zf) if rng.random() < .5 else np.array([k["x"], k["b"]], float).T / 4 * zf
        r = k["r"] / 4 * zf
        if rng.random() < .5:
            weigh(c, CylindricMemberWeigher(r, 1.0 * zf, NORMS["max"]), pts, cols, 1000, zf, op="member", dims=["TWS", "BSP"],
                  norm="max", r=k["r"], h=80, anon=False)
        else:
            weigh(c, CylindricMeanWeigher(r, NORMS["l1"]), pts, cols, 300, zf, op="mean", dims=["TWS", "BSP"], norm="l1",
                  r=k["r"], anon=False)
    keys = ["TWS", "TWA", "AWS", "lat", "wave", "SOG"]
    for _ in range(c.n(220, 6000)):
        kind = rng.choice(["member", "mean", "fluct", "one", "arith", "arith"])
        if kind == "arith":
            n = rng.choice([1, 2, 2, 3, 4, 5])
            e, w = expr(rng, n, rng.choice([1, 2, 2, 3]))
            for _ in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < .8 or not _:
                    cols = [{"k": k, "v": [rng.choice([-3, -2, -1, 1, 2, 3, 4, 6, 8]) for _ in range(n)]} for k in ["TWS", "TWA", "BSP"]]
                    pts = build(cols) if rng.random() < .5 else np.array([x["v"] for x in cols], float).T / 4
                weigh(c, w, pts, cols, 1000, op="arith", ex=resolve(e, cols))
            continue
        # one weigher used on several point sets; all are weighed by the points given alone
        norm = rng.choice(["max", "l1", "std", "std"])
        r = {"max": rng.randint(1, 24), "l1": rng.randint(1, 40), "std": rng.choice([144, 2 * rng.randint(20, 600) + 1])}[norm]
        kw, zf = {}, rng.choice(SIZES)
        if r != 144 or zf != 1 or rng.random() < .4:
            kw["radius"] = (r / 2880 if norm == "std" else r / 4) * zf
        if norm != "std":
            kw["norm"] = NORMS[norm]
        h = rng.choice([4, 0, 5 * rng.randint(0, 60)])
        speed = rng.choice(["BSP", "BSP", "SOG"])
        dims = rng.sample([k for k in keys if k != speed], rng.randint(1, 3)) + [speed]
        if kind == "mean":
            both = speed == "BSP" and "SOG" in dims and rng.random() < .6  # then the boat speed counts
            dims = [k for k in dims if k not in ("SOG", "BSP")] + ["SOG"] * both + [speed]
            if len(dims) == 1:
                dims = ["TWA", speed]
        shuffled = dims[:]
        rng.shuffle(shuffled)
        given = rng.random() < .6
        if kind == "member":
            if h != 4 or zf != 1 or rng.random() < .5:
                kw["length"] = h / 80 * zf
            if given:
                kw["dimensions"] = list(shuffled)
            w = CylindricMemberWeigher(**kw)
        elif kind == "mean":
            if given:
                kw["dimensions"] = list(shuffled)
            w = CylindricMeanWeigher(**kw)
        elif kind == "one":
            w = AllOneWeigher()
        else:
            at = rng.sample(["TWS", "TWA", "BSP", "x"], rng.randint(1, 3))
            ubs = [rng.randint(1, 24) for _ in at]
            tb, ta = rng.choice([0, 30, 60, 120]), rng.choice([0, 0, 45, 90])
            unit = rng.choice(UNITS)
            span = tb * unit if ta == 0 and rng.random() < .7 else (tb * unit, ta * unit)
            w = FluctuationWeigher(list(at), span, [u / 4 * zf for u in ubs])
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.randint(62, 70) if kind in ("member", "mean") and rng.random() < .06 else rng.choice([0, 1, 2, 3, 5, 7, 7, 24]) if kind != "fluct" else rng.randint(1, 8) if rng.random() < .9 else rng.randint(55, 80)
            if kind == "fluct":
                ks = list(dict.fromkeys(at + rng.sample(["lat", "TWS", "BSP"], rng.randint(0, 2))))
                rng.shuffle(ks)
                cols, t, x = [], [], 0
                for k in ks:
                    b = rng.randint(0, 50)
                    cols.append({"k": k, "v": [b + rng.randint(0, rng.choice([2, 12])) for _ in range(n)]})
                for _ in range(n):
                    t.append(x)
                    x += rng.choice([0, 10, 30, 30, 60, 100])
                if rng.random() < .4:
                    rng.shuffle(t)      # a window is a span of time, however the rows are ordered
                weigh(c, w, build(cols, t, rng.random() < .2, rng, zf, unit), cols, 1000, zf, op="fluct", dims=at, ubs=ubs, t=t, tb=tb, ta=ta)
                continue
            if kind == "one":
                cols = table(rng, n, ["TWS", "TWA", "BSP"])
                pts = build(cols) if rng.random() < .5 else np.array([x["v"] for x in cols], float).T.reshape(n, 3) / 4
                weigh(c, w, pts, cols, 1000, op="one")
                continue
            if not given and rng.random() < .5:     # plain arrays of wind speed, wind angle, speed
                cols = table(rng, n, ["TWS", "TWA", "BSP"])
                use, anon = ["TWS", "TWA", "BSP"], True
                pts = np.array([x["v"] for x in cols], float).T.reshape(n, 3) / 4 * zf
            else:
                extra = rng.sample(["zeta", "lon"], rng.randint(0, 2)) if given else []
                ks = dims + extra
                rng.shuffle(ks)
                cols = table(rng, n, ks)
                use, anon = (shuffled if given else ks), False
                pts = build(cols, list(range(n)) if rng.random() < .3 else None, rng.random() < .2, rng, zf)
            sp = (use[-1] if kind == "member" or anon else "BSP" if "BSP" in use else "SOG")
            if norm == "std" and n and not no_boundary(cols, [k for k in use if k != sp], r, anon):
                continue
            weigh(c, w, pts, cols, 1000 if kind == "member" else 300, zf, op=kind, dims=use, norm=norm, r=r, h=h, anon=anon)
    c.validate("TraceWeigh")
