"""C34: weighted points against spec/Weighted.tla."""
import datetime as dt
import warnings
from collections import OrderedDict
import numpy as np
import vf
from num import q, BADNUM
from hrosailing.core.data import Data, WeightedPoints


class Own(Data):
    """a container of the user's own kind"""


T0 = dt.datetime(2020, 1, 1)


def mixed(x, key, kind):
    """the object standing for the number x: columns of dictionaries may hold anything, those of Data one type"""
    k = x % 6 if kind == "dict" else 1 if key == "a" else 0
    return [x / 2, "s%d" % x, None, (x, "t"), T0 + dt.timedelta(minutes=x), [x] * (x % 3)][k] if x else None


def plain(v, n=BADNUM):
    if v is None:
        return 0                # all None entries stand for the number 0
    if type(v) is float or isinstance(v, np.floating):
        return q(v, 2)
    if type(v) is str:
        return int(v[1:]) if v[:1] == "s" and v[1:].isdigit() else BADNUM
    if isinstance(v, dt.datetime):
        return round((v - T0).total_seconds() / 60)
    if type(v) is tuple:
        return v[0] if v[1:] == ("t",) else BADNUM
    return (v[0] if v else 0) if type(v) is list and len(v) == (v[0] if v else 0) % 3 else BADNUM


def points(o, int_=False):
    """row values are in halves"""
    if o["kind"] != "array" and o.get("mixed"):
        d = {k: [mixed(r[i], k, o["kind"]) for r in o["rows"]] for i, k in enumerate(o["keys"])}
        if o["kind"] == "dict":
            return d
        D = Data()
        for k, v in d.items():
            D.extend(k, v)
        return D
    o = dict(o, rows=[[x / 2 for x in r] for r in o["rows"]])
    if o["kind"] == "array":
        return np.array(o["rows"], int if int_ and all(x == int(x) for r in o["rows"] for x in r) else float).reshape(len(o["rows"]), len(o["keys"]))
    d = {k: [float(r[i]) for r in o["rows"]] for i, k in enumerate(o["keys"])}
    if o["kind"] == "dict":
        return OrderedDict(d) if len(o["rows"]) % 3 == 1 else d
    D = Own() if len(o["rows"]) % 3 == 1 else Data()
    for k, v in d.items():
        D.extend(k, v)
    return D


def make(rng, o, scalar=False):
    if scalar:
        return WeightedPoints(points(o, rng.random() < .5), rng.choice([float, lambda x: x, np.float64, np.float32, lambda x: np.int64(x) if x == int(x) else x])(scalar / 4))
    w = [x / 4 for x in o["ws"]]
    if all(x == int(x) for x in w) and rng.random() < .6:
        w = [int(x) for x in w]
        return WeightedPoints(points(o, rng.random() < .5), rng.choice([np.array(w, int), w]))
    return WeightedPoints(points(o, rng.random() < .5), rng.choice([np.array(w, float), w]))


def see(wp, kind, mx=False):
    def go():
        d = wp.data
        ws = [q(x) for x in wp.weights]
        if isinstance(d, np.ndarray):
            return dict(kind="array", keys=["c%d" % i for i in range(d.shape[1])], rows=[[q(x, 2) for x in r] for r in d], ws=ws)
        k = "dict" if isinstance(d, dict) else "data"
        keys = list(d.keys())
        cols = [list(d[x]) for x in keys]
        n = len(cols[0]) if cols else 0
        if any(len(x) != n for x in cols):
            return dict(kind="ragged", keys=[], rows=[], ws=[])
        return dict(kind=k, keys=keys, rows=[[plain(x[i]) if mx else q(x[i], 2) for x in cols] for i in range(n)], ws=ws)
    st, r = vf.call(go)
    return r if st == "ok" else dict(kind="?", keys=[], rows=[], ws=[-1])


def history(c, rng, o, ops):
    mx = o.get("mixed", False)
    pub = lambda p: {k: v for k, v in p.items() if k != "mixed"}
    scalar = 0
    if len(set(o["ws"])) == 1 and o["rows"] and rng.random() < .6:
        scalar = o["ws"][0]
    st, wp = vf.call(make, rng, o, scalar)
    c.ev(new=True, op="make", p=pub(o), out=vf.outcome(st, wp), obs=see(wp, o["kind"], mx) if st == "ok" else pub(o), was=[], now=[])
    if st != "ok":
        return
    # the points given, and every object on the way, stay what they were
    look = lambda x: see(x if isinstance(x, WeightedPoints) else WeightedPoints(x, [0] * len(o["rows"])), o["kind"], mx)
    held = [wp.data] if o["rows"] else []
    was = [look(x) for x in held]
    for op, a in ops:
        now = see(wp, o["kind"], mx)
        if op == "mask":
            m = (a * 19)[:len(now["rows"])] if now["rows"] else []
            arg = np.array(m, bool)
            if m and rng.random() < .4:
                arg = list(map(bool, m))
            st, r = vf.call(lambda: wp[arg])
            c.ev(new=False, op="mask", m=[bool(x) for x in m], out=vf.outcome(st, r), orig=see(wp, o["kind"], mx), obs=see(r, o["kind"], mx) if st == "ok" else now, was=was, now=[look(x) for x in held])
            if st == "ok":
                if len(held) < 3:
                    held.append(wp)
                    was = was + [now]
                wp = r
        elif op == "self":
            st, r = vf.call(wp.extend, wp)
            c.ev(new=False, op="extend", q=now, out=vf.outcome(st, r), other=now, obs=see(wp, o["kind"], mx), was=was, now=[look(x) for x in held])
        else:
            if o["kind"] == "dict":
                if not set(now["keys"]) & set(a["keys"]):
                    continue
            elif o["kind"] == "array":
                if len(now["keys"]) != len(a["keys"]):
                    continue
            elif set(now["keys"]) != set(a["keys"]):
                continue
            other = make(rng, a)
            if o["kind"] == "array":
                a = dict(a, keys=now["keys"])
            st, r = vf.call(wp.extend, other)
            oth = see(other, a["kind"], mx)
            if o["kind"] == "array":
                oth["keys"] = now["keys"]
            c.ev(new=False, op="extend", q=pub(a), out=vf.outcome(st, r), other=oth, obs=see(wp, o["kind"], mx), was=was, now=[look(x) for x in held])
            if st == "ok" and len(held) < 3 and o["kind"] != "array":
                held.append(other)
                was = was + [oth]


def rnd_obj(rng, kind, n=None, mx=False):
    n = rng.randint(1, 5) if n is None else n
    whole = rng.random() < .3
    keys = rng.sample(["a", "b", "c"], rng.randint(1, 3)) if kind == "dict" else rng.sample(["a", "b"], 2)
    ws = [rng.randint(0, 8) * (4 if whole else 1) for _ in range(n)]
    if rng.random() < .4:
        ws = ws[:1] * n
    rows = [[rng.randint(0, 49) * 2 if whole else rng.randint(0, 99) for _ in keys] for _ in range(n)]
    o = dict(kind=kind, keys=keys, rows=rows, ws=ws)
    if mx:      # only what stands for a number in one way
        o.update(mixed=True, rows=[[x if x and plain(mixed(x, k, kind)) == x else 0 for x, k in zip(r, keys)] for r in rows])
    return o


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCWeighted", limit=c.n(500, 10 ** 9)):
        history(c, rng, h[0]["p"], [(e["op"], e["m"] if e["op"] == "mask" else e["q"]) for e in h[1:]])
    for _ in range(c.n(500, 8000)):
        kind = rng.choice(["array", "dict", "data"])
        mx = kind != "array" and rng.random() < .4
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(("self", None) if rng.random() < .1 else ("mask", [rng.random() < .7 for _ in range(9)]) if rng.random() < .5 else ("extend", rnd_obj(rng, kind, rng.choice([0, 1, 2, 3]), mx)))
        big = rng.random() < .06
        history(c, rng, rnd_obj(rng, kind, rng.randint(20, 60) if big else None, mx=mx), ops[:2] if big else ops)
    c.validate("TraceWeighted")
