"""C27: influence models against spec/Influence.tla."""
import copy
import math
import warnings
import numpy as np
import vf
from num import fx, q
from hrosailing.core.data import Data
from hrosailing.models.influencemodel import IdentityInfluenceModel, WindAngleCorrectingInfluenceModel
from hrosailing.polardiagram import PolarDiagramCurve


class Asked:
    """a diagram whose speed tells where it was evaluated"""

    def __call__(self, ws, wa):
        if np.ndim(ws) or np.ndim(wa):
            return np.array([self(a, b) for a, b in zip(np.atleast_1d(ws), np.atleast_1d(wa))])
        return float(ws) * 1000 + float(wa) % 1000 + (0 if 0 <= wa < 1000 else 500000)


CURVE = PolarDiagramCurve(lambda ws, wa, a: a * (ws * 1000 + wa), 1)


def back(v):
    v = float(v)
    ws = math.floor(v / 1000 * 4 + 1e-9) / 4
    # wind speeds are quarters and angles stay below 250 of the remainder's unit only modulo: search
    for k in range(2):
        w = math.floor(v / 1000) + 0
        for f in (0, .25, .5, .75):
            a = v - 1000 * (w - k + f)
            if 0 <= a <= 360.0005:
                yield [q(w - k + f), fx(a, 1000)]


def decode(v, want_ws):
    for ws, a in back(v):
        if ws == want_ws:
            return [ws, a]
    return [-1, -1]


def container(rng, rows, form, names):
    d = {n: [r[i] / 4 if i != 1 else r[1] / 1000 for r in rows] for i, n in enumerate(names)}
    extra = {}
    if "BSP" in names and rng.random() < .5:
        extra = {"SOG": [99.0] * len(rows)}
    if rng.random() < .3:
        extra["HDG"] = [7.0] * len(rows)
    d.update(extra)
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    if form == "value":
        return {k: v[0] for k, v in d.items()}
    if form == "array":
        return {k: np.array(v, float) for k, v in d.items()}
    if form == "Data":
        return Data.from_dict(d) if hasattr(Data, "from_dict") else Data().extend(d)
    return d


def snap(d):
    return {k: (list(d[k]) if np.ndim(d[k]) else d[k]) for k in (d.keys())}


def remove(c, m, rng, rows):
    form = rng.choice(["list", "list", "array", "Data"] + (["value"] * 2 if len(rows) == 1 else []))
    if not rows:
        form = rng.choice(["list", "array"])
    names = ["TWS", "TWA", rng.choice(["BSP", "BSP", "SOG"])]
    d = container(rng, rows, form, names)
    if rng.random() < .2 and form != "value":
        d2 = container(rng, rows, form, ["AWS", "AWA", names[2]])
        if form != "Data":
            d.update({k: v for k, v in d2.items() if k in ("AWS", "AWA")})
    s0 = snap(d)
    st, r = vf.call(m.remove_influence, d)
    ok = st == "ok" and isinstance(r, np.ndarray) and r.ndim == 2
    c.ev(new=False, op="remove", out=vf.outcome(st, r), rows=rows, form=form, shape=list(np.shape(r)) if st == "ok" else [], changed=snap(d) != s0,
         got=[[q(a), fx(b, 1000), q(s)] for a, b, s in r] if ok and r.shape[1] == 3 else [])


def remove_apparent(c, m, rng):
    rows = []
    for _ in range(rng.randint(1, 4)):
        u, v, b = rng.randint(-40, 40), rng.randint(-40, 40), rng.randint(-8, 20)
        if (u - b, v) != (0, 0) and (u, v) != (0, 0):
            rows.append([u, v, b])
    if not rows:
        return
    d = {"AWS": [math.hypot(u, v) / 8 for u, v, b in rows], "AWA": [math.degrees(math.atan2(v, u)) % 360 for u, v, b in rows], rng.choice(["BSP", "SOG"]): [b / 8 for u, v, b in rows]}
    if rng.random() < .3:  # half a true wind is none
        d[rng.choice(["TWA", "TWS"])] = [1.0] * len(rows)
    form = rng.choice(["list", "array"])
    if form == "array":
        d = {k: np.array(v) for k, v in d.items()}
    s0 = snap(d)
    st, r = vf.call(m.remove_influence, d)
    got = []
    if st == "ok" and np.shape(r) == (len(rows), 3):
        got = [[q(8 * a * math.cos(math.radians(b)), 1, 1e-6), q(8 * a * math.sin(math.radians(b)), 1, 1e-6), q(8 * s, 1, 1e-6)] for a, b, s in r]
    c.ev(new=False, op="removeApparent", out=vf.outcome(st, r), rows=rows, got=got, changed=snap(d) != s0)


def add(c, m, rng, rows):
    form = rng.choice(["list", "list", "array"] + (["value"] * 2 if len(rows) == 1 else []))
    d = container(rng, rows, form, ["TWS", "TWA", "BSP"])
    s0 = snap(d)
    st, r = vf.call(m.add_influence, rng.choice([Asked(), CURVE]), d)
    single = st == "ok" and np.ndim(r) == 0
    vals = np.atleast_1d(r) if st == "ok" else []
    got = [decode(v, rows[i][0] if i < len(rows) else -1) for i, v in enumerate(vals)] if st == "ok" else []
    c.ev(new=False, op="add", out=vf.outcome(st, r), rows=[x[:2] for x in rows], form=form, single=bool(single), got=got, changed=snap(d) != s0)


def turns(rng):
    """angles may be given with whole turns added"""
    k = rng.choice([[0], [0], [0, -360], [-1080, -360, 0, 720, 1080]])
    return lambda: rng.choice(k)


def fit(c, m, rng, kind, middle, half=0, step=0):
    half = half or rng.choice([30, 40, 50])
    step = step or rng.choice([8, 10, 12])
    n = int((360 - 2 * half) // step)
    pad = (360 - 2 * half - n * step) / 2
    A = [(middle / 1000 + half + pad + i * step) % 360 for i in range(n + 1)]
    rng.shuffle(A)
    A = [round(a * 1000) / 1000 for a in A]
    t = turns(rng)
    d = {"TWA": [a + t() for a in A], "TWS": [rng.choice([10.0])] * len(A), "BSP": [5.0] * len(A)}
    if rng.random() < .5:
        d = Data().extend(d) if False else d
    s0 = copy.deepcopy(d)
    st, r = vf.call(m.fit, d, secs=30)
    stat = m.get_latest_statistics().get("wa_shift", -1) if kind == "shift" and st == "ok" else 0
    shift = 0
    if kind == "shift" and st == "ok":
        # the shift in force, seen through the removal
        s2, w = vf.call(m.remove_influence, {"TWS": [4.0], "TWA": [0.0], "BSP": [1.0]})
        shift = (-fx(w[0][1], 1000)) % 360000 if s2 == "ok" else -1
    c.ev(new=False, op="fit", out=vf.outcome(st, r), angles=[round(a * 1000) for a in A], shift=shift, stat=fx(stat, 1000) % 360000, changed=d != s0)
    if rng.random() < .25:       # as many angles, around another middle
        fit(c, m, rng, kind, rng.randint(0, 359) * 1000, half, step)


def fit_density(c, rng):
    size = rng.choice([10, 30, 60, 90])
    kw = {} if size == 30 and rng.random() < .7 else {"interval_size": size}
    st, m = vf.call(lambda: WindAngleCorrectingInfluenceModel(**kw))
    c.ev(new=True, op="make", out=vf.outcome(st, m), kind="shift", shift=0)
    n = rng.randint(1, 12)
    for _ in range(rng.choice([1, 1, 2, 3])):
        mid = [rng.uniform(0, 360) for _ in range(rng.randint(1, 3))]
        A = [rng.randint(0, 359999) / 1000 if rng.random() < .4 else round((rng.choice(mid) + rng.gauss(0, 25)) % 360, 3) % 360 for _ in range(n)]
        t = turns(rng)
        d = {"TWA": [a + t() for a in A], "TWS": [8.0] * len(A), "BSP": [5.0] * len(A)}
        s0 = copy.deepcopy(d)
        st, r = vf.call(m.fit, d, secs=30)
        stat, shift = -1, -1
        if st == "ok":
            stat = fx(m.get_latest_statistics().get("wa_shift", -1), 1000) % 360000
            s2, w = vf.call(m.remove_influence, {"TWS": [4.0], "TWA": [0.0], "BSP": [1.0]})
            shift = (-fx(w[0][1], 1000)) % 360000 if s2 == "ok" else -1
        c.ev(new=False, op="fitDensity", out=vf.outcome(st, r), angles=[round(a * 1000) for a in A], interval=size, shift=shift, stat=stat, changed=d != s0)


def history(c, rng, kind, shift, ops):
    st, m = vf.call(lambda: IdentityInfluenceModel() if kind == "identity" else WindAngleCorrectingInfluenceModel(**({} if shift == 0 and rng.random() < .5 else dict(wa_shift=shift / 1000)), **({} if rng.random() < .5 else dict(interval_size=rng.choice([10, 20, 40])))))
    c.ev(new=True, op="make", out=vf.outcome(st, m), kind=kind, shift=shift)
    for op, arg in ops:
        if op == "remove":
            remove(c, m, rng, arg)
        elif op == "add":
            add(c, m, rng, arg)
        elif op == "fit":
            fit(c, m, rng, kind, arg)
        elif op == "nowind":
            d = rng.choice([{"BSP": [1.0]}, {"TWS": [1.0], "BSP": [1.0]}, {"TWA": [1.0], "AWS": [3.0], "BSP": [1.0]}, {"AWA": [1.0], "SOG": [2.0]}, {"TWS": [1.0], "TWA": [3.0]}])
            st, r = vf.call(m.remove_influence, d)
            c.ev(new=False, op="noWind", out=vf.outcome(st, r))
        else:
            remove_apparent(c, m, rng)


def rnd_rows(rng, kind="identity"):
    n = rng.choice([1, 1, 2, 3, 6] * 8 + [60])
    if kind == "shift" and rng.random() < .25:      # angles beyond one turn
        return [[rng.randint(0, 120), rng.choice([-30000, -180000, -1000, 360000, 361250, 725000, rng.randint(-720000, 1080000)]), rng.randint(-12, 60)] for _ in range(n)]
    return [[rng.randint(0, 120), rng.choice([rng.randint(0, 1439) * 250, 0, 359750, 180000, rng.randint(0, 359999)]), rng.randint(-12, 60)] for _ in range(n)]


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    fits = 0
    for h in c.gen("MCInfluence", limit=c.n(300, 10 ** 9)):
        fits += h[1]["op"] == "fit"
        if h[1]["op"] == "fit" and fits > c.n(20, 10 ** 9):
            continue
        ops = [(e["op"], e.get("middle") if e["op"] == "fit" else [list(r) for r in e["rows"]]) for e in h[1:]]
        history(c, rng, h[0]["kind"], h[0]["shift"], ops)
    for i in range(c.n(300, 6000)):
        kind = rng.choice(["identity", "shift", "shift"])
        quarter = rng.random() < .5
        shift = 0 if kind == "identity" else rng.choice([0, 90000, 180000, 270000, 450000, -90000]) if quarter else rng.choice([rng.randint(-400000, 800000), rng.randint(0, 359) * 1000])
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(rng.choice([("remove", rnd_rows(rng, kind)), ("add", rnd_rows(rng, kind)), ("apparent", None) if quarter else ("add", rnd_rows(rng, kind)), ("nowind", None)]))
        if not quarter and rng.random() < .1:
            ops.insert(rng.randrange(len(ops)), ("fit", rng.randint(0, 359) * 1000))
        history(c, rng, kind, shift, ops)
    for _ in range(c.n(25, 400)):
        fit_density(c, rng)
    c.validate("TraceInfluence")
