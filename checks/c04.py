"""C04: smoothing against spec/Smooth.tla."""
from datetime import datetime, timedelta, timezone
import vf
from num import fx, q
from hrosailing.core.data import Data
from hrosailing.processing import AffineSmoother, LazySmoother

BASE = datetime(2024, 2, 28, 23, 30, 0)
SC = 256


UNITS = [timedelta(seconds=1)] * 3 + [timedelta(milliseconds=1), timedelta(minutes=10), timedelta(hours=13), timedelta(days=2)]


def run(c, rng, x, cols, T, lazy=False):
    aware = rng.random() < .12      # instants written with the offsets of several time zones

    def stamp(t):
        return t.replace(tzinfo=timezone.utc).astimezone(timezone(timedelta(minutes=30 * rng.randint(-20, 20)))) if aware else t
    order = [None] + cols
    rng.shuffle(order)
    d = Data()
    unit, zf = rng.choice(UNITS), rng.choice([1, 1, 1, 1e-9, 1e-4, 1e6])
    for k in order:
        if k is None:
            d.extend("datetime", [stamp(BASE + t * unit) for t in x])
        else:
            d.extend(k["k"], [v * 1.0 * zf if k["f"] else int(v) for v in k["v"]])
    cols = [k for k in order if k is not None]
    base = BASE.replace(tzinfo=timezone.utc) if aware else BASE
    isf = {k["k"]: k["f"] for k in cols}
    sm = LazySmoother() if lazy else AffineSmoother() if T == 30 and unit == UNITS[0] and rng.random() < .7 else AffineSmoother(T * unit)
    if rng.random() < .2:
        vf.call(sm.smooth, Data.from_dict({"datetime": [BASE, BASE + timedelta(seconds=5)], "a": [1.0, 9.0]}))
    st, r = vf.call(sm.smooth, d)

    def f():
        names = [k for k in r.keys() if k != "datetime"]
        return dict(names=names, xo=[q((t - base) / unit, 1) for t in r["datetime"]],
                    res=[[fx(v / (zf if isf.get(k) else 1), SC) for v in r[k]] for k in names])
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    c.ev(x=x, cols=cols, T=T, lazy=lazy, sc=SC, out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read",
         **(o if st2 == "ok" else {}))


def main(c):
    rng = c.rng
    for k in c.gen("MCSmooth", limit=c.n(700, 10 ** 9)):
        t, x = 0, []
        for i, s in enumerate(k["d"]):
            t = 0 if i == 0 else t + s
            x.append(t)
        run(c, rng, x, [{"k": "a", "f": True, "v": k["y"]}], k["T"])
    for _ in range(c.n(500, 10000)):
        n = rng.randint(1, 16) if rng.random() < .97 else rng.randint(45, 90)
        x, t = [], 0
        step = rng.choice([[1, 2, 3], [5, 20, 60], [1, 7, 150], [0, 1, 2]])
        for _ in range(n):
            x.append(t)
            t += rng.choice(step)
        if rng.random() < .08 and n > 2:
            i = rng.randrange(1, n)
            x[i], x[i - 1] = x[i - 1], x[i]
        cols = []
        for k in rng.sample(["TWS", "TWA", "BSP", "n", "lat"], rng.randint(1, 4)):
            pool = [rng.randint(-100, 100) for _ in range(rng.randint(1, 4))]
            v = [rng.choice(pool)]
            while len(v) < n:
                v.append(v[-1] if rng.random() < .6 else rng.choice(pool))
            cols.append({"k": k, "f": rng.random() < .85, "v": v})
        run(c, rng, x, cols, rng.choice([0, 1, 2, 5, 30, 30, 40]), rng.random() < .05)
    c.validate("TraceSmooth")
