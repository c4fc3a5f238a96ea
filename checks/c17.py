"""C17: gridded weather models against spec/Weather.tla."""
import os
from datetime import datetime, timedelta, timezone
import numpy as np
import vf
from num import q, fx
from hrosailing.models import GriddedWeatherModel

BASES = [datetime(2023, 3, 5, 22, 0, 0), datetime(2023, 3, 5, 22, 0, 0, tzinfo=timezone(timedelta(hours=-5))),
         datetime(1969, 12, 30, 23, 59, 59, 750000)]
BASE = BASES[0]
STEPS = [timedelta(minutes=15), timedelta(hours=7), timedelta(days=3), timedelta(seconds=1), timedelta(milliseconds=250),
         timedelta(microseconds=1), timedelta(days=1, microseconds=7)]
UNITS = [4, 4, 2, 1024]
LEVELS = [(0, 1.), (0, 1.), (1013, 1.), (0, 250.), (-101325, .125), (2 ** 21, 2. ** -10), (0, 2. ** -30)]
STEP, UNIT = STEPS[0], 4     # of the model at hand
OFF, DU = LEVELS[0]          # the value 0 of its data and their unit
LACK = -88888888


class Own(GriddedWeatherModel):
    """a model of the user's own kind"""


def val(d):
    return float("nan") if d == LACK else OFF + DU * d


def tick(v, scale):
    v = float(v)
    return LACK if v != v else fx((v - OFF) / DU, scale) if scale > 1 else q((v - OFF) / DU, 1)


def t_of(k):
    return BASE + k * STEP


def k_of(t):
    try:
        d = (t - BASE) / STEP
        return int(d) if d == int(d) else -99999999
    except Exception:
        return -99999999


def obs(m):
    def f():
        ts, ys, xs = m.grid
        return {"ax": [[k_of(t) for t in ts], [q(y, UNIT) for y in ys], [q(x, UNIT) for x in xs]],
                "dat": np.vectorize(lambda v: tick(v, 1), otypes=[int])(np.asarray(m.data, float)).tolist(), "attrs": list(m.attrs)}
    st, r = vf.call(f)
    return r if st == "ok" else {"ax": [], "dat": [], "attrs": []}


def make(c, rng, ax, dat, attrs):
    global STEP, UNIT, BASE, OFF, DU
    STEP, UNIT, BASE = rng.choice(STEPS), rng.choice(UNITS), rng.choice(BASES)
    OFF, DU = rng.choice(LEVELS)
    data = np.vectorize(val, otypes=[float])(np.array(dat)) if (OFF, DU) != (0, 1) or rng.random() < .5 or np.any(np.array(dat) == LACK) else dat
    if not isinstance(data, list) and rng.random() < .3:
        data = data.tolist()
    ys, xs = [y / UNIT for y in ax[1]], [x / UNIT for x in ax[2]]
    if rng.random() < .3:
        ys, xs = np.array(ys), np.array(xs)
    cls = Own if rng.random() < .2 else GriddedWeatherModel
    st, m = vf.call(cls, data, [t_of(k) for k in ax[0]], ys, xs, list(attrs))
    c.ev(new=True, op="make", ax=ax, dat=dat, attrs=list(attrs), out=vf.outcome(st, m),
         obs=obs(m) if st == "ok" else {}, kind="asked" if st == "ok" and type(m) is cls else "other")
    return m if st == "ok" else None


def get(c, rng, m, p, attrs):
    pt = [t_of(p[0]), p[1] / UNIT, p[2] / UNIT]
    if rng.random() < .3:
        pt = tuple(pt)
    if rng.random() < .3 and p[1] % UNIT == 0:
        pt = type(pt)([pt[0], int(pt[1]), pt[2]])
    st, r = vf.call(m.get_weather, pt)
    out = "refused" if st == "err" and isinstance(r, ValueError) else vf.outcome(st, r)
    keys = list(r.keys()) if st == "ok" else []
    c.ev(new=False, op="get", p=p, out=out, keys=keys, v=[tick(r[k], 4096) for k in keys] if st == "ok" else [])


def reload(c, rng, m):
    path = os.path.join(c.scratch, "weather%d.json" % rng.randrange(3))
    cls = type(m) if rng.random() < .7 else Own
    st, r = vf.call(lambda: (m.to_file(path), cls.from_file(path))[1])
    c.ev(new=False, op="reload", out=vf.outcome(st, r), obs=obs(r) if st == "ok" else {}, kind="asked" if st == "ok" and type(r) is cls else "other")
    return r if st == "ok" else m


def main(c):
    rng = c.rng
    c.mc("MCWeather", cfg="MCWeatherSmall.cfg")
    cases = c.gen("MCWeather", limit=c.n(4000, 10 ** 9))
    groups = {}
    for k in cases:
        groups.setdefault(repr(k["ax"]), []).append(k)
    for g in groups.values():
        m = make(c, rng, g[0]["ax"], g[0]["dat"], ["a", "b"])
        if m is None:
            continue
        re = rng.random() < .5
        for i, k in enumerate(g):
            if re and i == len(g) // 2:
                m = reload(c, rng, m)
            get(c, rng, m, k["p"], ["a", "b"])
    names = ["TWS", "TWA", "wave", "current", "temp"]
    for _ in range(c.n(120, 2500)):
        def axis(lo, span):
            n = rng.choice([1, 2, 2, 3, 4, 6])
            return sorted(rng.sample(range(lo, lo + span), n))
        o = [rng.randint(-40, 40), rng.randint(-350, 330), rng.randint(-700, 680)]
        ax = [axis(o[0], 10), axis(o[1], 12), axis(o[2], 12)]
        if rng.random() < .08:      # a fine grid in one direction
            i = rng.randrange(3)
            ax = [a[:2] for a in ax]
            ax[i] = sorted(rng.sample(range(o[i], o[i] + 40), rng.randint(22, 32)))
        attrs = rng.sample(names, rng.randint(1, 3))
        dat = [[[[rng.randint(-60, 60) for _ in attrs] for _ in ax[2]] for _ in ax[1]] for _ in ax[0]]
        if rng.random() < .25:       # gaps in the data
            for i in dat:
                for j in i:
                    for k in j:
                        k[:] = [LACK if rng.random() < .1 else v for v in k]
        m = make(c, rng, ax, dat, attrs)
        if m is None:
            continue
        for _ in range(rng.randint(6, 16)):
            p = []
            for a in ax:
                r = rng.random()
                p.append(rng.choice(a) if r < .4 else rng.randint(a[0], a[-1]) if r < .96
                         else rng.choice([a[0] - 1, a[-1] + 1]))
            get(c, rng, m, p, attrs)
            if rng.random() < .08:
                m = reload(c, rng, m)
    c.validate("TraceWeather")
