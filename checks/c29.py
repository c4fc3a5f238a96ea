"""C29: cruise, isochrone and cost of a cruise against spec/Voyage.tla and spec/Course.tla."""
import math
from datetime import datetime, timedelta
import numpy as np
import vf
from num import fx, BADNUM
from c19 import Raw, ang, S
from hrosailing.cruising import cost_cruise, cruise, isochrone
from hrosailing.models import InfluenceModel, WeatherModel
from hrosailing.polardiagram import PolarDiagram, PolarDiagramTable

T0 = datetime(2021, 5, 4, 6)
STUCK = 100000
UNIT = {0: (0, 1), 45: (1, 1), 90: (1, 0), 135: (1, -1), 180: (0, -1), 225: (-1, -1), 270: (-1, 0), 315: (-1, 1)}


class Weather(WeatherModel):
    """zones along the way and periods; tells the boat (below) through the wind speed where and when it is"""
    def __init__(self, way, start, keys, given, outside, u, v):
        self.zs, self.es, self.start, self.keys, self.given, self.outside = way["zs"], way["es"], start, keys, given, outside
        self.u, self.v, self.q, self.cache = u, v, [], {}
        self.calm, self.own = False, {}      # no wind at all; other values
        self.half = {}      # half of a description of the wind is none

    def rel(self, lat, lon):
        return [(lat - self.start[0]) * 60, ((lon - self.start[1] + 180) % 360 - 180) * 60 * math.cos(math.radians(self.start[0]))]

    def get_weather(self, point):
        t, lat, lon = point
        n, e = self.rel(lat, lon)
        if abs(lon - self.start[1]) > 180 and abs(self.start[1]) not in (180, 179.99):
            e += 10 ** 4        # weather is known in the terms of the way only
        s = math.hypot(n, e) * 100
        h = (t - T0).total_seconds() / 3600
        self.q.append([fx(n, 100), fx(e, 100), fx(min(h, 1e4), 10 ** 4)])
        i, x = 0, s
        while i < len(self.zs) - 1 and x >= self.zs[i]["n"]:
            x -= self.zs[i]["n"]
            i += 1
        p = 0
        while p < len(self.es) and h * 10 ** 4 >= self.es[p]:
            p += 1
        if self.zs[i]["inv"][p] == STUCK and self.outside:
            raise ValueError("outside of the grid")
        tws = 100 + 10 * i + p
        if self.zs[i]["inv"][p] == STUCK and self.calm:
            return {"TWS": 0.0, "TWA": self.given} if self.keys else {"UGRID": 0.0, "VGRID": 0.0}
        if (i, p) not in self.cache:
            k = tws / math.hypot(self.u, self.v)
            self.cache[i, p] = {"TWS": tws, "TWA": self.given, **self.own} if self.keys else {**self.own, "UGRID": self.u * k, "VGRID": self.v * k, **self.half}
        return self.cache[i, p]


class Boat(PolarDiagram):
    def __init__(self, way):
        self.way, self.twa = way, []

    def speed(self, tws):
        if tws == 0:
            return 0.0
        k = int(round(tws)) - 100
        inv = self.way["zs"][k // 10]["inv"][k % 10]
        return 0.0 if inv == STUCK else 100 / inv

    def __call__(self, tws, twa):
        if tws:
            self.twa.append(fx(twa, 100))
        return self.speed(tws)

    def symmetrize(self):
        return self

    to_csv = default_points = default_slices = ws_to_slices = None

    @classmethod
    def __from_csv__(cls, f):
        return None


class Knows(InfluenceModel):
    """reads the record it is given"""
    def __init__(self, keys):
        self.keys, self.hdt, self.bad = keys, [], False

    def remove_influence(self, d):
        raise AssertionError("not used")

    def add_influence(self, pd, d):
        self.hdt.append(fx(d["HDT"][0], 100))
        if any(len(v) != 1 for v in d.values()):
            self.bad = True
        if self.keys:
            return [pd(d["TWS"][0], d["TWA"][0])]
        return [pd.speed(math.hypot(d["UGRID"][0], d["VGRID"][0]))]


def setup(rng, way):
    keys = rng.random() < .3
    im = rng.random() < .3
    lat0 = 0.0 if rng.random() < .7 else rng.choice([40.0, -30.0, 75.0])
    if way["hdt"] not in (90, 270):
        lat0 = 0.0
    start = (lat0, float(rng.choice([0, 12, -70, 100, 179.99, -180, 180, 200, 355, 359.99])))
    given = rng.choice([0, 17, 123, 300])
    w = Weather(way, start, keys, given, rng.random() < .6, way["u"], way["v"])
    w.half = rng.choice([{}, {}, {"TWS": 77.0}, {"TWA": 33.0}])
    w.calm, w.own = rng.random() < .5, rng.choice([{}, {}, {"HDT": 5.0}, {"BSP": 3.0}])
    return w, Boat(way), Knows(keys) if im else None, start, keys, given


def thin(rng, q, n=25):
    if BADNUM in [x for y in q for x in y]:
        return [[BADNUM // 100] * 3]
    return q if len(q) <= n else [q[0], q[-1]] + rng.sample(q, n - 2)


def info(w, b, im, way, keys, given, rng):
    ok = True
    if im:
        d = [abs((h / 100 - way["hdt"] + 180) % 360 - 180) for h in im.hdt]
        ok = bool(d) and max(d) < .3 and not im.bad
    return dict(zs=way["zs"], es=way["es"], hdt=way["hdt"], u=way["u"], v=way["v"], keys=keys, given=given,
                twa=sorted(set(b.twa)) if not (im and not keys) else [], hok=ok, q=thin(rng, w.q), n=len(w.q))


def unchanged(w):
    return all(set(v) == ({"TWS", "TWA", *w.own} if w.keys else {"UGRID", "VGRID", *w.half, *w.own}) and all(v[k] == x for k, x in w.own.items()) for v in w.cache.values())


def iso(c, rng, way):
    w, b, im, start, keys, given = setup(rng, way)
    total = rng.choice([5000, 10000, 20000, 7000, 2500, 60, 25]) if rng.random() < .96 else rng.choice([0, -100, -1])
    if way["zs"][0]["inv"] == [2000]:
        total = 40000
    n = rng.choice([100, 100, 300, 30])
    kw = {} if total == 10000 and rng.random() < .5 else {"total_time": total / 10 ** 4}
    if n != 100 or rng.random() < .3:
        kw["min_nodes"] = n
    if im:
        kw["im"] = im
    d = way["hdt"] if rng.random() < .8 else way["hdt"] + 360 * rng.choice([-1, 1])
    st, r = vf.call(isochrone, b, start, T0, d, w, secs=20, **kw)
    end, s = [0, 0], 0
    if st == "ok":
        st, rr = vf.call(lambda: ([fx(x, 100) for x in w.rel(*r[0])], fx(r[1], 100)))
        if st == "ok":
            end, s = rr
    c.ev(op="iso", out=vf.outcome(st, r), total=total, min=n, end=end, s=max(s, 0), step=math.ceil(500 * max(total, 0) / 10 ** 4 / n), same=unchanged(w),
         **info(w, b, im, way, keys, given, rng))


def cost(c, rng, way):
    w, b, im, start, keys, given = setup(rng, way)
    s = rng.choice([50, 120, 300, 430, 700])
    e, n = UNIT[way["hdt"]]
    k = s / 100 / 60 / math.hypot(e, n)
    end = (start[0] + n * k, start[1] + e * k / math.cos(math.radians(start[0])))
    k0, k1, a, bb = [rng.randint(0, 4) for _ in range(4)]
    dens = rng.random() < .6
    seen, dq = [], []

    def absolute(t, d):
        seen.append((t, d))
        return a * t + bb * d

    def density(t, lat, lon, m):
        n_, e_ = w.rel(lat, lon)
        dq.append([fx(n_, 100), fx(e_, 100), fx(min((t - T0).total_seconds() / 3600, 1e4), 10 ** 4)])
        assert m is w
        return k0 + k1 * math.hypot(n_, e_)

    parts = rng.choice([20, 200])
    kw = {"max_step": s / 100 / parts, "rtol": 1e-6, "atol": 1e-7}
    if rng.random() < .3:
        kw["method"] = "RK23"
    if dens:
        kw["cost_fun_dens"] = density
    plain = not dens and rng.random() < .3
    if plain:
        a, bb = 1, 0
    else:
        kw["cost_fun_abs"] = absolute
    if im:
        kw["im"] = im
    st, r = vf.call(cost_cruise, b, start, end, T0, w, secs=20, **kw)
    t = d = cst = 0
    if st == "ok":
        cst = fx(min(float(r), 1e5), 100)
        t, d = (fx(min(seen[-1][0], 1e4), 10 ** 4), fx(seen[-1][1], 100)) if seen else (fx(min(float(r), 1e4), 10 ** 4), s)
        if not plain and not seen:
            st, r = "err", ValueError("absolute cost not used")
    blocked = t > 10 ** 7
    if blocked:
        a = bb = k0 = k1 = 0
        dens, cst = False, 0
    c.ev(op="cost", out=vf.outcome(st, r), s=s, t=t, dist=d, cost=cst, dens=dens, k0=k0, k1=k1, a=a, b=bb, dq=thin(rng, dq),
         step=math.ceil(s / parts), same=unchanged(w), **info(w, b, im, way, keys, given, rng))


class Rig(InfluenceModel):
    def __init__(self, f):
        self.f = f

    def remove_influence(self, d):
        raise AssertionError("not used")

    def add_influence(self, pd, d):
        sl = pd.get_slices(float(d["TWS"][0]))[1][0]
        by = {round(float(a) % 360, 7): b for a, b in zip(sl[1], sl[2])}
        return [by[round(float(a) % 360, 7)] * f for a, f in zip(d["TWA"], d["f"])]


def go(c, rng):
    """cruise: along the equator or a meridian"""
    R = rng.choice([3, 6, 12])
    pts = {}
    for _ in range(rng.randint(2, 8)):
        x, y = rng.randint(-R, R), rng.randint(-R, R)
        if (x, y) != (0, 0):
            pts.setdefault(round(ang(x, y), 7), (x, y))
    pts = list(pts.values())
    if rng.random() < .4:
        pts = list({round(ang(x, y), 7): (x, y) for a, b in pts for x, y in ((a, b), (a, -b))}.values())
    if len(pts) < 2:
        return
    u = rng.choice(pts) if rng.random() < .2 else (rng.randint(-9, 9), rng.randint(-9, 9))
    if u == (0, 0):
        u = (1, 2)
    course = rng.choice([0, 90, 180, 270])
    length = rng.choice([.5, 1, 3, -1, 1e-3, -1e-5, 2e-5])
    lon, lat = float(rng.randint(-60, 60)), 0.0
    D = abs(length)
    if course in (90, 270):
        end, dist = (lon + (D if course == 90 else -D), lat), D * 60.1077
    else:
        lat = float(rng.choice([0, 20, 45, -45]))
        end, dist = (lon, lat + (D if course == 0 else -D)), D * 60
    wdir = (course - ang(*u)) % 360            # the wind comes from there
    fmt = rng.choice(["ws_wan", "ws_wan", "ws_wa_hdt", "uv_grd", "wrong"] if rng.random() < .2 else ["ws_wan", "ws_wa_hdt", "uv_grd"])
    W = rng.choice([5, 10, 12])
    kw = {}
    if fmt == "ws_wan":
        wind = (W, wdir)
        if rng.random() < .5:
            kw["wind_fmt"] = fmt
    elif fmt == "ws_wa_hdt":
        h = rng.choice([0, 30, 200, 350])
        wind, kw["wind_fmt"] = (W, (h - wdir) % 360, h), fmt
    else:
        wind, kw["wind_fmt"] = (-W * math.sin(math.radians(wdir)), -W * math.cos(math.radians(wdir))), fmt
    im = rng.random() < .3
    sc = 2 if im else 1
    back = rng.choice([0, 0, 0, .2])
    heads = [rng.random() >= back for _ in pts]          # on the other headings the boat rests or drifts backwards
    vals = [(ang(x, y), math.hypot(x, y) / S / sc * (1 if k else -rng.choice([0, .5, 2]))) for (x, y), k in zip(pts, heads)]
    asked = []
    d = Raw(vals, None)
    old = d.ws_to_slices
    d.ws_to_slices = lambda ws, **k: (asked.extend(float(np.ravel(x)[0]) for x in ws), old(ws, **k))[1]
    inf = {"f": sc, "other": 3}
    keep = dict(inf)
    if im:
        kw.update(im=Rig(sc), influence_data=inf)
    st, r = vf.call(cruise, d, (lon, lat), end, wind, **kw)
    legs, mg = [], 0
    if st == "ok":
        try:
            tt = sum(t for _, t in r)
            dire = ang(*u)
            for a, t in r:
                cand = [i for i, (x, b) in enumerate(vals) if abs((a - x + 180) % 360 - 180) < 1e-3]
                legs.append([cand[0] + 1 if cand else 0, bool(abs((a - dire + 180) % 360 - 180) < .01), fx(t / tt, 10 ** 6), ""])
            mg = fx(dist / tt * S / math.hypot(*u), 1000)
        except (TypeError, ValueError, ZeroDivisionError):
            st, r = "err", ValueError("no course")
    c.ev(op="cruise", fmt=fmt != "wrong", pts=[dict(x=x, y=y, s="", k=k) for (x, y), k in zip(pts, heads)], uu=dict(x=u[0], y=u[1]), out=vf.outcome(st, r),
         legs=legs, mg=mg, wsok=bool(asked) and all(abs(x - W) < 1e-6 for x in asked), same=inf == keep)


def far(c, rng):
    """cruise over long distances, a boat equally fast in all directions: initial course and distance on earth"""
    p = [rng.randint(-180, 180), rng.randint(-80, 80)]
    r = rng.random()
    if r < .3:
        q = [p[0], max(-89, min(89, p[1] + rng.choice([-1, 1]) * rng.randint(1, 70)))]
    elif r < .5:
        p[1] = 0
        q = [p[0] + rng.choice([-1, 1]) * rng.randint(1, 120), 0]
    else:
        q = [p[0] + rng.randint(-130, 130), rng.randint(-80, 80)]
    if p == q:
        return
    wdir, v = rng.choice([0, 0, 35, 200, 359]), rng.choice([1, 5, 8])
    d = Raw([(float(a), float(v)) for a in range(360)], None)
    st, r = vf.call(cruise, d, tuple(p), tuple(q), (10, wdir))
    dist, way = 0, [0, 0]
    if st == "ok" and len(r):
        st, o = vf.call(lambda: (sum(t for _, t in r) * v, [sum(t * f(math.radians(a + wdir)) for a, t in r) / sum(t for _, t in r) for f in (math.cos, math.sin)]))
        if st == "ok":
            dist, way = fx(o[0], 100), [fx(x, 10000) for x in o[1]]
    c.ev(op="far", p=[p[1], p[0]], q=[q[1], q[0]], out=vf.outcome(st, r), dist=dist, way=way)


class Steady(WeatherModel):
    def get_weather(self, point):
        return {"TWS": 10.0, "TWA": 50.0}


class Even(Boat):
    def __init__(self, v):
        self.v = v

    def __call__(self, tws, twa):
        return self.v


def far_cost(c, rng):
    """the cost of long ways in steady weather: their length and duration"""
    p = [rng.randint(-55, 55), rng.choice([rng.randint(-180, 180), 179, -179, -180, 180])]
    r = rng.random()
    dlat = 0 if r < .35 else rng.choice([-1, 1]) * rng.randint(1, 10)
    dlon = 0 if .35 <= r < .65 else rng.choice([-1, 1]) * rng.randint(1, 12)
    if dlat == dlon == 0:
        return
    q = [p[0] + dlat, p[1] + dlon]
    q[1] = (q[1] + 180) % 360 - 180 if rng.random() < .5 and abs(p[1]) != 180 else q[1]
    if rng.random() < .2:        # longitudes counted from 0 to 360
        p[1] = rng.choice([p[1] % 360, 350, 356, 359, 1, 4, 9])
        q[1] = (p[1] + dlon) % 360
    v, seen = rng.choice([2.0, 5.0, 8.0]), []
    pos = rng.choice([tuple, list, np.array])
    st, r = vf.call(lambda: float(cost_cruise(Even(v), pos(p), pos(q), T0, Steady(), cost_fun_abs=lambda t, s: (seen.append((t, s)), t + s)[1])), secs=20)
    t, s = seen[-1] if seen else (0, 0)
    c.ev(op="farcost", p=p, dlat=abs(dlat), dlon=abs(dlon), out=vf.outcome(st, r), dist=fx(s, 100), tv=fx(t * v, 100), cost=fx(r - t, 100) if st == "ok" else 0, mid=[abs(p[0] + q[0]) // 2, (abs(p[0] + q[0]) + 1) // 2])


def rnd_way(rng):
    per = rng.choice([1, 1, 2, 3])
    es = sorted(rng.sample([1500, 3000, 4000, 6000, 9000], per - 1))
    zs = []
    for _ in range(rng.randint(1, 4)):
        inv = [STUCK] * per if zs and rng.random() < .15 else [rng.choice([5, 10, 12, 20, 25, 50]) for _ in range(per)]
        zs.append(dict(n=rng.choice([60, 100, 180, 250]), inv=inv))
    h = rng.choice(list(UNIT))
    u, v = UNIT[rng.choice(list(UNIT))]
    if rng.random() < .04:
        zs, es = [dict(n=500, inv=[2000])], []          # hardly any wind
    return dict(zs=zs, es=es, hdt=h, u=u, v=v)


def main(c):
    rng = c.rng
    for h in c.gen("MCVoyage", limit=c.n(150, 1500)):
        (iso if rng.random() < .6 else cost)(c, rng, h)
    for _ in range(c.n(200, 3000)):
        iso(c, rng, rnd_way(rng))
    for _ in range(c.n(80, 1200)):
        cost(c, rng, rnd_way(rng))
    for _ in range(c.n(500, 6000)):
        go(c, rng)
    for _ in range(c.n(250, 3000)):
        far(c, rng)
    for _ in range(c.n(150, 2000)):
        far_cost(c, rng)
    c.validate("TraceVoyage")
