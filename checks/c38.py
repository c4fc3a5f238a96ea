"""C38: optional arguments left out against their documented defaults, spec/Defaults.tla."""
import datetime as dtm
import math
import os
import random
import warnings
import zlib
from datetime import datetime, timedelta
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb
import numpy as np
import scipy.integrate
import hrosailing.plotting as hp
import vf
from hrosailing.processing.interpolator import ShepardInterpolator
from m2 import m2
from num import fx
from hrosailing.core.computing import scaled_euclidean_norm
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.core.modelfunctions import ws_s_wa_gauss_and_square
from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
from hrosailing.models import FlatMercatorProjection, IdentityInfluenceModel, MultiWeatherModel, SphericalGlobe, WindAngleCorrectingInfluenceModel
from hrosailing.models.influencemodel import InfluenceModel
from hrosailing.models.weather_model import WeatherModel
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.expander import Expander, LazyExpander, WeatherExpander
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable, from_csv
from hrosailing.processing import (AffineSmoother, ArithmeticMeanInterpolator, Ball, BoundFilter, CsvFileHandler, Cuboid, CylindricMeanWeigher,
                                   CylindricMemberWeigher, DataHandler, Ellipsoid, FillLocalImputator, FuzzyVariable, IDWInterpolator,
                                   ImprovedIDWInterpolator, LazySmoother, LeastSquareRegressor, NMEAFileHandler, ODRegressor, Polytope, QuantileFilter,
                                   RemoveOnlyImputator, ScalingBall, UniformRandomSampler, ZeroInjector)

BASE = datetime(2022, 6, 1, 12)


def taxi(v):
    """another norm"""
    return np.abs(np.atleast_2d(v)).sum(axis=1) / 30


def nums(x, out):
    """a digest of a result: integers"""
    if isinstance(x, dict):
        out.append(1000 + len(x))
        for k in x:
            nums(str(k), out)
            nums(x[k], out)
    elif isinstance(x, (str, bytes)):
        out.append(zlib.crc32(x.encode() if isinstance(x, str) else x) % 10 ** 8)
    elif isinstance(x, Exception):
        nums(type(x).__name__, out)
    elif x is None or isinstance(x, (bool, np.bool_, type)):
        out.append(zlib.crc32(str(x).encode()) % 10 ** 8)
    elif isinstance(x, (datetime, dtm.date, dtm.time, timedelta)):
        nums(repr(x), out)
    elif isinstance(x, np.ndarray) and x.dtype != object and x.ndim:
        nums([list(x.shape)] + x.ravel().tolist(), out)
    elif isinstance(x, (list, tuple)) or np.ndim(x) or hasattr(x, "__iter__"):
        x = list(x)
        out.append(2000 + len(x))
        for y in x:
            nums(y, out)
    elif not isinstance(x, (int, float, np.number, np.ndarray)) or np.iscomplexobj(x):
        nums(type(x).__name__, out)
    else:
        out.append(fx(x, 10 ** 5) if abs(x) < 10 ** 4 else fx(math.log(abs(x)), 10 ** 7))
    return out


def digest(st, v):
    if st != "ok":
        return [-1, zlib.crc32(vf.outcome(st, v).encode()) % 10 ** 8]
    d = nums(v, [])
    if len(d) <= 40:
        return d
    return d[:30] + [zlib.crc32(repr(d).encode()) % 10 ** 8, len(d)]


def data_of(d):
    return {k: list(d[k]) for k in d.keys()}


def table_of(t):
    return [t.wind_speeds, t.wind_angles, t.boat_speeds]


def spread(rng, n=9, ws=2, wa=20):
    """points near each other, some close by the others"""
    a, b = rng.choice([8, 10, 14]), rng.choice([40, 90, 120])
    return np.array([[a + rng.uniform(-ws, ws), b + rng.uniform(-wa, wa), rng.randint(1, 60) / 4] for _ in range(n)])


class Im(InfluenceModel):
    def remove_influence(self, d):
        return np.column_stack([d["TWS"], d["TWA"], np.array(d["BSP"]) * .9])

    def add_influence(self, pd, d):
        k = 1 + .5 * (d.get("f", 0) if np.ndim(d.get("f", 0)) == 0 else np.ravel(d["f"])[0])
        if "TWS" not in d or not np.ndim(d["TWS"]):
            return .8 * k * pd(d["TWS"], d["TWA"])
        return [5 + 4 * math.cos(math.radians(a) * (2 if k > 1 else 3)) for _, a in zip(d["TWS"], d["TWA"])]


class Sea(WeatherModel):
    """weather known on a part of the earth"""
    def __init__(self, edge=90, k=1):
        self.edge, self.k = edge, k

    def get_weather(self, p):
        if p[1] > self.edge:
            raise ValueError("outside")
        return {"TWS": 8 + self.k, "TWA": 90 + p[1], "WVHGT": self.k * 1.0}


class Files(DataHandler):
    def handle(self, d):
        r = Data.from_dict({k: list(v) for k, v in d.items()})
        self.set_statistics(r)
        return r


class More(Expander):
    def expand(self, d):
        d = d.get_slice(list(d.keys()))
        d["BSP"] = [x * 1.1 for x in d["BSP"]]
        self.set_statistics(d)
        return d


def member(mk):
    def f(kw, rng, c):
        n = mk(rng, kw)
        return n.is_contained_in(np.array([[rng.uniform(-4, 4) * s, rng.uniform(-40, 40) * s] for s in (1, .5, .1, .02, .01, .005) for _ in range(6)]))
    return f


def interp(mk):
    def f(kw, rng, c):
        p = spread(rng)
        w = WeightedPoints(p, weights=np.array([rng.choice([.5, 1, 2]) for _ in p]))
        i = mk(rng, kw)
        return [i.interpolate(w, np.array(g)) for g in ([p[:, 0].mean(), p[:, 1].mean()], [p[0, 0] + .3, p[0, 1] - 2.5], [p[1, 0], p[1, 1] + 1e-7])]
    return f


def weighed(cls):
    def f(kw, rng, c):
        p = spread(rng, 14)
        d = Data.from_dict({"TWS": p[:, 0].tolist(), "TWA": p[:, 1].tolist(), "BSP": p[:, 2].tolist(), "X": [rng.choice([1., 5., 30.]) for _ in p]})
        if kw.get("norm"):
            return cls(**kw).weigh(p)
        return [cls(**kw).weigh(d)] + ([cls(**kw).weigh(p)] if not kw.get("dimensions") else [])
    return f


def fuzzy(kw, rng, c):
    v = FuzzyVariable(**kw)
    f = (v > 3) & (v < 7.5)
    return [vf.call(lambda: [float(f(x)) for x in (2., 3.1, 7.4)]), vf.call(lambda: [float(f({"a": x})) for x in (2., 3.1, 7.4)])]


def smooth(kw, rng, c):
    t, s = [], 0
    for _ in range(14):
        t.append(BASE + timedelta(seconds=s))
        s += rng.choice([3, 10, 25, 29, 31, 40])
    d = Data.from_dict({"datetime": t, "TWS": [float(rng.choice([4, 4, 5, 6])) for _ in t]})
    return data_of(AffineSmoother(**kw).smooth(d))


def impute(kw, rng, c):
    t, s = [], 0
    for _ in range(16):
        t.append(BASE + timedelta(seconds=s))
        s += rng.choice([30, 60, 100, 119, 121, 200])
    d = Data.from_dict({"datetime": t, "a": [None if rng.random() < .5 else float(i) for i in range(16)], "b": [None if rng.random() < .4 else i * 2. for i in range(16)]})
    return data_of(FillLocalImputator(**kw).impute(d))


def expand(kw, rng, c):
    d = Data.from_dict({"datetime": [BASE] * 5, "lat": [1., 9., 3., 8., 2.], "lon": [0.] * 5, "x": [1., 2., 3., 4., 5.]})
    return data_of(WeatherExpander(Sea(5), **kw).expand(d))


def multi(kw, rng, c):
    m = MultiWeatherModel(Sea(5), Sea(50, 3), **kw)
    return [[str(st)] + (sorted(v.items()) if st == "ok" else [vf.outcome(st, v)]) for st, v in (vf.call(m.get_weather, (BASE, x, 0)) for x in (2, 20, 70))]


def curve3(ws, wa, a, b, c_):
    return a * ws + b * np.sin(np.deg2rad(wa)) + c_ * ws * wa / 180


def bend(ws, wa, a, b):
    return a * ws * np.exp(-((wa - b) / 60) ** 2)


def odr(kw, rng, c):
    p = np.array([[a, b, bend(a, b, .5, 100) + rng.uniform(-.2, .2)] for a in (6, 8, 10) for b in (40, 70, 100, 130)])
    r = ODRegressor(bend, [2, 30], **kw)
    r.fit(p)
    return r.optimal_params


def sharp(kw, rng, c):
    d = table(rng)
    return [list(map(float, x)) for s in d.get_slices([7, 11.5], **kw)[1] for x in s]


def infl(run):
    return lambda kw, rng, c: run(dict(kw, im=Im()), rng, c)


def least(kw, rng, c):
    def sine(ws, wa, a, b):
        return np.sin(a * ws) + b
    p = np.array([[a, b, math.sin(.7 * a) + 2] for a in (6, 8, 10, 11, 12.5) for b in (40, 70, 100, 130)])
    r = LeastSquareRegressor(sine, **kw)
    r.fit(p)
    return r.optimal_params


def csvfile(kw, rng, c):
    f = os.path.join(c.scratch, "d.csv")
    t = rng.choice(["2022-06-01 12:00:00.5", "2022-06-01 12:00:00.000"])
    with open(f, "w") as o:
        o.write("datetime,TWS\n%s,5.5\n%s,6\n" % (t, t))
    return data_of(CsvFileHandler(**kw).handle(f))


def nmea(kw, rng, c):
    f = os.path.join(c.scratch, "d.vdr")
    body = ["IIMWV,%d.1,T,%d.5,N,A" % (rng.randint(10, 99), rng.randint(3, 20)), "IIVHW,,,045,M,%d.5,N,6.8,K" % rng.randint(2, 9), "GPGLL,54.3,N,010.2,E,120055,A",
            "GPRMC,120055,A,5404.22,N,01007.27,E,4.5,309.9,010622,3.1,W"] * 2
    rng.shuffle(body)
    with open(f, "w") as o:
        for b in body:
            k = 0
            for ch in b:
                k ^= ord(ch)
            o.write("$%s*%02X\n" % (b, k))
    r = NMEAFileHandler(**kw).handle(f)
    return data_of(r)


def weighted(rng, n=25):
    a, b = rng.choice([(3, 40), (120, 359)])
    p = np.array([[4 + rng.random() * a, rng.random() * b, rng.uniform(2, 8)] for _ in range(n)])
    return WeightedPoints(p, weights=np.array([rng.choice([.5, 1]) for _ in p]))


def tableext(kw, rng, c):
    return table_of(TableExtension(**kw).process(weighted(rng, 10)))


def curveext(kw, rng, c):
    p = np.array([[rng.uniform(4, 16), rng.uniform(20, 340), 0] for _ in range(rng.choice([60, 12]))])
    noise = rng.choice([.3, 3, 8])
    p[:, 2] = ws_s_wa_gauss_and_square(p[:, 0], p[:, 1], .2, .2, 10, .001, .3, 110, 2000, .3, 250, 2000) + np.array([rng.uniform(-noise, noise) for _ in p])
    w = WeightedPoints(p, weights=np.ones(len(p)))
    d = CurveExtension(**kw).process(w)
    return [bool(d.radians)] + [d(a, math.radians(b) if d.radians else b) for a in (5, 12) for b in (50, 200)]


def cloudext(kw, rng, c):
    w = weighted(rng, 15)
    p = PointcloudExtension(**kw).process(w).points
    # the sampler draws at random: which neighbourhood and interpolator explain the values?
    why = []
    for n, i in ((BALL1, MEAN50), (BALL1, WIDE), (NARROW, MEAN50), (NARROW, WIDE)):
        nb, ip = n(), i()

        def value(g):
            m = nb.is_contained_in(w.data[:, :2] - g)
            return ip.interpolate(WeightedPoints(w.data[m], weights=w.weights[m]), g) if m.any() else 0
        why.append(all(abs(value(x[:2]) - x[2]) < 1e-6 for x in p[:40]))
    return [len(p), why]


def shift(kw, rng, c):
    m = WindAngleCorrectingInfluenceModel(**kw)
    d = {"TWS": [5., 6.], "TWA": [10., 350.], "BSP": [3., 4.]}
    a = m.remove_influence(d)
    if kw.get("wa_shift"):
        return a
    A = [float(rng.randint(0, 359)) for _ in range(4)]
    m.fit({"TWS": [5.] * 4, "TWA": A, "BSP": [1.] * 4})
    return [a, m.remove_influence(d)]


def mercator(kw, rng, c):
    g = FlatMercatorProjection(**kw)
    return [g.project(np.array([[20., 30], [-50, 7]])), g.distance((3, 5), (40, 60))]


def sphere(kw, rng, c):
    g = SphericalGlobe(**kw)
    return [g.project(np.array([[20., 30], [-50, 7]])), g.distance(*g.project(np.array([[3., 5], [40, 60]])))]


def path(name):
    def f(kw, rng, c):
        g = rng.choice([SphericalGlobe, FlatMercatorProjection])()
        ends = [(rng.randint(-60, 60), rng.randint(-90, 90)) for _ in range(2)]
        if name != "shortest_path":
            ends = [g.project(np.array([x], float))[0] for x in ends]
        p = np.asarray(getattr(g, name)(*ends, **kw))
        return [list(p.shape), p[:: max(1, len(p) // 5)]]
    return f


def table(rng):
    return PolarDiagramTable([6, 8, 10, 14], [30, 45, 60, 90, 135], [[rng.randint(8, 40) / 4 for _ in range(4)] for _ in range(5)])


def cloud(rng, **kw):
    return PolarDiagramPointcloud([[rng.randint(16, 60) / 4, rng.randint(20, 170), rng.randint(8, 40) / 4] for _ in range(12)], **kw)


def curve(rng, **kw):
    return PolarDiagramCurve(lambda ws, wa, a, b: a * np.sqrt(ws) * np.abs(np.sin(wa / b)), rng.randint(2, 9) / 4, 100, **kw)


def t_call(kw, rng, c):
    t = table(rng)
    w = PolarDiagramTable([2, 20, 59], [3, 90, 200, 355], [[rng.randint(8, 40) / 4 for _ in range(3)] for _ in range(4)])
    return [t(a, b, **kw) for a, b in ((7, 50), (6.5, 45), (10.4, 92))] + [w(a, b, **kw) for a, b in ((1, 4), (3, 355), (57, 10))]


def c_call(kw, rng, c):
    d = cloud(rng)
    p = d.points[3]
    w = PolarDiagramPointcloud([[rng.uniform(1, 60), rng.uniform(0, 359), rng.randint(8, 40) / 4] for _ in range(12)])
    return [d(p[0] + a, p[1] + b, **kw) for a, b in ((0, 2.5), (.4, 0), (.2, 3))] + [w(a, b, **kw) for a, b in ((1, 4), (3, 355), (57, 10))]


def sliced(mk, **fixed):
    def f(kw, rng, c):
        d = mk(rng)
        if isinstance(kw.get("ws"), str):
            kw = dict(kw, ws=getattr(d, kw["ws"]))
        r = d.get_slices(**fixed, **kw)
        return [list(map(float, r[0])), r[1]] + list(r[2:])
    return f


def direct(mk, **fixed):
    def f(kw, rng, c):
        return [np.asarray(x, float) for x in mk(rng).ws_to_slices([7, 10.5], **fixed, **kw)]
    return f


def sails(rng):
    return PolarDiagramMultiSails([table(rng), table(rng)], ["jib", "spi"])


def change(kw, rng, c):
    t = table(rng)
    w, a = [6, 8, 10, 14], [30, 45, 60, 90, 135]
    st, _ = vf.call(lambda: t.change_entries(np.arange(20.).reshape(5, 4)[:1 if kw.get("wa") == [45] else 5, :2 if kw.get("ws") == [8, 14] else 4], **kw))
    return [st, t.boat_speeds]


def to_file(kw, rng, c):
    f = os.path.join(c.scratch, "t.csv")
    table(rng).to_csv(f, **kw)
    return open(f).read()


def from_file(kw, rng, c):
    f = os.path.join(c.scratch, "t.csv")
    t = table(rng)
    t.to_csv(f)
    return table_of(from_csv(f, **kw))


def t_make(kw, rng, c):
    return table_of(PolarDiagramTable(**kw))


def c_add(kw, rng, c):
    d = cloud(rng)
    d.add_points([[5., 40., 3.], [12., 100., 6.]], **kw)
    return d.points


def v_make(kw, rng, c):
    d = curve(rng, **kw)
    return [d(5, 2.), d(7, 100.), d.symmetrize()(5, 2.), d.get_slices([4, 6], wa_resolution=7)[1]]


def big(rng):
    return PolarDiagramTable([10], list(range(0, 360, 15)), [[2 + rng.randint(0, 40) / 10] for _ in range(24)])


def convex(kw, rng, c):
    if "influence_data" in kw and "im" not in kw:
        kw = dict(kw, im=None)
    r = convex_direction(big(rng), 10, rng.choice([0, 7, 100, 222]), **kw)
    return [[x.angle, x.proportion, x.sail] for x in r]


def go(kw, rng, c):
    wind = {"ws_wan": (10, 30), "uv_grd": (3., 4.)}[kw.get("wind_fmt", "ws_wan")]
    return cruise(big(rng), (8., 54.), (9., 54.3), wind, **kw)


class Steady(WeatherModel):
    def get_weather(self, p):
        return {"TWS": 8. + 3 * math.sin(40 * p[1]), "TWA": 60.}


class Boat:
    def __call__(self, ws, wa):
        return .5 * ws


class Half(InfluenceModel):
    def remove_influence(self, d):
        return d

    def add_influence(self, pd, d):
        return .25 * np.asarray(d["TWS"], float) if np.ndim(d["TWS"]) else .25 * d["TWS"]


def cost(kw, rng, c):
    return round(float(np.ravel(cost_cruise(Boat(), (54., 8.), (54.2, 8.3), BASE, Steady(), max_step=2, **kw))[0]), 5)


def dcost(kw, rng, c):
    return cost(dict(kw, cost_fun_dens=dens), rng, c)


def dens(t, lat, lon, wm):
    return 1 + (lat - 54) ** 2


def iso(kw, rng, c):
    return isochrone(Boat(), (54., 8.), BASE, rng.choice([0, 40, 222]), Steady(), **kw)


def data(rng):
    return Data.from_dict({"a": [None, 1., 2., None], "b": [None, 3., None, None], "c": [None] * 4})


def d_rows(kw, rng, c):
    r = list(data(rng).rows(**kw))
    return [type(r[0]).__name__, r]


def d_fill(kw, rng, c):
    d = data(rng)
    d._data["a"].append(5.) if False else d.extend("a", [5., 6.])
    d.fill(**kw)
    return [data_of(d), d.n_rows]


def d_update(kw, rng, c):
    d = Data.from_dict({"a": [1., 2., None], "b": [5., None, None], "c": [3., None, 7.]})
    d.update({"a": 4., "b": 6.}, **kw)
    d.update({"c": 1.}, **kw)
    return data_of(d)


def d_strip(kw, rng, c):
    d = data(rng)
    d.strip(**kw)
    return [data_of(d), d.n_rows]


def concave(kw, rng, c):
    return m2.concave_function(np.array([1., 3., 9.]), 1., 2., 3., **kw)


def picture(fig, ax):
    out = [[np.ma.filled(np.ma.asarray(x, float), -9) for x in (li.get_xdata(), li.get_ydata())] + [list(to_rgb(li.get_color())), li.get_marker(), li.get_linestyle()] for li in ax.lines]
    for co in ax.collections:
        out += [] if co.get_array() is None else [np.asarray(co.to_rgba(co.get_array()))]
        out += [np.asarray(co.get_offsets()), getattr(co, "_facecolor3d", None) if hasattr(co, "_facecolor3d") else co.get_facecolor()]
        out += [np.asarray(x) for x in getattr(co, "_offsets3d", ())] + ([np.asarray(co._vec)] if hasattr(co, "_vec") else [])
    leg = ax.get_legend()
    out += [len(fig.axes), [x.get_text() for x in leg.get_texts()] if leg else None, leg._ncols if leg else 0, [a.get_ylabel() for a in fig.axes[1:]]]
    plt.close(fig)
    return out


def draw(way, projection="hro %s", **fixed):
    def f(kw, rng, c):
        d = rng.choice([table, cloud])(rng)
        fig = plt.figure()
        ax = fig.add_subplot(projection=projection)
        getattr(ax, way)(d, **fixed, **kw)
        return picture(fig, ax)
    return f


def pipe_data(rng):
    t, s = [], 0
    for _ in range(60):
        t.append(BASE + timedelta(seconds=s))
        s += rng.choice([10, 20, 40])
    d = {"datetime": t, "TWS": [rng.choice([6., 7., 8., 9.]) + rng.random() for _ in t], "TWA": [float(rng.randint(30, 60)) for _ in t],
         "BSP": [rng.choice([3., 3., 4., 5.]) if rng.random() < .9 else None for _ in t]}
    return d


def pipeline(kw, rng, c):
    r = PolarPipeline(data_handler=Files(), **kw).execute([pipe_data(rng)], testing=False, **({} if "injector" in kw else {}))
    pd = r.polardiagram
    return table_of(pd) if isinstance(pd, PolarDiagramTable) else pd.points


def execute(kw, rng, c):
    r = PolarPipeline(data_handler=Files(), injector=ZeroInjector(20), smoother=AffineSmoother()).execute([pipe_data(rng)], testing=False, **kw)
    stats = [sorted((str(k), str(x)) for k, x in s.items() if "time" not in str(k)) for s in r.training_statistics]
    return [table_of(r.polardiagram), stats]


MEAN50 = lambda: ArithmeticMeanInterpolator(params=(50,))
BALL1 = lambda: Ball(radius=1)
WIDE = lambda: IDWInterpolator()
NARROW = lambda: Ball(radius=.03)
SC = lambda: scaled_euclidean_norm
TX = lambda: taxi
NORM = (SC, TX)
ID = IdentityInfluenceModel


def v(x):
    return lambda: x


LINES = dict(ws=(v(None), v([6, 8])), colors=(v(("green", "red")), v(("blue", "red"))), show_legend=(v(False), v(True)), use_convex_hull=(v(False), v(True)))


# unit -> (run, {argument: (documented default, something else)})
UNITS = {
    "Ball": (member(lambda r, kw: Ball(**kw)), dict(radius=(v(.05), v(.02)), norm=NORM)),
    "ScalingBall": (member(lambda r, kw: ScalingBall(4, **kw)), dict(norm=NORM)),
    "Ellipsoid": (member(lambda r, kw: Ellipsoid(**kw)), dict(lin_trans=(lambda: np.eye(2), v([[2, 1], [0, 3]])), norm=NORM, radius=(v(.05), v(.015)))),
    "Cuboid": (member(lambda r, kw: Cuboid(**kw)), dict(norm=(v(np.abs), v(lambda x: np.abs(x) / 4)), dimensions=(v((.05, .05)), v((1, .3))))),
    "Polytope": (member(lambda r, kw: Polytope(**kw)), dict(mat=(lambda: np.vstack((np.eye(2), -np.eye(2))), v(np.array([[1., 1], [1, -1], [-1, 1], [-1, -1]]) * 30)),
                                                            b=(lambda: np.array([.05] * 4), lambda: np.array([.5, 1, 2, 3])))),
    "IDWInterpolator": (interp(lambda r, kw: IDWInterpolator(**kw)), dict(p=(v(2), v(3)), norm=NORM)),
    "ArithmeticMeanInterpolator": (interp(lambda r, kw: ArithmeticMeanInterpolator(**kw)), dict(s=(v(1), v(2)), norm=NORM, params=(v((100,)), v((10,))))),
    "ArithmeticMeanInterpolatorD": (interp(lambda r, kw: ArithmeticMeanInterpolator(distribution=lambda d, w, *p: w / (d + len(p) + sum(p)), **kw)), dict(params=(v(()), v((1, 2))))),
    "ImprovedIDWInterpolator": (interp(lambda r, kw: ImprovedIDWInterpolator(**kw)), dict(norm=NORM)),
    "ShepardInterpolator": (interp(lambda r, kw: ShepardInterpolator(ScalingBall(5), **kw)), dict(tol=(v(float(np.finfo(float).eps)), v(.01)), slope=(v(.1), v(.8)), norm=NORM)),
    "CylindricMeanWeigher": (weighed(CylindricMeanWeigher), dict(radius=(v(.05), v(.02)), norm=(v(None), v(lambda x: np.abs(x).sum(axis=1) / 30)), dimensions=(v(None), v(["TWS"])))),
    "CylindricMemberWeigher": (weighed(CylindricMemberWeigher), dict(radius=(v(.05), v(.02)), length=(v(.05), v(2)), norm=(v(None), v(lambda x: np.abs(x).sum(axis=1) / 30)),
                                                                     dimensions=(v(None), v(["TWS"])))),
    "FuzzyVariable": (lambda kw, rng, c: fuzzy(dict(kw, sharpness=5), rng, c), dict(key=(v(None), v("a")))),
    "FuzzyVariable.sharp": (fuzzy, dict(sharpness=(v(10), v(3)))),
    "QuantileFilter": (lambda kw, rng, c: QuantileFilter(**kw).filter(np.array([rng.random() for _ in range(21)])), dict(percent=(v(50), v(30)))),
    "BoundFilter": (lambda kw, rng, c: BoundFilter(**kw).filter(np.array([.5, 1, 1.01, .49, 0, .6] + [rng.uniform(0, 1.5) for _ in range(15)])), dict(lower_bound=(v(.5), v(.2)), upper_bound=(v(1), v(.8)))),
    "AffineSmoother": (smooth, dict(timespan=(lambda: timedelta(seconds=30), lambda: timedelta(seconds=60)))),
    "FillLocalImputator": (impute, dict(fill_before=(v(lambda name, right, mu: right), v(lambda name, right, mu: right + mu)), fill_between=(v(lambda name, left, right, mu: left), v(lambda name, left, right, mu: right)),
                                        fill_after=(v(lambda name, left, mu: left), v(lambda name, left, mu: left - mu)), max_time_diff=(lambda: timedelta(minutes=2), lambda: timedelta(seconds=70)))),
    "WeatherExpander": (expand, dict(exception_handling_mode=(v("delete"), v("ignore")))),
    "MultiWeatherModel": (multi, dict(exception_sensitive=(v(False), v(True)))),
    "ODRegressor": (odr, dict(max_it=(v(1000), v(2)))),
    "LeastSquareRegressor": (least, dict(init_vals=(v(None), v([5., 1.])))),
    "CsvFileHandler": (csvfile, dict(date_format=(v("%Y-%m-%d %H:%M:%S.%f"), v("%Y-%d-%m %H:%M:%S.%f")))),
    "NMEAFileHandler": (nmea, dict(wanted_sentences=(v(None), v(["MWV"])), wanted_attributes=(v(None), v(["TWS", "Wind speed", "lat"])), unwanted_sentences=(v(None), v(["GLL"])),
                                   unwanted_attributes=(v(None), v(["lat", "TWS", "Wind speed", "Latitude", "SOG"])), post_filter_types=(lambda: (float, dtm.date, dtm.time, datetime), lambda: (float,)))),
    "TableExtension": (tableext, dict(wind_resolution=(v("min_max"), v(([5, 6], [30, 40, 55]))), neighbourhood=(BALL1, NARROW), interpolator=(MEAN50, WIDE))),
    "CurveExtension": (curveext, dict(regressor=(lambda: ODRegressor(model_func=ws_s_wa_gauss_and_square, init_values=(.2, .2, 10, .001, .3, 110, 2000, .3, 250, 2000)),
                                                 lambda: LeastSquareRegressor(curve3, (1., 1., 1.))), radians=(v(False), v(True)))),
    "PointcloudExtension": (cloudext, dict(sampler=(lambda: UniformRandomSampler(2000), lambda: UniformRandomSampler(50)), neighbourhood=(BALL1, NARROW), interpolator=(MEAN50, WIDE))),
    "WindAngleCorrectingInfluenceModel": (shift, dict(interval_size=(v(30), v(80)), wa_shift=(v(0), v(25)))),
    "FlatMercatorProjection": (mercator, dict(earth_radius=(v(3440), v(3000)))),
    "FlatMercatorProjection.axes": (mercator, dict(virt_northpole=(v((90, 0)), v((60, 20))), virt_zero=(v((0, 0)), v((0, 110))))),
    "SphericalGlobe": (sphere, dict(earth_radius=(v(21600 / 2 / np.pi), v(3000)))),
    "shortest_path": (path("shortest_path"), dict(res=(v(1000), v(10)))),
    "shortest_projected_path": (path("shortest_projected_path"), dict(res=(v(1000), v(10)))),
    "table.call": (t_call, dict(interpolator=(MEAN50, WIDE), neighbourhood=(BALL1, lambda: Ball(radius=.08)))),
    "table.get_slices": (sliced(table), dict(ws=(v([6, 8, 10, 14]), v([8, 14])), n_steps=(v(None), v(1)), full_info=(v(False), v(True)))),
    "table.get_slices.between": (sharp, dict(interpolator=(MEAN50, WIDE))),
    "convex_direction.influenced": (infl(convex), dict(influence_data=(v(None), lambda: {"f": 1}))),
    "cruise.influenced": (infl(go), dict(influence_data=(v(None), lambda: {"f": 1}))),
    "table.change_entries": (change, dict(ws=(v([6, 8, 10, 14]), v([8, 14])), wa=(v([30, 45, 60, 90, 135]), v([45])))),
    "table.to_csv": (to_file, dict(fmt=(v("hro"), v("opencpn")))),
    "table.make": (t_make, dict(ws_resolution=(v(list(range(2, 42, 2))), v([4, 8])), wa_resolution=(v(list(range(0, 360, 5))), v([40, 90])))),
    "cloud.call": (c_call, dict(interpolator=(MEAN50, WIDE), neighbourhood=(BALL1, lambda: Ball(radius=.1)))),
    "cloud.get_slices": (sliced(cloud, interpolator=None), dict(ws=(v("default_slices"), v([5, 9])), full_info=(v(False), v(True)), range_=(v(1), v(2)))),
    "cloud.get_slices.interpolated": (sliced(cloud, ws=[6, 10], interpolator=IDWInterpolator()), dict(wa_resolution=(v(100), v(20)))),
    "cloud.ws_to_slices": (direct(cloud), dict(range_=(v(1), v(2)))),
    "cloud.ws_to_slices.interpolated": (direct(cloud, interpolator=IDWInterpolator()), dict(wa_resolution=(v(100), v(20)))),
    "curve.ws_to_slices": (direct(curve), dict(wa_resolution=(v(100), v(20)))),
    "table.ws_to_slices": (direct(lambda rng: table(rng)), dict(interpolator=(MEAN50, WIDE))),
    "sails.get_slices": (sliced(sails), dict(ws=(v("default_slices"), v([6, 10])), full_info=(v(False), v(True)))),
    "cloud.make": (lambda kw, rng, c: cloud(rng, **kw).points, dict(apparent_wind=(v(False), v(True)))),
    "cloud.add_points": (c_add, dict(apparent_wind=(v(False), v(True)))),
    "curve.make": (v_make, dict(radians=(v(False), v(True)))),
    "curve.get_slices": (sliced(curve), dict(ws=(v("default_slices"), v([5, 9])), full_info=(v(False), v(True)), wa_resolution=(v(100), v(20)))),
    "from_csv": (from_file, dict(fmt=(v("hro"), v("array")))),
    "convex_direction": (convex, dict(im=(v(None), Im))),
    "cruise": (go, dict(wind_fmt=(v("ws_wan"), v("uv_grd")), im=(v(None), Im))),
    "cost_cruise": (cost, dict(cost_fun_dens=(v(None), v(dens)), cost_fun_abs=(v(lambda t, s: t), v(lambda t, s: 2 * s)), im=(v(None), Half))),
    "cost_cruise.density": (dcost, dict(integration_method=(v(scipy.integrate.trapezoid), v(lambda y, x: 7.)))),
    "isochrone": (iso, dict(total_time=(v(1), v(2.5)), min_nodes=(v(100), v(3)), im=(v(None), Half))),
    "Data.rows": (d_rows, dict(keys=(v(["a", "b", "c"]), v(["b"])), return_type=(v(dict), v(tuple)))),
    "Data.fill": (d_fill, dict(len_=(v(6), v(9)), keys=(v(["a", "b", "c"]), v(["c"])))),
    "Data.strip": (d_strip, dict(mode=(v("all"), v("rows")))),
    "Data.update": (d_update, dict(compress=(v(False), v(True)))),
    "gompertz_model": (lambda kw, rng, c: m2.gompertz_model(np.array([1., 2., 3.]), 1., .5, 3., **kw), dict(neg=(v(False), v(True)))),
    "s_shaped": (lambda kw, rng, c: m2.s_shaped(np.array([1., 2., 3.]), 1., .5, 3., .2, **kw), dict(downturn=(v(True), v(False)))),
    "polynomial_function": (lambda kw, rng, c: m2.polynomial_function(np.array([1., 2., 3.]), 1., .5, 3., .2, **kw), dict(deg=(v(1), v(3)))),
    "concave_function": (concave, dict(downturn=(v(True), v(False)), sat_limit=(v(False), v(True)))),
    "polar.plot": (draw("plot", "hro polar"), LINES),
    "polar.plot.legend": (draw("plot", "hro polar", show_legend=True, ws=[6, 8, 10]), dict(legend_kw=(v(None), lambda: {"ncol": 2}))),
    "flat.plot": (draw("plot", "hro flat"), LINES),
    "flat.plot.legend": (draw("plot", "hro flat", show_legend=True, ws=[6, 8, 10]), dict(legend_kw=(v(None), lambda: {"ncol": 2}))),
    "polar.scatter": (draw("scatter", "hro polar"), LINES),
    "polar.scatter.legend": (draw("scatter", "hro polar", show_legend=True, ws=[6, 8, 10]), dict(legend_kw=(v(None), lambda: {"ncol": 2}))),
    "flat.scatter": (draw("scatter", "hro flat"), LINES),
    "flat.scatter.legend": (draw("scatter", "hro flat", show_legend=True, ws=[6, 8, 10]), dict(legend_kw=(v(None), lambda: {"ncol": 2}))),
    "gradient": (draw("scatter", "hro color gradient"), dict(wind=(v(None), v(([6, 9], [40, 80, 100]))), colors=(v(("green", "red")), v(("blue", "red"))), show_legend=(v(False), v(True)))),
    "3d.scatter": (draw("scatter", "hro 3d"), dict(wind=(v(None), v(([6, 9], [40, 80, 100]))), colors=(v(("green", "red")), v(("blue", "red"))))),
    "3d.surface": (draw("plot_surface", "hro 3d"), dict(wind=(v(None), v(([6, 9, 12], [40, 80, 100]))), colors=(v(("green", "red")), v(("blue", "red"))))),
    "pipeline": (pipeline, dict(imputator=(FillLocalImputator, RemoveOnlyImputator), smoother=(LazySmoother, AffineSmoother), pre_weigher=(CylindricMeanWeigher, lambda: CylindricMemberWeigher(length=1)),
                                pre_filter=(QuantileFilter, lambda: QuantileFilter(80)), expander=(LazyExpander, More), influence_model=(ID, lambda: WindAngleCorrectingInfluenceModel(wa_shift=9)),
                                post_weigher=(CylindricMeanWeigher, lambda: CylindricMemberWeigher(length=1)), post_filter=(QuantileFilter, lambda: QuantileFilter(80)),
                                injector=(lambda: ZeroInjector(500), lambda: ZeroInjector(3)), extension=(TableExtension, lambda: TableExtension(neighbourhood=NARROW())))),
    "pipeline.execute": (execute, {k: (v(True), v(False)) for k in ("pre_expander_weighing", "pre_expander_filtering", "pre_weighing", "pre_filtering", "smoothing", "weighing", "filtering", "injecting")}),
}


def one(c, unit, cfg, names, seed):
    run, par = UNITS[unit]
    kw = {n: par[n][0 if g == "default" else 1]() for n, g in zip(names, cfg) if g != "omitted"}
    np.random.seed(seed % 2 ** 31)
    random.seed(seed)
    return digest(*vf.call(run, kw, random.Random(seed), c, secs=30))


def main(c):
    warnings.simplefilter("ignore")
    by = {}
    for h in c.gen("MCDefaults"):
        by.setdefault((h["u"][0], tuple(h["u"][1])), []).append(tuple(h["c"]))
    moved = set()
    for (unit, names), cfgs in sorted(by.items()):
        cfgs.sort()
        assert set(names) == set(UNITS[unit][1]), unit
        if os.environ.get("SHOW") not in (None, "1", unit):
            continue
        slow = unit in ("CurveExtension", "PointcloudExtension", "pipeline", "pipeline.execute", "cost_cruise", "isochrone", "plot", "ODRegressor", "LeastSquareRegressor",
                        "WindAngleCorrectingInfluenceModel", "TableExtension")
        for k in range(c.n(2 if slow else 8, 6 if slow else 40)):
            s = c.rng.randrange(10 ** 9)
            tried = cfgs
            if not os.environ.get("SHOW") and not c.thorough and unit in ("CurveExtension", "PointcloudExtension", "pipeline", "pipeline.execute"):
                tried = [x for x in cfgs if "other" not in x]
            none = ("omitted",) * len(names)
            runs = [dict(c=list(x), got=one(c, unit, x, names, s)) for x in list(tried) + [none]]
            base = [r["got"] for r in runs if set(r["c"]) == {"omitted"}][0]
            moved |= {(unit, n) for i, n in enumerate(names) for r in runs if r["c"][i] == "other" and r["got"] != base and all(x != "other" for j, x in enumerate(r["c"]) if j != i)}
            c.ev(new=True, unit=unit, names=list(names), runs=runs)
    if os.environ.get("SHOW"):
        print("# without effect:", [(u, n) for (u, ns) in by for n in ns if (u, n) not in moved])
        print([(u["unit"], [r["got"] for r in u["runs"]][0]) for u in c.events if u["runs"][0]["got"][0] == -1])
    c.validate("TraceDefaults")
