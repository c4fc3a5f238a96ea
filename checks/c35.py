"""C35: weather read from NetCDF files and from a weather service against spec/WeatherSource.tla.
Neither netCDF4 nor meteostat is installed: stand-ins with their documented interface are put in their place."""
import sys
import types
from datetime import datetime, timedelta
import numpy as np
import pandas as pd

FILES = {}


class Variable:
    """like netCDF4.Variable"""
    def __init__(self, name, dims, data, attrs):
        self.name, self.dimensions, self._d = name, tuple(dims), np.ma.masked_array(data)
        self.shape, self.dtype, self.ndim, self.size = data.shape, data.dtype, data.ndim, data.size
        self.__dict__.update(attrs)
        self._attrs = list(attrs)

    def ncattrs(self):
        return list(self._attrs)

    def __getitem__(self, i):
        r = self._d[i]
        return r if isinstance(r, np.ma.MaskedArray) else np.ma.masked_array(r)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __array__(self, dtype=None, copy=None):
        return np.array(self._d, dtype=dtype)

    def __str__(self):
        at = "".join("    %s: %s\n" % (a, getattr(self, a)) for a in self._attrs)
        return "<class 'netCDF4._netCDF4.Variable'>\n%s %s(%s)\n%sunlimited dimensions: \ncurrent shape = %s\nfilling on" % (
            self.dtype, self.name, ", ".join(self.dimensions), at, self.shape)
    __repr__ = __str__


class Dataset:
    def __init__(self, path, mode="r", **_):
        self.variables, self.dimensions = FILES[str(path)]

    def __getitem__(self, name):
        if name not in self.variables:
            raise IndexError("%s not found in /" % name)
        return self.variables[name]

    def close(self):
        pass


PLACES = {}


class Point:
    def __init__(self, lat, lon, alt=None):
        self._lat, self._lon, self._alt = lat, lon, alt


class Hourly:
    def __init__(self, loc, start=None, end=None, *_, **__):
        self.loc, self.start, self.end = loc, start, end

    def fetch(self):
        d = PLACES[float(self.loc._lat), float(self.loc._lon)]
        return d[(d.index >= self.start) & (d.index <= self.end)].copy()


for _n, _k in (("netCDF4", dict(Dataset=Dataset, Variable=Variable)), ("meteostat", dict(Point=Point, Hourly=Hourly))):
    sys.modules[_n] = types.ModuleType(_n)
    sys.modules[_n].__dict__.update(_k)

import vf
from num import q, fx
from hrosailing.models import GriddedWeatherModel
from hrosailing.models.weather_model import NetCDFWeatherModel

NAMES = [{"t": "time", "y": "latitude", "x": "longitude", "e": "level", "h": "height"}, {"t": "valid_time", "y": "lat", "x": "lon", "e": "number", "h": "member"}]
BASES = [datetime(2020, 2, 28, 22), datetime(1970, 1, 1), datetime(1999, 12, 31, 23, 59, 30)]
LEVELS = [(0, 1.), (0, 1.), (0, 1.), (101325, .125), (2 ** 21, 2. ** -10), (0, 2. ** -30)]
LACK = -88888888
OFF, DU = LEVELS[0]      # of the source at hand: the value 0 and the unit of its values


def val(d):
    return float("nan") if d == LACK else OFF + DU * d


def tick(v):
    v = float(v)
    return LACK if v != v else fx((v - OFF) / DU, 4096)


class Clock:
    """ticks: quarters of the unit since the first tick"""
    def __init__(self, rng):
        self.unit, self.base = rng.choice(["hours", "seconds"]), rng.choice(BASES)
        self.step = timedelta(hours=1) / 4 if self.unit == "hours" else timedelta(seconds=1) / 4
        self.off = rng.choice([0, 1, 17, 400000, 1600000000 if self.unit == "seconds" else 500000])
        s = self.base
        self.text = "%s since %s" % (self.unit, s.strftime("%Y-%m-%d %H:%M:%S") if s.second or rng.random() < .5 else s.strftime("%Y-%m-%d %H:%M"))

    def time(self, k):
        return self.base + (self.off * 4 + k) * self.step

    def tick(self, t):
        try:
            d = (t - self.base) / self.step - self.off * 4
            return int(round(d)) if abs(d - round(d)) < 1e-6 else -99999999
        except Exception:
            return -99999999


def stored(rng, vals):
    a = np.array(vals, float)
    if np.all(a == np.round(a)) and rng.random() < .5:
        return a.astype(rng.choice(["int32", "int64", "float32"] if np.all(abs(a) < 2 ** 23) else ["int64"]))
    return a


def openfile(c, rng, f, clock):
    global OFF, DU
    OFF, DU = rng.choice(LEVELS)
    nm = rng.choice(NAMES)
    n = {"t": len(f["time"]), "y": len(f["lat"]), "x": len(f["lon"]), "e": f["esize"], "h": f["hsize"]}
    for v in f["vars"]:
        v["name"] = nm[v["name"][1]] if v["name"][0] == "@" else v["name"]
    var = [Variable(nm["t"], [nm["t"]], stored(rng, [clock.off + t / 4 for t in f["time"]]), {"units": clock.text}),
           Variable(nm["y"], [nm["y"]], stored(rng, [y / 4 for y in f["lat"]]), {"units": "degrees_north"}),
           Variable(nm["x"], [nm["x"]], stored(rng, [x / 4 for x in f["lon"]]), {"units": "degrees_east"})]
    rest = [Variable(v["name"], [nm[d] for d in v["dims"]], stored(rng, np.array([val(x) for x in v["vals"]]).reshape([n[d] for d in v["dims"]])),
                     {"long_name": "some (odd) name"} if rng.random() < .5 else {}) for v in f["vars"]]
    if rng.random() < .5:
        rng.shuffle(var)
    allv = var + rest if rng.random() < .5 else rest + var
    FILES["x.nc"] = ({v.name: v for v in allv}, {nm[d]: n[d] for d in "tyxeh"})
    al = {"lat": nm["y"], "lon": nm["x"], "datetime": nm["t"]}
    kw = {} if nm is NAMES[0] and rng.random() < .5 else {"aliases": al}
    fi = {nm[d]: f[k] for d, k in (("e", "further"), ("h", "furtherh")) if f[k] >= 0}
    if rng.random() < .1:
        fi["depth"] = 5       # of no variable in the file
    if fi:
        kw["further_indices"] = fi
    st, m = vf.call(NetCDFWeatherModel, "x.nc", **kw)
    for v in kw.values():      # the dictionaries belong to the caller
        v.clear()
    return st, m


def grid(m, clock):
    ts, ys, xs = m.grid
    return dict(ax=[[clock.tick(t) for t in ts], [q(y) for y in ys], [q(x) for x in xs]], attrs=[str(a) for a in m.attrs])


def show(c, m, st, clock, **k):
    g = dict(ax=[], attrs=[])
    if st == "ok":
        st, r = vf.call(grid, m, clock)
        g = r if st == "ok" else g
        m = m if st == "ok" else r
    c.ev(new=True, out=vf.outcome(st, m), **k, **g)
    return st


def get(c, rng, m, p, clock):
    t = clock.time(p[0])
    pt = [pd.Timestamp(t) if rng.random() < .2 else t, p[1] / 4, p[2] / 4]
    st, r = vf.call(m.get_weather, tuple(pt) if rng.random() < .5 else pt)
    keys, v = [], []
    if st == "ok":
        st, o = vf.call(lambda: ([str(k) for k in r], [tick(x) for x in r.values()]))
        keys, v = o if st == "ok" else ([], [])
    c.ev(new=False, op="get", p=p, out=vf.outcome(st, r), keys=keys, v=v)


def rpoint(rng, ax, nodes=False):
    p = []
    for a in ax:
        r = rng.random()
        lo, hi = min(a), max(a)
        p.append(rng.choice(a) if nodes or r < .4 else rng.randint(lo, hi) if r < .95 else rng.choice([lo - 1, hi + 1]))
    return p


def file(c, rng, f, n):
    clock = Clock(rng)
    st, m = openfile(c, rng, f, clock)
    if show(c, m, st, clock, op="file", f=f) == "ok":
        for _ in range(n):
            get(c, rng, m, rpoint(rng, [f["time"], f["lat"], f["lon"]]), clock)


def axis(rng, lo, span, nmax=4):
    n = rng.choice([1, 2, 2, 3, nmax])
    return sorted(rng.sample(range(lo, lo + span), n))


def rfile(c, rng):
    f = dict(time=axis(rng, 0, 12), lat=axis(rng, rng.randint(-300, 300), 12), lon=axis(rng, rng.randint(-700, 600), 12), esize=rng.choice([1, 2, 3]), further=-1,
             hsize=rng.choice([1, 2, 4]), furtherh=-1)
    for k in ("lat", "lon"):
        if rng.random() < .5:
            f[k] = f[k][::-1]
    n = {"t": len(f["time"]), "y": len(f["lat"]), "x": len(f["lon"]), "e": f["esize"], "h": f["hsize"]}
    if rng.random() < .8:
        f["further"] = rng.randrange(f["esize"])
    if rng.random() < .8:
        f["furtherh"] = rng.randrange(f["hsize"])
    gaps = rng.random() < .2
    f["vars"] = []
    for name in rng.sample(["u10", "v10", "t2m", "swh", "crs", "TWS", "@e", "@h"], rng.randint(1, 4)):
        r = rng.random()
        d = list("tyx") if r < .35 else rng.sample("tyxeh", rng.randint(1, 5)) if r < .9 else []
        if name[0] == "@":           # the coordinate variable of a further dimension is a variable like others
            d = [name[1]]
        f["vars"].append(dict(name=name, dims=d, vals=[LACK if gaps and rng.random() < .1 else rng.randint(-60, 60) for _ in range(int(np.prod([n[x] for x in d])) if d else 1)]))
    file(c, rng, f, rng.randint(4, 12))


def service(c, rng):
    clock = Clock(rng)
    clock.unit, clock.off, clock.step = "hours", 0, timedelta(hours=1)
    clock.base = clock.base.replace(minute=0, second=0)
    lat, lon = axis(rng, rng.randint(-200, 200), 12, 3), axis(rng, rng.randint(-500, 500), 12, 3)
    hours = list(range(0, rng.choice([1, 2, 3, 5])))
    names = rng.sample(["temp", "wspd", "wdir", "pres", "coco"], rng.randint(1, 5))
    want = rng.sample(range(1, len(names) + 1), rng.randint(1, len(names)))
    empty = rng.random() < .25
    loc, have = [], []
    global OFF, DU
    OFF, DU = rng.choice(LEVELS) if not empty else (0, 1.)    # places without data count as 0
    gap = [rng.choice([0, 0, 0, .2, 1]) for _ in names]       # what the service does not know
    PLACES.clear()
    for y in lat:
        row = []
        for x in lon:
            no = empty and rng.random() < .4
            rows = [] if no else [dict(t=h, v=[LACK if rng.random() < gap[i] else rng.randint(-60, 60) for i in range(len(names))]) for h in hours]
            more = [] if no else [h for h in (-2, -1, len(hours), len(hours) + 1)]
            idx = pd.DatetimeIndex([clock.time(h) for h in more[:2] + [r["t"] for r in rows] + more[2:]], name="time")
            pad = [[1000.] * len(names)] * 2 if more else []
            PLACES[y / 4, x / 4] = pd.DataFrame(np.array(pad + [[val(x) for x in r["v"]] for r in rows] + pad, float).reshape(-1, len(names)), index=idx, columns=names)
            row.append(rows)
            have += [(y, x)] if rows else []
        loc.append(row)
    if not have:
        return
    keys = [names[i - 1] for i in want]
    st, m = vf.call(GriddedWeatherModel.from_meteostat, [y / 4 for y in lat], [x / 4 for x in lon], clock.time(0), clock.time(hours[-1]), keys)
    if show(c, m, st, clock, op="service", lat=lat, lon=lon, names=names, want=want, loc=loc) != "ok":
        return
    for _ in range(rng.randint(3, 8)):
        if empty:
            y, x = rng.choice(have)
            get(c, rng, m, [rng.choice(hours), y, x], clock)
        else:
            get(c, rng, m, rpoint(rng, [hours, lat, lon]), clock)


def refuse(c, rng):
    clock = Clock(rng)
    clock.text = rng.choice(["days since 2020-01-01 00:00", "hours since yesterday", "minutes since 2020-01-01 00:00", "seconds since 2020/01/01 00:00"])
    f = dict(time=[0, 4], lat=[0], lon=[0], esize=1, further=-1, hsize=1, furtherh=-1, vars=[dict(name="a", dims=["t"], vals=[1, 2])])
    st, m = openfile(c, rng, f, clock)
    c.ev(new=True, op="refuse", out=vf.outcome(st, m))


def main(c):
    rng = c.rng
    for f in c.gen("MCWeatherSource", limit=c.n(300, 10 ** 9)):
        file(c, rng, f, 5)
    for _ in range(c.n(250, 4000)):
        rfile(c, rng)
    for _ in range(c.n(150, 2500)):
        service(c, rng)
    for _ in range(c.n(10, 50)):
        refuse(c, rng)
    c.validate("TraceWeatherSource")
