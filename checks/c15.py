"""C15: ownership of mutable state (spec/Alias.tla) replayed on the public classes and functions."""
import datetime as dt
import io
import os
import random
import warnings
from contextlib import redirect_stdout
import numpy as np
import vf
import hrosailing.cruising as cr
import hrosailing.models as md
import hrosailing.pipeline as pl
import hrosailing.pipeline.extensions as ext
import hrosailing.polardiagram as pol
import hrosailing.processing as pc
from hrosailing.core import computing as comp
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.pipeline.expander import WeatherExpander
from hrosailing.processing.interpolator import BilinearGridInterpolator, ShepardInterpolator

T0 = dt.datetime(2024, 5, 1, 12, 0, 0)


# ---- observation: a canonical text of anything a handle can hold -----------------------------------------
def dig(v):
    if isinstance(v, np.ndarray):
        return "A%s%s%s" % (v.shape, v.dtype.kind, dig(v.tolist()))
    if isinstance(v, (list, tuple)):
        return "%s[%s]" % ("L" if isinstance(v, list) else "T", ",".join(dig(x) for x in v))
    if isinstance(v, dict):
        return "D{%s}" % ",".join("%s:%s" % (dig(k), dig(x)) for k, x in v.items())
    if isinstance(v, Data):
        keys = list(v.keys())
        return "X{%s;%s}" % (v.n_rows, ",".join("%r:%s:%s" % (k, v.type(k), dig(v[k])) for k in keys))
    if isinstance(v, WeightedPoints):
        return "W{%s;%s}" % (dig(v.data), dig(v.weights))
    if isinstance(v, (float, np.floating)):
        return repr(round(float(v), 9)) if v == v else "nan"
    if isinstance(v, (int, np.integer)):
        return repr(int(v))
    if isinstance(v, pol.PolarDiagram):
        return "P{%s}" % diagram(v)
    if isinstance(v, cr.Direction):
        return "dir(%s,%s,%s)" % (dig(v.angle), dig(v.proportion), v.sail)
    if v is None or isinstance(v, (str, bool, np.bool_, dt.datetime, dt.date, dt.time, dt.timedelta, complex)):
        return repr(v)
    if callable(v):
        return "function"
    return type(v).__name__


def diagram(p):
    if isinstance(p, pol.PolarDiagramTable):
        return dig([p.wind_speeds, p.wind_angles, p.boat_speeds])
    if isinstance(p, pol.PolarDiagramPointcloud):
        return dig([p.points])
    if isinstance(p, pol.PolarDiagramMultiSails):
        return dig([p.sails, len(p.diagrams), [diagram(d) for d in p.diagrams]])
    return dig([p.parameters, p.radians, [p(w, a) for w in (3., 9.) for a in (0.5, 2., 5.)]])


# ---- the caller's changes ------------------------------------------------------------------------------
def touch(v, seen=None):
    """change everything changeable in place"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            if v.dtype.kind == "b":
                v[...] = ~v
            elif v.dtype.kind in "iu":
                v += 1
            elif v.dtype.kind in "fc":
                v[...] = -1.25 * v - 3
            elif v.dtype.kind == "O":
                for x in v.flat:
                    touch(x, seen)
                v.flat[0] = None
            else:
                v.flat[0] = v.flat[-1]
    elif isinstance(v, list):
        for x in v:
            touch(x, seen)
        for i, x in enumerate(v):
            v[i] = bump(x)
        v.reverse()
        v.append(bump(v[0]) if v else 7)
    elif isinstance(v, tuple):
        for x in v:
            touch(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            touch(x, seen)
        for k in list(v):
            v[k] = bump(v[k])
        v["added by the caller"] = [1.0]
        if len(v) > 1:
            del v[next(iter(v))]
    elif isinstance(v, Data):
        for k in list(v.keys()):
            touch(v[k], seen)
        if v.n_rows and list(v.keys()):
            v.delete(list(v.keys())[-1])
        v.extend("added by the caller", [1.0])
    elif isinstance(v, WeightedPoints):
        touch(v.data, seen)
        touch(v.weights, seen)
    elif isinstance(v, pol.PolarDiagramTable):
        with redirect_stdout(io.StringIO()):
            v.change_entries(np.asarray(v.boat_speeds) + 1)
    elif isinstance(v, pol.PolarDiagramPointcloud):
        v.add_points([[5., 5., 5.]])


def bump(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float, np.floating, np.integer)):
        return -2 * x - 1
    if isinstance(x, str):
        return x + "'"
    if isinstance(x, (dt.datetime, dt.timedelta)):
        return x + dt.timedelta(hours=1)
    return x


# ---- values ---------------------------------------------------------------------------------------------
def form(r, rows, kind=None):
    """rows as an array or as lists"""
    kind = kind or r.choice(["array", "array", "list", "view", "fortran"])
    if kind == "list":
        return [list(x) if isinstance(x, (list, tuple)) else x for x in rows]
    a = np.array(rows, dtype=float)
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "view":
        return np.concatenate([a, a])[:len(a)]
    return a


def pts(r, n=None, wrap=True):
    n = n or r.randint(4, 9)
    return [[float(r.randint(1, 12)), float(r.choice([r.randint(0, 359), 400, -30] if wrap else [r.randint(0, 359)])), float(r.randint(0, 30)) / 2] for _ in range(n)]


def cols(r, n=6, none=False, dup=False):
    d = {"TWS": [float(r.randint(1, 12)) for _ in range(n)], "TWA": [float(r.randint(0, 359)) for _ in range(n)], "BSP": [float(r.randint(1, 20)) / 2 for _ in range(n)],
         "datetime": [T0 + dt.timedelta(seconds=10 * i) for i in range(n)], "name": [r.choice("ab") for _ in range(n)]}
    if none:
        for k in ("TWS", "name"):
            d[k][r.randrange(1, n)] = None
    return d


def data(r, **k):
    return Data.from_dict(cols(r, **k))


def wpts(r, n=None):
    p = form(r, pts(r, n, wrap=False), r.choice(["array", "view"]))
    return WeightedPoints(p, form(r, [r.randint(1, 8) / 8 for _ in range(len(p))], "array"))


def table(r, sides=2):
    ws = sorted(r.sample(range(2, 20), 3))
    wa = sorted(r.sample(range(0, 180 * sides, 10), 5))
    return pol.PolarDiagramTable(ws, wa, [[r.randint(0, 20) / 2 for _ in ws] for _ in wa])


def fun(ws, wa, *p):
    return p[0] * np.asarray(ws) + p[1] * np.asarray(wa)


def curve(r):
    return pol.PolarDiagramCurve(fun, 0.5, r.randint(1, 4) / 100)


class Weather:
    def get_weather(self, p):
        return {"TEMP": 1.0 * p[1], "WVHGT": 2.0}


class Scenario:
    """one kind of object; everything optional but make"""
    args = staticmethod(lambda r: {})
    make = staticmethod(lambda a: None)
    view = staticmethod(lambda o: 0)
    reads, derives, updates, uses = {}, {}, {}, {}


SCENARIOS = {}


def scenario(cls):
    SCENARIOS[cls.__name__] = cls
    for n in ("make", "view", "args"):
        f = cls.__dict__.get(n)
        if f is not None and not isinstance(f, staticmethod):
            setattr(cls, n, staticmethod(f))
    return cls


def slices(p, r):
    return p.get_slices(**r)


def slice_args(r):
    return r.choice([{"ws": form(r, [4., 8.]), "full_info": True}, {"ws": [5., 7., 9.]}, {"ws": (4., 9.), "n_steps": 3}, {"ws": np.array([4., 9.])}])


DIAGRAM_USES = {"get_slices": (slice_args, slices), "call": (lambda r: {"ws": 7., "wa": 50.}, lambda p, a: p(a["ws"], a["wa"]))}


def once(p):
    """symmetrising twice may leave several rows of one angle"""
    return sum(a == 90 for a in p.wind_angles) == 1


def info(p, a):
    return p.get_slice_info(a["ws"], p.get_slices(a["ws"]))


@scenario
class Table(Scenario):
    def args(r):
        ws = form(r, [3., 6., 12.])
        wa = form(r, r.choice([[400., 20., 90.], [90., 45., 370.], [0., 90., 360.], [30., 60., 90.]]))
        return {"ws_resolution": ws, "wa_resolution": wa, "bsps": form(r, [[r.randint(0, 20) / 2 for _ in range(3)] for _ in range(3)])}

    def make(a):
        return pol.PolarDiagramTable(**a)
    view = diagram
    reads = {n: (lambda p, n=n: getattr(p, n)) for n in ("wind_speeds", "wind_angles", "boat_speeds", "default_points", "default_slices")}
    reads["slices"] = lambda p: p.get_slices()
    reads["points"] = lambda p: p.get_points()
    derives = {"symmetrize": lambda p: p.symmetrize()}
    updates = {"all": (lambda r: {"b": form(r, [[r.randint(0, 9) for _ in range(3)] for _ in range(60)])}, lambda p, a: p.change_entries(a["b"][:len(p.wind_angles)])),
               "cells": (lambda r: {"b": form(r, [1., 2.]), "ws": form(r, [3., 12.]), "wa": form(r, [450. if r.random() < .5 else 90.])}, lambda p, a: once(p) and p.change_entries(a["b"], a["ws"], a["wa"])),
               "row": (lambda r: {"b": form(r, [1., 2., 3.]), "wa": r.choice([90., [90.], np.array([90.])])}, lambda p, a: once(p) and p.change_entries(a["b"], wa=a["wa"]))}
    uses = {"get_slices": (lambda r: {"ws": form(r, [3., 12.])}, slices), "points": (lambda r: {"w": form(r, [[3., 90.], [6., 90.]], r.choice(["array", "fortran"]))}, lambda p, a: p.get_points(a["w"])),
            "call": (lambda r: {"ws": 7., "wa": 50.}, lambda p, a: p(a["ws"], a["wa"])),
            "item": (lambda r: {"k": r.choice([(6., 90.), [6., 90.], np.array([6., 90.])])}, lambda p, a: once(p) and p[a["k"][0], a["k"][1]]),
            "info": (lambda r: {"ws": form(r, [3., 12.])}, info)}


@scenario
class EmptyTable(Table):
    def args(r):
        return {"ws_resolution": r.choice([form(r, [3., 6., 12.])]), "wa_resolution": form(r, [10., 450., 200.])}
    view = diagram
    make = Table.make


@scenario
class StepTable(Table):
    def args(r):
        return {"bsps": [[1., 2., 3.]] * 3, "ws_resolution": [3, 6, 12], "wa_resolution": (90., 45., 400.)}
    view = diagram
    make = Table.make


@scenario
class Cloud(Scenario):
    def args(r):
        return {"points": form(r, pts(r)), "apparent_wind": r.random() < .4}

    def make(a):
        return pol.PolarDiagramPointcloud(**a)
    view = diagram
    reads = {n: (lambda p, n=n: getattr(p, n)) for n in ("wind_speeds", "wind_angles", "boat_speeds", "default_points", "default_slices", "points")}
    reads["get_points"] = lambda p: p.get_points()
    derives = {"symmetrize": lambda p: p.symmetrize()}
    updates = {"add": (lambda r: {"new_pts": form(r, pts(r, 3)), "apparent_wind": r.random() < .5}, lambda p, a: p.add_points(**a))}
    uses = {"get_slices": (slice_args, slices), "interpolated": (lambda r: {"ws": form(r, [4., 8.]), "interpolator": pc.IDWInterpolator(), "wa_resolution": 4}, slices),
            "call": (lambda r: {"ws": 7., "wa": 50., "interpolator": pc.IDWInterpolator(), "neighbourhood": pc.Ball(radius=3)}, lambda p, a: p(**a)),
            "info": (lambda r: {"ws": form(r, [3., 12.])}, info)}


@scenario
class Curve(Scenario):
    def args(r):
        return {"p": form(r, [.5, .02], r.choice(["array", "list"])), "radians": r.random() < .5}

    def make(a):
        return pol.PolarDiagramCurve(fun, *a["p"], radians=a["radians"])
    view = diagram
    reads = {"parameters": lambda p: p.parameters, "default_points": lambda p: p.default_points[:5], "default_slices": lambda p: p.default_slices}
    derives = {"symmetrize": lambda p: p.symmetrize()}
    uses = dict(DIAGRAM_USES)
    uses["arrays"] = (lambda r: {"ws": form(r, [4., 8.], "array"), "wa": form(r, [370., 20.], "array")}, lambda p, a: p(a["ws"], a["wa"]))


def grown(v):
    """the caller adds to the list, leaving alone what is in it"""
    n = len(v)
    v.append(v[0])
    return [0] * n


@scenario
class MultiSails(Scenario):
    def args(r):
        return {"pds": [table(r), curve(r), table(r)], "sails": r.choice([["a", "b", "c"], ["a"], ["a", "b", "c", "d"], None])}

    def make(a):
        return pol.PolarDiagramMultiSails([p for p in a["pds"]] if False else a["pds"], a["sails"])

    def view(p):
        # the single diagrams are shared with the caller by design
        return dig([p.sails, len(p.diagrams)])
    reads = {"sails": lambda p: p.sails, "diagrams": lambda p: grown(p.diagrams), "default_slices": lambda p: p.default_slices,
             "default_points": lambda p: p.default_points[:7]}
    derives = {"symmetrize": lambda p: p.symmetrize()}
    uses = {"get_slices": (lambda r: {"ws": [6., 9.], "full_info": True}, lambda p, a: pol.PolarDiagramMultiSails(p.diagrams[1:2]).get_slices(**a))}


@scenario
class MultiSailsSymmetric(Scenario):
    def args(r):
        return {"pds": [table(r, 1), pol.PolarDiagramPointcloud(pts(r))]}

    def make(a):
        return pol.PolarDiagramMultiSails(a["pds"]).symmetrize()
    view = diagram


@scenario
class DataObject(Scenario):
    def args(r):
        return {"d": cols(r, none=r.random() < .3)}

    def make(a):
        return Data.from_dict(a["d"])
    view = dig
    reads = {"keys": lambda d: list(d.keys()), "rows": lambda d: list(d.rows()), "data": lambda d: d.data, "get_by_type": lambda d: d.get_by_type(float), "numerical": lambda d: d.numerical}
    derives = {"get_slice": lambda d: d.get_slice(["TWS", "TWA", "datetime"]), "mask": lambda d: d[[i % 2 == 0 for i in range(d.n_rows)]], "concatenate": lambda d: Data.concatenate([d, d]),
               "update": lambda d: (lambda n: n.update(d) or n)(Data()), "mask_array": lambda d: d[np.array([i % 3 == 0 for i in range(d.n_rows)], dtype=bool)]}
    updates = {"extend": (lambda r: {"v": [1., 2.]}, lambda d, a: d.extend("TWS", a["v"]) or d.fill()), "extend_new": (lambda r: {"v": [1., 2.]}, lambda d, a: d.extend("K%d" % len(list(d.keys())), a["v"]) or d.fill()),
               "update": (lambda r: {"v": {"TWS": [1., 3.], "L%d" % r.randrange(99): ["x", "y"]}}, lambda d, a: d.update(a["v"])), "append": (lambda r: {}, lambda d, a: d.append("TWS", 4.) or d.fill()),
               "update_data": (lambda r: {"v": data(r, n=3)}, lambda d, a: d.update(a["v"])), "compress": (lambda r: {"v": {"TWS": 3., "Z": [2.]}}, lambda d, a: d.update(a["v"], compress=True)),
               "delete": (lambda r: {"v": [0, 1]}, lambda d, a: d.delete(a["v"])), "rename": (lambda r: {}, lambda d, a: d.rename("TWA", "W") if "TWA" in d else d.rename("W", "TWA")),
               "filter_types": (lambda r: {"v": [float, dt.datetime]}, lambda d, a: d.filter_types(a["v"])), "strip": (lambda r: {}, lambda d, a: d.strip("all")), "fill": (lambda r: {"k": ["TWS"]}, lambda d, a: d.fill(d.n_rows, a["k"])),
               "standard": (lambda r: {}, lambda d, a: d.hrosailing_standard_format())}
    uses = {"slice_keys": (lambda r: {"k": ["TWS", "BSP"]}, lambda d, a: dig(d.get_slice(a["k"]))), "concatenate": (lambda r: {"l": [data(r, n=2)]}, lambda d, a: Data.concatenate(a["l"] + [d]) and 0),
            "rows": (lambda r: {"k": ["TWS"]}, lambda d, a: list(d.rows(a["k"])))}


@scenario
class Weighted(Scenario):
    def args(r):
        n = 6
        return {"d": form(r, pts(r, n), "array") if r.random() < .5 else {k: v for k, v in cols(r, n).items()}, "w": r.choice([.5, form(r, [.5] * n), list([1., 0., .25, .5, 1., 0.])])}

    def make(a):
        # the container keeps the data it is given; what is made from it does not
        w = WeightedPoints(a["d"], a["w"])
        return w[np.array([True] * 6)]

    def view(w):
        return dig([w.data, w.weights])
    derives = {"mask": lambda w: w[np.array([i % 2 == 0 for i in range(len(w.weights))])],
               "extend": lambda w: (lambda n: n.extend(w) or n)(w[np.array([True] * len(w.weights))])}
    updates = {"extend": (lambda r: {"d": form(r, pts(r, 2), "array"), "c": cols(r, 2), "w": form(r, [1., .5], "array")}, lambda w, a: w.extend(WeightedPoints(a["c"] if isinstance(w.data, dict) else a["d"], a["w"])))}


def interp(make):
    class S(Scenario):
        pass
    S.make = staticmethod(lambda a: make())
    S.view = staticmethod(lambda o: dig(o.interpolate(WeightedPoints(np.array([[1., 10., 3.], [4., 50., 5.], [2., 30., 1.], [6., 100., 8.]]), np.array([1., .5, .25, 1.])), np.array([3., 40.]))))
    S.uses = {"interpolate": (lambda r: {"w": wpts(r, 6), "g": form(r, [5., 60.], "array")}, lambda o, a: o.interpolate(a["w"], a["g"])),
              "on a point": (lambda r: {"w": WeightedPoints(np.array([[5., 60., 3.], [2., 10., 1.], [7., 70., 2.]]), np.array([.5, 1., 1.])), "g": np.array([5., 60.])}, lambda o, a: o.interpolate(a["w"], a["g"]))}
    return S


for _n, _f in {"IDW": pc.IDWInterpolator, "ImprovedIDW": pc.ImprovedIDWInterpolator, "ArithmeticMean": pc.ArithmeticMeanInterpolator,
               "Shepard": lambda: ShepardInterpolator(pc.Ball(radius=2.))}.items():
    SCENARIOS[_n] = interp(_f)


@scenario
class Bilinear(Scenario):
    make = lambda a: BilinearGridInterpolator()
    uses = {"interpolate": (lambda r: {"w": WeightedPoints(np.array([[w, a, w + a / 10] for w in (2., 6.) for a in (10., 350.)]), np.ones(4)), "g": np.array([4., r.choice([100., 345.])])}, lambda o, a: o.interpolate(a["w"], a["g"]))}


@scenario
class MeanParams(Scenario):
    def args(r):
        return {"params": r.choice([[2.], np.array([2.])])}

    def make(a):
        return pc.ArithmeticMeanInterpolator(params=tuple(a["params"]))
    view = SCENARIOS["IDW"].view


def nbh(args, make):
    class S(Scenario):
        pass
    S.args, S.make = staticmethod(args), staticmethod(make)
    P = [[x, y] for x in (-.06, -.03, 0., .03, .06, 1., 3.) for y in (-.06, -.03, 0., .03, .06, 10.)]
    S.view = staticmethod(lambda o: dig(o.is_contained_in(np.array(P))))
    S.uses = {"contains": (lambda r: {"p": form(r, [[r.randint(-9, 9) / 100, r.randint(-9, 9) / 100] for _ in range(5)], "array")}, lambda o, a: o.is_contained_in(a["p"]))}
    return S


for _n, (_a, _m) in {
        "Ball": (lambda r: {}, lambda a: pc.Ball(radius=.05)), "ScalingBall": (lambda r: {}, lambda a: pc.ScalingBall(3)),
        "Ellipsoid": (lambda r: {"t": form(r, [[1., .5], [0., 2.]])}, lambda a: pc.Ellipsoid(a["t"], radius=.002)), "Cuboid": (lambda r: {"d": form(r, [.04, .05])}, lambda a: pc.Cuboid(dimensions=a["d"])),
        "Polytope": (lambda r: {"m": form(r, [[1., 0.], [0., 1.], [-1., -1.]]), "b": form(r, [.04, .05, .02])}, lambda a: pc.Polytope(a["m"], a["b"]))}.items():
    SCENARIOS[_n] = nbh(_a, _m)


def sampler(make):
    class S(Scenario):
        pass
    S.make = staticmethod(lambda a: make())
    S.view = staticmethod(lambda o: dig(np.shape(o.sample(np.array([[0., 0.], [1., 5.], [3., 1.], [4., 4.]])))))
    S.uses = {"sample": (lambda r: {"p": form(r, [[float(r.randint(0, 20)), float(r.randint(0, 20))] for _ in range(4)] + [[-1., -1.], [30., 2.], [3., 40.]], "array")}, lambda o, a: o.sample(a["p"]))}
    return S


for _n in ("UniformRandomSampler", "FibonacciSampler", "ArchimedeanSampler"):
    SCENARIOS[_n] = sampler(lambda _n=_n: getattr(pc, _n)(4))


def fitted(o):
    return o.optimal_params


@scenario
class ODR(Scenario):
    def args(r):
        return {"init": form(r, [1., 1.], r.choice(["array", "list"]))}

    def make(a):
        o = pc.ODRegressor(fun, a["init"])
        o.fit([[1., 10., 6.], [2., 30., 15.], [4., 20., 12.], [3., 60., 35.]])
        return o

    def view(o):
        return dig(o.optimal_params)
    reads = {"optimal": fitted}
    updates = {"fit": (lambda r: {"d": form(r, pts(r, 6, False))}, lambda o, a: o.fit(a["d"]))}
    uses = {"refit": (lambda r: {"init": form(r, [1., 1.], "array"), "d": form(r, pts(r, 6, False))}, lambda o, a: regress(type(o), a))}


def regress(cls, a):
    o = cls(fun, a["init"])
    o.fit(a["d"])
    return o.optimal_params


@scenario
class LSR(ODR):
    args = ODR.args

    def make(a):
        o = pc.LeastSquareRegressor(fun, a["init"])
        o.fit([[1., 10., 6.], [2., 30., 15.], [4., 20., 12.], [3., 60., 35.]])
        return o

    view = ODR.view


@scenario
class RegressorStart(Scenario):
    """the start values are those given, whatever happens to the caller's list before the fit"""
    def args(r):
        return {"init": form(r, [3., 2.], r.choice(["array", "list"]))}

    def make(a):
        return pc.ODRegressor(lambda ws, wa, p, q: p * p * ws + q, a["init"]), pc.LeastSquareRegressor(lambda ws, wa, p, q: p * p * ws + q, a["init"])

    def view(os):
        for o in os:
            o.fit([[1., 10., 9.], [2., 30., 13.], [4., 20., 21.], [3., 60., 17.]])
        return dig([[bool(x > 0) for x in o.optimal_params] + [round(float(abs(x)), 3) for x in o.optimal_params] for o in os])


@scenario
class Smoother(Scenario):
    make = lambda a: pc.AffineSmoother()
    uses = {"smooth": (lambda r: {"d": data(r)}, lambda o, a: o.smooth(a["d"]))}
    reads = {"statistics": lambda o: o.get_latest_statistics()}
    view = lambda o: dig(o.smooth(Data.from_dict(cols(random.Random(1)))))


def imp(make):
    class S(Scenario):
        pass
    S.make = staticmethod(lambda a: make())
    S.view = staticmethod(lambda o: (dig(o.impute(Data.from_dict(cols(random.Random(1), none=True)))), dig(o.get_latest_statistics()))[0])
    S.uses = {"impute": (lambda r: {"d": data(r, none=r.random() < .7)}, lambda o, a: o.impute(a["d"]))}
    S.reads = {"statistics": lambda o: o.get_latest_statistics()}
    return S


SCENARIOS["RemoveOnly"] = imp(pc.RemoveOnlyImputator)
SCENARIOS["FillLocal"] = imp(pc.FillLocalImputator)


def filt(make):
    class S(Scenario):
        pass
    S.make = staticmethod(lambda a: make())
    S.view = staticmethod(lambda o: dig(o.filter(np.array([0., .25, .5, .6, .7, 1.]))))
    S.uses = {"filter": (lambda r: {"w": form(r, [r.randint(0, 8) / 8 for _ in range(5)], "array")}, lambda o, a: o.filter(a["w"]))}
    S.reads = {"statistics": lambda o: o.get_latest_statistics()}
    return S


SCENARIOS["Quantile"] = filt(pc.QuantileFilter)
SCENARIOS["Bound"] = filt(pc.BoundFilter)
WP = np.array([[1., 10., 3.], [1.2, 12., 5.], [2., 30., 1.], [6., 100., 8.], [1.1, 11., 4.]])


def weigh(args, make, uses=("array", "data")):
    class S(Scenario):
        pass
    S.args, S.make = staticmethod(args), staticmethod(make)
    fixed = Data.from_dict(cols(random.Random(1)))
    S.view = staticmethod(lambda o: dig(o.weigh(np.array(WP) if "array" in uses else Data.concatenate([fixed]))))
    S.uses = {}
    if "array" in uses:
        S.uses["array"] = (lambda r: {"p": form(r, pts(r, 5), r.choice(["array", "view", "fortran"]))}, lambda o, a: o.weigh(a["p"]))
    if "data" in uses:
        S.uses["data"] = (lambda r: {"d": data(r)}, lambda o, a: o.weigh(a["d"]))
    S.reads = {"statistics": lambda o: o.get_latest_statistics()}
    return S


DIMS = lambda r: {"dimensions": r.choice([None, ["TWS", "TWA", "BSP"], ("BSP", "TWA"), ["BSP", "TWS"]])}


def fuzzy():
    x = pc.FuzzyVariable()
    return (x["TWS"] > 3) & ((x["TWA"] < 90) | (x["BSP"] > 2))


for _n, _v in {
        "AllOne": (lambda r: {}, lambda a: pc.AllOneWeigher()), "CylindricMean": (lambda r: {}, lambda a: pc.CylindricMeanWeigher(radius=.1)),
        "CylindricMeanDims": (DIMS, lambda a: pc.CylindricMeanWeigher(radius=.1, **a), ("data",)), "CylindricMember": (lambda r: {}, lambda a: pc.CylindricMemberWeigher(radius=.1)),
        "CylindricMemberDims": (DIMS, lambda a: pc.CylindricMemberWeigher(radius=.1, **a), ("data",)),
        "Fluctuation": (lambda r: {"attributes": ["BSP", "TWS"], "upper_bounds": form(r, [9., 11.], r.choice(["array", "list"])), "timespan": r.choice([dt.timedelta(seconds=30), [dt.timedelta(seconds=30), dt.timedelta(seconds=20)]])},
                        lambda a: pc.FluctuationWeigher(**a), ("data",)),
        "Fuzzy": (lambda r: {}, lambda a: pc.FuzzyWeigher(fuzzy()), ("data",)),
        "Sum": (lambda r: {"f": np.ones(5)}, lambda a: pc.AllOneWeigher() * 2 - pc.CylindricMeanWeigher(radius=.1), ("array",)),
        "Combined": (lambda r: {}, lambda a: 1 / (pc.AllOneWeigher() + pc.CylindricMemberWeigher(radius=.1)) ** 2)}.items():
    SCENARIOS["Weigher" + _n] = weigh(*_v)


@scenario
class FuzzyTruth(Scenario):
    make = lambda a: pc.FuzzyVariable()["a"] > 3

    def view(f):
        return dig(float(f({"a": 3.05})))
    derives = {"not": lambda f: ~f, "and": lambda f: f & (pc.FuzzyVariable()["a"] < 4), "or": lambda f: f | f}
    uses = {"call": (lambda r: {"p": {"a": 1.}}, lambda f, a: float(f(a["p"])))}


@scenario
class Injector(Scenario):
    make = lambda a: pc.ZeroInjector(2)
    view = lambda o: dig(o.inject(WeightedPoints(np.array(WP), np.ones(5))))
    uses = {"inject": (lambda r: {"w": wpts(r)}, lambda o, a: o.inject(a["w"]))}
    reads = {"statistics": lambda o: o.get_latest_statistics()}


@scenario
class Handler(Scenario):
    make = lambda a: pc.ArrayHandler()
    uses = {"tuple": (lambda r: {"a": form(r, pts(r, 4)), "k": r.choice([["TWS", "TWA", "BSP"], ("TWS", "TWA", "BSP"), ["wind speed", "wind angle", "boat speed"]])}, lambda o, a: o.handle((a["a"], a["k"]))),
            "frame": (lambda r: {"d": cols(r, 3)}, lambda o, a: o.handle(frame(a["d"])))}
    reads = {"statistics": lambda o: o.get_latest_statistics()}


def frame(d):
    import pandas as pd
    return pd.DataFrame(d)


NMEA = "$IIMWV,045.0,T,10.5,N,A*0E\n$IIVHW,90.0,T,90.0,M,6.1,N,11.3,K*61\n$IIMWV,050.0,T,11.5,N,A*0B\n"


@scenario
class Nmea(Scenario):
    def args(r):
        return r.choice([{"wanted_sentences": ["MWV"]}, {"wanted_attributes": ["TWS", "Wind speed"]}, {"unwanted_sentences": ["VHW"]}, {"unwanted_attributes": ["Status", "TWS"]}, {"wanted_attributes": ["BSP", "TWA"]}])

    def make(a):
        return pc.NMEAFileHandler(**a)

    def view(o):
        return dig(o.handle(Nmea.path))
    reads = {"statistics": lambda o: o.get_latest_statistics()}


@scenario
class ArrayStatistics(Scenario):
    def make(a):
        o = pc.ArrayHandler()
        o.handle((np.array(WP), ["TWS", "TWA", "BSP"]))
        return o

    def view(o):
        return dig(o.get_latest_statistics())
    reads = {"statistics": lambda o: o.get_latest_statistics()}


@scenario
class Gridded(Scenario):
    def args(r):
        return {"data": form(r, [[[[r.randint(0, 9) / 1 for _ in range(2)] for _ in range(2)] for _ in range(2)] for _ in range(2)]), "times": [T0, T0 + dt.timedelta(hours=1)], "lats": form(r, [50., 51.]),
                "lons": form(r, [1., 3.]), "attrs": ["TEMP", "WVHGT"]}

    def make(a):
        return md.GriddedWeatherModel(**a)

    def view(o):
        return dig([o.get_weather([T0 + dt.timedelta(minutes=x), y, 2.]) for x in (0, 30, 60) for y in (50., 50.25)])
    reads = {"grid": lambda o: o.grid, "data": lambda o: o.data, "attrs": lambda o: o.attrs}
    uses = {"get": (lambda r: {"p": r.choice([[T0, 50.5, 2.], (T0, 51., 3.)])}, lambda o, a: o.get_weather(a["p"]))}


@scenario
class MultiWeather(Scenario):
    def args(r):
        return {"models": [md.GriddedWeatherModel(np.ones((2, 2, 2, 1)), [T0, T0 + dt.timedelta(hours=1)], [50., 51.], [1., 3.], ["A"]), Weather()]}

    def make(a):
        return md.MultiWeatherModel(*a["models"])

    def view(o):
        return dig(o.get_weather([T0, 50.5, 2.]))
    uses = {"get": (lambda r: {"p": [T0, 50.5, 2.]}, lambda o, a: o.get_weather(a["p"]))}


@scenario
class Expander(Scenario):
    make = lambda a: WeatherExpander(Weather())
    uses = {"expand": (lambda r: {"d": Data.from_dict({"datetime": [T0, T0], "lat": [1., 2.], "lon": [1., 2.], "TEMP": [3., 4.]})}, lambda o, a: o.expand(a["d"]))}
    reads = {"statistics": lambda o: o.get_latest_statistics()}


@scenario
class DeletingExpander(Scenario):
    make = lambda a: WeatherExpander(md.GriddedWeatherModel(np.ones((2, 2, 2, 1)), [T0, T0 + dt.timedelta(hours=1)], [50., 51.], [1., 3.], ["A"]))
    uses = {"expand": (lambda r: {"d": Data.from_dict({"datetime": [T0, T0], "lat": [50.5, 2.], "lon": [1., 2.], "TEMP": [3., 4.]})}, lambda o, a: o.expand(a["d"]))}


@scenario
class Identity(Scenario):
    make = lambda a: md.IdentityInfluenceModel()
    uses = {"remove": (lambda r: {"d": inf(r)}, lambda o, a: o.remove_influence(a["d"])), "remove_apparent": (lambda r: {"d": app(inf(r))}, lambda o, a: o.remove_influence(a["d"])),
            "add": (lambda r: {"d": inf(r)}, lambda o, a: o.add_influence(curve(random.Random(2)), a["d"])), "data": (lambda r: {"d": data(r)}, lambda o, a: o.remove_influence(a["d"]))}
    updates = {"fit": (lambda r: {"d": inf(r)}, lambda o, a: o.fit(a["d"]))}


def inf(r):
    d = {k: v for k, v in cols(r, 4).items() if k in ("TWS", "TWA", "BSP")}
    return {k: np.array(v) for k, v in d.items()} if r.random() < .4 else d


def app(d):
    return {"AWS": d["TWS"], "AWA": d["TWA"], "SOG": d["BSP"]}


@scenario
class Correcting(Identity):
    make = lambda a: md.WindAngleCorrectingInfluenceModel(wa_shift=5)
    view = lambda o: dig(o.remove_influence({"TWS": [4.], "TWA": [50.], "BSP": [3.]}))
    uses = dict(Identity.uses)
    reads = {"statistics": lambda o: o.get_latest_statistics()}
    updates = {}


@scenario
class Functions(Scenario):
    """functions of modules"""
    uses = {
        "to_true": (lambda r: {"w": form(r, pts(r))}, lambda o, a: comp.convert_apparent_wind_to_true(a["w"])), "to_apparent": (lambda r: {"w": form(r, pts(r))}, lambda o, a: comp.convert_true_wind_to_apparent(a["w"])),
        "norm": (lambda r: {"w": form(r, pts(r), "array")}, lambda o, a: comp.scaled_euclidean_norm(a["w"])), "norm2": (lambda r: {"w": form(r, pts(r), "array")}, lambda o, a: comp.euclidean_norm(a["w"])),
        "scaled": (lambda r: {"w": form(r, pts(r), "array"), "s": form(r, [1., 2., 3.])}, lambda o, a: comp.scaled_norm(comp.euclidean_norm, a["s"])(a["w"])),
        "numpy": (lambda r: {"d": cols(r), "k": ["TWS", "BSP"]}, lambda o, a: comp.data_dict_to_numpy(a["d"], a["k"])),
        "direction": (lambda r: {"pd": pol.PolarDiagramTable([3., 9., 12.], [30., 90., 150., 330.], form(r, [[1., 2., 3.]] * 4))}, lambda o, a: dig(cr.convex_direction(a["pd"], 9, 100))),
        "direction_im": (lambda r: {"d": {"HDT": [1.], "x": 5.}}, lambda o, a: dig(cr.convex_direction(curve(random.Random(3)), 7, 100, im=md.IdentityInfluenceModel(), influence_data=a["d"]))),
        "cruise": (lambda r: {"s": [10., 50.], "e": np.array([10.5, 50.5]), "w": [7., 30.], "d": {"x": 5.}}, lambda o, a: dig(cr.cruise(curve(random.Random(3)), a["s"], a["e"], a["w"], im=md.IdentityInfluenceModel(), influence_data=a["d"]))),
        "cost": (lambda r: {"s": [10., 50.], "e": [10.2, 50.2]}, lambda o, a: dig(cr.cost_cruise(curve(random.Random(3)), a["s"], a["e"], T0, Wind(), cost_fun_dens=None))),
        "isochrone": (lambda r: {"s": [10., 50.]}, lambda o, a: dig(cr.isochrone(curve(random.Random(3)), a["s"], T0, 45, Wind(), total_time=.5))),
    }


class Wind:
    def get_weather(self, p):
        return {"TWS": 8., "TWA": 80.}


@scenario
class ScaledNorm(Scenario):
    def args(r):
        return {"s": form(r, [1., 2.])}

    def make(a):
        return comp.scaled_norm(comp.euclidean_norm, a["s"])

    def view(n):
        return dig(n(np.array([[1., 2.], [3., 4.]])))


@scenario
class Globe(Scenario):
    def args(r):
        return {"n": form(r, [60., 20.]), "z": form(r, [-30., 20.])}

    def make(a):
        return md.FlatMercatorProjection(a["n"], a["z"])
    view = lambda o: dig(o.project([[10., 20.], [30., 40.]]))
    P = lambda r: {"p": form(r, [[10., 20.], [30., 40.]])}
    S = lambda r: {"s": form(r, [10., 20.]), "e": form(r, [12., 25.])}
    uses = {"project": (P, lambda o, a: o.project(a["p"])), "lat_lon": (P, lambda o, a: o.lat_lon(a["p"])), "distance": (S, lambda o, a: float(o.distance(a["s"], a["e"]))),
            "path": (S, lambda o, a: o.shortest_path(a["s"], a["e"], 3)), "ppath": (S, lambda o, a: o.shortest_projected_path(a["s"], a["e"], 3))}


@scenario
class Ball3(Globe):
    args = lambda r: {}
    make = lambda a: md.SphericalGlobe()
    view = Globe.view
    uses = dict(Globe.uses)
    uses["ppath"] = (lambda r: {"s": form(r, [[1., 2., 2.]]), "e": form(r, [[0., 3., 4.]])}, lambda o, a: o.shortest_projected_path(a["s"], a["e"], 3))
    uses["lat_lon"] = (lambda r: {"p": form(r, [[1., 2., 2.], [0., 3., 4.]])}, lambda o, a: o.lat_lon(a["p"]))


def extension(args, make):
    class S(Scenario):
        pass
    S.args, S.make = staticmethod(args), staticmethod(make)
    S.view = staticmethod(lambda o: dig(o.process(WeightedPoints(np.array(WP), np.ones(5)))))
    S.uses = {"process": (lambda r: {"w": wpts(r, 6)}, lambda o, a: o.process(a["w"]))}
    return S


SCENARIOS["TableExt"] = extension(lambda r: {"w": (form(r, [2., 4., 8.]), form(r, [0., 30., 120.]))}, lambda a: ext.TableExtension((np.array(a["w"][0]), np.array(a["w"][1])), neighbourhood=pc.Ball(radius=9), interpolator=pc.IDWInterpolator()))
SCENARIOS["TableExtAuto"] = extension(lambda r: {}, lambda a: ext.TableExtension("min_max", neighbourhood=pc.Ball(radius=9)))
SCENARIOS["CurveExt"] = extension(lambda r: {}, lambda a: ext.CurveExtension(pc.ODRegressor(fun, [1., 1.])))
SCENARIOS["CurveExtRad"] = extension(lambda r: {}, lambda a: ext.CurveExtension(pc.LeastSquareRegressor(fun, [1., 1.]), radians=True))
SCENARIOS["CloudExt"] = extension(lambda r: {}, lambda a: ext.PointcloudExtension(pc.ArchimedeanSampler(4), neighbourhood=pc.Ball(radius=9)))


@scenario
class Quality(Scenario):
    make = lambda a: pl.ComformingQualityAssurance()
    uses = {"check": (lambda r: {"t": form(r, pts(r, 4, False)), "p": curve(r)}, lambda o, a: o.check(a["p"], a["t"]))}


@scenario
class Quality0(Quality):
    make = lambda a: pl.MinimalQualityAssurance()


@scenario
class Pipeline(Scenario):
    def make(a):
        return pl.PolarPipeline(data_handler=pc.ArrayHandler(), imputator=pc.FillLocalImputator(), influence_model=md.IdentityInfluenceModel(), extension=ext.TableExtension((2, 60), neighbourhood=pc.Ball(radius=9)))

    def train(r):
        n = 12
        k = ["TWS", "TWA", "BSP", "datetime"]
        c = cols(r, n)
        a = np.array([[c[x][i] for x in k] for i in range(n)], dtype=object)
        return {"train": [(a, k)], "test": [(a.copy(), list(k))]}
    uses = {"execute": (train, lambda o, a: o(a["train"], a["test"]).polardiagram), "statistics": (train, lambda o, a: stats(o(a["train"])))}


def stats(out):
    return [dict(x) if isinstance(x, dict) else 0 for x in out.training_statistics]


# ---- replay -------------------------------------------------------------------------------------------------
class Run:
    def __init__(self, c, name, r):
        self.c, self.S, self.name, self.r = c, SCENARIOS[name], name, r
        self.h = []  # [kind, value, digest function]
        self.codes = {}

    def code(self, text):
        return self.codes.setdefault(text, len(self.codes) + 1)

    def digests(self):
        return [self.code(self.observe(f, v)) for _, v, f in self.h]

    @staticmethod
    def observe(f, v):
        st, t = vf.call(f, v)
        return t if st == "ok" else "unobservable:" + vf.outcome(st, t)

    def emit(self, op, h, st, v, made, argch, what):
        self.c.ev(op=op, h=h, what="%s.%s" % (self.name, what), out=vf.outcome(st, v), made=made, argch=argch, dig=self.digests(), new=op == "make")

    def start(self):
        a = self.S.args(self.r)
        b = dig(a)
        st, o = vf.call(self.S.make, a)
        ch = dig(a) != b
        self.h = [["caller", a, dig], ["lib", o, self.S.view if st == "ok" else (lambda v: "none")]]
        if st == "ok":
            sv, v = vf.call(self.S.view, o)
            if sv != "ok":
                st, o = sv, v  # the observation is part of what has to work
        self.emit("make", 0, st, o, ["caller", "lib"], ch, "make")
        return st == "ok"

    def step(self, s, pick):
        op, h = s["op"], s["h"]
        kind, val, _ = self.h[h - 1]
        if op == "touch":
            st, v = vf.call(touch, val)
            self.emit(op, h, "ok", None, [], False, "touch")
            return True
        table = {"read": self.S.reads, "derive": self.S.derives, "update": self.S.updates, "use": self.S.uses}[op]
        if not table:
            return False
        n = pick if pick in table else self.r.choice(list(table))
        if op in ("read", "derive"):
            st, v = vf.call(table[n], val)
            made = ["result" if op == "read" else "lib"]
            self.h.append([made[0], v if st == "ok" else None, (dig if op == "read" else self.S.view) if st == "ok" else (lambda x: "none")])
            self.emit(op, h, st, v, made, False, n)
            return st == "ok"
        mk, f = table[n]
        a = mk(self.r)
        b = dig(a)
        st, v = vf.call(f, val, a)
        ch = dig(a) != b
        self.h.append(["caller", a, dig])
        if op == "use":
            self.h.append(["result", v if st == "ok" else None, dig])
        self.emit(op, h, st, v, ["caller"] + (["result"] if op == "use" else []), ch, n)
        return st == "ok"


def replay(c, name, hist, op, pick):
    r = Run(c, name, random.Random(c.rng.random()))
    if not r.start():
        return
    for s in hist:
        if s["h"] > len(r.h) or (s["op"] == "touch") != (r.h[s["h"] - 1][0] != "lib"):
            return
        if not r.step(s, pick if s["op"] == op else None):
            return


def main(c):
    warnings.simplefilter("ignore")
    Nmea.path = os.path.join(c.scratch, "x.nmea")
    with open(Nmea.path, "w") as f:
        f.write(NMEA)
    hists = c.gen("MCAlias", "MCAlias.cfg")
    deep = c.gen("MCAlias", "MCAliasDeep.cfg", limit=c.n(600, 2816))
    by = {op: [h for h in hists if any(s["op"] == op for s in h)] for op in ("touch", "read", "derive", "update", "use")}
    per, extra = c.n(7, 60), c.n(8, 120)
    for name, S in SCENARIOS.items():
        have = {"touch"} | {op for op, t in (("read", S.reads), ("derive", S.derives), ("update", S.updates), ("use", S.uses)) if t}
        ok = lambda h: all(s["op"] in have for s in h)
        slow = name in ("Pipeline",)
        for op, t in (("read", S.reads), ("derive", S.derives), ("update", S.updates), ("use", S.uses)):
            cand = [h for h in by[op] if ok(h)]
            for n in t:
                first = [h for h in cand if h[0]["op"] == op and h[1]["op"] in ("touch", "update")]
                for h in c.rng.sample(first, min(len(first), 3 if slow else per // 2 + 1)) + c.rng.sample(cand, min(len(cand), 2 if slow else per)):
                    replay(c, name, h, op, n)
        cand = [h for h in deep if ok(h)]
        for h in c.rng.sample(cand, min(len(cand), 3 if slow else extra)):
            replay(c, name, h, None, None)
        replay(c, name, [{"op": "touch", "h": 1}], None, None)
    c.validate("TraceAlias")
