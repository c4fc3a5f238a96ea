"""C37: supported and unsupported configurations and arguments against spec/Config.tla."""
import operator
import os
import warnings
import numpy as np
import vf
from hrosailing.core.computing import scaled_euclidean_norm
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.polardiagram import PolarDiagramPointcloud, PolarDiagramTable
from hrosailing.processing import (ArchimedeanSampler, ArithmeticMeanInterpolator, Ball, BoundFilter, CylindricMeanWeigher,
                                   CylindricMemberWeigher, Ellipsoid, FibonacciSampler, FuzzyVariable, FuzzyWeigher,
                                   IDWInterpolator, LeastSquareRegressor, ODRegressor, Polytope, QuantileFilter, ScalingBall,
                                   UniformRandomSampler, ZeroInjector)

from hrosailing.processing.interpolator import ShepardInterpolator

OPS = {"+": operator.add, "*": operator.mul, "-": operator.sub, "/": operator.truediv}
PTS = np.array([[6., 40, 5], [8, 60, 6], [10, 90, 7], [12, 120, 8], [9, 100, 6.5], [7, 300, 5.5]])


def n(x, rng):
    """a number in thousandths, as any kind of number"""
    if x % 1000 == 0 and rng.random() < .6:
        return x // 1000 if rng.random() < .7 else np.int64(x // 1000)
    return x / 1000 if rng.random() < .7 else np.float64(x / 1000)


def wp(k=6):
    return WeightedPoints(PTS[:k].copy(), weights=np.ones(k))


def data(kind):
    d = {"TWS": [6., 8., 10.], "TWA": [40., 60., 80.], "BSP": [5., 6., 7.], "SOG": [5., 6., 6.5]}
    keep = {"BSP": ["BSP"], "SOG": ["SOG"], "both": ["BSP", "SOG"], "neither": []}[kind]
    return Data.from_dict({k: v for k, v in d.items() if k in ("TWS", "TWA") or k in keep})


def calls(c, rng, k, p):
    """(make, use): a call that has to be accepted or refused, and what the accepted object has to do"""
    pts2 = PTS[:, :2]
    if k == "Ball":
        return lambda: Ball(radius=n(p[0], rng)), lambda b: b.is_contained_in(pts2).shape == (6,)
    if k == "ScalingBall":
        return lambda: ScalingBall(p[0] // 1000), lambda b: b.is_contained_in(pts2).shape == (6,)
    if k == "Ellipsoid":
        a, b, rank, r = p
        m = np.zeros((a, b))
        for i in range(min(a, b, rank)):
            m[i, i] = 1 + i
        if rank == 1 and rng.random() < .5:
            m[:] = 1
        return lambda: Ellipsoid(lin_trans=m if rng.random() < .5 else m.tolist(), radius=n(r, rng)), lambda e: e.is_contained_in(pts2).shape == (6,)
    if k == "Polytope":
        a, b, m = p
        return lambda: Polytope(np.ones((a, b)), np.ones(m)), lambda e: e.is_contained_in(pts2).shape == (6,)
    if k == "IDW":
        x = p[0]
        return (lambda: IDWInterpolator(p=x // 1000 if x % 1000 == 0 else x / 1000)), lambda i: np.isfinite(i.interpolate(wp(), np.array([9., 70])))
    if k == "ArithmeticMean":
        return lambda: ArithmeticMeanInterpolator(s=n(p[0], rng), params=(50,)), lambda i: np.isfinite(i.interpolate(wp(), np.array([9., 70])))
    if k == "Shepard":
        return lambda: ShepardInterpolator(Ball(radius=1), tol=n(p[0], rng), slope=n(p[1], rng)), lambda i: np.isfinite(i.interpolate(wp(), np.array([9., 70])))
    if k in ("Uniform", "Fibonacci", "Archimedian"):
        m = p[0] // 1000
        return lambda: {"Uniform": UniformRandomSampler, "Fibonacci": FibonacciSampler, "Archimedian": ArchimedeanSampler}[k](m), lambda s: np.shape(s.sample(pts2)) == (m, 2)
    if k == "Quantile":
        return lambda: QuantileFilter(n(p[0], rng)), lambda f: len(f.filter(np.array([.1, .5, .9]))) <= 3
    if k == "Bound":
        return lambda: BoundFilter(n(p[0], rng), n(p[1], rng)), lambda f: len(f.filter(np.array([.1, .5, .9]))) <= 3
    if k == "Mean":
        return lambda: CylindricMeanWeigher(radius=n(p[0], rng)), lambda w: len(w.weigh(PTS.copy())) == 6
    if k == "Member":
        return lambda: CylindricMemberWeigher(radius=n(p[0], rng), length=n(p[1], rng)), lambda w: len(w.weigh(PTS.copy())) == 6
    if k == "arith":
        o, t = p
        w = CylindricMeanWeigher(radius=1)
        x = {"weigher": CylindricMemberWeigher(radius=1), "int": 2, "float": 1.5, "array": np.arange(1., 7), "str": "2", "none": None,
             "list": [1., 2], "dict": {}}[t]
        if t == "array" and o.startswith("r"):      # numpy applies the operation to the elements
            o = o[1:]
        return (lambda: OPS[o[1:]](x, w)) if o.startswith("r") else (lambda: OPS[o](w, x)), lambda v: len(v.weigh(PTS.copy())) == 6
    if k == "fuzzy-weigh":
        x = {"data": data("both"), "array": PTS[:, 0].copy(), "list": [1., 2], "dict": {"TWS": [1.]}, "none": None}[p[0]]
        v = FuzzyVariable()
        f = FuzzyWeigher((v["TWS"] > 7) if p[0] == "data" else (v > 7))
        return lambda: f.weigh(x), lambda w: len(w) == (3 if p[0] == "data" else 6)
    if k == "cylinder-data":
        d = data(p[0])
        w = CylindricMeanWeigher(radius=1)
        return lambda: w.weigh(d), lambda r: len(r) == 3
    if k == "fit":
        a, b = p
        x = np.random.RandomState(rng.randrange(999)).rand(a, b) * 10 + 1
        f = lambda ws, wa, *q: q[0] * ws + q[1] * wa
        reg = (ODRegressor if b == 4 or rng.random() < .5 else LeastSquareRegressor)(f, [1., 1.])
        return lambda: reg.fit(x), lambda _: np.all(np.isfinite(reg.optimal_params))
    if k == "inject":
        t, a, b = p
        x = np.ones((a, b)) if t == "array" else Data.from_dict({"TWS": [1.], "TWA": [2.], "BSP": [3.]})
        return lambda: ZeroInjector(4).inject(WeightedPoints(x, weights=np.ones(a))), lambda r: len(r.data) == 8
    if k == "norm":
        return lambda: scaled_euclidean_norm(np.ones(tuple(p))), lambda r: np.shape(r) == (p[0],)
    if k == "rows":
        t = {"dict": dict, "list": list, "tuple": tuple, "set": set, "none": None, "str": str}[p[0]]
        return lambda: list(data("both").rows(["TWS"], return_type=t)), lambda r: len(r) == 3
    if k == "update":
        x = {"dict": {"TWS": [1.]}, "data": data("BSP"), "list": [["TWS", [1.]]], "none": None, "str": "TWS"}[p[0]]
        d = data("BSP")
        return lambda: (d.update(x), d)[1], lambda r: len(r["TWS"]) > 3
    if k in ("wind-array", "wind"):
        t = PolarDiagramTable([5, 10], [0, 90, 180, 270], [[1, 2]] * 4)
        pd = t if rng.random() < .5 else PolarDiagramPointcloud(PTS)
        if k == "wind-array":
            w = np.full(tuple(p), 10.)
            m = p[0] if p[1] == 2 else p[1]
        else:
            w = [[5., 10], [45., 90], [7., 8]][:p[1]]
            m, w = 4, (tuple(w) if p[0] == "tuple" else w)
        return lambda: pd.get_points(w), lambda r: np.shape(r) == (m, 3)
    if k == "interpolate-nothing":
        i = rng.choice([IDWInterpolator(), ArithmeticMeanInterpolator(params=(50,)), ShepardInterpolator(Ball(radius=1))])
        return lambda: i.interpolate(wp(p[0]), np.array([9., 70])), lambda r: np.isfinite(r)
    if k == "archimedian-points":
        return lambda: ArchimedeanSampler(10).sample(pts2[:p[0]]), lambda r: np.shape(r) == (10, 2)
    f = os.path.join(c.scratch, "f%d.csv" % rng.getrandbits(40))
    t = PolarDiagramTable([5, 10], [0, 90], [[1, 2]] * 2)
    return lambda: t.to_csv(f, fmt=p[0]), lambda _: os.path.getsize(f) > 0


def main(c):
    warnings.simplefilter("ignore")
    before = PTS.copy()
    gen = c.gen("MCConfig")
    for x in gen * c.n(1, 8):
        mk, use = calls(c, c.rng, x["c"], x["p"])
        st, v = vf.call(mk)
        us = vf.call(use, v) if st == "ok" else (st, None)
        c.ev(new=True, c=x["c"], p=x["p"], out=vf.outcome(st, v), use="ok" if us[0] == "ok" and us[1] else "no", kept=bool(np.array_equal(PTS, before)))
    c.validate("TraceConfig")
