"""C22: interpolators against spec/Interp.tla."""
import math
import warnings
import numpy as np
import num
import vf
from num import fx
from hrosailing.core.computing import euclidean_norm
from hrosailing.core.data import WeightedPoints
from hrosailing.processing.interpolator import (ArithmeticMeanInterpolator, BilinearGridInterpolator, IDWInterpolator,
                                                ImprovedIDWInterpolator, ShepardInterpolator)
from hrosailing.processing.neighbourhood import Ball, Cuboid, Polytope, ScalingBall

SC = 64


def l1(v):
    return np.abs(v[:, 0]) + np.abs(v[:, 1])


def linf(v):
    return np.max(np.abs(v[:, :2]), axis=1)


NORMS = {"l1": l1, "linf": linf, "euclid": euclidean_norm}


def ratio(d, w, U=1):
    return w / (1 + U * d)


def nhood(rng, norm):
    kw = {} if norm == "default" else dict(norm=NORMS[norm])
    return rng.choice([lambda: Ball(rng.choice([.05, 1, 5, 100]), **kw), lambda: ScalingBall(rng.randint(1, 4), **kw), lambda: Cuboid(dimensions=(3, 5)),
                       lambda: Polytope(b=np.array([2., 2, 3, 3]))])()


def region(rng, nb, norm):
    """the neighbourhood of the specification: ["ball", r, r] or ["box", a, b]"""
    return Ball(nb[1], norm=NORMS[norm]) if nb[0] == "ball" else Cuboid(norm=abs, dimensions=(nb[1], nb[2]))


def make(rng, kind, p, norm, s=1, slope=1, params=None, nb=None, wu=1, U=1):
    kw = {} if norm == "default" else dict(norm=NORMS[norm])
    if kind == "idw":
        return IDWInterpolator(p, **kw)
    if kind == "improved":
        return ImprovedIDWInterpolator(**kw)
    if kind == "gauss":
        return ArithmeticMeanInterpolator(s, params=params if params is not None else (math.log(2) * p * wu * U,), **kw)
    if kind == "ratio":
        return ArithmeticMeanInterpolator(s, distribution=ratio, params=() if U == 1 else (U,), **kw)
    if kind == "shepard":
        return ShepardInterpolator(region(rng, nb, norm) if nb else nhood(rng, norm), slope=slope / 10, **kw)
    return BilinearGridInterpolator()


def run(rng, ip, rows, ws, g, scalable, U=1, zf=1, wu=1, mean=False):
    """value, values under permutation / weight scaling / repetition, was anything the caller owns changed;
    U lattice units per real unit, zf the unit of the values, wu weight units per real unit"""
    def fx(x, sc):
        return num.fx(x / zf, sc)

    A = np.array(rows, float).reshape(len(rows), -1)
    A[:, :2] /= U
    A[:, 2] *= zf
    W = np.array(ws, float) / wu
    G = np.array(g, float) / U
    wp = WeightedPoints(A, W)
    before = (wp.data.copy(), wp.weights.copy(), G.copy())
    st, v = vf.call(ip.interpolate, wp, G)
    reps = []
    if st == "ok":
        for _ in range(2):
            pi = list(range(len(rows)))
            rng.shuffle(pi)
            lam = rng.choice([1, 2, 5, 1 / 3]) if scalable else 1
            s2, r = vf.call(ip.interpolate, WeightedPoints(A[pi], W[pi] * lam), G.copy())
            reps.append(fx(r, SC) if s2 == "ok" and np.ndim(r) == 0 else 99999999)
        if mean and rng.random() < .15:      # a weighted mean: every point so many times
            k = rng.choice([2, 12, 60])
            s2, r = vf.call(ip.interpolate, WeightedPoints(np.tile(A, (k, 1)), np.tile(W, k)), G.copy())
            reps.append(fx(r, SC) if s2 == "ok" and np.ndim(r) == 0 else 99999999)
        s2, r = vf.call(ip.interpolate, wp, G)
        reps.append(fx(r, SC) if s2 == "ok" and np.ndim(r) == 0 else 99999999)
    ch = not (np.array_equal(wp.data, before[0]) and np.array_equal(wp.weights, before[1]) and np.array_equal(G, before[2]))
    return vf.outcome(st, v), (fx(v, SC) if st == "ok" and np.ndim(v) == 0 else -99999999), reps, ch


def query(c, rng, kind, p, norm, rows, ws, g, formula, s=1, slope=1, params=None, U=1, nb=None, zf=1, wu=1):
    new = lambda: make(rng, kind, p, norm, s, slope, params, nb, wu, U if formula else 1)
    # an interpolator depends on nothing it was asked before
    st, ip = vf.call(vf.kept, rng, (kind, p, norm, s, slope, params, nb, wu, U), new) if kind != "shepard" or nb else vf.call(new)
    if st != "ok":
        c.ev(op="query", out=vf.outcome(st, ip), v=-99999999, changed=False, data=[], g=g)
        return
    out, v, reps, ch = run(rng, ip, rows, ws, g, kind != "gauss", U, zf, wu, kind != "shepard")
    c.ev(op="query", nb=nb or [], out=out, v=v, reps=reps, changed=ch, sc=SC, kind=kind, p=p, norm=norm, data=rows, ws=ws, g=list(g), s=s, slope=slope, formula=formula,
         over=kind == "shepard", bounded=norm == "euclid")


def grid(c, rng, rows, g, U=1, zf=1):
    out, v, reps, ch = run(rng, vf.kept(rng, "grid", BilinearGridInterpolator), rows, [1] * len(rows), g, True, U, zf)
    c.ev(op="grid", out=out, v=v, reps=reps, changed=ch, sc=SC, cols=len(rows[0]), data=rows, g=list(g))


ZF = [1, 1, 1, .25, 10.3, 1e-3, 1e6]


def exact_case(c, rng):
    kind = rng.choice(["idw", "idw", "improved", "improved", "gauss", "gauss", "ratio", "shepard", "shepard"])
    norm = rng.choice(["l1", "linf"])
    R = 6 if kind in ("improved", "shepard") else 7
    n = rng.randint(1, 5)
    low = -30 if rng.random() < .25 else 0
    g = [rng.randint(0, 12), rng.randint(0, 12)]
    rows = []
    while len(rows) < n:
        r = [g[0] + rng.randint(-R, R), g[1] + rng.randint(-R, R), rng.randint(low, 30)]
        d = [abs(r[0] - g[0]), abs(r[1] - g[1])]
        d = sum(d) if norm == "l1" else max(d)
        if d <= R and (d > 0 or rng.random() < .2):
            rows.append(r)
    wu, nb, slope, s = 1, None, 1, 1
    if kind == "gauss":
        ws, wu = [rng.choice([0, 1, 1, 2, 2]) for _ in rows], rng.choice([1, 1, 4, 16, 1000])
    elif kind == "shepard":
        ws, nb, slope = [1] * n, rng.choice([["ball", r := rng.randint(1, 6), r], ["box", rng.randint(1, 5), rng.randint(1, 5)], ["ball", 40, 40]]), rng.choice([1, 1, 3, 10, 20])
    else:
        ws, wu = [rng.randint(1, 4) for _ in rows], rng.choice([1, 1, 16])
        if kind == "ratio" and n > 1 and rng.random() < .3:
            ws[0] = 0
    if kind in ("gauss", "ratio"):
        s = rng.choice([1, 1, 2, 3])
    query(c, rng, kind, rng.choice([0, 1, 1, 2]), norm, rows, ws, g, True, s=s, slope=slope, nb=nb, zf=rng.choice(ZF), wu=wu,
          U=rng.choice([1, 1, 1, 2 ** 14, 2 ** 20, 2 ** 33, 2 ** -10]) if kind != "shepard" else 1)


def free_case(c, rng):
    kind = rng.choice(["idw", "improved", "gauss", "ratio", "shepard", "shepard"])
    norm = rng.choice(["default", "default", "euclid", "euclid", "l1", "linf"])
    if kind == "shepard":
        norm = rng.choice(["default", "euclid", "euclid"])
    n = rng.randint(1, 8)
    U = rng.choice([1, 4])
    wide = rng.choice([4, 40, 1440])
    rows = [[rng.randint(0, min(wide, 160)), rng.randint(0, wide), rng.choice([rng.randint(0, 30), 7])] for _ in range(n)]
    if rng.random() < .15:
        rows = [[x, y, 9] for x, y, _ in rows]
    if rng.random() < .15:
        rows.append([rows[0][0], rows[0][1], rng.randint(0, 30)])
    g = list(rng.choice(rows)[:2]) if rng.random() < .2 else [rng.randint(0, min(wide, 160)), rng.randint(0, wide)]
    query(c, rng, kind, rng.choice([0, 1, 2, 3, 5, 50, 200]), norm, rows, [rng.choice([1, 1, .5, .25, 3]) for _ in rows] if kind != "shepard" else [1] * len(rows),
          g, False, slope=rng.choice([1, 1, 3, 10]), params=rng.choice([(), (1,), (100,), (.5,)]), U=U)


def near_case(c, rng):
    kind, p = rng.choice([("idw", 1), ("idw", 2), ("idw", 4), ("improved", 0), ("shepard", 0)])
    norm = rng.choice(["euclid", "default"])
    rows = [[x, y, rng.randint(0, 30)] for x, y in {(rng.randint(0, 20), rng.randint(0, 360)) for _ in range(rng.randint(2, 6))}]
    i = rng.randrange(len(rows))
    e = 10.0 ** -rng.choice([9, 10, 12])
    g = [rows[i][0] + e * rng.choice([-1, 0, 1]), rows[i][1] + e]
    if g[1] == rows[i][1]:
        return
    st, ip = vf.call(make, rng, kind, p, norm)
    st, v = vf.call(lambda: ip.interpolate(WeightedPoints(np.array(rows, float), np.ones(len(rows))), np.array(g)))
    c.ev(op="near", out=vf.outcome(st, v), v=fx(v, SC) if st == "ok" and np.ndim(v) == 0 else -99999999, changed=False, data=rows, i=i + 1, sc=SC)


def grid_case(c, rng):
    xs, ys = sorted(rng.sample(range(0, 20), rng.randint(1, 4))), sorted(rng.sample(range(0, 40), rng.randint(1, 4)))
    low = -30 if rng.random() < .2 else 0
    rows = [[x, y, rng.randint(low, 30)] for x in xs for y in ys]
    if rng.random() < .2:
        rows.pop(rng.randrange(len(rows)))
    if not rows:
        return
    if rng.random() < .05:
        rows = [r + [1] for r in rows]
    rng.shuffle(rows)
    g = [rng.choice([rng.choice(xs), rng.randint(xs[0], xs[-1]), rng.randint(0, 20)]), rng.choice([rng.choice(ys), rng.randint(ys[0], ys[-1]), rng.randint(0, 40)])]
    grid(c, rng, rows, g, rng.choice([1, 2, 4, 2 ** 10, 2 ** 30]), rng.choice(ZF))


INVALID = [lambda: IDWInterpolator(-1), lambda: ArithmeticMeanInterpolator(0), lambda: ArithmeticMeanInterpolator(-1), lambda: ShepardInterpolator(Ball(), tol=0),
           lambda: ShepardInterpolator(Ball(), tol=-1), lambda: ShepardInterpolator(Ball(), slope=0), lambda: ShepardInterpolator(Ball(), slope=-2)]


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCInterp", limit=c.n(700, 10 ** 9)):
        rows, g = [list(r) for r in h["data"]], list(h["g"])
        if h["kind"] == "shepard":
            query(c, rng, "shepard", 0, h["norm"], rows, [1] * len(rows), g, True, slope=h["k"][1], nb=h["nb"])
        elif h["kind"] == "grid":
            grid(c, rng, rows, g)
        else:
            query(c, rng, h["k"][0], h["k"][1], h["norm"], rows, [1 + i % 2 for i in range(1, len(rows) + 1)], g, True)
    for f in INVALID:
        st, r = vf.call(f)
        c.ev(op="empty", out=vf.outcome(st, r), changed=False)
    for kind in ("idw", "improved", "gauss", "ratio", "shepard", "grid"):
        ip = make(rng, kind, 2, "default")
        st, r = vf.call(ip.interpolate, WeightedPoints(np.empty((0, 3)), np.empty(0)), np.array([1.0, 2.0]))
        c.ev(op="empty", out=vf.outcome(st, r), changed=False)
    for _ in range(c.n(900, 15000)):
        exact_case(c, rng)
        free_case(c, rng)
        if rng.random() < .4:
            near_case(c, rng)
            grid_case(c, rng)
    c.validate("TraceInterp")
