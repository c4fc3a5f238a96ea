"""C09: pipeline extensions and injectors against spec/Extension.tla."""
import numpy as np
import vf
from num import q, qs, qm, fx
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension
from hrosailing.processing import (ArithmeticMeanInterpolator, Ball, Cuboid, IDWInterpolator, Interpolator, Neighbourhood,
                                   Regressor, Sampler, ZeroInjector)

SC = 1024


class Lin(Interpolator):
    """a recording-free stand-in: a function of the points, their weights and the grid point"""
    u = 1       # the unit of wind speeds

    def interpolate(self, w_pts, grid_pt):
        d, w = np.asarray(w_pts.data, float), np.asarray(w_pts.weights, float)
        return float(np.sum(w * (d[:, 2] + 3 * d[:, 0] / self.u + 5 * d[:, 1])) + 7 * grid_pt[0] / self.u + 11 * grid_pt[1])


class Box(Neighbourhood):
    def __init__(self, r):
        self.r = r

    def is_contained_in(self, pts):
        p = np.abs(np.asarray(pts, float))
        return (p[:, 0] <= self.r[0]) & (p[:, 1] <= self.r[1])


class Fixed(Sampler):
    def __init__(self, pts):
        self.pts, self.seen = pts, None

    def sample(self, pts):
        self.seen = np.array(pts, float)
        return np.array(self.pts, float)


def maxnorm(p):
    return np.max(np.abs(p), axis=1)


class Reg(Regressor):
    def __init__(self, rad):
        self.rad, self.seen, self._p, self.unit = rad, None, None, 1

    @property
    def model_func(self):
        if self.rad:
            return lambda ws, wa, *p: p[0] + p[1] * ws + p[2] * np.rad2deg(wa)
        return lambda ws, wa, *p: p[0] + p[1] * ws + p[2] * wa

    @property
    def optimal_params(self):
        return self._p

    def fit(self, data):
        self.seen = np.array(data, float)
        n = len(data)
        self._p = np.array([n, 2. + n % 3, 3.]) / self.unit


def wp(rng, pts):
    d = np.array([p[:3] for p in pts], float).reshape(-1, 3) / 4
    return WeightedPoints(d, np.array([p[3] for p in pts], float))


def after(w):
    return [[q(a), q(b), q(z), q(v, 1)] for (a, b, z), v in zip(w.data, w.weights)]


def res(rng, r):
    if r["kind"] == "none":
        return None
    if r["kind"] == "step":
        return r["x"] / 4
    v = [x / 4 for x in r["v"]]
    return rng.choice([list, tuple, np.array])(v)


def parts(rng, nb, kind):
    if kind == "lin":
        it = Lin()
    elif kind == "mean":
        it = ArithmeticMeanInterpolator(norm=maxnorm, distribution=lambda d, w: w)
    else:
        it = rng.choice([ArithmeticMeanInterpolator(params=(50,)), IDWInterpolator()])
    n = Cuboid(dimensions=(nb[0] / 4, nb[1] / 4)) if rng.random() < .5 else Box((nb[0] / 4, nb[1] / 4))
    if nb[0] == nb[1] and rng.random() < .4:
        n = Ball(radius=nb[0] / 4, norm=maxnorm)
    return n, it


def bsps(t, kind):
    return qm(t.boat_speeds) if kind == "lin" else [[fx(x, 4 * SC) for x in r] for r in t.boat_speeds]


def table(c, rng, pts, ws, wa, nb, kind):
    if kind == "lin":
        pts = [p[:3] + [p[3] * (rng.random() < .9)] for p in pts]
    n, it = parts(rng, nb, kind)
    if ws["kind"] in ("min_max", "auto"):
        r = ws["kind"]
    else:
        r = (res(rng, ws), res(rng, wa))
        if ws["kind"] == wa["kind"] == "none" and rng.random() < .5:
            r = None
    w = wp(rng, pts)
    ext = TableExtension(r, n, it)
    if rng.random() < .4:        # it was used before, with other points
        if rng.random() < .5:
            vf.call(ext.process, wp(rng, [[p[0], p[1], p[2] + 8, p[3]] for p in pts]))
        else:
            k, j = rng.choice([0, 9, 40]), rng.choice([7, 200])
            vf.call(ext.process, wp(rng, [[p[0] + k, p[1] + j, p[2], p[3]] for p in pts[:rng.choice([1, 300])]]))
    st, t = vf.call(ext.process, w)
    o = {"ws": [], "wa": [], "bsp": []}
    if st == "ok":
        o = {"ws": qs(t.wind_speeds), "wa": qs(t.wind_angles), "bsp": bsps(t, kind)}
    c.ev(op="table", pts=pts, ws=ws, wa=wa, nb=nb, kind=kind, out=vf.outcome(st, t), t=o, after=after(w))


def rpts(rng, n, near=None):
    S = near or [rng.randint(0, 80) for _ in range(3)]
    A = [rng.randint(0, 1440) for _ in range(4)]
    sp = rng.choice([(1, 300), (1, 300), (-200, 300), (-3, 3)])
    return [[rng.choice(S) + rng.randint(-3, 3) if rng.random() < .5 else rng.choice(S), rng.choice(A) + rng.choice([0, 0, 3, -5]),
             rng.randint(*sp), rng.randint(1, 7)] for _ in range(n)]


def clean(pts):
    return [[max(0, a), b, z, w] for a, b, z, w in pts]


def rand_table(c, rng):
    pts = clean(rpts(rng, rng.randint(1, 12)))
    kind = rng.choice(["lin", "lin", "mean", "hit"])
    nb = rng.choice([[4, 20], [8, 8], [40, 200], [12, 60], [400, 2000]])
    r = rng.random()
    if r < .2:
        ws = wa = {"kind": rng.choice(["min_max", "auto"])}
        pts = pts[:6]
        if ws["kind"] == "auto":
            if rng.random() < .3:
                k, j, z = rng.choice([1, 2]), rng.randint(2, 9) * 8, rng.randint(0, 60) * 20
                pts = clean(pts[:2]) + [[j + i % (16 * k), z + rng.randint(0, 40), i % 30 + 1, 1] for i in range(240 * k)]
            elif rng.random() < .5:
                x = [[16 + (i % 9), rng.choice([0, 40, 80, 1440]), i % 30 + 1, 1] for i in range(120)]
                pts = clean(pts[:2]) + x
            elif rng.random() < .5:
                pts = [[pts[0][0], pts[0][1], p[2], p[3]] for p in pts]
    else:
        wk = [lambda: {"kind": "list", "v": [max(0, p[0] + rng.choice([0, 0, 1])) for p in rng.sample(pts, min(len(pts), rng.randint(1, 4)))]},
              lambda: {"kind": "step", "x": rng.choice([40, 30, 64])}, lambda: {"kind": "none"}]
        ak = [lambda: {"kind": "list", "v": [p[1] + rng.choice([0, 0, 1, 1440, -1440]) for p in rng.sample(pts, min(len(pts), rng.randint(1, 4)))]},
              lambda: {"kind": "step", "x": rng.choice([300, 480, 360])}, lambda: {"kind": "none"}]
        ws, wa = rng.choices(wk, [8, 2, .3])[0](), rng.choices(ak, [8, 2, .3])[0]()
        if rng.random() < .015:
            ws = wa = {"kind": "none"}
        for x, m in ((ws, 10 ** 9), (wa, 1440)):
            if x["kind"] == "list":
                seen, v = set(), []
                for y in x["v"]:
                    if y % m not in seen:
                        seen.add(y % m)
                        v.append(y)
                x["v"] = v
    table(c, rng, pts, ws, wa, nb, kind)


def rand_cloud(c, rng, fixed=None):
    pts = clean(rpts(rng, rng.randint(1, 10)))
    kind = rng.choice(["lin", "lin", "mean", "hit"])
    nb = rng.choice([[4, 20], [8, 8], [40, 200], [400, 2000]])
    smp = [[rng.choice(pts)[0] + rng.choice([0, 0, 2]), rng.choice(pts)[1] + rng.choice([0, 0, 3])] for _ in range(rng.randint(1, 7))]
    n, it = parts(rng, nb, kind)
    s = Fixed(np.array(smp) / 4)
    w = wp(rng, pts)
    u = 1
    if kind == "lin" and rng.random() < .3:      # wind speeds of a very small scale
        u = it.u = 2. ** -rng.choice([10, 20, 30])
        n = Box((nb[0] / 4 * u, nb[1] / 4))
        s.pts[:, 0] *= u
        w.data[:, 0] *= u
    ext = PointcloudExtension(s, n, it)
    if rng.random() < .4:
        vf.call(ext.process, wp(rng, [[p[0], p[1], p[2] + 8, p[3]] for p in pts]))
        s.seen = None
    st, r = vf.call(ext.process, w)
    w.data[:, 0] /= u
    if s.seen is not None:
        s.seen[:, 0] /= u
    cl = [] if st != "ok" else [[q(a / u), q(b), q(z) if kind == "lin" else fx(z, 4 * SC)] for a, b, z in r.points]
    c.ev(op="cloud", pts=pts, smp=smp, nb=nb, kind=kind, out=vf.outcome(st, r), cloud=cl,
         sin=qm(s.seen) if s.seen is not None else [], after=after(w))


def rand_curve(c, rng):
    rad = rng.random() < .5
    reg = Reg(rad)
    ext = CurveExtension(reg, rad)
    old, oldq, oldv = None, [], []
    for k in range(rng.randint(1, 3)):
        pts = clean(rpts(rng, rng.randint(1, 8)))
        for p in pts:
            p[3] *= rng.random() < .8
        reg.unit = fine = rng.choice([1, 1, 2 ** 20])     # boat speeds of a very small scale
        w = wp(rng, pts)
        w.data[:, 2] /= fine
        qq = [[rng.randint(0, 100), rng.randint(0, 1439)] for _ in range(3)]
        st, r = vf.call(lambda: ext.process(w))
        fit = np.array(reg.seen) if reg.seen is not None else np.zeros((0, 3))
        if rad:
            fit[:, 1] = np.rad2deg(fit[:, 1])
        if len(fit):
            fit[:, 2] *= fine
        w.data[:, 2] *= fine
        n = len(pts)
        f = lambda cu, qs_, fine=fine: [q(fine * cu(a / 4, np.deg2rad(b / 4) if rad else b / 4)) for a, b in qs_]
        c.ev(op="curve", pts=pts, rad=rad, out=vf.outcome(st, r), crad=bool(r.radians) if st == "ok" else False,
             fit=qm(fit), p=[4 * n, 2 + n % 3, 3], q=qq, v=f(r, qq) if st == "ok" else [],
             oldv=f(old, oldq, oldf) if old is not None else [], old=oldv, after=after(w))
        if st == "ok":
            old, oldq, oldf = r, qq, fine
            oldv = f(r, qq)


def rand_inj(c, rng):
    pts = clean(rpts(rng, rng.randint(1, 7), near=[rng.randint(0, 100) for _ in range(4)]))
    n = rng.choice([0, 1, 2, 3, 5, 8, 17])
    z = vf.kept(rng, n, lambda: ZeroInjector(n))
    w = wp(rng, pts)
    st, r = vf.call(lambda: z.inject(w))
    inj = [] if st != "ok" else [[fx(a, 4 * 256), q(b), q(s), q(v, 1)] for (a, b, s), v in zip(r.data, r.weights)]
    ns = z.get_latest_statistics().get("n_injected", -1) if st == "ok" else -1
    c.ev(op="inject", pts=pts, n=n, out=vf.outcome(st, r), inj=inj, stat=q(ns, 1), after=after(w))


def main(c):
    hs = c.gen("MCExtension", limit=c.n(700, 10 ** 9))
    for h in hs:
        table(c, c.rng, h["pts"], h["ws"], h["wa"], h["nb"], c.rng.choice(["lin", "lin", "mean", "hit"]))
    for _ in range(c.n(300, 5000)):
        rand_table(c, c.rng)
    for _ in range(c.n(250, 4000)):
        rand_cloud(c, c.rng)
        rand_inj(c, c.rng)
    for _ in range(c.n(120, 2000)):
        rand_curve(c, c.rng)
    c.validate("TraceExtension")
