"""C11: the point cloud against spec/Cloud.tla."""
import numpy as np
import vf
from num import q, qs, qm, fx
from hrosailing.core.data import WeightedPoints
from hrosailing.polardiagram import PolarDiagramPointcloud
from hrosailing.processing import Interpolator
from c10 import Box, Spy


class Lin(Interpolator):
    def __init__(self, iv):
        self.iv = iv

    def interpolate(self, w_pts, grid_pt):
        return self.iv + grid_pt[0] + grid_pt[1]


class Everything(Box):
    pass


def obs(p):
    if p is None:
        return []
    st, r = vf.call(lambda: qm(p.points))
    return r if st == "ok" else [["?"]]


def arr(rng, o):
    """the caller's points: array of floats or ints, list or tuple of rows"""
    v = [[x / 4 for x in r] for r in o["pts"]]
    if not o["fin"]:
        v[rng.randrange(len(v))][rng.randrange(3)] = rng.choice([float("nan"), float("inf")])
    a = np.array(v, float).reshape(-1, 3)
    if o["pts"] and o["fin"] and all(x == int(x) for r in v for x in r) and rng.random() < .4:
        a = a.astype(int)
    r = rng.random()
    if o["pts"] and r < .3:
        return a.tolist()
    if o["pts"] and r < .4:
        return [tuple(x) for x in a.tolist()]
    if o["pts"] and r < .5:
        return np.asfortranarray(a)
    return a


def same(a, b):
    return bool(np.array_equal(np.array(a, float), b, equal_nan=True))


def do(c, p, o, rng, new):
    op = o["op"]
    if op in ("make", "add"):
        a = arr(rng, o)
        b = np.array(a, float)
        k = {} if not o["app"] and rng.random() < .5 else {"apparent_wind": o["app"]}
        if op == "make":
            st, r = vf.call(PolarDiagramPointcloud, a, **k)
            p2 = r if st == "ok" else None
        else:
            st, r = vf.call(p.add_points, a, **k)
            p2 = p
        sm = same(a, b)
        if isinstance(a, np.ndarray) and a.size and rng.random() < .5:
            a += 1      # the caller goes on using its array
        c.ev(new=new, out=vf.outcome(st, r), obs=obs(p2), same=sm, **o)
        return p2
    if op == "call":
        spy = Spy(o["iv"] / 4)
        st, r = vf.call(p, o["ws"] / 4, o["wa"] / 4, interpolator=spy, neighbourhood=Box(o["r"] / 4))
        pts, w, g = spy.seen if spy.seen else (np.zeros((0, 3)), [], [-1, -1])
        c.ev(new=new, out=vf.outcome(st, r), v=q(r) if st == "ok" else 0, pts=qm(pts), wts=[q(x) for x in w],
             gp=[q(x) for x in g], obs=obs(p), same=True, **o)
    elif op == "slice":
        w = o["w"] if isinstance(o["w"], list) else [o["w"]]
        v = [x / 4 for x in w]
        ws = v[0] if len(v) == 1 and rng.random() < .5 else np.array(v) if rng.random() < .5 else v
        f = (lambda: p.get_slices(ws)) if o["r"] == 4 and rng.random() < .5 else lambda: p.get_slices(ws, range_=o["r"] / 4)
        st, r = vf.call(f)
        sl, lab = [], []
        if st == "ok":
            lab, sl = qs(r[0]), [qm(np.asarray(s).T) for s in r[1]]
            for s in r[1]:
                s[...] = 77      # what is returned belongs to the caller
        c.ev(new=new, out=vf.outcome(st, r), sl=sl, lab=lab, obs=obs(p), same=True, **{**o, "w": w})
    elif op == "islice":
        st, r = vf.call(p.get_slices, [x / 4 for x in o["w"]], wa_resolution=o["n"], interpolator=Lin(o["iv"] / 4))
        sl = [qm(np.asarray(s).T) for s in r[1]] if st == "ok" and all(np.shape(s)[:1] == (3,) for s in r[1]) else []
        c.ev(new=new, out=vf.outcome(st, r), sl=sl, obs=obs(p), same=True, **o)
    else:
        def f():
            x = [p.wind_speeds, p.wind_angles, p.boat_speeds, p.points, p.default_points]
            ds = [fx(v, 64) for v in p.default_slices] if len(p.points) else []
            res = dict(ws=qs(x[0]), wa=qs(x[1]), bsp=qs(x[2]), pts=qm(x[3]), dp=qm(x[4]), ds=ds)
            for a in x:
                a[...] = 55
            return res
        st, r = vf.call(f)
        c.ev(new=new, op="read", out=vf.outcome(st, r), obs=obs(p), same=True, **(r if st == "ok" else {}))
    return p


def run(c, hist, rng):
    p, new = None, True
    for o in hist:
        if p is None and o["op"] != "make":
            break
        p = do(c, p, o, rng, new)
        new = False
    if p is not None and rng.random() < .3:
        do(c, p, {"op": "read"}, rng, False)


def rpts(rng, n, app):
    if app:
        return [[rng.randint(0, 100), rng.choice([0, 720, 1440, 2160, -720]), rng.randint(0, 80)] for _ in range(n)]
    S, A = [rng.randint(1, 120) for _ in range(3)], [rng.randint(-1500, 3000) for _ in range(3)]
    return [[rng.choice(S), rng.choice(A) + rng.choice([0, 0, 1440]), rng.randint(-20, 400)] for _ in range(n)]


def rand(c, rng):
    big = rng.random() < .03      # a long recording

    def mk(op):
        app = rng.random() < .2
        n = rng.randint(60, 130) if big and op == "make" else rng.randint(1, 6)
        pts = rpts(rng, n, app)
        if rng.random() < (.3 if op == "make" else .1) and not app:      # whole numbers only
            pts = [[4 * (x // 4) for x in r] for r in pts]
        r = rng.random()
        if r < .1:
            pts[rng.randrange(n)][0] = rng.choice([0, -1, -8])
        elif r < .2 and op == "add":
            pts = []
        return dict(op=op, pts=pts, app=app, fin=rng.random() > .04 or not pts)
    o = mk("make")
    p = do(c, None, o, rng, True)
    if p is None:
        return
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        P = obs(p)
        if r < .3 or not P:
            do(c, p, mk("add"), rng, False)
            continue
        pt = rng.choice(P)
        if r < .6:
            do(c, p, dict(op="call", ws=pt[0] + rng.choice([0, 0, 0, 2, -2]), wa=pt[1] + rng.choice([0, 0, 1, -3]) + rng.choice([0, 1440, -1440]),
                          r=rng.choice([0, 4, 40, 400, 2000]), iv=rng.randint(0, 200)), rng, False)
        elif r < .75:
            do(c, p, dict(op="slice", w=[rng.choice(P)[0] + rng.choice([0, 0, 1, -4]) for _ in range(rng.randint(1, 4))], r=rng.choice([0, 2, 4, 4, 40])), rng, False)
        elif r < .85:
            do(c, p, dict(op="islice", w=[max(1, rng.choice(P)[0]) for _ in range(rng.randint(1, 3))], n=rng.choice([2, 3, 5, 9, 37]), iv=rng.randint(0, 200)), rng, False)
        else:
            do(c, p, {"op": "read"}, rng, False)


def defaults(c, rng):
    """with the default interpolator: exact at points, between the extremes of the cloud elsewhere"""
    pts = rpts(rng, rng.randint(1, 5), False)
    pts = [[a, b, abs(z)] for a, b, z in pts]
    p = PolarDiagramPointcloud(np.array(pts, float) / 4)
    P = obs(p)
    x = rng.choice(P)
    g = [max(1, x[0] + rng.choice([0, 2, 7])), x[1] + rng.choice([0, 5, 30])]
    st, r = vf.call(p, g[0] / 4, g[1] / 4)
    return P, g, st, r


def main(c):
    hs = c.gen("MCCloud", limit=c.n(1200, 10 ** 9))
    for h in hs:
        run(c, h, c.rng)
    for _ in range(c.n(500, 8000)):
        rand(c, c.rng)
    c.validate("TraceCloud")
    for _ in range(c.n(150, 2000)):
        P, g, st, r = defaults(c, c.rng)
        c.ev(op="default", pts=P, ws=g[0], wa=g[1], out=vf.outcome(st, r), v=fx(r, 4096) if st == "ok" else 0)
    c.validate("TraceCloudDefault")
    import near
    near.main(c)
