"""C10: the polar diagram table against spec/Table.tla."""
import numpy as np
import vf
from num import q, qs, qm
from hrosailing.polardiagram import PolarDiagramTable
from hrosailing.processing import Interpolator, Neighbourhood


class Box(Neighbourhood):
    def __init__(self, r):
        self.r = r

    def is_contained_in(self, pts):
        p = np.asarray(pts, float)
        return np.max(np.abs(p), axis=1) <= self.r


class Spy(Interpolator):
    def __init__(self, ret):
        self.ret, self.seen = ret, None

    def interpolate(self, w_pts, grid_pt):
        self.seen = (np.array(w_pts.data, float), np.array(w_pts.weights, float), np.array(grid_pt, float))
        return self.ret


def obs(t):
    if t is None:
        return {"ws": [], "wa": [], "bsp": []}
    st, r = vf.call(lambda: {"ws": qs(t.wind_speeds), "wa": qs(t.wind_angles), "bsp": qm(t.boat_speeds)})
    return r if st == "ok" else {"ws": [], "wa": [], "bsp": [["?"]]}


def vary(rng, v, scalar_ok=False):
    """the same numbers as list, tuple, int/float array or scalar"""
    v = [x / 4 for x in v]
    ints = all(x == int(x) for x in v)
    r = rng.random()
    if scalar_ok and len(v) == 1 and r < .5:
        return int(v[0]) if ints and rng.random() < .5 else v[0]
    if r < .25:
        return tuple(v)
    if r < .5:
        return np.array(v, float)
    if r < .75 and ints:
        return np.array([int(x) for x in v]) if rng.random() < .5 and v else [int(x) for x in v]
    return list(v)


def res(rng, r):
    if r["kind"] == "none":
        return None
    if r["kind"] == "step":
        x = r["x"] / 4
        return int(x) if x == int(x) and rng.random() < .5 else x
    v = vary(rng, r["v"])
    if not r["fin"]:
        v = list(v) + [rng.choice([float("nan"), float("inf")])]
    return v


def do(c, t, o, rng, new):
    """perform op o; returns the current table"""
    op = o["op"]
    if op == "make":
        b = None
        if o["hasb"]:
            b = [[x / 4 for x in r] for r in o["b"]]
            if not o["fin"] and b and b[0]:
                b[0][0] = rng.choice([float("nan"), float("inf")])
            if rng.random() < .4:
                b = np.array(b, float) if len({len(r) for r in b}) <= 1 else b
        st, r = vf.call(PolarDiagramTable, res(rng, o["wsr"]), res(rng, o["war"]), b)
        t2 = r if st == "ok" else None
        c.ev(new=new, out=vf.outcome(st, r), obs=obs(t2), **o)
        return t2
    if op == "change":
        v = np.array([x / 4 for x in o["vals"]], float)
        if not o["fin"] and v.size:
            v[0] = rng.choice([float("nan"), float("inf")])
        v = v.reshape(o["shape"])
        if rng.random() < .5:
            v = v.tolist()
        if o["shape"] == [1] and rng.random() < .4:
            v = float(np.ravel(v)[0])
        ws = None if o["sw"]["kind"] == "all" else vary(rng, o["sw"]["v"], True)
        wa = None if o["sa"]["kind"] == "all" else vary(rng, o["sa"]["v"], True)
        st, r = vf.call(t.change_entries, v, ws=ws, wa=wa)
        c.ev(new=new, out=vf.outcome(st, r), obs=obs(t), **o)
        return t
    if op == "get":
        st, r = vf.call(lambda: t[o["ws"] / 4, o["wa"] / 4])
        c.ev(new=new, out=vf.outcome(st, r), v=q(r) if st == "ok" else 0, obs=obs(t), **o)
        return t
    if op == "call":
        spy = Spy(o["iv"] / 4)
        st, r = vf.call(t, o["ws"] / 4, o["wa"] / 4, interpolator=spy, neighbourhood=Box(o["r"] / 4))
        pts, w, g = spy.seen if spy.seen else (np.zeros((0, 3)), [], [-1, -1])
        c.ev(new=new, out=vf.outcome(st, r), v=q(r) if st == "ok" else 0, pts=qm(pts), wts=[q(x) for x in w],
             gp=[q(x) for x in g], obs=obs(t), **o)
        return t
    if op == "read":
        W, A = t.wind_speeds, t.wind_angles
        qq = [[q(rng.choice(list(W))), q(rng.choice(list(A)))] for _ in range(3)]

        def f():
            wind = np.array(qq, float) / 4
            lab, sl = t.get_slices()
            perm = list(A)
            rng.shuffle(perm)
            return dict(dp=qm(t.default_points), gp0=qm(t.get_points()), gp=qm(t.get_points(wind)),
                        gpg=qm(t.get_points((list(W), perm))), lab=[q(x) for x in lab],
                        sl=[qm(np.asarray(s).T) for s in sl])
        st, r = vf.call(f)
        c.ev(new=new, op="read", q=qq, out=vf.outcome(st, r), obs=obs(t), **(r if st == "ok" else {}))
        return t
    raise AssertionError(op)


def run(c, hist, rng):
    t, new = None, True
    for o in hist:
        if t is None and o["op"] != "make":
            break
        t = do(c, t, o, rng, new)
        new = False
    if t is not None and rng.random() < .15:
        do(c, t, {"op": "read"}, rng, False)


def rlist(v, fin=True):
    return {"kind": "list", "v": v, "fin": fin}


def rand(c, rng):
    nw, na = rng.randint(1, 5), rng.randint(1, 6)
    W = rng.sample(range(0, 160), nw)
    A = [a + 1440 * rng.choice([0, 0, 0, 1, -1]) for a in rng.sample(range(0, 1440), na)]
    if rng.random() < .4:
        W = [4 * x for x in rng.sample(range(0, 40), nw)]
        A = [4 * x for x in rng.sample(range(0, 360), na)]
    wsr, war, fin, hasb = rlist(W), rlist(A), True, rng.random() < .85
    r = rng.random()
    if r < .04:
        wsr = {"kind": "none"}
        nw = 20
    elif r < .08:
        wsr = {"kind": "step", "x": rng.choice([40, 30, 64, 160, 161, 0, -4, 100])}
        hasb = False
    elif r < .12:
        war = {"kind": "none"}
        na = 72
    elif r < .16:
        war = {"kind": "step", "x": rng.choice([480, 300, 1440, 1441, 0, 361])}
        hasb = False
    elif r < .19:
        wsr = rlist(W + [-4])
        nw += 1
    elif r < .21:
        war = rlist(A, False)
    elif r < .23:
        fin, hasb = False, True
    elif r < .25:
        wsr = rlist([])
    b = [[rng.randint(-40, 4000) for _ in range(nw)] for _ in range(na)] if hasb else []
    if hasb and rng.random() < .06:
        b = b[:-1] if rng.random() < .5 else [r_ + [1] for r_ in b]
    if hasb and nw != na and rng.random() < .06:
        b = [list(x) for x in zip(*b)]
    t = do(c, None, dict(op="make", wsr=wsr, war=war, hasb=hasb, b=b, fin=fin), rng, True)
    if t is None:
        return
    ob = obs(t)
    W, A = ob["ws"], ob["wa"]
    if not W or not A:
        return
    if len(W) * len(A) > 100:
        do(c, t, {"op": "read"}, rng, False)
        return
    for _ in range(rng.randint(2, 9)):
        r = rng.random()

        def sel(res, angle):
            k = rng.random()
            if k < .2:
                return {"kind": "all"}
            v = rng.sample(res, rng.randint(1, len(res)))
            if rng.random() < .1:
                v.append(rng.choice(v))
            if angle and rng.random() < .3:
                v = [x + 1440 * rng.choice([0, 1, -1]) for x in v]
            if rng.random() < .06:
                v.append(rng.randint(-8, 1500) if angle else rng.choice([rng.randint(-8, 200), -rng.choice(res)]))
            if rng.random() < .03 and not angle:
                v = [-x if rng.random() < .5 else x for x in v]
            if rng.random() < .02:
                v = []
            return {"kind": "sel", "v": v}
        if r < .5:
            sw, sa = sel(W, False), sel(A, True)
            nw = len(set(W if sw["kind"] == "all" else sw["v"]))
            na = len({x % 1440 for x in (A if sa["kind"] == "all" else sa["v"])})
            shape = [1] if na == nw == 1 else [nw] if na == 1 else [na] if nw == 1 else [na, nw]
            if rng.random() < .3:      # what does not exist is not counted
                nw = len(set(W if sw["kind"] == "all" else set(sw["v"]) & set(W)))
                na = len(A if sa["kind"] == "all" else {x % 1440 for x in sa["v"]} & set(A))
                shape = [1] if na == nw == 1 else [nw] if na == 1 else [na] if nw == 1 else [na, nw]
            if rng.random() < .15:
                shape = rng.choice([[na, nw], [nw, na], [na * nw], [1], shape + [1], [max(1, nw - 1)]])
            shape = [max(1, x) for x in shape]
            n = int(np.prod(shape))
            do(c, t, dict(op="change", sw=sw, sa=sa, shape=shape, vals=[rng.randint(-8, 4000) for _ in range(n)],
                          fin=rng.random() > .04), rng, False)
        elif r < .7:
            do(c, t, dict(op="get", ws=rng.choice(W) * rng.choice([1, 1, 1, 1, 1, -1]) if rng.random() < .8 else rng.randint(-4, 160),
                          wa=rng.choice(A) + rng.choice([0, 0, 1440, -1440, 2880]) if rng.random() < .8
                          else rng.randint(-100, 2000)), rng, False)
        elif r < .9:
            do(c, t, dict(op="call", ws=rng.choice(W) + rng.choice([0, 0, 1, -1]) if rng.random() < .7
                          else rng.randint(0, 160),
                          wa=rng.choice(A) + rng.choice([0, 1, -1]) + rng.choice([0, 0, 1440, -1440]),
                          r=rng.choice([2, 40, 200, 720, 1440]), iv=rng.randint(0, 400)), rng, False)
        else:
            do(c, t, {"op": "read"}, rng, False)


def main(c):
    hs = c.gen("MCTable", limit=c.n(1500, 10 ** 9))
    if c.thorough:
        hs = hs + c.gen("MCTable", cfg="MCTableBig.cfg")
    for h in hs:
        run(c, h, c.rng)
    for _ in range(c.n(500, 8000)):
        rand(c, c.rng)
    c.validate("TraceTable")
    import near
    near.main(c)
