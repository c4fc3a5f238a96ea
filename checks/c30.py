"""C30: globe models against spec/Globe.tla."""
import math
import warnings
import numpy as np
import vf
from num import fx
from hrosailing.models.globe_model import FlatMercatorProjection, SphericalGlobe

VIRT = [((0, 90), (0, 0)), ((0, 0), (90, 0)), ((-90, 0), (0, 0)), ((0, 45), (0, -45)), ((45, 0), (-45, 0)),
        ((60, 20), (10, 5)), ((80, -30), (0, 0)), ((50, 100), (20, 170)), ((90, 0), (30, 40)), ((45.5, 10.25), (-44.5, 10.25)), ((12.75, -33.5), (77.25, 146.5))]


def globe(rng, model, virtual):
    R = rng.choice([None, 1, 3440, 6371.0, 0.5])
    if model == "sphere":
        return vf.kept(rng, (model, R), lambda: SphericalGlobe(*([] if R is None else [R]))), R or 21600 / 2 / math.pi
    k = dict(zip(["virt_northpole", "virt_zero"], rng.choice(VIRT))) if virtual else {}
    if R is not None:
        k["earth_radius"] = R
    return vf.kept(rng, (model, k), lambda: FlatMercatorProjection(**k)), R or 3440


def pos(rng, p):
    return rng.choice([list, tuple, lambda x: np.array(x), lambda x: np.array(x, float)])(p)


def many(rng, ps):
    return rng.choice([lambda x: np.array(x), lambda x: np.array(x, float)])(ps)


def on_map(g, ps, R):
    """positions the flat map shows away from its poles and its cut"""
    pr = np.asarray(g.project(np.array(ps, float))) / R
    return not np.any(np.abs(pr[:, 0]) > 3.13) and not np.any(np.abs(pr[:, 1]) > 3.4)


def ok_map(p):
    return abs(p[0]) < 86 and (p[1] + 180) % 360 != 0


def latlon(o):
    return [[fx(x, 1000) for x in r] for r in o]


def unchanged(pairs):
    return not all(np.array_equal(np.asarray(a), b) for a, b in pairs)


def case(c, rng, model, p, q, r, n, virtual=False):
    g, R = globe(rng, model, virtual)
    if model != "sphere":
        st, fine = vf.call(on_map, g, [p, q, r], R) if virtual else ("ok", all(map(ok_map, (p, q, r))))
        if st == "ok" and not fine:
            return
    k = 10000 / R
    pts = [p, q, r][:rng.choice([1, 2, 3])]
    a = many(rng, pts)
    b = np.array(a)

    def proj():
        x = g.project(a)
        y = g.lat_lon(np.array(x))
        return np.array(x), np.array(y)
    st, v = vf.call(proj)
    c.ev(op="project", model=model, virtual=virtual, pts=pts, out=vf.outcome(st, v), proj=[[fx(x, k) for x in w] for w in v[0]] if st == "ok" else [],
         back=latlon(v[1]) if st == "ok" else [], changed=unchanged([(a, b)]))
    P, Q, S = pos(rng, p), pos(rng, q), pos(rng, r)
    bs = [(x, np.array(x)) for x in (P, Q, S)]
    st, v = vf.call(lambda: [float(g.distance(x, y)) for x, y in ((P, Q), (Q, P), (P, S), (S, Q), (P, P))])
    v = v if st == "ok" else [0] * 5
    c.ev(op="dist", model=model, virtual=virtual, p=p, q=q, r=r, out=vf.outcome(st, v), changed=unchanged(bs), **dict(zip(["pq", "qp", "pr", "rq", "pp"], [fx(x, k) for x in v])))
    for n in [n] + [rng.choice([2, 3, 6])] * (rng.random() < .3):
        path(c, g, k, model, p, q, P, Q, n, bs)


def path(c, g, k, model, p, q, P, Q, n, bs):
    st, v = vf.call(lambda: np.array(g.shortest_path(P, Q, n)))
    tot, steps = 0, []
    if st == "ok":
        st, w = vf.call(lambda: (float(g.distance(P, Q)), [float(g.distance(x, y)) for x, y in zip(v[:-1], v[1:])]))
        if st == "ok":
            tot, steps = w
    c.ev(op="path", model=model, p=p, q=q, n=n, out=vf.outcome(st, v if st != "ok" else None), path=latlon(v) if st == "ok" else [], steps=[fx(x, k * 10) for x in steps], total=fx(tot, k * 10), changed=unchanged(bs))


def near(c, rng):
    g, R = globe(rng, "sphere", False)
    p = [rng.randint(-60, 60), rng.randint(-180, 180)]
    m = rng.choice([30, 1000, 10000])
    unit = rng.choice([1e6, 1e6, 1e9])
    a, b = rng.randint(-m, m), rng.randint(-m, m)
    st, v = vf.call(lambda: float(g.distance(p, [p[0] + a / unit, p[1] + b / unit])))
    c.ev(op="near", model="sphere", p=p, dlat=a, dlon=b, out=vf.outcome(st, v), d=fx(v, unit * 180 / math.pi / R) if st == "ok" else 0)


def rel(v, p, unit):
    return [[fx(x - p[0], unit), fx((y - p[1] + 180) % 360 - 180, unit)] for x, y in np.asarray(v, float)]


def fine(c, rng):
    """positions between the whole degrees: there, back and along the way"""
    model = rng.choice(["sphere", "map"])
    g, R = globe(rng, model, model == "map" and rng.random() < .5)
    short = rng.random() < .5
    p = [rng.randint(-80000, 80000) / 1000, rng.randint(-179999, 179999) / 1000]
    unit = 1e9 if short else 1000
    if short:
        d = [rng.randint(-100000, 100000), rng.randint(-100000, 100000)]     # in 1e-9 degrees
        q = [p[0] + d[0] / 1e9, p[1] + d[1] / 1e9]
    else:
        q = [rng.randint(-80000, 80000) / 1000, rng.randint(-179999, 179999) / 1000]
        d = rel([q], p, unit)[0]
    if model == "map":
        st, f = vf.call(on_map, g, [p, q], R)
        if st == "ok" and not f:
            return
    n = rng.choice([2, 3, 5, 11])
    P, Q = pos(rng, p), pos(rng, q)
    st, v = vf.call(lambda: np.array(g.shortest_path(P, Q, n)))
    path, steps, tot, back = [], [], 0, []
    if st == "ok":
        st, v2 = vf.call(lambda: (rel(v, p, unit), [float(g.distance(x, y)) for x, y in zip(v[:-1], v[1:])], float(g.distance(Q, P)),
                                  rel(g.lat_lon(g.project(np.array([p, q]))), p, unit)))
        if st == "ok":
            path, steps, tot, back = v2
    k = 10 ** 7 / (tot or 1)
    straight = short and isinstance(g, SphericalGlobe) and abs(p[0]) < 70
    c.ev(op="fine", model=model, n=n, d=d, straight=straight, out=vf.outcome(st, v if st != "ok" else None), path=path, steps=[fx(x, k) for x in steps], total=fx(tot, k), back=back)


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for o in c.gen("MCGlobe", limit=c.n(500, 10 ** 9)):
        case(c, rng, "sphere", o["p"], o["q"], o["r"], rng.choice([2, 3, 5]))
        case(c, rng, "map", o["p"], o["q"], o["r"], rng.choice([2, 3, 5]))
    for _ in range(c.n(500, 8000)):
        P = [[rng.randint(-90, 90), rng.randint(-180, 180)] for _ in range(3)]
        t = rng.random()
        if t < .15:
            P[1] = list(P[0])
        elif t < .3:
            P[1] = [-P[0][0], P[0][1] + 180]
        elif t < .4:
            P[1] = [P[0][0], P[0][1] + rng.choice([360, -360, 1, -1])]
        elif t < .5:
            P[0][0] = P[1][0] = 0
        elif t < .6:
            P[1][1] = P[0][1]
        rng.shuffle(P)
        case(c, rng, rng.choice(["sphere", "sphere", "map"]), *P, rng.choice([1, 2, 3, 4, 7, 20]), virtual=False)
        case(c, rng, "map", *[[x % 90, y] for x, y in P], rng.choice([2, 3, 9]), virtual=True)
    for _ in range(c.n(300, 4000)):
        near(c, rng)
        fine(c, rng)
    c.validate("TraceGlobe")
