"""C25: slices and points of polar diagrams against spec/Slices.tla."""
import pickle
import warnings
import numpy as np
import vf
from num import fx
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable
from hrosailing.processing import Interpolator


class Stub(Interpolator):
    def interpolate(self, w_pts, grid_pt):
        ws, wa = grid_pt
        return float(ws) + 100 * (float(wa) % 360)


class Other(Interpolator):
    def interpolate(self, w_pts, grid_pt):
        return 777.


def line(ws, wa, a, b):
    return a * ws + b * np.abs(180 - wa)


def line_rad(ws, wa, a, b):
    return a * ws + b * np.abs(180 - np.rad2deg(wa))


def k(x):
    return np.array(x, float) / 1000


def build(d):
    if d["kind"] == "table":
        return PolarDiagramTable(list(k(d["ws"])), list(k(d["wa"])), k(d["bsp"]))
    if d["kind"] == "cloud":
        return PolarDiagramPointcloud(k(d["pts"]))
    if d["kind"] == "curve":
        return PolarDiagramCurve(line_rad if d["rad"] else line, float(d["a"]), float(d["b"]), radians=d["rad"])
    return PolarDiagramMultiSails([build(x) for x in d["subs"]], list(d["sails"]))


def rows(a):
    return [[fx(x, 1000) for x in r] for r in np.asarray(a, float)]


def want(rng, ws):
    v = [x / 1000 for x in ws]
    if all(x % 1000 == 0 for x in ws):
        ints = [x // 1000 for x in ws]
        if len(ws) == 1 and rng.random() < .5:
            return rng.choice([ints[0], v[0], np.float64(v[0]), np.int64(ints[0])])
        if rng.random() < .4:
            return rng.choice([ints, tuple(ints), np.array(ints)])
    return rng.choice([v, tuple(v), np.array(v), np.array(v), iter(v), [np.float64(x) for x in v]])


def state(pd):
    if isinstance(pd, PolarDiagramMultiSails):
        return [list(pd.sails)] + [state(x) for x in pd.diagrams]
    if isinstance(pd, PolarDiagramTable):
        return [x.tolist() for x in (pd.wind_speeds, pd.wind_angles, pd.boat_speeds)]
    if isinstance(pd, PolarDiagramPointcloud):
        return pd.points.tolist()
    return [list(pd.parameters), pd.radians]


def has(d, kind):
    return d["kind"] == kind or d["kind"] == "multi" and any(has(x, kind) for x in d["subs"])


def slices(c, rng, d, ws, n, o, invalid=None, form=None):
    pd = build(d)
    b = state(pd)
    kw = {}
    if rng.random() < .3:        # asked before, with other options
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vf.call(lambda: pd.get_slices(want(rng, ws) if ws else None, n or None, interpolator=Other(), **({"wa_resolution": 7} if has(d, "curve") else {"range_": .25} if d["kind"] == "cloud" else {})))
    if has(d, "table") or d["kind"] == "cloud" and o["interp"]:
        kw["interpolator"] = Stub()
    if d["kind"] == "multi":
        o = dict(o, interp=bool(kw))
    if has(d, "cloud"):
        if o["range"] != 1000 or rng.random() < .5:
            kw["range_"] = o["range"] / 1000
    if has(d, "curve") or has(d, "cloud"):
        if o["res"] != 100 or rng.random() < .2:  # 100 is the documented default
            kw["wa_resolution"] = o["res"]
    full = rng.random() < .6
    arg = form if form is not None else want(rng, ws) if ws else None
    nn = n if n or invalid == "err:ValueError" else None
    if rng.random() < .5 and nn is None:
        st, v = vf.call(lambda: pd.get_slices(arg, full_info=full, **kw))
    else:
        st, v = vf.call(lambda: pd.get_slices(arg, nn, full_info=full, **kw))
    e = dict(op="slices", d=d, ws=ws, n=max(n, 0), o=o, full=full, invalid=invalid or "", out=vf.outcome(st, v), labels=[], slices=[], info=["none"], changed=state(pd) != b)
    if st == "ok":
        e["labels"] = [fx(x, 1000) for x in v[0]]
        e["slices"] = [rows(np.asarray(s).T) for s in v[1]]
        if full:
            e["info"] = ["none"] if v[2] is None else [[str(x) for x in r] for r in v[2]]
        # what is handed out is the caller's
        st2, _ = vf.call(lambda: [np.asarray(s).__setitem__(Ellipsis, -7) for s in v[1]] and np.asarray(v[0]).__setitem__(Ellipsis, -7))
        e["changed"] = e["changed"] or state(pd) != b
    c.ev(**e)


def default(c, rng, d, pd, b):
    if d["kind"] == "multi" and has(d, "curve"):
        return
    st, v = vf.call(lambda: np.array(rng.choice([lambda: pd.get_points(), lambda: pd.get_points(None), lambda: pd.default_points])()))
    e = dict(op="default", d=d, out=vf.outcome(st, v), pts=[], at=[], len=0)
    if st == "ok":
        at = [1, len(v)] + [rng.randint(1, len(v)) for _ in range(6)] if d["kind"] == "curve" else list(range(1, len(v) + 1))
        e.update(pts=rows(v[[i - 1 for i in at]]), at=at, len=len(v))
    c.ev(changed=state(pd) != b, **e)


def points(c, rng, d):
    pd = build(d)
    if d["kind"] == "curve" and d["rad"] or d["kind"] == "multi" and any(x.get("rad") for x in d["subs"]):
        return rng.random() < .2 and default(c, rng, d, pd, state(pd))  # the angle unit of explicit winds is the curve's own
    b = state(pd)
    if d["kind"] == "multi" and any(x["kind"] != "curve" for x in d["subs"]) or rng.random() < .15:
        return default(c, rng, d, pd, b)
    if d["kind"] == "table":
        W, A = [rng.choice(d["ws"]) for _ in range(rng.randint(1, 4))], [rng.choice(d["wa"]) for _ in range(rng.randint(1, 4))]
    else:
        W, A = [1000 * rng.randint(0, 20) for _ in range(rng.randint(1, 4))], [1000 * rng.randint(0, 359) for _ in range(rng.randint(1, 4))]
    if d["kind"] != "cloud" and rng.random() < .5:
        a = tuple(rng.choice([np.array, list])([x / 1000 for x in y]) for y in (W, A))
        st, v = vf.call(lambda: np.array(pd.get_points(a)))
        e = dict(op="combos", W=W, A=A)
    else:
        if d["kind"] == "cloud":
            P = [p for p in d["pts"] if p[0] > 0]
            if not P:
                return
            w = [rng.choice(P)[:2] for _ in range(rng.randint(1, 4))]
        elif d["kind"] == "table":
            w = [[rng.choice(d["ws"]), rng.choice(d["wa"])] for _ in range(rng.randint(1, 4))]
        else:
            w = [[1000 * rng.randint(0, 20), 1000 * rng.randint(0, 359)] for _ in range(rng.randint(1, 4))]
        a = k(w)
        if len(w) != 2 and rng.random() < .5:
            a = a.T
        a0 = a.copy()
        st, v = vf.call(lambda: np.array(pd.get_points(a)))
        e = dict(op="points", wind=w)
        if not np.array_equal(a, a0):
            b = None
    c.ev(d=d, out=vf.outcome(st, v), pts=rows(v) if st == "ok" else [], changed=state(pd) != b, **e)


def rnd(rng, kind=None):
    kind = kind or rng.choice(["table", "cloud", "curve", "multi"])
    if kind == "table":
        ws = sorted(rng.sample(range(1, 20), rng.randint(1, 4)))
        wa = sorted(rng.sample(range(0, 360), rng.randint(1, 5)))
        return dict(kind=kind, ws=[1000 * x for x in ws], wa=[1000 * x for x in wa], bsp=[[rng.randint(0, 9000) for _ in ws] for _ in wa])
    if kind == "cloud":
        at = list({(rng.randint(0, 12), rng.choice([0, 90, 180, 30, rng.randint(0, 359)])) for _ in range(rng.randint(1, 8))})
        rng.shuffle(at)
        return dict(kind=kind, pts=[[1000 * x, 1000 * y, rng.randint(0, 9000)] for x, y in at])
    if kind == "curve":
        return dict(kind=kind, a=rng.randint(0, 5), b=rng.randint(0, 5), rad=rng.random() < .5)
    subs = [rnd(rng, rng.choice(["table", "cloud", "curve", "curve"])) for _ in range(rng.randint(1, 3))]
    return dict(kind=kind, subs=subs, sails=rng.sample(["jib", "spi", "gen", "Sail 7"], len(subs)))


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCSlices", limit=c.n(350, 10 ** 9)):
        slices(c, rng, h["d"], h["ws"], h["n"], h["o"])
    for _ in range(c.n(350, 6000)):
        d = rnd(rng)
        ws = [1000 * rng.randint(0 if rng.random() < .1 else 1, 20) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if not ws and has(d, "table") and d["kind"] != "table":
            ws = [4000]
        if rng.random() < .2 and not has(d, "table"):
            ws = [x + rng.randint(0, 999) for x in ws]
        n = rng.choice([0, 0, 1, 3]) if has(d, "table") else rng.choice([0, 0, 1, 2, 3, 4, 5])
        if not ws and has(d, "cloud") and n:
            n = 1
        o = dict(off=0, res=rng.choice([2, 4, 5, 7, 10, 13]), range=1000 * rng.choice([0, 1, 1, 2, 5]), interp=rng.random() < .5)
        if rng.random() < .15 and len(ws) * (n + 1) <= 4 and not has(d, "table") and not (has(d, "cloud") and o["interp"]):
            o["res"] = 100
        t = rng.random()
        if t < .06:
            slices(c, rng, d, ws or [4000], -rng.randint(1, 3), o, invalid="err:ValueError", form=[4, 5.5] + ws)
        elif t < .12:
            slices(c, rng, d, [4000], 0, o, invalid="err:TypeError", form=rng.choice(["abc", ["a", 1], [None], [1, [2]], object(), [[1, 2], [3, 4]]]))
        else:
            slices(c, rng, d, ws, n, o)
        points(c, rng, d)
    for i in range(c.n(6, 40)):      # large diagrams
        if i % 2:
            at = list({(rng.choice([3, 4, 6, 9]), rng.randint(0, 359)) for _ in range(260)})
            d = dict(kind="cloud", pts=[[1000 * x, 1000 * y, rng.randint(0, 9000)] for x, y in at])
        else:
            ws, wa = sorted(rng.sample(range(1, 60), 25)), sorted(rng.sample(range(0, 360), 40))
            d = dict(kind="table", ws=[1000 * x for x in ws], wa=[1000 * x for x in wa], bsp=[[rng.randint(0, 9000) for _ in ws] for _ in wa])
        o = dict(off=0, res=10, range=1000 * rng.choice([1, 2]), interp=False)
        slices(c, rng, d, rng.choice([[], [], [4000, 6000]]), 0, o)
        points(c, rng, d)
    c.validate("TraceSlices")
    import near
    near.main(c)
