"""C16: symmetrising polar diagrams against spec/Symmetry.tla."""
import warnings
import numpy as np
import vf
from num import q, fx
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable

WS = [6, 10]


def build(part):
    if part["kind"] == "table":
        r = part["rows"]
        n = len(r[0]) - 1
        return PolarDiagramTable(WS[:n], [x[0] / 4 for x in r], [[v / 4 for v in x[1:]] for x in r])
    return PolarDiagramPointcloud(np.array([[w / 4, a / 4, b / 4] for a, w, b in part["rows"]], float).reshape(-1, 3))


def see1(d):
    if isinstance(d, PolarDiagramTable):
        return dict(kind="table", rows=[[q(a)] + [q(v) for v in row] for a, row in zip(d.wind_angles, d.boat_speeds)])
    return dict(kind="cloud", rows=[[q(a), q(w), q(b)] for w, a, b in d.points])


def see(d):
    if d is None:
        return []
    parts = d.diagrams if isinstance(d, PolarDiagramMultiSails) else [d]
    st, r = vf.call(lambda: [see1(p) for p in parts])
    return r if st == "ok" else [dict(kind="?", rows=[])]


def reads(rng, y):
    """the symmetrised table read at an angle and at its mirror image"""
    r1, r2 = [], []
    for p in (y.diagrams if isinstance(y, PolarDiagramMultiSails) else [y]):
        if isinstance(p, PolarDiagramTable) and len(set(p.wind_angles)) == len(p.wind_angles):
            for a in p.wind_angles:
                w = rng.choice(list(p.wind_speeds))
                r1.append(q(p[w, a]))
                r2.append(q(p[w, 360 - a]))
    return r1, r2


def symmetrised(c, rng, x, names):
    st, y = vf.call(x.symmetrize)
    if st == "ok":
        s2, rr = vf.call(reads, rng, y)
        r1, r2 = rr if s2 == "ok" else ([1], [0])
        nm = list(y.sails) if len(names) > 1 and hasattr(y, "sails") else names
    else:
        y, r1, r2, nm = None, [], [], names
    c.ev(new=False, op="sym", out=vf.outcome(st, y), x=see(x), y=see(y), new2=y is not x, names=nm, names0=names, r1=r1, r2=r2)
    return y


def history(c, rng, d, edits):
    names = [f"s{i}" if rng.random() < .8 else "s0" for i in range(len(d))]

    def make():
        parts = [build(p) for p in d]
        for i, p in enumerate(d):
            if not edits and p in d[:i] and rng.random() < .7:
                parts[i] = parts[d.index(p)]    # one diagram under two names
        return PolarDiagramMultiSails(parts, names) if len(d) > 1 else parts[0]
    st, x = vf.call(make)
    c.ev(new=True, op="make", out=vf.outcome(st, x), d=d, x=see(x) if st == "ok" else [], y=[])
    if st != "ok":
        return
    y = symmetrised(c, rng, x, names)
    if y is None:
        return
    for who, part, e in edits:
        D = x if who == "x" else y
        now = see(D)
        if part > len(now):
            continue
        P = D.diagrams[part - 1] if isinstance(D, PolarDiagramMultiSails) else D
        e = dict(e)
        if now[part - 1]["kind"] == "table":
            rows = now[part - 1]["rows"]
            ang = [r[0] for r in rows]
            e["row"] = 1 + e.get("row", 1) % len(rows) if "rnd" in e else min(e["row"], len(rows))
            if ang.count(ang[e["row"] - 1]) > 1:
                continue
            e["v"] = (e["v"] * 3)[:len(rows[0]) - 1]
            st, r = vf.call(P.change_entries, [v / 4 for v in e["v"]], None, ang[e["row"] - 1] / 4)
        else:
            e["row"] = 0
            a, w, b = (e["v"] * 3)[:3]
            e["v"] = [a % 1440, abs(w) + 1, b]
            a, w, b = e["v"]
            st, r = vf.call(P.add_points, [[w / 4, a / 4, b / 4]])
        e.pop("rnd", None)
        c.ev(new=False, op="edit", who=who, part=part, e=e, out=vf.outcome(st, r), x=see(x), y=see(y))
        if rng.random() < .4:
            y = symmetrised(c, rng, x, names)
            if y is None:
                return


def rnd_part(rng, kind):
    side = rng.choice(["low", "low", "high", "both", "axis"])
    pool = {"low": range(0, 721), "high": list(range(720, 1440)) + [0] * 40, "both": range(0, 1440), "axis": [0, 720, 4, 1436, 716, 724]}[side]
    pool = list(pool)
    n = rng.randint(1, 6) if rng.random() > .04 else rng.randint(40, 90)
    if kind == "table":
        A = sorted(set(rng.sample(pool, min(n, len(set(pool)))) + ([0] if rng.random() < .3 and side != "both" else []) + ([720] if rng.random() < .3 and side != "both" else [])))
        m = rng.randint(1, 2)
        return dict(kind=kind, rows=[[a] + [rng.randint(0, 60) for _ in range(m)] for a in A])
    return dict(kind=kind, rows=[[rng.choice(pool), rng.randint(1, 60), rng.randint(0, 60)] for _ in range(n if rng.random() < .9 else 0)])


def curve(c, rng):
    p = [rng.randint(0, 5) for _ in range(3)]
    rad = rng.random() < .5

    def f(ws, wa, a, b, k):
        ph = wa if rad else np.deg2rad(wa)
        return a + b * np.sin(ph) + k * np.cos(2 * ph + 1) + ws * np.sin(ph / 2)

    def ev(d, w, a):
        return fx(float(d(w, np.deg2rad(a) if rad else a)), 1 << 16)

    d = PolarDiagramCurve(f, *p, radians=rad)
    a, w = rng.choice([rng.randint(1, 359), 180, rng.randint(1, 1439) / 4]), rng.randint(0, 20)
    st, r = vf.call(lambda: (lambda y: (ev(d, w, a), ev(d, w, 360 - a), fx(2 * y(w, np.deg2rad(a) if rad else a), 1 << 16),
                                        fx(2 * y(w, np.deg2rad(360 - a) if rad else 360 - a), 1 << 16)))(d.symmetrize()))
    v1, v2, s1, s2 = r if st == "ok" else (0, 0, 0, 0)
    c.ev(new=True, op="curve", out=vf.outcome(st, r), v1=v1, v2=v2, s1=s1, s2=s2)


def fine(c, rng):
    """angles and entries of full precision"""
    U = 1 << 20
    A = sorted(rng.sample(range(1, 180 * U), rng.randint(1, 5)))
    B = [rng.randint(0, 40 * U) for _ in A]
    if rng.random() < .5:
        st, y = vf.call(lambda: PolarDiagramTable([6], [a / U for a in A], [[b / U] for b in B]).symmetrize())
        rows = [[q(a, U), q(b[0], U)] for a, b in zip(y.wind_angles, y.boat_speeds)] if st == "ok" else []
    else:
        st, y = vf.call(lambda: PolarDiagramPointcloud([[6, a / U, b / U] for a, b in zip(A, B)]).symmetrize())
        rows = sorted([q(a, U), q(b, U)] for _, a, b in y.points) if st == "ok" else []
    c.ev(new=True, op="fine", out=vf.outcome(st, y), x=[[a, b] for a, b in zip(A, B)], y=rows, turn=360 * U)


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCSymmetry", limit=c.n(500, 10 ** 9)):
        history(c, rng, h[0]["d"], [(h[2]["who"], 1, h[2]["e"])])
    for _ in range(c.n(500, 8000)):
        k = rng.choice(["table", "table", "cloud", "multi"])
        d = [rnd_part(rng, "table") for _ in range(rng.randint(2, 3))] if k == "multi" else [rnd_part(rng, k)]
        history(c, rng, d, [(rng.choice("xy"), rng.randint(1, len(d)), dict(rnd=1, row=rng.randint(1, 9), v=[rng.randint(0, 60) for _ in range(3)])) for _ in range(rng.randint(1, 4))])
    for _ in range(c.n(60, 800)):
        p = rnd_part(rng, rng.choice(["table", "cloud"]))
        d = [p, p] if rng.random() < .5 else [p, rnd_part(rng, "table"), p]
        history(c, rng, d, [])
        fine(c, rng)
    for _ in range(c.n(150, 2000)):
        curve(c, rng)
    c.validate("TraceSymmetry")
