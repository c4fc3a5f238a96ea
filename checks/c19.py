"""C19: the recommended course against spec/Course.tla."""
import math
import numpy as np
import vf
from num import fx
from hrosailing.cruising import convex_direction
from hrosailing.models import InfluenceModel
from hrosailing.polardiagram import PolarDiagram, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable

S = 4          # speeds: lattice length / 4


def ang(x, y):
    return math.degrees(math.atan2(y, x)) % 360


class Raw(PolarDiagram):
    """slices as given, in the given order"""
    def __init__(self, pts, labels):
        self.pts, self.labels = pts, labels

    def __call__(self, ws, wa):
        raise AssertionError("not used")

    def to_csv(self, p):
        pass

    @classmethod
    def __from_csv__(cls, f):
        return None

    def symmetrize(self):
        return self

    @property
    def default_points(self):
        return np.zeros((0, 3))

    @property
    def default_slices(self):
        return np.array([1.0])

    def ws_to_slices(self, ws, **kw):
        return [np.array([[w] * len(self.pts), [a for a, _ in self.pts], [b for _, b in self.pts]], float) for w in ws]

    def get_slice_info(self, ws, slices, **kw):
        return [["".join(list(x)) for x in self.labels] for _ in slices] if self.labels else None


class Twice(InfluenceModel):
    """the influence decides the speed of a heading from the wind angle it is told and a factor"""
    def __init__(self, pts):
        self.pts = pts

    def remove_influence(self, d):
        raise AssertionError("not used")

    def add_influence(self, pd, d):
        n = len(d["TWA"])
        f = d["f"]
        assert len(f) == n and len(d["TWS"]) == n
        out = []
        for i in range(n):
            a = float(d["TWA"][i])
            out.append(max([b for x, b in self.pts if abs((x - a + 180) % 360 - 180) < 1e-9]) * f[i])
        return out


def case(c, rng, pts, u, kind=None):
    """pts: (x, y, sail, headway) lattice velocities; without headway the boat rests or drifts backwards"""
    zf = rng.choice([1, 1, 1, 2. ** -16, 2. ** 9])      # the unit of speeds does not matter
    a0 = [(ang(x, y), math.hypot(x, y) * zf / S if k else -rng.choice([0, 0.5, 1, 3]) * math.hypot(x, y) * zf / S) for x, y, _, k in pts]
    names = [s for _, _, s, _ in pts]
    distinct = len({round(a, 7) for a, _ in a0}) == len(a0)
    kinds = ["raw", "cloud"] if not any(names) else ["raw"]
    if distinct and not any(names):
        kinds += ["table", "table", "table"]
    if any(names):
        by = {}
        for (a, b), n in zip(a0, names):
            by.setdefault(n, []).append((a, b))
        if all(len({round(a, 7) for a, _ in v}) == len(v) for v in by.values()):
            kinds += ["multi", "multi"]
    kind = rng.choice(kinds)
    W = rng.choice([4, 7.5, 12])
    im = None
    scale = 1
    if distinct and kind == "table" and rng.random() < .3:
        im, scale = Twice([(a, b / 2) for a, b in a0]), rng.choice([3, .5])
    if kind == "cloud":
        names = [""] * len(pts)
        p = [[W + rng.choice([-1, -.5, 0, .25, 1]), a, b] for a, b in a0]
        p += [[W + rng.choice([-1.5, 2, 5]), rng.random() * 360, 30] for _ in range(rng.randint(0, 2))]
        p = [x for x in p if x[0] > 0]
        rng.shuffle(p)
        d = PolarDiagramPointcloud(np.array(p))
    elif kind == "table":
        WS = sorted({W, 3, 20} if rng.random() < .5 else {W})
        d = PolarDiagramTable(WS, [a for a, _ in a0], [[b * scale if w == W else rng.randint(0, 99) for w in WS] for _, b in a0])
    elif kind == "multi":
        d = PolarDiagramMultiSails([PolarDiagramTable([W], [a for a, _ in v], [[b] for _, b in v]) for v in by.values()], list(by))
    else:
        d = Raw([(a + (360 if rng.random() < .05 else 0), b) for a, b in a0], names if any(names) else None)
    w = rng.choice([W, int(W)]) if W == int(W) else W
    dire = ang(*u)
    if dire == int(dire) and rng.random() < .5:
        dire = int(dire)
    for a, _ in a0 if max(map(abs, u)) < 100 else []:
        if abs((a - dire + 180) % 360 - 180) < 1e-9:
            dire = a
    if rng.random() < .1:
        dire += 360 * rng.choice([-1, 1])
    kw = {}
    inf = {"f": 2, "g": 1}
    if im:
        kw = {"im": im, "influence_data": inf}
    elif rng.random() < .1:
        kw = {"influence_data": inf}
    before = dict(inf)
    st, r = vf.call(convex_direction, d, w, dire, **kw)
    legs = []
    if st == "ok":
        try:
            for g in r:
                cand = [i for i, ((a, b), n) in enumerate(zip(a0, names)) if abs((a - g.angle + 180) % 360 - 180) < 1e-7 and (g.sail or "") == n]
                idx = max(cand, key=lambda i: a0[i][1]) + 1 if cand else 0
                legs.append([idx, bool(abs((g.angle - dire + 180) % 360 - 180) < 1e-9), fx(g.proportion, 10 ** 6), str(g.sail or "")])
        except (TypeError, ValueError, AttributeError):
            st, r = "err", ValueError("no directions")
    c.ev(kind=kind, pts=[dict(x=x, y=y, s=n, k=bool(k)) for (x, y, _, k), n in zip(pts, names)], u=dict(x=u[0], y=u[1]),
         out=vf.outcome(st, r), legs=legs, same=inf == before)


def rnd(rng):
    """lattice headings; several shapes"""
    R = rng.choice([3, 6, 12])
    style = rng.random()
    n = rng.randint(2, 9) if rng.random() < .96 else rng.randint(25, 40)
    out = []
    for _ in range(n):
        x, y = rng.randint(-R, R), rng.randint(-R, R)
        if style < .25:
            y = abs(y)                                    # starboard half only
        elif style < .35:
            x, y = -abs(x), y                             # nothing against the wind
        if (x, y) != (0, 0):
            out.append((x, y))
    if rng.random() < .4:
        out += [(x, -y) for x, y in out]
    if rng.random() < .08:                                # nearly opposite headings
        x, y = rng.choice([-1, 1]) * rng.randint(60, 99), rng.randint(-4, 4)
        out = (out if rng.random() < .3 else []) + [(x, y), (-x, -y + rng.choice([-1, 1]))]
    out = list(dict.fromkeys(out))
    if rng.random() < .75:                                # one speed per heading
        best = {}
        for x, y in out:
            best.setdefault(round(ang(x, y), 7), (x, y))
        out = list(best.values())
    r = rng.random()
    if r < .5:
        out = sorted(out, key=lambda v: ang(*v))
    names = rng.sample(["Jib", "Genoa", "Spi"], rng.randint(2, 3)) if rng.random() < .35 else [""]
    back = rng.choice([0, 0, .15, .5])
    pts = [(x, y, rng.choice(names), rng.random() >= back) for x, y in out]
    u = rng.choice(out)[:2] if rng.random() < .25 else (rng.randint(-9, 9), rng.randint(-9, 9))
    if not out:
        return [], (1, 0)
    if rng.random() < .15:                                # next to one of the headings
        k, p = rng.choice([10, 100, 800]), rng.choice(out)
        u = (k * p[0] + rng.randint(-1, 1), k * p[1] + rng.randint(-1, 1))
        g = math.gcd(*u) or 1
        u = (u[0] // g, u[1] // g)
    return pts, u if u != (0, 0) else (1, 0)


def main(c):
    rng = c.rng
    for h in c.gen("MCCourse", limit=c.n(700, 10 ** 9)):
        case(c, rng, [(p["x"], p["y"], p["s"] if p["s"] == "b" or any(k["s"] == "b" for k in h["pts"]) else "", p["k"]) for p in h["pts"]], (h["u"]["x"], h["u"]["y"]))
    for _ in range(c.n(1200, 20000)):
        pts, u = rnd(rng)
        if len(pts) >= 2:
            case(c, rng, pts, u)
    c.validate("TraceCourse")
