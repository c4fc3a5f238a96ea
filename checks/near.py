"""Points lying very close together (distances of a few 1/1024 to 1/2^30): spec/TraceNear.tla."""
import math
import numpy as np
import vf
from num import BADNUM
from hrosailing.polardiagram import PolarDiagramPointcloud, PolarDiagramTable
from c10 import Box, Spy

U = 1024        # k = b * 1024 + d stands for b + d * u with the u of the event


def close(rng, lo, hi, k):
    x = rng.randint(lo, hi) * U
    return [x + d for d in rng.sample(range(0, 6), k)]


class Enc:
    def __init__(self, rng):
        self.u = 2. ** -rng.choice([10, 17, 24, 30])

    def real(self, k):
        b = (k + U // 2) // U
        return b + (k - U * b) * self.u

    def reals(self, m):
        return [self.reals(x) if isinstance(x, list) else self.real(x) for x in m]

    def q(self, x):
        try:
            b = math.floor(float(x) + .5)
            d = (float(x) - b) / self.u
        except (TypeError, ValueError, OverflowError):
            return BADNUM
        return int(b * U + d) if d == int(d) and abs(d) <= U // 4 and abs(b) < 10 ** 6 else BADNUM

    def qm(self, m):
        return [[self.q(x) for x in r] for r in np.asarray(m, float).reshape(-1, 3)]


def near(c, rng):
    table = c.pid == "C10" or c.pid == "C25" and rng.random() < .5
    e = Enc(rng)
    W, A = close(rng, 1, 60, rng.randint(1, 2)), close(rng, 0, 359, rng.randint(1, 3))
    pts = [[w, a, rng.randint(0, 40) * U + rng.randint(-3, 3)] for a in sorted(A) for w in sorted(W)]
    if table:
        b = [[e.real(p[2]) for p in pts[i * len(W):(i + 1) * len(W)]] for i in range(len(A))]
        p = PolarDiagramTable(e.reals(sorted(W)), e.reals(sorted(A)), b)
    else:
        rng.shuffle(pts)
        pts = pts[:rng.randint(1, len(pts))]
        p = PolarDiagramPointcloud(np.array(e.reals(pts), float))
    x = rng.choice(pts)
    ws, wa = x[0] + rng.choice([0, 0, 1, -1, 2]), x[1] + rng.choice([0, 0, 1, -1, 2]) + 360 * U * rng.choice([0, 0, 1, -1])
    iv = rng.randint(50, 60) * U + rng.randint(0, 9)
    r_ = rng.choice([0, 1, 2, 4])
    t = rng.random()
    if table and t < .4 and c.pid != "C25":
        st, r = vf.call(p.change_entries, e.real(iv), ws=e.real(ws), wa=e.real(wa))
        after = e.qm(p.get_points())
        order = {(x[0], x[1]): i for i, x in enumerate(pts)}
        after = sorted(after, key=lambda r: order.get((r[0], r[1]), -1))
        c.ev(op="nearchange", pts=pts, ws=ws, wa=wa, iv=iv, out=vf.outcome(st, r), after=after)
    elif table and t < .55 and c.pid != "C25":
        st, r = vf.call(lambda: p[e.real(ws), e.real(wa)])
        c.ev(op="nearget", pts=pts, ws=ws, wa=wa, out=vf.outcome(st, r), v=e.q(r) if st == "ok" else 0)
    elif table and (t < .7 or c.pid == "C25"):
        st, r = vf.call(p.get_slices, [e.real(ws)], interpolator=Spy(e.real(iv)))
        c.ev(op="nearcolumn", pts=pts, ws=ws, iv=iv, out=vf.outcome(st, r), sl=e.qm(np.asarray(r[1][0]).T) if st == "ok" else [])
    elif not table and (t < .3 or c.pid == "C25"):
        st, r = vf.call(p.get_slices, [e.real(ws)], range_=r_ * e.u)
        c.ev(op="nearslice", pts=pts, ws=ws, r=r_, out=vf.outcome(st, r), sl=e.qm(np.asarray(r[1][0]).T) if st == "ok" else [])
    elif t < .1 or t > .9:
        st, r = vf.call(lambda: (p.wind_speeds, p.wind_angles, p.get_points()))
        c.ev(op="nearread", pts=pts, out=vf.outcome(st, r), W=[e.q(x) for x in r[0]] if st == "ok" else [],
             A=[e.q(x) for x in r[1]] if st == "ok" else [], after=e.qm(r[2]) if st == "ok" else [])
    else:
        spy = Spy(e.real(iv))
        st, r = vf.call(p, e.real(ws), e.real(wa), interpolator=spy, neighbourhood=Box(r_ * e.u))
        seen, _, g = spy.seen if spy.seen else (np.zeros((0, 3)), [], [])
        c.ev(op="near", pts=pts, ws=ws, wa=wa, iv=iv, r=r_, out=vf.outcome(st, r), v=e.q(r) if st == "ok" else 0,
             seen=e.qm(seen), gp=[e.q(x) for x in g])


def main(c):
    for _ in range(c.n(250, 4000)):
        near(c, c.rng)
    c.validate("TraceNear")
