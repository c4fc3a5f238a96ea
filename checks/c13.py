"""C13: multi-sail diagrams against spec/MultiSails.tla."""
import numpy as np
import vf
from num import q, qs, qm, fx
from hrosailing.polardiagram import (PolarDiagram, PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud,
                                     PolarDiagramTable)


class Part(PolarDiagram):
    """a stand-in part with few points of its own"""
    def __init__(self, a, n):
        self.a, self.n = a, n

    def __call__(self, ws, wa):
        return self.a + ws + (self.a % 3 - 1) * (wa % 360)

    def to_csv(self, p):
        pass

    @classmethod
    def __from_csv__(cls, f):
        return None

    def symmetrize(self):
        return Part(self.a + 1000, self.n)

    @property
    def default_points(self):
        return np.array([[self.a, i, 4 * i] for i in range(self.n)], float).reshape(-1, 3)

    @property
    def default_slices(self):
        return np.array([self.a, self.a + self.n], float)

    def ws_to_slices(self, ws, **kw):
        return [np.array([[w] * self.n, [10 * i for i in range(self.n)], [self(w, 10 * i) for i in range(self.n)]], float).reshape(3, -1) for w in ws]


def table(rng):
    W = sorted(rng.sample(range(1, 20), rng.randint(1, 3)))
    A = sorted(rng.sample(range(1, 180), rng.randint(1, 4)))
    return PolarDiagramTable(W, A, [[rng.randint(0, 40) / 4 for _ in W] for _ in A])


def part(rng, kinds):
    k = rng.choice(kinds)
    if k == "table":
        return table(rng)
    if k == "cloud":
        return PolarDiagramPointcloud(np.array([[rng.randint(1, 18), rng.randint(1, 179), rng.randint(0, 40) / 4] for _ in range(rng.randint(1, 5))], float))
    if k == "curve":
        return PolarDiagramCurve(lambda ws, wa, a, b: a + b * ws + wa / 4, rng.randint(0, 9), rng.randint(0, 3))
    return Part(rng.randint(0, 30), rng.randint(0, 4) if rng.random() < .3 else rng.randint(1, 4))


def big(x):
    return fx(x, 1 << 16)


def obs(m, ids):
    f = lambda: dict(names=[str(x) for x in m.sails], ids=[ids.get(id(d), -1) for d in m.diagrams])
    st, r = vf.call(f)
    return r if st == "ok" else dict(names=["?"], ids=[])


def pm(a):
    return [[big(x) for x in r] for r in a]


def history(c, rng, n, given, has, kinds):
    ps = [part(rng, kinds) for _ in range(n)]
    ids = {id(p): i + 1 for i, p in enumerate(ps)}
    mine = list(ps)
    names = rng.choice([list, tuple])(given) if has else None
    pd_arg = mine if rng.random() < .7 else tuple(mine)
    st, m = vf.call(PolarDiagramMultiSails, pd_arg, *([names] if has else []))
    if st != "ok":
        c.ev(new=True, op="make", given=list(given), has=has, made=list(range(1, n + 1)), out=vf.outcome(st, m), names=[], ids=[])
        return
    mine.reverse()                       # the caller's lists are its own
    mine.append(None)
    if isinstance(names, list):
        names[:] = ["x"] * len(names)
    c.ev(new=True, op="make", given=list(given), has=has, made=list(range(1, n + 1)), out="ok", **obs(m, ids))

    def ev(**k):
        c.ev(new=False, **k, **obs(m, ids))

    seen = []
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["lookup", "lookup", "call", "call", "slices", "points", "sym", "tamper", "grow"])
        if op == "grow":        # the sails' diagrams change, and the diagram with them
            p = rng.choice(ps)
            if isinstance(p, PolarDiagramTable):
                w, a = float(rng.choice(list(p.wind_speeds))), float(rng.choice(list(p.wind_angles)))
                vf.call(p.change_entries, rng.randint(0, 60) / 4, w, a)
            elif hasattr(p, "add_points"):
                vf.call(p.add_points, [[rng.randint(1, 20), rng.randint(0, 180), rng.randint(0, 60) / 4]])
            op = rng.choice(["call", "slices", "points", "points", "sym"])
        if op == "tamper":
            vf.call(lambda: (m.sails.reverse(), m.diagrams.pop(), m.sails.append("z")))
            op = "lookup"
        if op == "lookup":
            nm = rng.choice(list(given) + [f"Sail {i}" for i in range(n + 1)] + ["x", "nope"])
            st, r = vf.call(lambda: m[nm])
            ev(op="lookup", n=nm, out=vf.outcome(st, r), id=ids.get(id(r), -1) if st == "ok" else 0)
        elif op == "call":
            qq = [(rng.randint(4, 80) / 4, rng.choice([rng.randint(0, 1439) / 4, rng.randint(0, 180)])) for _ in range(3)]
            if rng.random() < .5:        # the same speed, or the same angle, again
                i = rng.randrange(2)
                qq = [(qq[0][0], a) if i else (w, qq[0][1]) for w, a in qq]
            if rng.random() < .3:
                qq.append(qq[0])
            st, r = vf.call(lambda: [m(w, a) for w, a in qq])
            sp, pr = vf.call(lambda: [[p(w, a) for p in ps] for w, a in qq])
            if sp != "ok":               # a part that cannot answer there
                continue
            ev(op="call", out=vf.outcome(st, r), v=[big(x) for x in r] if st == "ok" else [], parts=pm(pr))
        elif op == "slices":
            w = [rng.randint(4, 80) for _ in range(rng.randint(1, 3))] if not seen or rng.random() < .5 else rng.choice(seen)
            seen.append(w)
            ws = [x / 4 for x in w]
            k = {"wa_resolution": rng.choice([2, 5, 13])} if rng.random() < .5 else {}
            one = len(ws) == 1 and rng.random() < .5
            sp, pr = vf.call(lambda: [[np.asarray(s).T for s in p.ws_to_slices(ws, **k)] for p in ps])
            if sp != "ok":
                continue
            parts = [[pm(pr[i][j]) for i in range(n)] for j in range(len(w))]
            st, r = vf.call(m.get_slices, ws[0] if one else ws, full_info=True, **k)
            if rng.random() < .3 and st == "ok":
                st, r2 = vf.call(m.get_slices, ws[0] if one else ws, **k)
                r = (r2[0], r2[1], r[2]) if st == "ok" else r2
            ev(op="slices", w=w, out=vf.outcome(st, r), parts=parts, lab=qs(r[0]) if st == "ok" else [],
               sl=[pm(np.asarray(s).T) for s in r[1]] if st == "ok" else [], info=[[str(x) for x in i] for i in r[2]] if st == "ok" else [])
        elif op == "points":
            if any(isinstance(p, PolarDiagramCurve) for p in ps):
                continue
            st, r = vf.call(lambda: (m.default_points if rng.random() < .5 else m.get_points(), m.default_slices))
            ev(op="points", out=vf.outcome(st, r), pts=pm(r[0]) if st == "ok" else [], ds=[fx(x, 64) for x in r[1]] if st == "ok" else [],
               parts=[pm(p.default_points) for p in ps], dparts=[[fx(x, 64) for x in p.default_slices] for p in ps if len(p.default_slices)])
        else:
            qq = [(rng.randint(1, 18), rng.randint(0, 180)) for _ in range(2)]
            st, r = vf.call(lambda: m.symmetrize())
            sp, pr = vf.call(lambda: [[big(p.symmetrize()(w, a)) for w, a in qq] for p in ps])
            if sp != "ok":
                continue
            v, sn = [], []
            if st == "ok":
                st, v = vf.call(lambda: [[big(p(w, a)) for w, a in qq] for p in r.diagrams])
                sn = [str(x) for x in r.sails]
            ev(op="sym", out=vf.outcome(st, r), v=v if st == "ok" else [], snames=sn, parts=pr)


def main(c):
    rng = c.rng
    for h in c.gen("MCMultiSails", limit=c.n(300, 10 ** 9)):
        history(c, rng, h["n"], h["given"], h["has"], ["stub"])
    for _ in range(c.n(250, 4000)):
        n = rng.randint(1, 4) if rng.random() < .9 else rng.randint(6, 12)
        given = [rng.choice(["Jib", "Main", "Genoa:1", "", "Sail 2", "ä"]) for _ in range(rng.randint(0, 5) if n < 6 else rng.randint(0, 10))]
        history(c, rng, n, given, bool(given) or rng.random() < .5, rng.choice([["table"], ["stub"], ["table", "cloud", "curve", "stub"]]))
    c.validate("TraceMultiSails")
