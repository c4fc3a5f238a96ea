"""C12: polar diagram curves against spec/Curve.tla."""
import numpy as np
import pandas as pd
import vf
from num import q, qs, qm, fx
from hrosailing.polardiagram import PolarDiagramCurve

FULL = 1440


def fam(rad):
    def f(ws, wa, *p):
        if len(p) != 4:
            raise IndexError("four parameters")
        a = np.rad2deg(wa) if rad else wa
        return p[0] + p[1] * ws + p[2] * a + p[3] * ws * ws
    return f


def unit(cv, a):
    return np.deg2rad(a) if cv["rad"] else a


def make(cv):
    d = PolarDiagramCurve(fam(cv["rad"]), *cv["p"], **({"radians": cv["rad"]} if cv["rad"] or cv["p"][0] % 2 else {}))
    return d.symmetrize() if cv["sym"] else d


def val(x):
    x = q(x, 32, tol=1e-7)
    return x


def evaluate(c, rng, d, cv, qq):
    """one scalar, or arrays of the same length"""
    w, a = [x[0] / 4 for x in qq], [x[1] / 4 for x in qq]
    ints = all(x == int(x) for x in w + a) and not cv["rad"]
    if len(qq) == 1 and rng.random() < .6:
        args = (int(w[0]), int(a[0])) if ints and rng.random() < .5 else (w[0], float(unit(cv, a[0])))
        if rng.random() < .3:
            args = tuple(np.float64(x) for x in args)
    else:
        args = (np.array(w), np.asarray(unit(cv, np.array(a))))
        if ints and rng.random() < .5:
            args = tuple(x.astype(int) for x in args)
        if len(set(w)) == 1 and rng.random() < .5:
            args = (w[0], args[1])
        elif len(set(a)) == 1 and rng.random() < .5:
            args = (args[0], float(unit(cv, a[0])))
    if len(qq) > 1 and rng.random() < .2:
        args = tuple(pd.Series(x) if np.ndim(x) else x for x in args)
    keep = [np.array(x) for x in args]
    st, r = vf.call(d, *args)
    v = []
    if st == "ok":
        v = [val(x) for x in np.atleast_1d(r)]
    same = all(np.array_equal(x, y) for x, y in zip(args, keep))
    c.ev(op="eval", cv=cv, q=qq, out=vf.outcome(st, r), v=v, same=same)


def reads(c, rng, d, cv):
    w = [rng.randint(0, 80) for _ in range(rng.randint(1, 3))]
    n = rng.choice([1, 2, 3, 5, 7, 11, 31]) if rng.random() < .8 else 73
    ws = [x / 4 for x in w]
    arg = ws[0] if len(ws) == 1 and rng.random() < .5 else np.array(ws) if rng.random() < .5 else ws
    st, r = vf.call(d.get_slices, arg, wa_resolution=n)
    sl = []
    if st == "ok":
        lab, sl = qs(r[0]), [[[q(x), q(y), val(z)] for x, y, z in np.asarray(s).T] for s in r[1]]
        for s in r[1]:
            s[...] = 3
    c.ev(op="slices", cv=cv, w=w, n=n, out=vf.outcome(st, r), lab=lab if st == "ok" else [], sl=sl)
    qq = [[rng.randint(0, 80), rng.randint(0, 1439)] for _ in range(rng.choice([1, 3, 4]))]
    wind = np.array([[x[0] / 4, x[1] / 4] for x in qq])
    if cv["rad"]:
        return
    st, r = vf.call(d.get_points, wind)
    c.ev(op="points", cv=cv, q=qq, out=vf.outcome(st, r), pts=[[q(x), q(y), val(z)] for x, y, z in r] if st == "ok" else [])


def default(c, rng, cv):
    cv = {**cv, "p": cv["p"][:3] + [0], "sym": False}
    d = make(cv)
    st, r = vf.call(lambda: d.default_points)
    p = [] if st != "ok" else [[fx(x, 64) for x in r[i]] for i in rng.sample(range(len(r)), 40)]
    c.ev(op="default", cv=cv, out=vf.outcome(st, r), d=p, n=len(r) if st == "ok" else 0)


def attributes(c, d, cv):
    st, r = vf.call(lambda: (d.parameters, d.radians, d.curve))
    c.ev(op="attr", cv=cv, out=vf.outcome(st, r), params=[q(x, 1) for x in r[0]] if st == "ok" else [], rad=bool(r[1]) if st == "ok" else None)


def fine(c, rng):
    """the angle reaches the function as it is, a turn aside"""
    U = 1 << 22
    rad = rng.random() < .5
    d = PolarDiagramCurve(lambda ws, wa, p: p * np.rad2deg(wa) if rad else p * wa, 1, radians=rad)
    A = [rng.randint(0, 360 * U - 1) for _ in range(rng.randint(1, 4))]
    x = np.array([a / U for a in A])
    if len(A) == 1 and rng.random() < .5:
        x = float(x[0])
    st, r = vf.call(d, 5, np.deg2rad(x) if rad else x)
    c.ev(op="fine", a=A, out=vf.outcome(st, r), v=[round(float(t) * U) for t in np.atleast_1d(r)] if st == "ok" else [])


def invalid(c, rng):
    k = rng.randrange(4)
    f, p = [("notcallable", []), (fam(False), [1, 2, 3]), (lambda ws, wa, a, b: a, [1]), (lambda ws, wa, a: a, [1, 2])][k]
    st, r = vf.call(PolarDiagramCurve, f, *p)
    c.ev(op="make", valid=False, out=vf.outcome(st, r))
    st, r = vf.call(PolarDiagramCurve, fam(True), 1, 2, 3, 4, radians=True)
    c.ev(op="make", valid=True, out=vf.outcome(st, r))
    st, r = vf.call(PolarDiagramCurve, lambda ws, wa, a: a / ws / wa, 3)      # fine for wind
    c.ev(op="make", valid=True, out=vf.outcome(st, r))


def main(c):
    rng = c.rng
    for cv in c.gen("MCCurve", limit=c.n(150, 10 ** 9)):
        d = make(cv)
        for _ in range(2):
            evaluate(c, rng, d, cv, [[rng.choice([0, 4, 9]), rng.choice([0, 1, 360, 720, 1000, 1439]) + FULL * rng.choice([0, 0, 1, -1, 2])]
                                     for _ in range(rng.choice([1, 1, 3]))])
    for _ in range(c.n(400, 6000)):
        cv = {"p": [rng.randint(-9, 9) for _ in range(4)], "sym": rng.random() < .3, "rad": rng.random() < .5}
        d = make(cv)
        for _ in range(3):
            W = rng.randint(0, 80) if rng.random() < .9 else rng.randint(300, 900)
            A = rng.randint(0, 1439)
            m = rng.choice([1, 1, 2, 5])
            qq = [[W if rng.random() < .4 else rng.randint(0, 80), (A if rng.random() < .4 else rng.randint(0, 1439)) + FULL * rng.choice([0, 0, 0, 1, -1, 3])]
                  for _ in range(m)]
            if rng.random() < .06:
                qq[rng.randrange(m)][0] = rng.choice([-1, -8])
            evaluate(c, rng, d, cv, qq)
        if rng.random() < .5:
            reads(c, rng, d, cv)
        if rng.random() < .1:
            default(c, rng, cv)
        attributes(c, d, cv)
    for _ in range(c.n(60, 1000)):
        fine(c, rng)
    for _ in range(12):
        invalid(c, rng)
    c.validate("TraceCurve")
