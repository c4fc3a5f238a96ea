"""C28: conversion of apparent and true wind against spec/WindTriangle.tla."""
import math
import numpy as np
import vf
from num import q, fx
import hrosailing.core.computing as co
U, SC = 8, 256      # vectors in eighths
FN = {"true": co.convert_apparent_wind_to_true, "apparent": co.convert_true_wind_to_apparent}


def polar(rng, rows):
    out = []
    for u, v, b in rows:
        a = math.degrees(math.atan2(v, u)) + (360 * rng.choice([0, 0, 1, -1, 2]) if rng.random() < .5 else 0)
        if u == v == 0:
            a = rng.choice([0, 90, 180, 359, -10])
        if v == 0 and u > 0:
            a = round(a)
        out.append([math.hypot(u, v) / U, a, b / U])
    return out


def observe(r, f=1):
    a = np.asarray(r, float)
    if a.ndim != 2 or a.shape[1] != 3:
        return [], []
    res = [[fx(x / f * math.cos(math.radians(w)) * U, SC), fx(x / f * math.sin(math.radians(w)) * U, SC), q(b / f, U), fx(x / f, 1000)] for x, w, b in a]
    return res, [fx(math.floor(w * 1000), 1) if math.isfinite(w) else -1 for w in a[:, 1]]


def bend(rng, a):
    r = rng.random()
    if r < .3:
        return a.tolist()
    if r < .4:
        return tuple(map(tuple, a.tolist()))
    if r < .5:
        return np.asfortranarray(a)
    if r < .6:
        return np.vstack([a, a])[:len(a)]
    return a.copy()


def chain(c, rng, rows, n):
    f = rng.choice([1, 1, 1, 2. ** -9, 2. ** -30, 2. ** 10])     # in any unit of speed
    cur, new = np.array(polar(rng, rows), float) * [f, 1, f], True
    d = rng.choice(["true", "apparent"])
    for _ in range(n):
        a = bend(rng, cur)
        b = np.array(a, float)
        st, r = vf.call(FN[d], a)
        res, ang = observe(r, f) if st == "ok" else ([], [])
        c.ev(new=new, rows=rows, dir=d, valid=True, out=vf.outcome(st, r), res=res, ang=ang, same=bool(np.array_equal(np.array(a, float), b)))
        if st != "ok":
            return
        new = False
        if isinstance(a, np.ndarray):
            a *= 3
        cur = np.array(r, float)
        d = ("apparent" if d == "true" else "true") if rng.random() < .7 else d


def invalid(c, rng):
    a = np.array(polar(rng, [[rng.randint(-40, 40), rng.randint(-40, 40), rng.randint(0, 40)] for _ in range(rng.randint(1, 4))]), float)
    i = rng.randrange(len(a))
    k = rng.randrange(6)
    if k == 0:
        a[i, 0] = -rng.choice([1e-3, 1, 5])
    elif k == 1:
        a[i, rng.randrange(3)] = rng.choice([float("nan"), float("inf"), -float("inf")])
    elif k == 2:
        a = a[:, :2]
    elif k == 3:
        a = np.column_stack([a, a[:, 0]])
    elif k == 4:
        a = a[i]
    else:
        a = a.reshape(1, -1, 3)
    b = np.array(a)
    d = rng.choice(["true", "apparent"])
    st, r = vf.call(FN[d], a)
    c.ev(new=True, rows=[], dir=d, valid=False, out=vf.outcome(st, r), res=[], ang=[], same=bool(np.array_equal(a, b, equal_nan=True)))


def floats(c, rng):
    """any speeds and angles: vectors in millionths"""
    rows = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        a = rng.choice([0, 180, 360, 540, -180, 90, 270]) if r < .6 else rng.choice([0, 180]) + rng.uniform(-1, 1) * 10 ** -rng.randint(1, 9) if r < .8 else rng.uniform(-720, 720)
        rows.append([rng.uniform(0, 60), float(a), rng.uniform(-2, 30)])
    a = np.array(rows)
    b, d = a.copy(), rng.choice(["true", "apparent"])
    st, r = vf.call(FN[d], a)
    vec = lambda w: [fx(w[0] * math.cos(math.radians(w[1])), 1000000), fx(w[0] * math.sin(math.radians(w[1])), 1000000), fx(w[2], 1000000)]
    res, ang = [], []
    if st == "ok" and np.shape(r) == a.shape and np.all(np.isfinite(r)):
        res, ang = [vec(w) + [fx(w[0], 1000000)] for w in r], [fx(math.floor(w * 1000), 1) for w in r[:, 1]]
    c.ev(new=True, rows=[vec(w) for w in rows], dir=d, valid=True, floats=True, out=vf.outcome(st, r), res=res, ang=ang, same=bool(np.array_equal(a, b)))


def main(c):
    for rows in c.gen("MCWindTriangle", limit=c.n(900, 10 ** 9)):
        chain(c, c.rng, [[4 * x for x in r] for r in rows], 2)
    for _ in range(c.n(700, 10000)):
        m = c.rng.choice([8, 40, 160, 400])
        rows = [[c.rng.randint(-m, m), c.rng.choice([0, 1, c.rng.randint(-m, m)]), c.rng.randint(-4, m // 2)] for _ in range(c.rng.randint(1, 8) if c.rng.random() < .97 else c.rng.randint(60, 110))]
        if c.rng.random() < .3:      # calm, dead ahead, dead astern
            x = c.rng.randint(0, m)
            rows.append([c.rng.choice([x, -x]), 0, x])
        chain(c, c.rng, rows, c.rng.randint(1, 5))
    for _ in range(c.n(500, 8000)):
        floats(c, c.rng)
    for _ in range(c.n(200, 2000)):
        invalid(c, c.rng)
    c.ev(new=True, rows=[], dir="true", valid=True, out=vf.outcome(*vf.call(FN["true"], np.zeros((0, 3)))), res=[], ang=[], same=True)
    c.validate("TraceWindTriangle")
