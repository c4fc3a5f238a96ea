"""C24: samplers against spec/Sampler.tla."""
import itertools
import warnings
import numpy as np
import vf
from num import fx
from hrosailing.processing.sampler import ArchimedeanSampler, FibonacciSampler, UniformRandomSampler

KINDS = {"uniform": UniformRandomSampler, "fibonacci": FibonacciSampler, "archimedean": ArchimedeanSampler}
PHI = (1 + 5 ** .5) / 2


def circle(data):
    """lattice midpoint of the smallest enclosing circle if there is one (verified by the specification)"""
    S = sorted(set(map(tuple, data)))
    best = None
    for a, b in itertools.combinations(S, 2):
        if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
            m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
            best = pick(S, m, best)
    for a, b, c in itertools.combinations(S, 3):
        d = 2 * (a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]))
        if d:
            s = [p[0] ** 2 + p[1] ** 2 for p in (a, b, c)]
            x = s[0] * (b[1] - c[1]) + s[1] * (c[1] - a[1]) + s[2] * (a[1] - b[1])
            y = s[0] * (c[0] - b[0]) + s[1] * (a[0] - c[0]) + s[2] * (b[0] - a[0])
            if x % d == 0 and y % d == 0:
                best = pick(S, (x // d, y // d), best)
    if best is None:
        return [], 0
    r2 = best[0]
    # the smallest circle overall may have no lattice midpoint: then a non-lattice one would be smaller
    m = best[1]
    B = [p for p in S if (p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2 == r2]
    held = any((a[0] - m[0]) * (b[1] - m[1]) == (a[1] - m[1]) * (b[0] - m[0]) and (a[0] - m[0]) * (b[0] - m[0]) + (a[1] - m[1]) * (b[1] - m[1]) < 0
               for a, b in itertools.combinations(B, 2))
    cr = lambda a, b: (a[0] - m[0]) * (b[1] - m[1]) - (a[1] - m[1]) * (b[0] - m[0])
    held = held or any(cr(a, b) > 0 and cr(b, c) > 0 and cr(c, a) > 0 for a, b, c in itertools.permutations(B, 3))
    return (list(m), r2) if held else ([], 0)


def pick(S, m, best):
    r2 = max((p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2 for p in S)
    return (r2, m) if best is None or r2 < best[0] else best


def spiral(kind, sm, mid):
    """the common scale T of the documented spiral, found by trying every position of one sample on it"""
    d = sm - np.array(mid, float)
    rho, ang = np.hypot(d[:, 0], d[:, 1]), np.arctan2(d[:, 1], d[:, 0])
    o = np.argsort(rho)
    rho, ang = rho[o], ang[o]
    best = (9e9, None, None)
    k = int(np.argmax(rho > 1e-9))
    if rho[k] <= 1e-9:
        return True, [0], [0]
    for m in range(0, 400):
        if kind == "archimedean":
            x = ang[k] % (2 * np.pi) + 2 * np.pi * m
            if x == 0:
                continue
            par = rho / rho[k] * x
            res = (par - ang + np.pi) % (2 * np.pi) - np.pi
            res[rho < 1e-9] = 0
            err = np.abs(res).max()
            P, A = (par - 0) % (2 * np.pi), (par - res) % (2 * np.pi)
            P[rho < 1e-9] = A[rho < 1e-9] = 0
        else:
            if m == 0:
                continue
            par = (rho / rho[k]) ** 2 * m
            n = np.round(par)
            res = (ang / (2 * np.pi) - n / PHI + .5) % 1 - .5
            f = (par + .5) % 1 - .5
            err = max(np.abs(res).max(), np.abs(f).max())
            P, A = f, res
        if err < best[0]:
            best = (err, P, A)
    return best[0] < 1e-2, [int(round(v * 1e6)) for v in best[1]], [int(round(v * 1e6)) for v in best[2]]


def case(c, rng, kind, data, n, form="array", f=1, off=(0, 0), rim=None):
    """points f*data + off (exact in binary); samples are read back in the units of data"""
    A = np.array(data) if form == "int" and f == 1 else np.array(data, float) * f
    A = A + np.array(off, A.dtype)
    st, s = vf.call(KINDS[kind], n)
    if st != "ok" or n <= 0:
        c.ev(op="make", out=vf.outcome(st, s), n=n)
        return
    before = A.copy()
    arg = A.tolist() if form == "list" else A
    np.random.seed(rng.randint(0, 2 ** 31))
    st, v = vf.call(s.sample, arg, secs=20)
    ch = not np.array_equal(np.array(arg), before)
    ok = st == "ok" and isinstance(v, np.ndarray) and v.ndim == 2
    sm = v if ok else np.zeros((0, 2))
    cols = sm.shape[1] if ok else 0
    distinct = len({tuple(p) for p in sm.tolist()}) == len(sm)
    if cols == 2:
        sm = (sm - np.array(off, float)) / f
    # the circle is found to within 1e-4: not exact enough at fine scales to recognise the spiral
    mid, r2 = circle(rim or data) if cols == 2 and f >= 1 else ([], 0)
    fit, par, ang = True, [], []
    if ok and cols == 2 and mid and kind != "uniform" and len(sm):
        fit, par, ang = spiral(kind, sm, mid)
    varies = True
    if kind == "uniform" and ok:
        s2, w = vf.call(s.sample, arg)
        varies = s2 == "ok" and not np.array_equal(v, w)
    c.ev(op="sample", kind=kind, data=[list(p) for p in data], n=n, out=vf.outcome(st, v), changed=ch, cols=cols, samples=[[fx(x, 100) for x in p] for p in sm],
         distinct=distinct, varies=varies, mid=mid, r2=r2, fit=bool(fit), par=par, ang=ang, tol=3000)


def rnd_data(rng):
    t = rng.random()
    if t < .5:
        m = [rng.randint(8, 60), rng.randint(8, 60)]
        r2 = rng.choice([25, 50, 65, 85, 100, 125])
        ring = [(x, y) for x in range(-12, 13) for y in range(-12, 13) if x * x + y * y == r2]
        inner = [(x, y) for x in range(-12, 13) for y in range(-12, 13) if x * x + y * y < r2]
        k = rng.choice([2, 3, 3, 5])
        p = rng.sample(ring, k)
        if k == 2:
            p[1] = (-p[0][0], -p[0][1])
        p += [rng.choice(inner) for _ in range(rng.randint(1, 6))]
        data = [[m[0] + x, m[1] + y] for x, y in p]
    elif t < .8:
        data = [[rng.randint(0, 40), rng.randint(0, 180)] for _ in range(rng.randint(3, 20))]
    elif t < .9:
        data = [[rng.randint(0, 3), rng.randint(0, 360)] for _ in range(rng.randint(3, 12))]
    else:
        data = [[rng.choice([4, 6]), rng.choice([0, 90, 180])] for _ in range(rng.randint(1, 5))]
    if rng.random() < .3:
        data += [list(rng.choice(data))]
    rng.shuffle(data)
    return data


def many(rng):
    """a dense inside, and the few points of the rim anywhere among it"""
    m, r2 = [rng.randint(20, 60), rng.randint(20, 60)], rng.choice([100, 125, 225, 325])
    ring = [(x, y) for x in range(-18, 19) for y in range(-18, 19) if x * x + y * y == r2]
    inner = [(x, y) for x in range(-18, 19) for y in range(-18, 19) if x * x + y * y < r2 / rng.choice([2, 4])]
    rim = rng.sample(ring, 3)
    cr = lambda a, b: a[0] * b[1] - a[1] * b[0]
    if rng.random() < .5:
        rim = [rim[0], (-rim[0][0], -rim[0][1])]
    else:
        # a triangle around the midpoint: the circle is the smallest one
        around = lambda t: {(v > 0) - (v < 0) for v in (cr(t[0], t[1]), cr(t[1], t[2]), cr(t[2], t[0]))} in ({1}, {-1})
        while not around(rim):
            rim = rng.sample(ring, 3)
    p = [rng.choice(inner) for _ in range(rng.randint(40, 90))]
    p = p + rim if rng.random() < .5 else rim + p
    if rng.random() < .3:
        rng.shuffle(p)
    at = lambda q: [[m[0] + x, m[1] + y] for x, y in q]
    return at(p), at(rim)


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCSampler", limit=c.n(250, 10 ** 9)):
        for kind in KINDS:
            case(c, rng, kind, [list(p) for p in h["data"]], h["n"])
    for kind in KINDS:
        for n in (0, -1, 1):
            if n <= 0:
                case(c, rng, kind, [[0, 0], [1, 0], [0, 1]], n)
            else:
                st, s = vf.call(KINDS[kind], n)
                c.ev(op="make", out=vf.outcome(st, s), n=n)
    for _ in range(c.n(500, 6000)):
        case(c, rng, rng.choice(list(KINDS)), rnd_data(rng), rng.choice([1, 1, 2, 3, 5, 10, 40] * 5 + [150]), rng.choice(["array", "array", "int", "list"]),
             rng.choice([1, 1, 1, 2 ** -5, 2 ** -10, 2 ** -17, 2 ** -30, 2 ** 6]), rng.choice([(0, 0), (0, 0), (-64, -32), (16, 256)]))
    for _ in range(c.n(25, 300)):
        data, rim = many(rng)
        case(c, rng, rng.choice(list(KINDS)), data, rng.choice([3, 20, 60]), rim=rim)
    c.validate("TraceSampler")
