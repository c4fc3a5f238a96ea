"""C32: regressors against spec/Regress.tla."""
import warnings
import numpy as np
import vf
from num import fx
from hrosailing.processing.regressor import LeastSquareRegressor, ODRegressor

FAM = {
    "const": (lambda ws, wa, a: a + 0 * ws, 1), "scale": (lambda ws, wa, a: a * ws, 1), "plane": (lambda ws, wa, a, b, c: a + b * ws + c * wa, 3),
    "product": (lambda ws, wa, a, b, c: a + b * ws + c * ws * wa, 3), "parabola": (lambda ws, wa, a, b, c: a * ws + b * ws ** 2 + c * wa, 3),
}
STAR = {
    "const": lambda ws, wa, *p: p[0] + 0 * ws, "scale": lambda ws, wa, *p: p[0] * ws, "plane": lambda ws, wa, *p: p[0] + p[1] * ws + p[2] * wa,
    "product": lambda ws, wa, *p: p[0] + p[1] * ws + p[2] * ws * wa, "parabola": lambda ws, wa, *p: p[0] * ws + p[1] * ws ** 2 + p[2] * wa,
}
BASIS = {"const": lambda x, y: [1], "scale": lambda x, y: [x], "plane": lambda x, y: [1, x, y], "product": lambda x, y: [1, x, x * y], "parabola": lambda x, y: [x, x * x, y]}


def factory(rng, fam):
    kind = rng.choice(["odr", "lsr", "lsr-named", "lsr-star"])
    n = FAM[fam][1]
    init = [rng.choice([1., 2., -1.]) for _ in range(n)]
    form = rng.choice([list, tuple, np.array])
    if kind == "odr":
        f = rng.choice([FAM[fam][0], STAR[fam]])
        return f, form(init), (lambda i: ODRegressor(f, i)), kind
    if kind == "lsr":
        f = rng.choice([FAM[fam][0], STAR[fam]])
        return f, form(init), (lambda i: LeastSquareRegressor(f, i)), kind
    f = FAM[fam][0] if kind == "lsr-named" else STAR[fam]
    return f, None, (lambda i: LeastSquareRegressor(f)), kind


def params(r):
    p = r.optimal_params
    return None if p is None else [fx(x, 1000) for x in np.asarray(p).ravel()]


def history(c, rng, fam, fits):
    f, init, mk, kind = factory(rng, fam)
    st, r = vf.call(mk, init)
    c.ev(new=True, op="make", fam=fam, kind=kind, out=vf.outcome(st, r), fitted=st == "ok" and r.optimal_params is not None, func=st == "ok" and r.model_func is f)
    if st != "ok":
        return
    last = []
    for T, exact in fits:
        if T is None:
            bad = rng.choice([np.empty((0, 3)), np.ones((3, 2))])
            st, v = vf.call(r.fit, bad)
            c.ev(new=False, op="refuse", out=vf.outcome(st, v), p=params(r) or [])
            continue
        A = np.array(T, float)
        arg = A.tolist() if rng.random() < .3 else A
        i0 = None if init is None else np.array(init)
        st, v = vf.call(r.fit, arg)
        ch = not np.array_equal(np.array(arg), np.array(T, float)) or (init is not None and not np.array_equal(np.array(init), i0))
        p = params(r) if st == "ok" else []
        o = list(range(len(T)))
        rng.shuffle(o)

        def again(B):
            x = mk(init)
            x.fit(B)
            return params(x)

        s1, perm = vf.call(again, A[o])
        s2, fresh = vf.call(again, A)
        c.ev(new=False, op="fit", out=vf.outcome(st, v), T=[list(t) for t in T], exact=exact, p=p or [], changed=ch, perm=perm if s1 == "ok" else [], fresh=fresh if s2 == "ok" else [])


def rnd_data(rng, fam):
    n = FAM[fam][1]
    while True:
        X = [(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(rng.randint(n + 1, 9))]
        M = np.array([BASIS[fam](*x) for x in X], float)
        if np.linalg.matrix_rank(M) == n and np.linalg.cond(M) < 200:
            break
    if rng.random() < .5:
        p = [rng.randint(-4, 4) for _ in range(n)]
        if not any(p):
            p[0] = 1
        if all(sum(a * b for a, b in zip(p, BASIS[fam](x, y))) == 0 for x, y in X):
            return rnd_data(rng, fam)
        return [[x, y, int(sum(a * b for a, b in zip(p, BASIS[fam](x, y))))] for x, y in X], True
    return [[x, y, rng.randint(0, 60)] for x, y in X], False


def eight(ws, wa, a, b, k, d, e, f, g, h):
    return a + b * ws + k * wa + d * ws * wa + e * ws ** 2 + f * wa ** 2 + g * ws ** 2 * wa + h * ws * wa ** 2


def eight_star(ws, wa, *p):
    return eight(ws, wa, *(p[i] for i in range(8)))


def linear(c, rng):
    """many parameters, small ones, angles beyond a full circle, speeds in any unit"""
    k = rng.choice(["eight", "tiny", "circle"])
    if k == "eight":
        f, p = rng.choice([eight, eight_star]), [rng.randint(-5, 5) / 2 for _ in range(8)]
        X = np.array([[ws, wa] for ws in (0, 1, 2, 3) for wa in (0, 1, 2, 3)], float)
        mk = rng.choice([lambda: LeastSquareRegressor(f), lambda: LeastSquareRegressor(f, np.ones(8)), lambda: ODRegressor(f, [1.] * 8)])
    elif k == "tiny":
        u = 10. ** -rng.randint(3, 7)
        f, p = (lambda ws, wa, a: a * ws * wa), [rng.randint(1, 9) * u]
        X = np.array([[ws, wa] for ws in (4, 8, 16) for wa in (45, 90, 180)], float)
        mk = rng.choice([lambda: LeastSquareRegressor(f), lambda: LeastSquareRegressor(f, [2 * p[0]]), lambda: ODRegressor(f, [2 * p[0]])])
    else:
        f, p = FAM["plane"][0], [rng.randint(1, 5), rng.randint(-3, 3), rng.choice([-1, 1]) * rng.randint(1, 8) / 64]
        X = np.array([[ws, wa] for ws in (4, 8, 16) for wa in (-90, 0, 180, 360, 405)], float)
        mk = rng.choice([lambda: LeastSquareRegressor(f), lambda: ODRegressor(f, [1., 1., 1.])])
    D = np.column_stack([X, f(X[:, 0], X[:, 1], *p)])
    D = D[np.random.default_rng(rng.randint(0, 10 ** 6)).permutation(len(D))]

    def go():
        if not np.any(D[:, 2]):
            return 0.
        r = mk()
        r.fit(D)
        return float(np.max(np.abs(r.model_func(D[:, 0], D[:, 1], *r.optimal_params) - D[:, 2])) / np.max(np.abs(D[:, 2])))

    st, v = vf.call(go)
    c.ev(new=True, op="nonlinear", out=vf.outcome(st, v), res=min(10 ** 6, int(v * 1e6)) if st == "ok" and np.isfinite(v) else 10 ** 6)


def nonlinear(c, rng):
    f = lambda ws, wa, a, b, k, d: a * np.exp(-np.square(wa - b) / (2 * k)) + d * ws
    p = [rng.randint(3, 9), rng.randint(80, 120), rng.randint(300, 900), rng.randint(1, 5) / 4]
    X = np.array([[ws, wa] for ws in (4, 8, 12, 16) for wa in range(30, 181, 15)], float)
    y = f(X[:, 0], X[:, 1], *p)
    D = np.column_stack([X, y])
    rng2 = np.random.default_rng(rng.randint(0, 10 ** 6))
    D = D[rng2.permutation(len(D))]
    init = [p[0] * 1.1, p[1] + 3, p[2] * 1.1, p[3] * .9]
    mk = rng.choice([ODRegressor, LeastSquareRegressor])

    def go():
        r = mk(f, init)
        r.fit(D)
        return float(np.max(np.abs(r.model_func(D[:, 0], D[:, 1], *r.optimal_params) - D[:, 2])))

    st, v = vf.call(go)
    c.ev(new=True, op="nonlinear", out=vf.outcome(st, v), res=min(10 ** 6, int(v * 1e6)) if st == "ok" and np.isfinite(v) else 10 ** 6)


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCRegress", limit=c.n(250, 10 ** 9)):
        # a boat that never moves is outside the domain: ODRPACK cannot scale its problem then
        if any(all(t[2] == 0 for t in x["T"]) for x in h["fits"]):
            continue
        history(c, rng, h["fam"], [([list(t) for t in x["T"]], True) for x in h["fits"]])
    for _ in range(c.n(250, 4000)):
        fam = rng.choice(list(FAM))
        fits = [rnd_data(rng, fam) for _ in range(rng.randint(1, 3))]
        if rng.random() < .2:
            fits.insert(rng.randint(0, len(fits)), (None, False))
        history(c, rng, fam, fits)
    for _ in range(c.n(30, 300)):
        nonlinear(c, rng)
    for _ in range(c.n(60, 600)):
        linear(c, rng)
    c.validate("TraceRegress")
