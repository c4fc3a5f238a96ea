"""C33: model functions against spec/ModelFun.tla."""
import math
import warnings
import numpy as np
import vf
from m2 import m2
from num import fx
from hrosailing.core import modelfunctions as mf

LN2 = math.log(2)
L, W = "ln2", "width"  # how an integer parameter of the specification is passed on
# name -> (callable of x, y, params, kinds of parameters)
TWO = {
    "ws_times_wa": "i", "ws_concave_dt_wa": "iiiiiiiiiii", "ws_wa_s_dt": "LLiiLLiiiLLiii", "ws_s_dt_wa_gauss": "LLiiiiWiiW", "ws_s_s_dt_wa_gauss_comb": "LLiiiiWiiiWi",
    "ws_s_wa_gauss": "LLiiiWiiW", "ws_s_wa_gauss_and_square": "LLiiiiWiiW",
}
ONE = {
    "polynomial0": (lambda x, *p: m2.polynomial_function(x, *p, deg=0), "i"), "polynomial5": (lambda x, *p: m2.polynomial_function(x, *p, deg=5), "iiiiii"),
    "polynomial1": (lambda x, *p: m2.polynomial_function(x, *p), "ii"), "polynomial3": (lambda x, *p: m2.polynomial_function(x, *p, deg=3), "iiii"),
    "inverted_parabola": (m2.inverted_parabola, "iii"), "inverted_shifted_parabola": (m2.inverted_shifted_parabola, "iii"),
    "concave_dt": (lambda x, *p: m2.concave_function(x, *p), "iii"), "concave_sat": (lambda x, *p: m2.concave_function(x * LN2, *p, downturn=False, sat_limit=True), "iLi"),
    "concave_both": (lambda x, *p: m2.concave_function(x * LN2, p[0], p[1], p[2], p[3] / LN2 ** 2, sat_limit=True), "iLii"),
    "s_shaped": (lambda x, *p: m2.s_shaped(x, *p), "LLii"), "s_shaped_nodt": (lambda x, *p: m2.s_shaped(x, *p, downturn=False), "LLi"),
    "gompertz_neg": (lambda x, a, b, c: m2.gompertz_model(x, a, -b, c, neg=True), "Lii"),
    "gompertz": (lambda x, *p: m2.gompertz_model(x, *p), "Lii"), "gaussian": (lambda x, *p: m2.gaussian_model(x, *p), "iiW"),
    "gaussian_offset": (lambda x, *p: m2.gaussian_model(x, *p, offset=True), "iiWi"), "gmm": (m2.gmm_model, "iiWiiWi"),
}


# how the parameters change with the unit of x: f(s x, ...) is the same value if parameter i is multiplied by s ** UNIT[f][i]
UNIT = {
    "ws_times_wa": [-1], "ws_concave_dt_wa": [0, -1, -2, 0, 0, 0, -1, 0, 0, 0, -1], "ws_wa_s_dt": [0, -1, 0, -2, 0, 0, 0, 0, -1, 0, 0, 0, 0, -1],
    "ws_s_dt_wa_gauss": [0, -1, 0, -2] + [0] * 6, "ws_s_s_dt_wa_gauss_comb": [0, -1, 0, -2, 0, 0, 0, -1, 0, 0, 0, -1], "ws_s_wa_gauss": [0, -1, 0] + [0] * 6,
    "ws_s_wa_gauss_and_square": [0, -1, 0, -2, -1, 0, 0, -1, 0, 0],
    "polynomial0": [0], "polynomial1": [0, -1], "polynomial3": [0, -1, -2, -3], "polynomial5": [0, -1, -2, -3, -4, -5], "inverted_parabola": [1, 0, -2], "inverted_shifted_parabola": [-1, 1, -2],
    "concave_dt": [0, -1, -2], "s_shaped": [0, -1, 0, -2], "s_shaped_nodt": [0, -1, 0], "gaussian": [0, 1, 2], "gaussian_offset": [0, 1, 2, 0], "gmm": [0, 1, 2, 0, 1, 2, 0],
}


def real(kinds, p):
    return [v * LN2 if k == "L" else v * v / (2 * LN2) if k == "W" else float(v) for k, v in zip(kinds, p)]


def case(c, rng, f, xs, ys, p, form, s=1):
    kinds = TWO[f] if f in TWO else ONE[f][1]
    pr = real(kinds, p)
    if f not in UNIT:
        s = 1
    else:
        pr = [v * s ** k for v, k in zip(pr, UNIT[f])]
    p0 = list(pr)
    if form == "scalar":
        xs, ys = xs[:1], ys[:1]
        X, Y = float(xs[0]), float(ys[0])
    elif form == "mixed":
        ys = [ys[0]] * len(xs)
        X, Y = np.array(xs, float), float(ys[0])
    elif form == "grid" and f in TWO:
        gx, gy = np.meshgrid(xs, ys)
        X, Y = gx.astype(float), gy.astype(float)
        xs, ys = [int(v) for v in gx.ravel()], [int(v) for v in gy.ravel()]
    else:
        X, Y = np.array(xs, float), np.array(ys, float)
    X = X * s
    if form == "int" and s == 1 and "gompertz" not in f:
        X, Y = np.array(xs), np.array(ys)
    if form == "list" and f in TWO:       # documented as array_like
        X, Y = [t(v.tolist()) if c.rng.random() < .8 else v for t, v in zip(c.rng.choices([list, tuple], k=2), (X, Y))]
    b = (np.array(X), np.array(Y))
    st, v = vf.call((lambda: getattr(mf, f)(X, Y, *pr)) if f in TWO else (lambda: ONE[f][0](X, *pr)))
    ch = pr != p0 or not np.array_equal(b[0], X) or not np.array_equal(b[1], Y)
    c.ev(op="eval", f=f, x=xs, y=ys, p=p, out=vf.outcome(st, v), shape=st == "ok" and np.shape(v) == np.shape(X), changed=ch, v=[fx(t, 100) for t in np.ravel(v)] if st == "ok" else [])


def rnd(c, rng):
    f = rng.choice(list(TWO) * 2 + list(ONE))
    kinds = TWO[f] if f in TWO else ONE[f][1]
    small = f not in TWO
    n = rng.randint(1, 4) if rng.random() < .98 else rng.randint(40, 90)
    xs = [rng.randint(0, 8) for _ in range(n)]
    w = rng.choice([1, 2, 3, 5, 10, 30])
    r = rng.randrange(w)
    lo, hi = (-((100 + r) // w), (460 - r) // w) if rng.random() < .4 else (0, (360 - r) // w)     # any angle is an angle
    ys = [r + w * rng.randint(lo, hi) for _ in range(n)]
    p = []
    for i, k in enumerate(kinds):
        if k == "W":
            p.append(w if not small else 1)
            # the centre before it has to be compatible with all positions
            cen = rng.choice(ys) if not small else rng.randint(0, 8)
            if not small and "W" in kinds[:i]:
                cen = 360 - rng.choice(ys)
            p[i - 1] = cen + rng.choice([0, 1, 2, -1]) * p[i]
        else:
            p.append(rng.randint(-2, 3))
    if f in ("gompertz", "gompertz_neg"):
        p[0], p[1] = rng.randint(0, 3), rng.choice([1, 2])
        xs = [x % 4 for x in xs]
    if f in ("concave_sat", "concave_both"):
        p[1] = rng.randint(0, 6)
    if small and f not in ("gompertz", "gompertz_neg") and rng.random() < .3:
        xs = [-x if rng.random() < .5 else x for x in xs]
    case(c, rng, f, xs, ys, p, rng.choice(["scalar", "array", "int", "mixed", "grid"]) if f in TWO else rng.choice(["scalar", "array", "int"]), rng.choice([1, 1, 1, .5, .1, .01, 2.5, 1e-6, 1e4]))


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCModelFun", limit=c.n(500, 10 ** 9)):
        case(c, rng, h["f"], [h["x"]], [h["y"]], list(h["p"]), rng.choice(["scalar", "array", "list"]))
    for _ in range(c.n(1500, 20000)):
        rnd(c, rng)
    st, v = vf.call(lambda: m2.concave_function(1.0, 1, 2, 3, downturn=False, sat_limit=False))
    c.ev(op="refuse", out=vf.outcome(st, v))
    c.validate("TraceModelFun")
