"""C23: membership in neighbourhoods against spec/Neighbourhood.tla."""
import warnings
import numpy as np
import vf
from num import q
from hrosailing.core.computing import euclidean_norm, scaled_euclidean_norm, scaled_norm
from hrosailing.processing.neighbourhood import Ball, Cuboid, Ellipsoid, Polytope, ScalingBall


def l1(v):
    return np.abs(v[..., 0]) + np.abs(v[..., 1])


def linf(v):
    return np.max(np.abs(v), axis=-1)


NORMS = {"l1": l1, "linf": linf, "l2": euclidean_norm, "sc": scaled_euclidean_norm}
SCALES = [4, 4, 4, 2.0 ** 12, 2.0 ** 30, 2.0 ** -6]  # lattice points per unit


def unit(norm, U):
    return 360 * U if norm == "sc" else U


def one_by_one(norm):
    """the same norm, defined for single vectors only"""
    def pointwise(v):
        if np.ndim(v) != 1:
            raise ValueError("one vector at a time")
        return norm(np.asarray(v)[None, :])[0]
    return pointwise


def build(rng, sh, U):
    """the real object and the caller's own parameter containers"""
    k, mine = sh["kind"], []

    def own(x, scale):
        a = np.array(x, float) / scale
        if rng.random() < .4:
            a = a.tolist()
        mine.append(a)
        return a

    kw = {}
    if "norm" in sh and not (sh["norm"] == "sc" and rng.random() < .7):
        kw["norm"] = NORMS[sh["norm"]]
    if k == "ball":
        if "norm" in kw and rng.random() < .3:
            kw["norm"] = one_by_one(kw["norm"])
        return Ball(sh["r"] / unit(sh["norm"], U), **kw), mine
    if k == "scaling":
        return ScalingBall(sh["k"], **kw), mine
    if k == "ellipsoid":
        T = np.linalg.inv(np.array(sh["inv"], float))
        f = rng.choice([1, 1, 1, 2.0 ** -12, 2.0 ** -2, 8])  # shrinks the plane, the radius grows
        T = own(T * f, 1)
        return Ellipsoid(lin_trans=T, radius=sh["r"] / unit(sh["norm"], U * f), **kw), mine
    if k == "cuboid":
        f = sh["f"]
        return Cuboid(dimensions=own(sh["b"], U), **({} if f == 1 else dict(norm=lambda x: f * np.abs(x)))), mine
    return Polytope(own(sh["mat"], 1), own(sh["b"], U)), mine


def spoil(mine):
    for a in mine:
        if isinstance(a, list):
            a[0] = [7.0, 7.0] if isinstance(a[0], list) else 77.0
        else:
            a += 77


def ask(rng, o, pts, form, U):
    a = np.array(pts, float).reshape(-1, 2) / U
    if form == "list":
        a = a.tolist()
    elif form == "int" and U == 4 and all(v % U == 0 for p in pts for v in p):
        a = np.array(pts, int).reshape(-1, 2) // 4
    st, m = vf.call(o.is_contained_in, a)
    after = [[q(x, U) for x in p] for p in (a if len(a) else [])]
    ok = st == "ok" and isinstance(m, np.ndarray) and m.dtype == bool and m.ndim == 1
    return st, m, ok, after


def history(c, rng, sh, qs, late=False):
    U = rng.choice(SCALES)
    st, r = vf.call(build, rng, sh, U)
    c.ev(new=True, op="make", out=vf.outcome(st, r), valid=True, shape=sh)
    if st != "ok":
        return
    o, mine = r
    for i, pts in enumerate(qs):
        if late and i:
            spoil(mine)
        form = rng.choice(["array", "array", "list", "int"]) if pts else "array"
        st, m, ok, after = ask(rng, o, pts, form, U)
        c.ev(new=False, op="ask", out=vf.outcome(st, m), pts=pts, mask=[bool(x) for x in m] if ok else [], bool=ok, after=after)


def exact(sh, p):
    """avoid lattice points whose comparison is decided by rounding"""
    if sh.get("norm") == "sc" and sh["kind"] in ("ball", "ellipsoid"):
        if sh["kind"] == "ellipsoid":
            p = (np.array(sh["inv"]) @ np.array(p)).tolist()
        return 81 * p[0] ** 2 + p[1] ** 2 != sh["r"] ** 2
    return True


UNIT = {2: [40, 360], 3: [40, 360, 20]}


def norm_event(c, rng):
    """the values of the norms; vectors in multiples of the documented factors"""
    kind, d = rng.choice(["plain", "scaled", "scaled", "custom"]), rng.choice([1, 2, 2, 2, 3, 3, 4])
    f = [rng.randint(0, 3) for _ in range(d)] if kind == "custom" else [1] * d
    vecs = [[rng.randint(-7, 7) for _ in range(d)] for _ in range(rng.choice([0, 1, 2, 5]))]
    a = np.array(vecs, rng.choice([int, float])).reshape(-1, d)
    if kind == "scaled":
        a = a * np.array(UNIT.get(d, [1] * d))
    mine = [x for x in f]
    norm = {"plain": euclidean_norm, "scaled": scaled_euclidean_norm, "custom": scaled_norm(euclidean_norm, mine)}[kind]
    mine[:] = [77] * d  # the caller goes on using its list
    b = a.copy()
    st, r = vf.call(norm, a)
    ok = st == "ok" and np.ndim(r) == 1 and np.all(np.isfinite(r))
    c.ev(new=True, op="norm", out=vf.outcome(st, r), vecs=vecs, dims=d, factors=f, norms=[int(round(float(x) * 1000)) for x in r] if ok else [],
         allowed=dict([("plain", [1, 2, 3, 4]), ("scaled", [2, 3]), ("custom", [1, 2, 3, 4])])[kind], changed=not np.array_equal(a, b))


def rnd_shape(rng):
    k = rng.choice(["ball", "scaling", "ellipsoid", "cuboid", "polytope"])
    n = rng.choice(["l1", "linf", "l2", "sc"])
    if k == "ball":
        return dict(kind=k, norm=n, r=rng.randint(1, 40) * (9 if n == "sc" else 1))
    if k == "scaling":
        return dict(kind=k, norm=n, k=rng.randint(1, 8) if rng.random() < .9 else rng.randint(20, 70))
    if k == "ellipsoid":
        while True:
            m = [[rng.randint(-2, 2) for _ in range(2)] for _ in range(2)]  # inverses are exact
            if abs(m[0][0] * m[1][1] - m[0][1] * m[1][0]) in (1, 2, 4):
                return dict(kind=k, norm=n, r=rng.randint(1, 30) * (9 if n == "sc" else 1), inv=m)
    if k == "cuboid":
        return dict(kind=k, b=[rng.randint(0, 20), rng.randint(0, 20)], f=rng.choice([1, 1, 2, 3]))
    m = rng.randint(1, 6) if rng.random() < .9 else rng.randint(7, 12)
    return dict(kind=k, mat=[[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(m)], b=[rng.randint(-10, 40) for _ in range(m)])


def boundary(rng, sh):
    """points near and on the boundary"""
    k = sh["kind"]
    if k in ("ball", "ellipsoid"):
        r = sh["r"] // (9 if sh["norm"] == "sc" else 1)
        x = rng.randint(-r, r)
        y = {"l1": r - abs(x), "linf": r, "l2": int((r * r - x * x) ** .5), "sc": int(max(0, sh["r"] ** 2 - 81 * x * x) ** .5)}[sh["norm"]]
        p = [x, y * rng.choice([-1, 1])]
        if k == "ellipsoid":
            v = np.linalg.inv(np.array(sh["inv"], float)) @ np.array(p, float)
            p = [int(round(t)) for t in v]
        return [p[0] + rng.choice([0, 0, 1, -1]), p[1] + rng.choice([0, 0, 1, -1])]
    if k == "cuboid":
        return [rng.choice([-1, 1]) * (sh["b"][0] // sh["f"] + rng.choice([0, 0, 1])), rng.choice([-1, 1]) * (sh["b"][1] // sh["f"] + rng.choice([0, 0, 1]))]
    return [rng.randint(-12, 12), rng.randint(-12, 12)]


INVALID = [
    lambda: Ball(0), lambda: Ball(-1), lambda: Ball(-.05), lambda: ScalingBall(0), lambda: ScalingBall(-3),
    lambda: Ellipsoid(radius=0), lambda: Ellipsoid(radius=-1), lambda: Ellipsoid(np.zeros((2, 2))), lambda: Ellipsoid([[1, 2], [2, 4]]),
    lambda: Ellipsoid([[1, 0], [0, 0]]), lambda: Ellipsoid(np.eye(3)), lambda: Ellipsoid([1, 1]), lambda: Ellipsoid([[np.nan, 0], [0, 1]]),
    lambda: Ellipsoid([[np.inf, 0], [0, 1]]), lambda: Polytope(np.eye(3), [1, 1, 1]), lambda: Polytope([[1, 0]], [1, 1]), lambda: Polytope([1, 0], [1]),
    lambda: Polytope([[1, 0], [0, 1]], [[1], [1]]), lambda: Polytope([[np.nan, 0]], [1]), lambda: Polytope([[1, 0]], [np.inf]), lambda: Polytope(b=[1, 1, 1]),
]


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCNeighbourhood", limit=c.n(900, 10 ** 9)):
        history(c, rng, h["shape"], h["qs"], late=rng.random() < .5)
    for f in INVALID:
        st, r = vf.call(f)
        c.ev(new=True, op="make", out=vf.outcome(st, r), valid=False, shape=dict(kind="none"))
    for _ in range(c.n(900, 20000)):
        sh = rnd_shape(rng)
        qs = []
        for _ in range(rng.randint(1, 3)):
            pts = [rng.choice([boundary(rng, sh), [rng.randint(-30, 30), rng.randint(-30, 30)], [rng.randint(-5, 5), rng.randint(-5, 5)]]) for _ in range(rng.choice([0, 1, 2, 5, 9]) if rng.random() < .95 else rng.randint(40, 90))]
            qs.append([p for p in pts if exact(sh, p)])
        history(c, rng, sh, qs, late=rng.random() < .5)
    for _ in range(c.n(200, 4000)):
        norm_event(c, rng)
    c.validate("TraceNeighbourhood")
