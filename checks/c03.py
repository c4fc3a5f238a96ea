"""C03: imputation against spec/Impute.tla."""
from datetime import datetime, timedelta
import vf
from num import fx
from hrosailing.core.data import Data
from hrosailing.processing import FillLocalImputator, RemoveOnlyImputator

BASE = datetime(2022, 12, 31, 20, 0, 0)
N = -999999


UNITS = [timedelta(seconds=1)] * 3 + [timedelta(milliseconds=1), timedelta(microseconds=50), timedelta(minutes=10), timedelta(hours=13), timedelta(days=2)]
# any value is a value, also the ones that are false
OBJECTS = [["", "x", "0", " "], [False, True], [0, 7, -1], [0.0, 1e-12, -0.5]]


def sec(t, unit):
    if not isinstance(t, datetime):
        return N
    d, r = divmod(t - BASE, unit)
    return d if not r else -888888


def run(c, rng, tab, op, mx, mode):
    order = ["datetime"] + [x["k"] for x in tab["cols"]]
    rng.shuffle(order)
    unit, zf = rng.choice(UNITS), rng.choice([1, 1, 1e-9, 1e-3, 1e6])
    if max([mx] + [abs(t) for t in tab["dt"] if t != N]) * unit > timedelta(days=10 ** 6):
        unit = timedelta(hours=13)
    obj = mode == "copy" and rng.random() < .5
    pool = rng.choice(OBJECTS)
    if obj:
        tab["cols"] = [dict(x, v=[N if v == N else v % len(pool) for v in x["v"]]) for x in tab["cols"]]

    def enc(v):
        if v is None:
            return N
        if not obj:
            return fx(v / zf, 1024)
        return next((1024 * i for i, o in enumerate(pool) if type(o) is type(v) and o == v), -888888)

    col = {x["k"]: [None if v == N else pool[v] if obj else v * zf for v in x["v"]] for x in tab["cols"]}
    col["datetime"] = [None if t == N else BASE + t * unit for t in tab["dt"]]
    d = Data()
    d.update({k: col[k] for k in order})
    pos = {k: i for i, k in enumerate(order)}
    tab = dict(tab, cols=sorted(tab["cols"], key=lambda x: pos[x["k"]]))
    seen = []
    if op == "remove":
        imp = RemoveOnlyImputator()
    else:
        kw = {} if mx == 120 and unit == UNITS[0] and rng.random() < .5 else {"max_time_diff": mx * unit}
        if mode == "line":
            kw.update(fill_before=lambda n, r, mu: r + 100 * zf * mu, fill_between=lambda n, a, b, mu: a + mu * (b - a),
                      fill_after=lambda n, a, mu: a - 100 * zf * mu)
        if mode == "args":
            kw.update(fill_before=lambda n, r, mu: 2 * r + 3 * zf * mu, fill_between=lambda n, a, b, mu: 2 * a + b + 5 * zf * mu,
                      fill_after=lambda n, a, mu: 3 * a + 4 * zf * mu)
        imp = FillLocalImputator(**kw)
    if rng.random() < .2:   # a component used before
        vf.call(imp.impute, Data.from_dict({"datetime": [BASE, None, BASE], "z": [1.0, None, 2.0]}))
    st, r = vf.call(imp.impute, d)

    def f():
        names = [k for k in r.keys() if k != "datetime"]
        s = imp.get_latest_statistics()
        return dict(names=names, dt=[sec(t, unit) for t in r["datetime"]],
                    vals=[[enc(v) for v in r[k]] for k in names],
                    stat=[s.get(k, -1) for k in ("n_removed_cols", "n_removed_rows", "n_filled_fields", "n_rows", "n_cols")])
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    c.ev(op=op, tab=tab, max=mx, mode=mode, out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read",
         **(o if st2 == "ok" else {}))


def main(c):
    rng = c.rng
    for k in c.gen("MCImpute", limit=c.n(900, 10 ** 9)):
        t, dt = 0, []
        for s in k["st"]:
            t += 4200 if s == 2 else 420
            dt.append(t if s else N)
        tab = {"dt": dt, "cols": [{"k": "a", "v": [N if not x else 41 + i * i for i, x in enumerate(k["v"])]},
                                  {"k": "b", "v": [N if not x else 7 * i for i, x in enumerate(k["w"])]}]}
        if not dt:
            continue
        run(c, rng, tab, "remove" if rng.random() < .12 else "local", rng.choice([421, 900, 2000, 840]),
            rng.choice(["copy", "line", "args"]))
    for _ in range(c.n(500, 12000)):
        n = rng.randint(1, 14) if rng.random() < .97 else rng.randint(50, 110)
        unit = rng.choice([420, 420, 840])
        t, dt, gap = 0, [], 0
        dense = rng.random() < .6
        for i in range(n):
            t += unit if dense else unit * (rng.choice([0, 1, 1, 1, 2, 3]) if rng.random() < .9 else rng.randint(5, 30))
            if dense and n > 40:        # long gaps, evenly spaced
                gap = gap + 1 if rng.random() < (.95 if gap else .05) and gap < 18 else 0
            else:
                gap = gap + 1 if rng.random() < (.08 if dense else .3) and gap < 6 else 0
            dt.append(N if gap else t)
        p = rng.choice([.1, .4, .7])
        mode = rng.choice(["copy", "line", "args"])
        top = 50 if mode == "args" else 200
        cols = [{"k": k, "v": [N if rng.random() < p else rng.randint(-top, top) for _ in range(n)]}
                for k in rng.sample(["TWS", "TWA", "BSP", "x", "lat"], rng.randint(0, 4))]
        if cols and rng.random() < .15:
            cols[0]["v"] = [N] * n
        run(c, rng, {"dt": dt, "cols": cols}, "remove" if rng.random() < .2 else "local",
            rng.choice([120, 500, 840, 1300, 2600, 5000, 8000] if n < 40 else [2600, 5000, 8000, 8000]), mode)
    c.validate("TraceImpute")
