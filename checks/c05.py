"""C05: filters against spec/WeightFilter.tla."""
import numpy as np
import vf
from num import qs
from hrosailing.processing import BoundFilter, QuantileFilter


def run(c, rng, op, w, p=0, lo=0, hi=4, old={}):
    # weights of any size, and weights that are very close together
    f_, off = rng.choice([1, 1, 1, 2.0 ** -34, 2.0 ** -12, 2.0 ** 20]), 0
    if op == "bound" and rng.random() < .3:
        f_, off = rng.choice([2.0 ** -30, 2.0 ** -17]), rng.choice([1, -1, 100])
    plain = f_ == 1 and off == 0

    def f():
        if op == "bound":
            if lo == 2 and hi == 4 and plain and rng.random() < .6:
                flt = BoundFilter()
            else:
                flt = BoundFilter(lower_bound=off + lo / 4 * f_, upper_bound=off + hi / 4 * f_)
        else:
            flt = QuantileFilter() if p == 500 and rng.random() < .5 else QuantileFilter(percent=p // 10 if p % 10 == 0 else p / 10)
        if rng.random() < .2:
            flt.filter(np.array([.25, .75, .5]))
        r = flt.filter(a)
        s = flt.get_latest_statistics()
        return list(r), [s.get("n_filtered_points", -1), s.get("n_rows", -1)]
    a = off + np.array(w, float) / 4 * f_
    st, r = vf.call(f)
    res, stat = r if st == "ok" else ([], [])
    c.ev(op=op, w=w, p=p, lo=lo, hi=hi, out=vf.outcome(st, r), after=qs((a - off) / f_),
         res=[bool(x) for x in res] if all(isinstance(x, (bool, np.bool_)) for x in res) else ["not boolean"],
         stat=[int(x) for x in stat])


def main(c):
    rng = c.rng
    for k in c.gen("MCWeightFilter", limit=c.n(1200, 10 ** 9)):
        run(c, rng, "quantile", k["w"], p=k["p"])
        if rng.random() < .5:
            run(c, rng, "bound", k["w"], lo=k["lo"], hi=k["hi"])
    for _ in range(c.n(600, 20000)):
        w = [rng.randint(-2, 12) if rng.random() < .8 else rng.randint(-4000, 4000) for _ in range(rng.randint(0, 40) if rng.random() < .9 else rng.randint(60, 200))]
        if rng.random() < .5:
            lo = rng.choice([2, rng.randint(-3, 12)])
            run(c, rng, "bound", w, lo=lo, hi=rng.choice([4, lo, rng.randint(lo - 3, 14)]))
        else:
            run(c, rng, "quantile", w, p=rng.choice([rng.randint(0, 1000), 10 * rng.randint(0, 100), -10, 1001, 1500, 500, 250, 750]))
    c.validate("TraceWeightFilter")
