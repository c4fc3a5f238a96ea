"""C31: quality assurance against spec/Quality.tla."""
import warnings
import numpy as np
import vf
from num import fx
from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance
from hrosailing.polardiagram import PolarDiagramCurve

SC = 64


def beyond(wa):
    return (np.asarray(wa) > 180) * 1


def diagram(d, kind):
    f = lambda ws, wa, a, b, k: a * ws + k / 4 + b / 4 * beyond(wa)
    if kind == "curve":
        return PolarDiagramCurve(f, d["a"], d["b"], d["c"])
    return lambda ws, wa: f(ws, wa, d["a"], d["b"], d["c"])


def num(v, scale):
    try:
        return fx(float(v) * scale, 1)
    except (TypeError, ValueError):
        return -99999999


def case(c, rng, kind, d, T, pd):
    rows = np.array([[x / 4 for x in t] for t in T], float).reshape(-1, 3)
    before = rows.copy()
    qa = vf.kept(rng, kind, MinimalQualityAssurance if kind == "minimal" else ComformingQualityAssurance)
    D = diagram(d, pd)
    st, r = vf.call(qa.check, D, rows)
    ch = not np.array_equal(before, rows)
    ev = dict(op="check", kind=kind, d=d, T=T, sc=SC, out=vf.outcome(st, r), changed=ch, shuffled=True)
    if st == "ok":
        o = list(range(len(T)))
        rng.shuffle(o)
        s2, r2 = vf.call(qa.check, D, rows[o])
        ev["shuffled"] = s2 == "ok" and set(r2) == set(r) and all(num(r[k], 1e5) == num(r2[k], 1e5) or abs(num(r[k], 1e5) - num(r2[k], 1e5)) < 2 for k in r)
        g = lambda k: r.get(k)
        ev.update(mx=num(g("max_error"), 4 * SC), mn=num(g("min_error"), 4 * SC), av=num(g("average_error"), 4 * SC), sq=num(g("average_quadratic_error"), 16 * SC))
        if kind != "minimal":
            ev.update(cover=int(g("test_covering")), local=num(g("average_local_test_data_difference"), 4 * SC), zmx=num(g("max_zero_val"), 4 * SC), zmn=num(g("min_zero_val"), 4 * SC),
                      zav=num(g("average_zero_val"), 4 * SC), zsq=num(g("average_quadratic_zero_val"), 16))
    c.ev(**ev)


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCQuality", limit=c.n(300, 10 ** 9)):
        case(c, rng, rng.choice(["minimal", "comforming"]), h["d"], [list(t) for t in h["T"]], "plain")
    for _ in range(c.n(500, 8000)):
        d = dict(a=rng.randint(-1, 2), b=rng.randint(-8, 8), c=rng.randint(-12, 12))
        pd = rng.choice(["plain", "curve"])
        d["per"] = pd == "curve"
        T = []
        for _ in range(rng.choice([0, 1, 2, 5, 12] * 6 + [80])):
            ws, wa = rng.choice([x for x in range(0, 100) if x % 4 != 2]), rng.choice([x for x in range(0, 1440) if x % 4 != 2])
            if T and rng.random() < .4:
                ws, wa = (T[-1][0] + 1) // 4 * 4, (T[-1][1] + 1) // 4 * 4 % rng.choice([1440, 1444])
            perfect = d["a"] * ws + d["c"] + d["b"] * (wa > 720)
            T.append([ws, wa, max(perfect, 0) if rng.random() < .3 else rng.choice([rng.randint(0, 100), rng.randint(0, 100), rng.randint(-60, 0), rng.randint(400, 800)])])
        if T and rng.random() < .3:  # head to wind from both sides
            T += [[T[-1][0], 0, rng.randint(0, 40)], [T[-1][0], 1440, rng.randint(0, 40)]]
        case(c, rng, rng.choice(["minimal", "comforming"]), d, T, pd)
    c.validate("TraceQuality")
