"""C08: pipeline orchestration against spec/Pipeline.tla; all components are recording stand-ins."""
import time

import numpy as np
import vf
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.models.influencemodel import InfluenceModel
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.expander import Expander
from hrosailing.pipeline.extensions import PipelineExtension
from hrosailing.pipeline.quality_assurance import QualityAssurance
from hrosailing.processing import DataHandler, Filter, Smoother, Weigher
from hrosailing.processing.imputator import Imputator
from hrosailing.processing.injector import Injector

SW = {"sm": "smoothing", "w1": "pre_expander_weighing", "f1": "pre_expander_filtering", "w2": "pre_influence_weighing",
      "f2": "pre_influence_filtering", "w3": "post_weighing", "f3": "post_filtering", "inj": "injecting", "test": "testing"}
ALIAS = {"w2": "pre_weighing", "f2": "pre_filtering", "w3": "weighing", "f3": "filtering"}
COMP = {"impute": "imputator", "sm": "smoother", "w1": "pre_expander_weigher", "f1": "pre_expander_filter",
        "expand": "expander", "w2": "pre_influence_weigher", "f2": "pre_influence_filter", "infl": "influence_model",
        "w3": "post_weigher", "f3": "post_filter", "inj": "injector", "extend": "extension", "check": "quality_assurance"}
CALIAS = {"w2": "pre_weigher", "f2": "pre_filter", "w3": "weigher", "f3": "filter"}
STAT = {"handle": "data_handler", "impute": "imputator", "sm": "smoother", "w1": "pre_expanding_weigher",
        "f1": "pre_expanding_filter", "expand": "expander", "w2": "pre_influence_weigher", "f2": "pre_influence_filter"}


def ids(d):
    """ids of rows; -1 for rows whose entries do not belong together"""
    if isinstance(d, Data):
        keys = list(d.keys())
        out = []
        for i in range(d.n_rows):
            r = {k: d[k][i] for k in keys}
            x = r.get("TWS")
            ok = x is not None and r.get("TWA") == x + .5 and r.get("BSP") == x / 4 and r.get("remark") == "r%d" % x
            ok = ok and all(r[k] == (x if int(x) // 10 == int(k[1:]) else None) for k in keys if k[0] == "k")
            ok = ok and ("x" not in r or r["x"] == 2 * x)
            out.append(int(x) if ok else -1)
        return out
    return [int(r[0]) if r[1] == r[0] + .5 and r[2] == r[0] / 4 else -1 for r in np.asarray(d)]


def wts(w):
    return [int(x) for x in np.asarray(w, float)]


class Rec:
    """recorder of one pipeline"""

    def __init__(self, c, rng):
        self.c, self.rng, self.n = c, rng, 0
        self.p_drop = rng.choice([0, .1, .3, .7])
        self.first = self.last = 0

    def ev(self, comp, stage, **k):
        self.n += 1
        self.last = time.perf_counter()
        self.first = self.first or self.last
        comp.set_n(self.n, stage)
        e = {"c": stage, "n": self.n, "in": [], "win": [], "out": [], "w": [], "mask": [], "d": 0, "pd": 0}
        e.update(k)
        self.c.ev(new=False, **e)

    def mask(self, n):
        return np.array([self.rng.random() >= self.p_drop for _ in range(n)], dtype=bool)


class Stat:
    def set_n(self, n, stage):
        self._statistics = {stage: n}


class H(Stat, DataHandler):
    def __init__(self, rec, d):
        super().__init__()
        self.rec, self.d = rec, d

    def handle(self, data):
        n, rows, extra = data
        d = Data()
        ks = ["TWS", "TWA", "BSP", "remark"] + (["k%d" % n] if extra else [])
        self.rec.rng.shuffle(ks)
        for k in ks:
            d.extend(k, [{"TWS": float(i), "TWA": i + .5, "BSP": i / 4, "remark": "r%d" % i}.get(k, float(i)) for i in rows])
        self.rec.ev(self, "handle", d=n if self.d in (0, n) else -1, out=rows)
        return d


class Tr(Stat, Imputator, Smoother, Expander):
    """imputator, smoother or expander"""

    def __init__(self, rec, stage):
        super().__init__()
        self.rec, self.stage = rec, stage

    def work(self, d):
        rows = ids(d)
        m = self.rec.mask(len(rows)) if self.stage == "impute" else np.ones(len(rows), bool)
        new = Data()
        for k in d.keys():
            new.extend(k, [v for v, b in zip(d[k], m) if b])
        if self.stage == "expand":
            new.extend("x", [2 * v for v, b in zip(d["TWS"], m) if b])
        self.rec.ev(self, self.stage, **{"in": rows, "out": [r for r, b in zip(rows, m) if b]})
        return new

    impute = smooth = expand = work


class W(Stat, Weigher):
    def __init__(self, rec, stage):
        super().__init__()
        self.rec, self.stage = rec, stage

    def weigh(self, points):
        rows = ids(points)
        z = self.rec.rng.choice([0, 0, .2, 1])      # some or all points weigh nothing
        w = [0 if self.rec.rng.random() < z else 1000 * int(self.stage[1]) + r for r in rows]
        self.rec.ev(self, self.stage, **{"in": rows, "w": w})
        return np.array(w, float)


class F(Stat, Filter):
    def __init__(self, rec, stage):
        super().__init__()
        self.rec, self.stage = rec, stage

    def filter(self, weights):
        m = self.rec.mask(len(weights))
        self.rec.ev(self, self.stage, win=wts(weights), mask=[bool(b) for b in m])
        return m


class I(Stat, InfluenceModel):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def fit(self, data):
        self.rec.ev(self, "fit", **{"in": ids(data)})

    def remove_influence(self, data):
        rows = ids(data)
        self.rec.ev(self, "remove", **{"in": rows, "out": rows})
        return np.array([[r, r + .5, r / 4] for r in rows], float).reshape(-1, 3)

    def add_influence(self, pd, influence_data):
        raise AssertionError("not part of the pipeline")


class J(Stat, Injector):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def inject(self, wp):
        n = self.rec.rng.randint(0, 3)
        new, w = [900 + i for i in range(n)], [7 + i for i in range(n)]
        self.rec.ev(self, "inj", **{"in": ids(wp.data), "win": wts(wp.weights), "out": new, "w": w})
        return WeightedPoints(np.array([[r, r + .5, r / 4] for r in new], float).reshape(-1, 3), np.array(w, float))


class Diagram:
    def __init__(self, n):
        self.n = n


class X(Stat, PipelineExtension):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def process(self, wp):
        self.rec.ev(self, "extend", **{"in": ids(wp.data), "win": wts(wp.weights)})
        return Diagram(self.rec.n)


class Q(Stat, QualityAssurance):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def check(self, pd, test_data):
        self.rec.ev(self, "check", **{"in": ids(test_data), "pd": getattr(pd, "n", -1)})
        return {"check": self.rec.n}


def stats(s, ks, n, skip):
    out = {}
    for k, f in STAT.items():
        d = getattr(s, f)
        out[k] = [] if skip else [d.get(i, {}).get(k, 0) for i in range(n)]
    out["fit"], out["remove"] = s.influence_model.get("fit", 0), s.influence_model.get("remove", 0)
    for k, f in (("w3", "post_weigher"), ("f3", "post_filter"), ("inj", "injector"), ("extend", "extension"), ("check", "quality_assurance")):
        out[k] = getattr(s, f).get(k, 0)
    return out


def build(rec, rng, n_handlers):
    comp = {}
    if n_handlers:
        hs = [H(rec, i + 1) for i in range(n_handlers)]
        comp["data_handler"] = hs if rng.random() < .6 else tuple(hs)
    else:
        comp["data_handler"] = H(rec, 0)
    make = {"impute": lambda: Tr(rec, "impute"), "sm": lambda: Tr(rec, "sm"), "expand": lambda: Tr(rec, "expand"),
            "infl": lambda: I(rec), "inj": lambda: J(rec), "extend": lambda: X(rec), "check": lambda: Q(rec)}
    for s, k in COMP.items():
        if s in CALIAS and rng.random() < .3:
            k = CALIAS[s]
        comp[k] = make[s]() if s in make else (W if s[0] == "w" else F)(rec, s)
    return PolarPipeline(**comp)


def run(c, rng, pipe, rec, en, nt, ne, again=None):
    """en: switches wanted; missing ones are left to their default (True)"""
    kw = {}
    for s, k in SW.items():
        if en[s] and rng.random() < .5:
            continue
        if s in ALIAS and rng.random() < .4:
            k = ALIAS[s]
        kw[k] = en[s] if rng.random() < .8 else np.bool_(en[s])
    if again is not None:
        kw = dict(again)
    given = dict(kw)
    testing = ne if rng.random() < .7 or en["test"] else rng.randint(0, 2)   # test data may be given though not wanted
    size = [rng.choice([1, 2, 2, 3, 4]) for _ in range(nt + testing)]
    extra = [rng.random() < .3 for _ in range(nt + testing)]
    rows = lambda d, n: [10 * (d + 1) + i for i in range(n)]
    if rng.random() < .4:                  # measurements may repeat and come in any order
        rows = lambda d, n: [10 * (d + 1) + rng.randint(0, 3) for _ in range(n + rng.randint(0, 2))]
    sets = [(d + 1, rows(d, size[d]), extra[d]) for d in range(nt + testing)]
    if testing == 0:
        kw.pop("testing", None) if rng.random() < .5 else kw.update(testing=True)
        en = dict(en, test=False)
    rec.n = rec.first = rec.last = 0
    c.ev(new=True, c="run", en=en, nt=nt, ne=ne if en["test"] else 0)
    args = [sets[:nt]] + ([sets[nt:]] if testing else ([None] if rng.random() < .3 else []))
    began = time.perf_counter()
    st, out = vf.call(pipe if rng.random() < .5 else pipe.execute, *args, **kw)
    wall = time.perf_counter() - began
    e = dict(c="end", out=vf.outcome(st, out), span=int(1e6 * (rec.last - rec.first)), wall=int(1e6 * wall), took=-1)
    if st == "ok":
        took = out.training_statistics.quality_assurance.get("execution time", -1)
        e["took"] = int(max(-1, min(2e9, 1e6 * took)))
        e.update(pd=getattr(out.polardiagram, "n", -1), train=stats(out.training_statistics, en, nt, False),
                 test=stats(out.test_statistics, en, ne, not en["test"] and out.test_statistics.data_handler == {}))
    c.ev(new=False, **e)
    return given


def main(c):
    rng = c.rng
    for k in c.gen("MCPipeline", limit=c.n(500, 100000)):
        rec = Rec(c, rng)
        run(c, rng, build(rec, rng, 0), rec, k["en"], k["nt"], k["ne"])
    if c.thorough:
        for _ in range(12):
            for k in c.gen("MCPipeline"):
                rec = Rec(c, rng)
                run(c, rng, build(rec, rng, 0), rec, k["en"], k["nt"], k["ne"])
    for _ in range(c.n(120, 3000)):        # several runs of one pipeline
        rec = Rec(c, rng)
        nt, ne = rng.choice([1, 1, 2, 3, 6]), rng.choice([0, 1, 2])
        n_handlers = nt + ne if rng.random() < .3 else 0
        pipe = build(rec, rng, n_handlers)
        en = None
        for _ in range(rng.choice([1, 2, 3])):
            if en and en["test"] == (ne > 0) and rng.random() < .5:   # the same once more, with other data
                run(c, rng, pipe, rec, en, nt, ne, again)
                continue
            if not n_handlers:
                nt, ne = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2])
            en = {s: rng.random() < .75 for s in SW}
            en["test"] = ne > 0 and rng.random() < .8
            again = run(c, rng, pipe, rec, en, nt, ne)
    c.validate("TracePipeline")
