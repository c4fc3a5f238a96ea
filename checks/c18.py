"""C18: combining weather models and expanding data with weather against spec/WeatherUse.tla."""
from datetime import datetime, timedelta
import vf
from num import q
from hrosailing.core.data import Data
from hrosailing.models import MultiWeatherModel, WeatherModel, GriddedWeatherModel
from hrosailing.pipeline import WeatherExpander, LazyExpander

BASE = datetime(2023, 1, 1, 23, 0, 0)
ERR = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
       "NotImplementedError": NotImplementedError, "RuntimeError": RuntimeError,
       "OSError": OSError, "ZeroDivisionError": ZeroDivisionError, "IndexError": IndexError, "AttributeError": AttributeError}


def enc(v):
    if v is None:
        return ["-", 0]
    if isinstance(v, datetime):
        return ["t", int((v - BASE).total_seconds() // 60)]
    if isinstance(v, bool):
        return ["?", -1]
    if isinstance(v, (int, float)) or hasattr(v, "dtype"):
        return ["f", q(v)]
    return ["s", int(v[1:])] if isinstance(v, str) and v[:1] == "s" else ["?", -2]


def dec(v):
    return None if v[0] == "-" else v[1] / 4 if v[0] == "f" else "s%d" % v[1] if v[0] == "s" else BASE + timedelta(
        minutes=v[1])


class Stub(WeatherModel):
    def __init__(self, answers):
        self.answers, self.asked = list(answers), []

    def get_weather(self, point):
        a = self.answers[len(self.asked) % len(self.answers)]
        self.asked.append(list(point))
        if a["k"] != "ok":
            raise ERR[a["k"]]("no weather")
        return {x["a"]: dec(x["v"]) for x in a["w"]}


class AStub(Stub):
    pass


class ZStub(AStub):
    def __len__(self):       # what a model of a user may have besides
        return 0


def multi(c, rng, ans, sens, more=()):
    """ans: one answer per model; more: the answers at further calls of the same combined model"""
    calls = [ans] + list(more)
    stubs = [rng.choice([Stub, AStub, ZStub])([a[i] for a in calls]) for i in range(len(ans))]
    m = MultiWeatherModel(*stubs, exception_sensitive=True) if sens else MultiWeatherModel(*stubs)
    for k, a in enumerate(calls):
        pt = [BASE + timedelta(hours=k // 2), 54.5, 13.25 + k]
        n = [len(s.asked) for s in stubs]
        st, r = vf.call(m.get_weather, pt)
        c.ev(op="multi", ans=a, sens=sens, out=vf.outcome(st, r),
             w=[{"a": k, "v": enc(v)} for k, v in r.items()] if st == "ok" else [],
             asked=[s.asked[i:] == [pt] for s, i in zip(stubs, n)])
        if st == "ok":
            r["gust"] = 1e9      # the answer belongs to the caller
        for s in stubs:          # keep the answers in step, whoever was not asked
            s.asked += [pt] * (k + 1 - len(s.asked))


KEPT = {}


def expand(c, rng, ans, mode, cols, lazy=False):
    """cols: columns besides datetime, lat, lon"""
    n = len(ans)
    base = [["datetime", [["t", 7 * i % 60 + i // 9 * 60] for i in range(n)]],
            ["lat", [["f", 4 * (i % 5) + 1] for i in range(n)]], ["lon", [["f", -i] for i in range(n)]]]
    allc = base + cols
    rng.shuffle(allc)
    d = Data()
    d.update({k: [dec(v) for v in vs] for k, vs in allc})
    cin = [{"k": k, "v": vs} for k, vs in allc]
    stub = Stub(ans or [{"k": "ok", "w": []}])
    arg = {} if mode == "delete" and rng.random() < .5 else {"exception_handling_mode": mode}
    key = repr(arg)
    if key not in KEPT or rng.random() < .4:
        KEPT[key] = WeatherExpander(stub, **arg), stub
    ex, stub = KEPT[key]                       # an expander is used again and again
    stub.answers, stub.asked = ans or [{"k": "ok", "w": []}], []
    st, r = vf.call(ex.expand, d)

    def f():
        s = ex.get_latest_statistics()
        return dict(n=r.n_rows, res=[{"k": k, "v": [enc(x) for x in r[k]]} for k in r.keys()],
                    stat=[s.get("n_rows", -1), s.get("n_cols", -1)])
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    pts = [[x[1] for x in (dict((k, v) for k, v in base)[k][i] for k in ("datetime", "lat", "lon"))] for i in range(n)]
    c.ev(op="expand", ans=ans, mode=mode, cols=cin, out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read",
         asked=[[enc(x)[1] for x in p] for p in stub.asked], points=pts, **(o if st2 == "ok" else {}))


def main(c):
    rng = c.rng
    cases = c.gen("MCWeatherUse", limit=c.n(1600, 10 ** 9))
    for k in cases:
        if k["kind"] == "multi":
            multi(c, rng, k["ans"], k["opt"] == "sens")
        else:
            n = len(k["ans"])
            cols = [["BSP", [["f", 4 * i + 2] for i in range(n)]]] if n and rng.random() < .7 else []
            if n and rng.random() < .3:
                cols.append(["u", [["f", 100 + i] for i in range(n)]])
            expand(c, rng, k["ans"], k["opt"], cols)
    names = ["u", "v", "w", "wave height", "TWS", "gust", "u(duplicate)"]
    for _ in range(c.n(250, 6000)):
        n = rng.randint(0, 12) if rng.random() < .96 else rng.randint(50, 80)
        fixed = rng.sample(names, rng.randint(1, 4))

        def answer():
            if rng.random() < .2:
                return {"k": rng.choice(list(ERR)) if rng.random() < .05 else "ValueError", "w": []}
            at = fixed if rng.random() < .7 else rng.sample(fixed, rng.randint(0, len(fixed)))
            return {"k": "ok", "w": [{"a": a, "v": ["f", rng.randint(-99, 99)] if rng.random() < .93 else ["-", 0]}
                                     for a in at]}
        ans = [answer() for _ in range(n)]
        if rng.random() < .3:
            k = rng.randint(0, 6) if rng.random() < .8 else rng.randint(7, 14)
            more = [[{"k": rng.choice(list(ERR)), "w": []} if rng.random() < (.3 if k < 7 else .04) else answer() for _ in range(k)]
                    for _ in range(rng.randint(1, 4) if rng.random() < .8 else rng.randint(5, 9))]
            multi(c, rng, more[0], rng.random() < .3, more[1:])
        cols = [[k, [["f", rng.randint(0, 400)] if rng.random() < .9 else ["-", 0] for _ in range(n)]]
                for k in rng.sample(["BSP", "TWS", "TWA", "u", "gust", "remark", "u(duplicate)", "gust(duplicate)"], rng.randint(0, 6))]
        for col in cols:
            if col[0] == "remark":
                col[1] = [["s", i] for i in range(n)]
        expand(c, rng, ans, rng.choice(["delete", "ignore"]), cols)
    c.validate("TraceWeatherUse")
