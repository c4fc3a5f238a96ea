"""C02: the standard format of data containers against spec/DataFormat.tla."""
import vf
import fmt
from hrosailing.core.data import Data


def std(c, rng, cols):
    n = max([len(x["v"]) for x in cols] or [0])
    d = Data()
    fmt.FRAC = c.rng.choice(fmt.FRACS)
    vf.call(d.update, {x["raw"]: [fmt.dec(v) for v in x["v"]] for x in cols})
    st, r = vf.call(d.hrosailing_standard_format)

    def f():
        res, rows = fmt.read(d), d.n_rows
        d.hrosailing_standard_format()
        again, grown = fmt.read(d), True
        for k in list(d.keys()):        # a column takes more values of its kind
            x = next((v for v in d[k] if v is not None), None)
            if x is not None:
                m = len(d[k])
                d.extend(k, [x])
                grown = grown and type(d[k][-1]) is type(x) and len(d[k]) >= m
        return dict(res=res, n=rows, again=again, stat=[rows, len(res)], grown=grown)
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    c.ev(op="std", cols=cols, rows=n, out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:again",
         **(o if st2 == "ok" else {}))


def main(c):
    rng = c.rng
    cases = c.gen("MCDataFormat")
    phrases = sorted({k[0]["p"] for k in cases if len(k) == 1})
    rng.shuffle(cases)
    for k in cases:
        for _ in range(3 if len(k) == 1 else 1):
            cols = [dict(x, v=fmt.fixint(x["v"])) for x in k]
            for x in cols:
                if x["raw"] == "":
                    x["raw"] = fmt.decorate(rng, x["p"])
                    if x["p"] in ("date", "datestamp", "date stamp", "time", "timestamp", "time stamp", "datetime",
                                  "date time"):
                        x["v"] = [["t", 5], ["-", 0]]
            std(c, rng, cols)
    for _ in range(c.n(1000, 20000)):
        cols = fmt.rand_cols(rng, phrases, rng.randint(0, 6))
        if cols:
            if rng.random() < .02:      # a long recording
                k = rng.randint(20, 50)
                cols = [dict(x, v=[v for v in x["v"] for _ in range(k)] if rng.random() < .5 else x["v"] * k) for x in cols]
            std(c, rng, cols)
    c.validate("TraceDataFormat")
