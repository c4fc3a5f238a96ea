"""C21: csv and array ingestion against spec/DataFormat.tla (the source table in standard format)."""
import contextlib
import csv
import importlib.util
import os
import sys
from datetime import timedelta, timezone
import numpy as np
import pandas as pd
import vf
import fmt
from hrosailing.processing import ArrayHandler, datahandler


def finish(c, rng, op, h, st, r, cols, n):
    def f():
        s = h.get_latest_statistics()
        res, rows = fmt.read(r), r.n_rows
        r.hrosailing_standard_format()
        return dict(res=res, n=rows, again=fmt.read(r), stat=[s.get("n_rows", -1), s.get("n_cols", -1)], grown=True)
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    c.ev(op=op, cols=cols, rows=n, out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read",
         **(o if st2 == "ok" else {}))


def without_pandas():
    """the module as it is where pandas is not installed"""
    old = sys.modules.get("pandas")
    sys.modules["pandas"] = None
    try:
        sp = importlib.util.spec_from_file_location("datahandler_without_pandas", datahandler.__file__)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        return m
    finally:
        sys.modules["pandas"] = old


class NoPandas:
    def __enter__(self):
        self.old, sys.modules["pandas"] = sys.modules["pandas"], None

    def __exit__(self, *_):
        sys.modules["pandas"] = self.old


BARE = without_pandas()
FMTS = ["%Y-%m-%d %H:%M:%S.%f", "%d.%m.%Y %H:%M:%S", "%Y/%m/%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S.%f%z", "%d %b %Y %H:%M:%S %z"]


def csvcase(c, rng, cols, n):
    df = rng.choice(FMTS + [FMTS[0]] * 2)
    fmt.FRAC = rng.choice(fmt.FRACS) if ".%f" in df else timedelta(0)
    fmt.TZ = rng.choice([timezone.utc, timezone(timedelta(hours=2)), timezone(timedelta(hours=-9, minutes=-30))]) if "%z" in df else None

    def cell(v):
        t, x = v
        if t == "-":
            return ""
        if t == "t":
            return fmt.dec(v).strftime(df)
        if t == "s":
            return "'s%d'" % x
        y = x / 4
        return rng.choice([repr(y), "%.2f" % y, "%.4f" % y, "%g" % y if abs(y) < 1e5 else repr(y)] +
                          (["%d" % y] * 3 if y == int(y) else []))
    path = os.path.join(c.scratch, "in.csv")
    bare, op, short, blank = rng.random() < .4, "csv", rng.random() < .4, rng.random() < .2
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f)
        w.writerow([x["raw"] for x in cols])
        more = rng.random() < .1 and n
        for i in range(n):
            row = [cell(x["v"][i]) for x in cols]
            if short:  # empty cells at the end of a row may be left out
                while len(row) > 2 and row[-1] == "":
                    row.pop()
                if len(row) == 2 and row[1] == "" and row[0] != "":
                    row.pop()
            if more and (i == 0 or rng.random() < .5):
                row += [""] * (len(cols) - len(row)) + [rng.choice(["", "7"])]
                op = "extra"
            w.writerow(row)
            if blank and rng.random() < .4:
                f.write("\r\n")
    mod = BARE if bare else datahandler
    H = getattr(mod, "CsvFileHandler")
    with NoPandas() if bare else contextlib.nullcontext():
        h = vf.kept(rng, ("csv", bare, df), lambda: H() if df == FMTS[0] and rng.random() < .7 else H(date_format=df))
        st, r = vf.call(h.handle, path)
    finish(c, rng, op, h, st, r, cols, n)
    fmt.TZ = None


def dupcase(c, rng):
    """a column name twice: refused, or told apart"""
    path = os.path.join(c.scratch, "in.csv")
    names = ["TWS", "TWA", "BSP", "TWS"]
    if rng.random() < .5:
        rng.shuffle(names)
    n = rng.randint(1, 4)
    v = [[rng.randint(0, 400) for _ in names] for _ in range(n)]
    with open(path, "w", newline="", encoding="utf-8") as f:
        csv.writer(f).writerows([names] + v)
    bare = rng.random() < .6
    with NoPandas() if bare else contextlib.nullcontext():
        st, r = vf.call((BARE if bare else datahandler).CsvFileHandler().handle, path)
    st2, o = vf.call(lambda: dict(n=r.n_rows, col=[int(x) for x in r["TWS"]])) if st == "ok" else ("err", None)
    i = names.index("TWS")
    c.ev(op="dup", out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read", rows=n, want=[x[i] for x in v], **(o if st2 == "ok" else {}))


def arrcase(c, rng, cols, n):
    fmt.FRAC = rng.choice(fmt.FRACS)
    keys = [x["raw"] for x in cols]
    rows = [[fmt.dec(x["v"][i]) for x in cols] for i in range(n)]
    kinds = {v[0] for x in cols for v in x["v"]}
    bare, r0 = rng.random() < .2, rng.random()
    h = vf.kept(rng, ("array", bare), (BARE if bare else datahandler).ArrayHandler)
    if r0 < .35 and not bare:
        arg = pd.DataFrame({k: pd.Series([r[j] for r in rows], dtype=object) for j, k in enumerate(keys)})
        if kinds <= {"f"} and rng.random() < .7:
            arg = pd.DataFrame(np.array(rows, float).reshape(n, len(keys)), columns=keys)
    elif kinds <= {"f"}:
        a = np.array(rows, float).reshape(n, len(keys))
        arg = (a if rng.random() < .5 and n else a.tolist(), keys if rng.random() < .5 else tuple(keys))
        if not n:
            arg = (a, keys)
    elif kinds <= {"i"}:
        arg = (np.array(rows, int).reshape(n, len(keys)), keys)
    else:
        a = np.empty((n, len(keys)), dtype=object)
        for i in range(n):
            for j in range(len(keys)):
                a[i, j] = rows[i][j]
        arg = (a, keys)
    with NoPandas() if bare else contextlib.nullcontext():
        st, r = vf.call(h.handle, arg)
    finish(c, rng, "array", h, st, r, cols, n)


def main(c):
    rng = c.rng
    cases = c.gen("MCDataFormat")
    phrases = sorted({k[0]["p"] for k in cases if len(k) == 1})
    for k in rng.sample(cases, c.n(500, len(cases))):
        cols = [dict(x, v=fmt.fixint(x["v"])) for x in k]
        for x in cols:
            if x["raw"] == "":
                x["raw"] = fmt.decorate(rng, x["p"])
                if x["p"] in ("date", "datestamp", "date stamp", "time", "timestamp", "time stamp", "datetime",
                              "date time"):
                    x["v"] = [["t", 5], ["t", 6]]
        arrcase(c, rng, cols, len(cols[0]["v"]))
    for _ in range(c.n(500, 12000)):
        n = rng.randint(0, 6) if rng.random() < .97 else rng.randint(70, 120)
        kind = rng.random()
        cols = fmt.rand_cols(rng, phrases, n, types="f" if kind < .4 else "i" if kind < .6 else "finFs",
                             dates=kind >= .6, none=0 if kind < .6 else .2)
        if cols:
            arrcase(c, rng, cols, n)
    for _ in range(c.n(500, 10000)):
        n = rng.randint(0, 6) if rng.random() < .97 else rng.randint(70, 120)
        cols = fmt.rand_cols(rng, phrases, n, types="fffs", none=rng.choice([0, .3]))
        # a csv file has date and time together only (column of datetimes) and at least two columns
        cols = [x for x in cols if not any(v[0] in "dm" for v in x["v"]) and x["p"] not in (
            "date", "datestamp", "date stamp", "time", "timestamp", "time stamp")]
        cols = [x for x in cols if "\n" not in x["raw"]]
        if len(cols) >= 2 or (len(cols) == 1 and n and all(v[0] != "-" for v in cols[0]["v"])):
            csvcase(c, rng, cols, n)
    for _ in range(c.n(20, 200)):
        dupcase(c, rng)
    for _ in range(20):
        k, m = rng.randint(1, 4), rng.randint(1, 4)
        if k != m:
            h = ArrayHandler()
            st, r = vf.call(h.handle, (np.ones((3, k)), ["c%d" % i for i in range(m)]))
            c.ev(op="refuse", out=vf.outcome(st, r))
    c.validate("TraceDataFormat")
