"""Shared by C02 and C21: typed cells and decorated names of spec/DataFormat.tla."""
from datetime import date, datetime, time, timedelta
from decimal import Decimal
import numpy as np
from num import q

BASE = datetime(2020, 1, 1)
TZ = None  # time zone of the datetimes of a case
FRAC = timedelta(0)  # part of a second added to all times of a case
FRACS = [timedelta(0)] * 2 + [timedelta(microseconds=u) for u in (1, 249, 45000, 500000, 999999, 120450)]
SEPS = [",", ";", "_", "-", "+", "&", "\n", "\t"]


def dec(v):
    t, x = v
    if t == "-":
        return None
    if t == "f":
        return x / 4
    if t == "i":
        return x // 4
    if t == "n":
        return str(x / 4)
    if t == "D":
        return Decimal(x) / 4
    if t == "I":
        return np.int64(x // 4)
    if t == "F":
        return np.float64(x / 4)
    if t == "N":
        return np.str_(x / 4)
    if t == "s":
        return "s%d" % x if x else ""
    if t == "d":
        return (BASE + timedelta(days=x)).date()
    if t == "m":
        return (BASE + timedelta(seconds=x) + FRAC).time()
    return (BASE + timedelta(seconds=x) + FRAC).replace(tzinfo=TZ)


def enc(v):
    if v is None:
        return ["-", 0]
    if type(v) is float:
        return ["f", q(v)]
    if isinstance(v, datetime):
        if (v.utcoffset() is None) != (TZ is None) or (TZ and v.utcoffset() != TZ.utcoffset(None)):
            return ["?", -4]
        v = v.replace(tzinfo=None)
        return ["t", q((v - BASE - FRAC).total_seconds(), 1)]
    if isinstance(v, date):
        return ["d", (datetime.combine(v, time()) - BASE).days]
    if isinstance(v, time):
        return ["m", q((datetime.combine(BASE.date(), v) - BASE - FRAC).total_seconds(), 1)]
    if type(v) is str:
        if v == "":
            return ["s", 0]
        if v[:1] == "s" and v[1:].isdigit():
            return ["s", int(v[1:])]
        try:
            return ["n", q(float(v))]
        except ValueError:
            return ["?", -3]
    if isinstance(v, np.str_):
        return ["N", -1]
    if isinstance(v, np.floating):
        return ["F", q(v)]
    if isinstance(v, np.integer):
        return ["I", q(v)]
    if isinstance(v, bool):
        return ["?", -1]
    if isinstance(v, int):
        return ["i", q(v)]
    if isinstance(v, Decimal):
        return ["D", q(v)]
    return ["?", -2]


def fixint(v):
    """integer typed cells hold multiples of 4 (quarter units)"""
    return [[t, x * 4 if t in "iI" and x % 4 else x] for t, x in v]


def decorate(rng, phrase):
    r = phrase
    if rng.random() < .3:
        r += "s"
    r = "".join(ch.upper() if rng.random() < .4 else ch for ch in r) if rng.random() < .7 else r.upper()
    r = "".join(rng.choice(SEPS + [" "] * 8) if ch == " " else ch for ch in r)
    if rng.random() < .15:
        r = rng.choice([" ", "_", "\t"]) + r
    if rng.random() < .15:
        r = r + rng.choice([" ", "-", ";"])
    return r


def read(d):
    return [{"k": k, "v": [enc(x) for x in d[k]]} for k in d.keys()]


PHRASES = []  # filled from the specification's table by the drivers


def rand_cols(rng, phrases, n, types="finDIFNs", dates=True, none=.2):
    cols, used = [], set()
    k = rng.randint(1, 6)
    special = {"date", "time", "datetime"}
    std = {}
    for _ in range(k):
        r = rng.random()
        if r < .25:
            p, raw = "", rng.choice(["x", "Foo-Bar", "my column", "TWSx", "rudder angle", "Remark", "heel", "y z", "-", "_ _", "s", "+"])
        else:
            p = rng.choice(phrases) if r < .7 else rng.choice([x for x in phrases if x in special or x in (
                "datestamp", "timestamp", "date time", "tws", "wind speed", "ws")])
            raw = decorate(rng, p)
        if raw in used:
            continue
        kind = {"date": "d", "datestamp": "d", "date stamp": "d", "time": "m", "timestamp": "m", "time stamp": "m",
                "datetime": "t", "date time": "t"}.get(p)
        if kind and not dates:
            continue
        used.add(raw)
        t = kind or rng.choice(types)
        v = []
        for _ in range(n):
            if rng.random() < none:
                v.append(["-", 0])
            elif t == "d":
                v.append(["d", rng.randint(0, 400)])
            elif t == "m":
                v.append(["m", rng.randint(0, 86399)])
            elif t == "t":
                v.append(["t", rng.randint(0, 9 * 10 ** 6)])
            elif t == "n" and rng.random() < .05:
                v.append(["s", rng.choice([0, rng.randint(0, 99)])])
            else:
                v.append([t, (rng.randint(-400, 4000) if rng.random() < .97 else rng.choice([-3996, -39996, 399996, 0, 4, -4])) * (4 if t in "iI" else 1) if t != "s" else rng.choice([0, *[rng.randint(0, 99)] * 4])])
        cols.append({"p": p, "raw": raw, "v": v})
    return cols
