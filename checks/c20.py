"""C20: reading NMEA streams against spec/NMEA.tla."""
import os
from datetime import date, datetime, time, timedelta
from functools import reduce
import vf
from num import q
from hrosailing.processing import NMEAFileHandler

D0 = date(2020, 1, 1)
SYN = {"Timestamp": "timestamp", "Speed Over Ground": "speed over ground", "Datestamp": "datestamp",
       "Latitude": "latitude", "Longitude": "longitude", "Wind angle": "wind angle", "Wind speed": "wind speed",
       "Water speed knots": "water speed knots", "True": "true", "Speed over ground knots": "speed over ground knots"}


def fld(a, v, h=""):
    return {"a": a, "p": SYN.get(a, ""), "v": v, "h": h}


TEXT = {}


def txt(s):
    """texts are numbered; number 0 is the empty text, 1 and 2 the wind references"""
    return ["s", TEXT.setdefault(s, {"": 0, "R": 1, "T": 2}.get(s, len(TEXT) + 10))]


def num(v):
    return "" if v is None else ("%.2f" % (v / 4)).rstrip("0").rstrip(".")


def N(v):
    return ["-", 0] if v is None else ["f", v]


FRAC = 0  # microseconds added to all times of a stream


def tm(x, rng=None):
    if x is None:
        return "", ["-", 0]
    s = x // 10
    t = "%02d%02d%02d" % (s // 3600, s // 60 % 60, s % 60)
    if x % 10:
        t += ".%d" % (x % 10)
    elif rng and rng.random() < .4:
        t += ".0" + "0" * rng.randint(0, 1)
    if rng and s % 60 == 0 and s and rng.random() < .5:   # a leap second, read by the handler itself
        y = s - 60
        t = "%02d%02d60" % (y // 3600, y // 60 % 60)
        if x % 10 or rng.random() < .5:
            t += ".%d" % (x % 10)
    if FRAC:
        t = t.split(".")[0] + (".%d%05d" % (x % 10, FRAC)).rstrip("0")
    return t, ["m", x]


def dt(x):
    if x is None:
        return "", ["-", 0]
    d = D0 + timedelta(days=x)
    return d.strftime("%d%m%y"), ["d", x]


def pos(x, w):
    """x in 1/60000 degree"""
    if x is None:
        return "", ["-", 0]
    t = "%0*d%02d.%03d" % (w, x // 60000, x % 60000 // 1000, x % 1000) + "0" * (x % 4)
    return t, ["g", x]


def latlon(lat, ns, lon, ew):
    a, av = pos(lat, 2)
    o, ov = pos(lon, 3)
    return [a, ns, o, ew], [fld("Latitude", av, ns), fld("Latitude Direction", txt(ns)), fld("Longitude", ov, ew),
                            fld("Longitude Direction", txt(ew))]


def sentence(rng, kind, g):
    """(text, abstract sentence); g(kind of value) supplies the values"""
    if kind == "MWV":
        a, s, r = g("angle"), g("num"), rng.choice("RTRTRTX") if g.ref is None else g.ref
        d = [num(a), r, num(s), "N", "A"]
        f = [fld("Wind angle", N(a)), fld("Reference", txt(r)), fld("Wind speed", N(s)),
             fld("Wind speed units", txt("N")), fld("Status", txt("A"))]
    elif kind in ("GLL", "GGA", "RMC"):
        la, lo = g("lat"), g("lon")
        ns, ew = (rng.choice("NS") if la is not None else ""), (rng.choice("EW") if lo is not None else "")
        if g.hemi:
            ns, ew = g.hemi
        p, pf = latlon(la, ns if la is not None else "", lo, ew if lo is not None else "")
        t, tv = tm(g("time"), rng)
        if kind == "GLL":
            d = p + [t, "A", "A"]
            f = pf + [fld("Timestamp", tv), fld("Status", txt("A")), fld("FAA mode indicator", txt("A"))]
        elif kind == "GGA":
            h = g("num")
            d = [t] + p + ["1", "08", "", num(h), "M", "", "", "", ""]
            f = [fld("Timestamp", tv)] + pf + [
                fld("GPS Quality Indicator", ["f", 4]), fld("Number of Satellites in use", ["n", 32]),
                fld("Horizontal Dilution of Precision", txt("")), fld("Antenna Alt above sea level (mean)", N(h)),
                fld("Units of altitude (meters)", txt("M")), fld("Geoidal Separation", txt("")),
                fld("Units of Geoidal Separation (meters)", txt("")), fld("Age of Differential GPS Data (secs)", txt("")),
                fld("Differential Reference Station ID", txt(""))]
        else:
            s, c, (dd, dv) = g("num"), g("angle"), dt(g("date"))
            d = [t, "A"] + p + [num(s), num(c), dd, "", ""]
            f = [fld("Timestamp", tv), fld("Status", txt("A"))] + pf + [
                fld("Speed Over Ground", N(s)), fld("True Course", N(c)), fld("Datestamp", dv),
                fld("Magnetic Variation", txt("")), fld("Magnetic Variation Direction", txt("")),
                fld("Mode Indicator", txt("")), fld("Navigational Status", txt(""))]
    elif kind == "VHW":
        h, m, k, kk = g("angle"), g("angle"), g("num"), g("num")
        d = [num(h), "T", num(m), "M", num(k), "N", num(kk), "K"]
        f = [fld("Heading true degrees", N(h)), fld("heading true", txt("T")), fld("Heading Magnetic degrees", N(m)),
             fld("Magnetic", txt("M")), fld("Water speed knots", N(k)), fld("Knots", txt("N")),
             fld("Water speed kilometers", N(kk)), fld("Kilometers", txt("K"))]
    elif kind == "HDT":
        h = g("angle")
        d = [num(h), "T"]
        f = [fld("Heading", N(h)), fld("True", txt("T"))]
    elif kind == "MTW":
        h = g("num")
        d = [num(h), "C"]
        f = [fld("Water temperature", N(h)), fld("Unit of measurement", txt("C"))]
    else:
        a, b, k, kk = g("angle"), g("angle"), g("num"), g("num")
        d = [num(a), "T", num(b), "M", num(k), "N", num(kk), "K", ""]
        f = [fld("True Track made good", N(a)), fld("True Track made good symbol", txt("T")),
             fld("Magnetic Track made good", N(b)), fld("Magnetic Track symbol", txt("M")),
             fld("Speed over ground knots", N(k)), fld("Speed over ground symbol", txt("N")),
             fld("Speed over ground kmph", N(kk)), fld("Speed over ground kmph symbol", txt("K")),
             fld("FAA mode indicator", txt(""))]
    body = rng.choice(["II", "GP", "WI"]) + kind + "," + ",".join(d)
    cs = reduce(lambda x, y: x ^ ord(y), body, 0)
    return "$%s*%02X\n" % (body, cs), {"t": kind, "f": f}


class Gen:
    def __init__(self, rng, empty=.12):
        self.rng, self.empty, self.ref, self.hemi = rng, empty, None, None

    def __call__(self, k):
        r = self.rng
        if r.random() < self.empty:
            return None
        return {"angle": lambda: r.randint(0, 1439), "num": lambda: r.randint(0, 120),
                "lat": lambda: r.choice([0, r.randint(0, 90 * 60000 - 1), r.randint(0, 59999)]),
                "lon": lambda: r.choice([0, r.randint(0, 180 * 60000 - 1)]),
                "time": lambda: r.choice([r.randint(0, 863999), r.randint(1, 1438) * 600]),
                "date": lambda: r.randint(0, 1500)}[k]()


def tod(t):
    """time of day in tenths of a second; the nmea library itself may cut off a microsecond"""
    return q((datetime.combine(D0, t) - datetime.combine(D0, time())).total_seconds() - FRAC / 1e6, 10, tol=1.5e-6)


def enc(k, v):
    if v is None:
        return ["-", 0, 0]
    if isinstance(v, datetime):
        v = v.replace(tzinfo=None)
        return ["t", (v.date() - D0).days, tod(v.time())]
    if isinstance(v, date):
        return ["d", (v - D0).days, 0]
    if isinstance(v, time):
        return ["m", tod(v.replace(tzinfo=None)), 0]
    if isinstance(v, str):
        return ["s", TEXT.get(v, {"": 0, "R": 1, "T": 2}.get(v, -1)), 0]
    if type(v) is not float:
        return ["?", 0, 0]
    if k in ("lat", "lon"):
        x = v * 60000
        return ["g", round(x) if abs(x - round(x)) < 1e-4 else -999999999, 0]
    return ["f", q(v), 0]


def stream(c, rng, sents, junk=(), **cfg):
    path = os.path.join(c.scratch, "s%d.vdr" % rng.randrange(4))
    lines = [s[0] for s in sents]
    smode, types, mode, names = cfg.get("smode", "all"), cfg.get("types", []), cfg.get("mode", "all"), cfg.get("names", [])
    if smode == "wanted" and rng.random() < .5:
        for j in range(2):   # lines that are no wanted sentences are not looked at
            lines.insert(rng.randint(0, len(lines)), rng.choice(["# a comment\n", "$GPXXX,1,2*00\n", "\n"]))
    with open(path, "w") as f:
        f.writelines(lines)
    kw = {}
    if smode != "all":
        kw[smode + "_sentences"] = types
        if smode == "wanted" and rng.random() < .3:
            kw["unwanted_sentences"] = types
    if mode != "all":
        kw[mode + "_attributes"] = names
        if mode == "wanted" and rng.random() < .3:
            kw["unwanted_attributes"] = names
    post = cfg.get("post", True)
    if not post:
        kw["post_filter_types"] = False
    h = vf.kept(rng, kw, lambda: NMEAFileHandler(**kw))
    st, r = vf.call(h.handle, path)

    def f():
        s = h.get_latest_statistics()
        return [{"k": k, "v": [enc(k, x) for x in r[k]]} for k in r.keys()], r.n_rows, [s.get("n_rows", -1), s.get("n_cols", -1)]
    st2, o = vf.call(f) if st == "ok" else ("err", None)
    cols, n, stat = o if st2 == "ok" else ([], -1, [])
    c.ev(op="stream", ss=[s[1] for s in sents], smode=smode, types=types, mode=mode, names=names, post=post,
         out=vf.outcome(st, r) if st != "ok" or st2 == "ok" else "err:read", cols=cols, n=n, stat=stat)


ALL = ["MWV", "GLL", "RMC", "GGA", "VHW", "HDT", "MTW", "VTG"]
ATTR = ["TWA", "TWS", "AWA", "AWS", "lat", "lon", "SOG", "date", "time", "Wind angle", "Reference", "Wind speed",
        "Latitude", "Longitude", "Timestamp", "Status", "Speed Over Ground", "True Course", "Datestamp", "Heading",
        "Water speed knots", "Water temperature", "Latitude Direction", "Speed over ground knots", "True", "unknown"]


def main(c):
    global FRAC
    rng = c.rng
    for k in c.gen("MCNMEA", limit=c.n(350, 10 ** 9)):
        g = Gen(rng, 0)
        ss = []
        for kind in k["kinds"]:
            t, _, o = kind.partition("-")
            g.ref, g.hemi, g.empty = (o if t == "MWV" else None), None, (1 if o == "0" else .05)
            ss.append(sentence(rng, t, g))
        stream(c, rng, ss, post=rng.random() < .8)
    for _ in range(c.n(500, 12000)):
        FRAC = rng.choice([0, 0, 45000, 1000, 99500, 12340])
        g = Gen(rng, rng.choice([0, .1, .3]))
        kinds = rng.sample(ALL, rng.randint(1, 5))
        ss = [sentence(rng, rng.choice(kinds), g) for _ in range(rng.randint(0, 14) if rng.random() < .98 else rng.randint(40, 70))]
        cfg = {}
        if rng.random() < .4:
            cfg.update(smode=rng.choice(["wanted", "unwanted"]), types=rng.sample(ALL, rng.randint(0, 4)))
        if rng.random() < .5:
            cfg.update(mode=rng.choice(["wanted", "unwanted"]), names=rng.sample(ATTR, rng.randint(0, 9)))
        stream(c, rng, ss, post=rng.random() < .7, **cfg)
    c.validate("TraceNMEA")
