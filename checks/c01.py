"""C01: the data container against spec/DataTable.tla."""
import datetime as dt
import numpy as np
import vf
from hrosailing.core.data import Data

T2 = {"f": float, "s": str, "i": int, "b": bool, "d": dt.date, "t": dt.datetime, "-": type(None)}
DAY = dt.datetime(2020, 1, 1)
NB = {v: k for k, v in T2.items()}


def dec(v):
    t, x = v
    if t in "dt":
        v = DAY + dt.timedelta(x)
        return v if t == "t" else v.date()
    # values that are false in Python are values all the same
    return None if t == "-" else float(x) if t == "f" else "s%d" % x if t == "s" and x else "" if t == "s" else bool(x) if t == "b" else int(x)


def enc(v):
    if v is None:
        return ["-", 0]
    if type(v) is float and v == int(v):
        return ["f", int(v)]
    if type(v) is str and v[:1] == "s" and v[1:].isdigit():
        return ["s", int(v[1:])]
    if type(v) is str and v == "":
        return ["s", 0]
    if type(v) is bool:
        return ["b", int(v)]
    if type(v) is dt.datetime:
        return ["t", (v - DAY).days]
    if type(v) is dt.date:
        return ["d", (v - DAY.date()).days]
    if type(v) is int:
        return ["i", v]
    return ["?", -1]


def obs(d):
    st, r = vf.call(lambda: {"cols": [{"k": k, "t": NB.get(d.type(k) or type(None), "?"), "v": [enc(x) for x in d[k]]}
                                      for k in d.keys()], "n": int(d.n_rows)})
    return r if st == "ok" else {"cols": [], "n": -1}


def build(o):
    """a container with the given table, for concat / update(Data)"""
    d = Data()
    for c in o["cols"]:
        d.extend(c["k"], [dec(v) for v in c["v"]])
    return d


BAD = {"ints": lambda d: [0] * max(1, d.n_rows), "floats": lambda d: [.5] * max(1, d.n_rows), "nones": lambda d: [None],
       "tuple": lambda d: (0, 1), "array": lambda d: np.zeros(max(1, d.n_rows)), "float": lambda d: 1.5, "none": lambda d: None,
       "name": lambda d: "no such field"}


def step(d, o, rng):
    """perform o on d; returns (status, value, derived or None)"""
    op = o["op"]
    if op == "append":
        return vf.call(d.append, o["k"], dec(o["v"]))
    if op == "extend":
        return vf.call(d.extend, o["k"], [dec(v) for v in o["v"]])
    if op == "update":
        if o.get("asdata"):
            arg = build({"cols": [{"k": e["k"], "v": e["v"]} for e in o["es"]]})
        else:
            arg = {e["k"]: (dec(e["v"][0]) if e.get("sc") else [dec(v) for v in e["v"]]) for e in o["es"]}
        return vf.call(d.update, arg, o["compress"]) if o["compress"] else vf.call(d.update, arg)
    if op == "fillall":
        return vf.call(d.fill)
    if op == "filln":
        return vf.call(d.fill, o["m"])
    if op == "fillk":
        return vf.call(d.fill, None, list(o["ks"]))
    if op == "fill":
        return vf.call(d.fill, o["m"], list(o["ks"]))
    if op == "delcols":
        return vf.call(d.delete, o["ks"][0] if len(o["ks"]) == 1 and rng.random() < .5 else list(o["ks"]))
    if op == "delrows":
        return vf.call(d.delete, o["idx"][0] if len(o["idx"]) == 1 and rng.random() < .5 else list(o["idx"]))
    if op == "rename":
        return vf.call(d.rename, o["a"], o["b"])
    if op == "strip":
        return vf.call(d.strip, o["mode"]) if o["mode"] != "all" or rng.random() < .5 else vf.call(d.strip)
    if op == "filtertypes":
        return vf.call(d.filter_types, [None if t == "-" else T2[t] for t in o["ts"]])
    if op == "slice":
        if o["ks"] and rng.random() < .5:
            return vf.call(lambda: d[list(o["ks"])])
        return vf.call(d.get_slice, list(o["ks"]))
    if op == "mask":
        m = o["m"]
        return vf.call(lambda: d[m if rng.random() < .5 else np.array(m, dtype=bool)])
    if op == "badindex":
        return vf.call(lambda: d[BAD[o["how"]](d)])
    if op == "concat":
        return vf.call(Data.concatenate, [d if x.get("self") else build(x) for x in o["ds"]])
    raise AssertionError(op)


def read(c, d, o, rng):
    ks = [k for k in o["cols"]]
    ks = rng.sample([x["k"] for x in ks], rng.randint(0, len(ks))) if ks else []
    sk = rng.choice([ks, ks, ["a"], ["a", "b", "c"]])
    probe = ["a", "b", "c", "zz"]

    def f():
        E = lambda r: [enc(x) for x in r]
        keys = d.keys()
        fk, fv = d.get_by_type(float)
        by = [[t, d.get_by_type(T2[t])] for t in "fsibdt"]
        nk, nv = d.numerical
        nv = [[enc(None if x is None or x != x else float(x)) for x in r] for r in nv] if len(nk) and d.n_rows else []
        tup = list(d.rows(ks, return_type=tuple))
        assert all(type(r) is tuple for r in tup)
        n = d.n_rows
        sl = d.get_slice(sk)
        so = obs(sl)
        for k in sl.keys():      # a view is a container of its own
            sl.append(k, sl[k][0] if sl.n_rows and len(sl[k]) else None)
        return dict(sk=sk, sl=so, rl=[E(r) for r in list(d.rows(ks, return_type=list))], rt=[E(r) for r in tup],
                    rd=[[enc(r[k]) for k in ks] for r in list(d.rows(ks))],
                    r0=[E(r) for r in list(d.rows(return_type=list))],
                    it=[[enc(r[k]) for k in keys] for r in list(d)],
                    ix=[[enc(d[i if i % 2 == 0 else i - n][k]) for k in keys] for i in range(n)],
                    keys=list(keys), ncols=d.n_cols, inn=[k in d for k in probe],
                    dat=[E(d.data[k]) for k in keys], fk=list(fk), fv=[E(v) for v in fv], nk=list(nk), nv=nv, by=[[t, list(k), [E(x) for x in v]] for t, (k, v) in by])
    st, r = vf.call(f)
    c.ev(new=False, op="read", ks=ks, probe=probe, out=vf.outcome(st, r), obs=obs(d), **(r if st == "ok" else {}))


def run(c, hist, rng, reads=True):
    d, new = Data(), True
    for o in hist:
        o = dict(o)
        if o["op"] == "update" and "asdata" not in o:
            o["asdata"] = rng.random() < .3
            for e in o["es"]:
                e["sc"] = len(e["v"]) == 1 and not o["asdata"] and rng.random() < .5
            if o["asdata"] and any(len({v[0] for v in e["v"]} - {"-"}) > 1 for e in o["es"]):
                o["asdata"] = False
        before = obs(d)
        if o["op"] == "concat":
            o["ds"] = [before if x == "self" else x for x in o["ds"]]
            for x in o["ds"]:
                x.pop("self", None)
            o["ds"] = [dict(x) for x in o["ds"]]
            for x in o["ds"]:
                if x == before:
                    x["self"] = True
        st, r = step(d, o, rng)
        extra = {}
        if o["op"] == "concat":
            for x in o["ds"]:
                x.pop("self", None)
        if o["op"] in ("slice", "mask", "concat"):
            extra["orig"] = obs(d)
            if st == "ok":
                d = r
        ob = obs(d)
        c.ev(new=new, out=vf.outcome(st, r), obs=ob, **extra, **o)
        new = False
        if st == "hang" or ob["n"] < 0:
            break
        if reads and all(len(x["v"]) == ob["n"] for x in ob["cols"]) and rng.random() < .4:
            read(c, d, ob, rng)


def rand_hist(rng, n, big=0):
    """random history; kept sensible by tracking the keys and row count through the operations' intents"""
    K = ["a", "b", "c", "d", "e"]
    typ = {k: rng.choice("fffsssiiibdt") for k in K}
    ctr, zero = [0], rng.choice([0, .1, .5, .9])

    def val(k):
        ctr[0] += 1
        r = rng.random()
        # a bool is no integer, a datetime no date
        t = typ[k] if r < .95 else rng.choice("fsibdt") if r < .97 else {"i": "b", "b": "i", "d": "t", "t": "d", "f": "i", "s": "f"}[typ[k]]
        return ["-", 0] if rng.random() < .25 else [t, 0 if rng.random() < zero else 1 if t == "b" else ctr[0]]

    def vals(k, m):
        return [val(k) for _ in range(m)]
    h = [dict(op="update", compress=False, es=[dict(k=k, v=vals(k, big)) for k in rng.sample(K, 3)])] if big else []
    rows = big
    for _ in range(n):
        r = rng.random()
        if r < .34:
            ks = rng.sample(K, rng.randint(0 if rng.random() < .1 else 1, 4))
            m = rng.choice([1, 1, 1, 2, 3])
            h.append(dict(op="update", compress=rng.random() < .3,
                          es=[dict(k=k, v=vals(k, m if rng.random() < .8 else rng.randint(0, 3))) for k in ks]))
            rows += m
        elif r < .42:
            k = rng.choice(K)
            h.append(dict(op="append", k=k, v=val(k)))
        elif r < .5:
            k = rng.choice(K)
            h.append(dict(op="extend", k=k, v=vals(k, rng.randint(0, 3))))
        elif r < .6:
            h.append(rng.choice([dict(op="fillall"), dict(op="filln", m=rows + rng.randint(-2, 2)),
                                 dict(op="fillk", ks=rng.sample(K, rng.randint(0, 2))), dict(op="fill", m=rows, ks=rng.sample(K, 2))]))
        elif r < .64:
            h.append(dict(op="delcols", ks=rng.sample(K, rng.randint(1, 2)), maybe=True))
        elif r < .72 and big:
            h.append(dict(op="delrows", idx=sorted({rng.randint(0, max(0, rows - 1)) for _ in range(rng.randint(1, 3))})))
        elif r < .72:
            h.append(dict(op="delrows", idx=[rng.randint(0, max(0, rows)) for _ in range(rng.randint(0, 3))]))
        elif r < .78:
            h.append(dict(op="rename", a=rng.choice(K), b=rng.choice(K)))
            typ[h[-1]["b"]] = typ[h[-1]["a"]]
        elif r < .83:
            h.append(dict(op="slice", ks=rng.sample(K, rng.randint(1, 5))))
        elif r < .9:
            h.append(dict(op="maskr", p=rng.random()))
        elif r < .92:
            h.append(dict(op="badindex", how=rng.choice(list(BAD))))
        elif r < .95:
            h.append(dict(op="strip", mode=rng.choice(["cols", "rows", "all"])))
        elif r < .97:
            h.append(dict(op="filtertypes", ts=rng.choice([["f", "s", "i", "-"], ["f", "i"], ["f", "s", "-"], ["f", "s", "b", "t"], ["i", "d", "-"]])))
        else:
            o1 = [dict(k=k, v=vals(k, 2)) for k in rng.sample(K, 2)]
            h.append(dict(op="concat", ds=rng.choice([["self", mk(o1)], [mk(o1), "self"], ["self", "self"], ["self"]])))
    return h


def mk(cols):
    return obs(build({"cols": cols})) if all(len({v[0] for v in x["v"]} - {"-"}) <= 1 for x in cols) else \
        {"cols": [], "n": 0}


def run_random(c, rng, n, big=0):
    """random histories are resolved against the live container (masks, deletable columns)"""
    h = rand_hist(rng, n, big)
    d, new = Data(), True
    for o in h:
        if o["op"] == "maskr":
            o = dict(op="mask", m=[rng.random() < .2 + .8 * o["p"] for _ in range(d.n_rows)])
        if o["op"] == "delcols":
            o = dict(op="delcols", ks=[k for k in o["ks"] if k in d] or [o["ks"][0]])
        if o["op"] == "rename" and o["a"] not in d.keys() and rng.random() < .9:
            continue
        before = obs(d)
        if o["op"] == "update":
            o["asdata"] = rng.random() < .3 and all(len({v[0] for v in e["v"]} - {"-"}) <= 1 for e in o["es"])
            for e in o["es"]:
                e["sc"] = len(e["v"]) == 1 and not o["asdata"] and rng.random() < .5
        if o["op"] == "concat":
            o["ds"] = [dict(before, self=True) if x == "self" else x for x in o["ds"]]
        st, r = step(d, o, rng)
        extra = {}
        if o["op"] == "concat":
            o["ds"] = [{k: v for k, v in x.items() if k != "self"} for x in o["ds"]]
        if o["op"] in ("slice", "mask", "concat"):
            extra["orig"] = obs(d)
            if st == "ok":
                d = r
        ob = obs(d)
        c.ev(new=new, out=vf.outcome(st, r), obs=ob, **extra, **o)
        new = False
        if st == "hang" or ob["n"] < 0:
            return
        if all(len(x["v"]) == ob["n"] for x in ob["cols"]) and rng.random() < (.8 if big else .4):
            read(c, d, ob, rng)


def zeroed(x, rng):
    """the same history with some values 0 or empty"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] in ("f", "s", "i") and isinstance(x[1], int) and x[1] % 2:
            return [x[0], 0]
        return [zeroed(y, rng) for y in x]
    return {k: zeroed(y, rng) for k, y in x.items()} if isinstance(x, dict) else x


def main(c):
    hs = c.gen("MCDataTable", limit=c.n(1500, 10 ** 9))
    for h in hs:
        if h:
            run(c, zeroed(h, c.rng) if c.rng.random() < .4 else h, c.rng)
    for _ in range(c.n(240, 4000)):
        run_random(c, c.rng, c.rng.randint(4, 14))
    for _ in range(c.n(14, 90)):      # containers of many rows
        run_random(c, c.rng, c.rng.randint(4, 8), c.rng.randint(60, 140))
    c.validate("TraceDataTable")
