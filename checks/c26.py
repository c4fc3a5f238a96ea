"""C26: plots of polar diagrams against spec/Plot.tla."""
import warnings
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex, to_rgb
import numpy as np
import vf
from num import fx
import hrosailing.plotting as hp
from c25 import build, rnd, state


def colour(rng, c):
    f = tuple(x / 1000 for x in c)
    names = {(0, 0, 1000): "blue", (1000, 0, 0): "red", (0, 502, 0): "green", (1000, 1000, 0): "yellow", (0, 0, 0): "k"}
    return rng.choice([f, f + (1.0,), names[tuple(c)] if tuple(c) in names else f])


def colours(rng, col):
    cs = [colour(rng, c) for c in col["cs"]]
    if col["kind"] == "one":
        return cs[0]
    if col["kind"] == "pairs":
        return rng.choice([tuple, list])([(w / 1000, c) for w, c in zip(col["at"], cs)])
    return rng.choice([tuple, list])(cs)


def pieces(x, y, polar):
    x, y = np.ma.filled(np.ma.asarray(x, float), np.nan), np.ma.filled(np.ma.asarray(y, float), np.nan)
    if polar:
        x = np.rad2deg(x)
    out, cur = [], []
    for a, b in zip(x, y):
        if np.isnan(a) and np.isnan(b):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append([fx(a, 1000), fx(b, 1000)])
    return out + ([cur] if cur else [])


def rgb(c):
    return [fx(x, 1000) for x in to_rgb(c)]


def seen(ax, polar, scatter):
    if scatter:
        cols = list(ax.collections)
        return [pieces(*np.ma.asarray(c.get_offsets()).T, polar) for c in cols], [rgb(c.get_facecolor()[0][:3]) if len(c.get_facecolor()) else [-1] * 3 for c in cols]
    lines = list(ax.lines)
    return [pieces(li.get_xdata(), li.get_ydata(), polar) for li in lines], [rgb(li.get_color()) for li in lines]


def draw(rng, polar, scatter, pd, **kw):
    fig = plt.figure()
    name = ("scatter_" if scatter else "plot_") + ("polar" if polar else "flat")
    if rng.random() < .4:
        getattr(hp, name)(pd, **kw)
        ax = [a for a in fig.axes if a.name.startswith("hro")][0]
    else:
        ax = fig.add_subplot(projection="hro polar" if polar else "hro flat")
        (ax.scatter if scatter else ax.plot)(pd, **kw)
    return fig, ax


def legend(fig, ax):
    r = dict(legend="none", entries=[], lo=0, hi=0)
    bars = [a for a in fig.axes if a is not ax]
    leg = ax.get_legend()
    if bars:
        cb = bars[0]._colorbar
        r.update(legend="bar", lo=fx(cb.vmin, 1000), hi=fx(cb.vmax, 1000))
    elif leg is not None:
        r["legend"] = "list"
        r["entries"] = [[fx(float(t.get_text().split()[-1]), 1000), rgb(h.get_color())] for t, h in zip(leg.get_texts(), leg.legend_handles)]
    return r


def want(rng, ws):
    v = [x / 1000 for x in ws]
    return rng.choice([v, np.array(v), tuple(v)]) if len(v) != 1 or rng.random() < .5 else v[0]


def plot(c, rng, d, ws, n, col, polar, scatter, hull=False):
    pd = build(d)
    b = state(pd)
    kw = {}
    if ws:
        kw["ws"] = want(rng, ws)
    if n:
        kw["n_steps"] = n
    if hull:
        kw["use_convex_hull"] = True
    if col["kind"] != "two" or col["cs"] != [[0, 502, 0], [1000, 0, 0]] or rng.random() < .5:
        kw["colors"] = colours(rng, col)
    show = rng.random() < .3
    if show:
        kw["show_legend"] = True
    try:
        st, v = vf.call(draw, rng, polar, scatter, pd, **kw)
        e = dict(op="hull" if hull else "plot", d=d, ws=ws, n=n, o=dict(res=100, range=1000, interp=False, off=0), col=col, polar=polar, scatter=scatter, show=show,
                 out=vf.outcome(st, v), lines=[], colours=[], north=True, legend="none", entries=[], lo=0, hi=0, changed=state(pd) != b)
        if st == "ok":
            fig, ax = v
            e["lines"], e["colours"] = seen(ax, polar, scatter)
            e.update(legend(fig, ax))
            if polar:
                e["north"] = bool(abs(ax.get_theta_offset() - np.pi / 2) < 1e-9 and ax.get_theta_direction() == -1)
        c.ev(**e)
    finally:
        plt.close("all")


def winds(rng, d):
    """no wind, all combinations, or single winds; only winds the diagram holds"""
    r = rng.random()
    if r < .5 or not d["kind"] in ("table", "cloud") or (d["kind"] == "cloud" and not d["pts"]):
        return dict(how="none", ws=[], wa=[], rows=[]), None
    sub = lambda v: rng.sample(v, rng.randint(1, len(v)))
    if r < .75 and d["kind"] == "table":
        w = dict(how="combos", ws=sub(d["ws"]), wa=sub(d["wa"]), rows=[])
        return w, tuple(np.array(v) / 1000 if rng.random() < .7 else [x / 1000 for x in v] for v in (w["ws"], w["wa"]))
    all_ = [p[:2] for p in d["pts"]] if d["kind"] == "cloud" else [[x, y] for x in d["ws"] for y in d["wa"]]
    w = dict(how="rows", ws=[], wa=[], rows=sub(all_))
    a = np.array(w["rows"]) / 1000
    return w, a.T.copy() if len(a) != 2 and rng.random() < .4 else a


def space(c, rng, d, col, which):
    pd = build(d)
    b = state(pd)
    kw = {}
    if rng.random() < .7 or col["kind"] == "one":
        kw["colors"] = colours(rng, col)
    else:
        col = dict(kind="two", cs=[[0, 502, 0], [1000, 0, 0]], at=[])
    w, arg = winds(rng, d) if which != "surface" else (dict(how="none", ws=[], wa=[], rows=[]), None)
    if arg is not None:
        kw["wind"] = arg
    show = which == "gradient" and col["kind"] == "two" and rng.random() < .3 and len(set(p[2] for p in d.get("pts", []))) > 2
    if show:
        kw["show_legend"] = True

    def go():
        fig = plt.figure()
        if rng.random() < .4:
            {"gradient": hp.plot_color_gradient, "space": hp.scatter_3d, "surface": hp.plot_3d}[which](pd, **kw)
            return fig, [a for a in fig.axes if a.name.startswith("hro")][0]
        ax = fig.add_subplot(projection="hro color gradient" if which == "gradient" else "hro 3d")
        if which == "surface":
            (ax.plot if rng.random() < .5 else ax.plot_surface)(pd, **kw)
        else:
            (ax.scatter if which != "gradient" or rng.random() < .5 else ax.plot)(pd, **kw)
        return fig, ax
    try:
        st, v = vf.call(go)
        e = dict(op=which, d=d, col=col, w=w, out=vf.outcome(st, v), pts=[], tri=[], colours=[], show=show, legend="none", entries=[], lo=0, hi=0, changed=state(pd) != b)
        if st == "ok":
            fig, ax = v
            a = ax.collections[0]
            if which == "gradient":
                e.update(legend(fig, ax))
                e["pts"] = [[fx(x, 1000), fx(y, 1000)] for x, y in np.ma.filled(a.get_offsets(), np.nan)]
                e["colours"] = [rgb(x[:3]) for x in a.get_facecolor()]
                if len(e["colours"]) == 1:
                    e["colours"] *= len(e["pts"])
            elif which == "space":
                x, y, z = [np.ma.filled(np.ma.asarray(t, float), np.nan) for t in a._offsets3d]
                e["pts"] = [[fx(p, 100), fx(q, 100), fx(r, 1000)] for p, q, r in zip(x, y, z)]
                e["colours"] = [rgb(t[:3]) for t in a.to_rgba(a.get_array())] if a.get_array() is not None else [rgb(t[:3]) for t in a.get_facecolor()]
                if len(e["colours"]) == 1:
                    e["colours"] *= len(e["pts"])
            else:
                x, y, z = a._vec[:3]
                e["tri"] = [[[fx(x[i], 100), fx(y[i], 100), fx(z[i], 1000)] for i in range(3 * k, 3 * k + 3)] for k in range(len(x) // 3)]
        c.ev(**e)
    finally:
        plt.close("all")


def plain(c, rng):
    """data that is no polar diagram is drawn as it is"""
    which, scatter, n = rng.choice(["hro polar", "hro flat", "hro color gradient", "hro 3d"]), rng.random() < .5, rng.randint(0, 4)
    d3 = which == "hro 3d"
    xs = [[rng.randint(0, 6000) for _ in range(n)] for _ in range(3 if d3 else 2)]
    a = [np.array(x, float) / 1000 if rng.random() < .5 else [t / 1000 for t in x] for x in xs]
    one = which == "hro flat" and not scatter and rng.random() < .3
    if one:
        a, xs = a[1:], [[1000 * i for i in range(n)], xs[1]]

    def go():
        fig = plt.figure()
        ax = fig.add_subplot(projection=which)
        (ax.scatter if scatter else ax.plot)(*a)
        return ax
    try:
        st, ax = vf.call(go)
        pts = []
        if st == "ok":
            if d3:
                got = ax.collections[0]._offsets3d if scatter else ax.lines[0]._verts3d
            else:
                got = ax.collections[0].get_offsets().T if scatter or which == "hro color gradient" else ax.lines[0].get_data()
            pts = [[fx(t, 1000) for t in p] for p in zip(*[np.ma.filled(np.ma.asarray(g, float), np.nan) for g in got])]
        c.ev(op="plain", out=vf.outcome(st, ax), pts=pts, given=[list(p) for p in zip(*xs)])
    finally:
        plt.close("all")


def empty(c, rng):
    """no wind speed asked for: nothing is drawn"""
    d = rng.choice([rnd_cloud(rng, [4, 5, 6]), dict(kind="table", ws=[5000, 6000], wa=[0, 10000], bsp=[[0, 10], [20, 30]])])
    pd = build(d)
    polar, scatter = rng.random() < .5, rng.random() < .4
    kw = dict(ws=[], use_convex_hull=rng.random() < .5, colors=rng.choice([("green", "red"), "blue"]))
    try:
        st, v = vf.call(draw, rng, polar, scatter, pd, **kw)
        e = dict(op="empty", out=vf.outcome(st, v), drawn=0)
        if st == "ok":
            e["drawn"] = sum(len(p) for li in seen(v[1], polar, scatter)[0] for p in li)
        c.ev(**e)
    finally:
        plt.close("all")


R, G, Y, B, K, Z = [1000, 0, 0], [0, 502, 0], [200, 400, 600], [0, 0, 1000], [0, 0, 0], [1000, 1000, 0]


def rnd_col(rng, W):
    k = rng.choice(["one", "two", "two", "list", "pairs"])
    if k == "one":
        return dict(kind=k, cs=[rng.choice([R, G, Y, K])], at=[])
    if k == "two":
        return dict(kind=k, cs=rng.sample([R, G, Y, B, K, Z], 2), at=[])
    if k == "list":
        return dict(kind=k, cs=rng.sample([R, G, Y, Z, K], rng.choice([1, 3, 4])), at=[])
    at = rng.sample(sorted(set(W)), rng.randint(1, min(3, len(set(W)))))
    return dict(kind=k, cs=rng.sample([R, G, Y, Z, K], len(at)), at=at)


def rnd_cloud(rng, ws, near=True):
    at = list({(rng.choice(ws), 10 * rng.randint(0, 35)) for _ in range(rng.randint(1, 8))})
    rng.shuffle(at)
    return dict(kind="cloud", pts=[[1000 * x, 1000 * y, 10 * rng.choice([0, rng.randint(1, 900), rng.randint(1, 900), rng.randint(1, 900)])] for x, y in at])


def main(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    for h in c.gen("MCPlot", limit=c.n(120, 1200)):
        plot(c, rng, h["d"], h["ws"], h["n"], h["col"], h["polar"], h["scatter"])
    for _ in range(c.n(120, 1500)):
        kind = rng.choice(["table", "cloud", "curve", "multi", "multi"])
        if kind == "multi":
            subs = [rnd_cloud(rng, [5, 6, 7]) if rng.random() < .7 else rnd(rng, "curve") for _ in range(rng.randint(1, 3))]
            d = dict(kind=kind, subs=subs, sails=rng.sample(["jib", "spi", "gen", "Sail 7"], len(subs)))
        else:
            d = rnd_cloud(rng, [4, 5, 6, 7]) if kind == "cloud" else rnd(rng, kind)
        ws = [rng.choice(d["ws"]) for _ in range(rng.choice([0, 1, 2, 3, 4]))] if kind == "table" else [1000 * rng.randint(3, 9) for _ in range(rng.choice([1, 2, 3, 4]))]
        if kind != "table" and rng.random() < .25:      # speeds close to each other
            k = rng.choice([10, 20])
            ws = [6000 + k * x for x in rng.sample(range(-3, 4), len(ws))]
        if rng.random() < .6:
            ws = sorted(ws)
        n = rng.choice([0, 0, 2]) if all(x % 1000 == 0 for x in ws) and kind in ("curve", "cloud") and len(ws) > 1 else 0
        W = ws or (d["ws"] if kind == "table" else [5000])
        col = rnd_col(rng, W)
        if col["kind"] == "pairs" and (n or len(set(ws)) < len(ws)):
            n, ws = 0, sorted(set(ws))
        plot(c, rng, d, ws, n, col, rng.random() < .5, rng.random() < .3)
    for _ in range(c.n(80, 1500)):
        ws = [5, 6, 7]
        d = rnd_cloud(rng, ws)
        if rng.random() < .3:  # around the boat, dead ahead included
            s = rng.choice([[0], [350, 10], [0, 10], [350, 0]]) + [90 + 10 * rng.randint(0, 6), 200 + 10 * rng.randint(0, 6)]
            d = dict(kind="cloud", pts=[[6000, 1000 * x, 10 * rng.randint(300, 900)] for x in s])
            rng.shuffle(d["pts"])
        if rng.random() < .3:
            d = dict(kind="multi", subs=[d, rnd_cloud(rng, ws)], sails=["jib", "spi"])
        elif rng.random() < .2:
            A = sorted(rng.sample(range(36), rng.randint(1, 8)))
            d = dict(kind="table", ws=[5000, 6000, 9000], wa=[10000 * x for x in A], bsp=[[10 * rng.randint(0, 900) for _ in range(3)] for _ in A])
        plot(c, rng, d, [rng.choice(d["ws"]) if d["kind"] == "table" else 6000], 0, dict(kind="one", cs=[R], at=[]), rng.random() < .5, rng.random() < .2, hull=True)
    for _ in range(c.n(60, 800)):
        if rng.random() < .5:
            d = rnd_cloud(rng, [3, 5, 7, 9])
            if rng.random() < .3:  # drifting backwards
                d["pts"] = [[x, y, rng.choice([-1, 1]) * b] for x, y, b in d["pts"]]
        else:
            n, m = rng.randint(1, 4), rng.randint(1, 5)
            d = dict(kind="table", ws=[1000 * x for x in sorted(rng.sample(range(1, 20), n))], wa=[10000 * x for x in sorted(rng.sample(range(36), m))], bsp=[[10 * rng.randint(0, 900) for _ in range(n)] for _ in range(m)])
            if rng.random() < .2:
                d["bsp"] = [[3000] * n for _ in range(m)]
            elif rng.random() < .25:       # speeds close to each other
                d["bsp"] = [[3000 + 10 * rng.randint(0, 3) for _ in range(n)] for _ in range(m)]
        space(c, rng, d, rng.choice([dict(kind="one", cs=[rng.choice([R, Y])], at=[]), dict(kind="two", cs=rng.sample([R, G, Y, B], 2), at=[])]), rng.choice(["gradient", "space"]))
    for _ in range(c.n(25, 400)):
        # positions in the plane of the surface have to differ
        n = rng.randint(2, 4)
        A = sorted({rng.randint(9 * k, 9 * k + 8) for k in range(4)} | set(rng.sample(range(36), rng.randint(0, 4))))
        b = rng.sample(range(5, 90), n * len(A))
        d = dict(kind="table", ws=[1000 * x for x in sorted(rng.sample(range(1, 20), n))], wa=[10000 * x for x in A], bsp=[[100 * b.pop() for _ in range(n)] for _ in A])
        if rng.random() < .3:
            d = dict(kind="cloud", pts=[[w, a, v] for a, r_ in zip(d["wa"], d["bsp"]) for w, v in zip(d["ws"], r_)])
        space(c, rng, d, rng.choice([dict(kind="one", cs=[rng.choice([R, Y])], at=[]), dict(kind="two", cs=rng.sample([R, G, Y, B], 2), at=[])]), "surface")
    for _ in range(c.n(30, 300)):
        plain(c, rng)
    for _ in range(c.n(10, 100)):
        empty(c, rng)
    c.validate("TracePlot")
