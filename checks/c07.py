"""C07: fuzzy variables and statements against spec/Fuzzy.tla."""
import ast
import operator
import numpy as np
import vf
from num import fx, q
from hrosailing.core.data import Data
from hrosailing.processing import FuzzyVariable, FuzzyWeigher
from hrosailing.processing.weigher import FuzzyBool

REL = {"gt": operator.gt, "ge": operator.ge, "lt": operator.lt, "le": operator.le, "eq": operator.eq}
KEYS = ["TWS", "TWA", "BSP"]


NAMES = {ast.Gt: "gt", ast.GtE: "ge", ast.Lt: "lt", ast.LtE: "le", ast.Eq: "eq", ast.BitAnd: "and", ast.BitOr: "or"}


def shape(text, ux):
    """the statement which a printed statement denotes, as nested record"""
    def leaf(n):
        if isinstance(n, ast.Subscript):
            k = n.slice.id if isinstance(n.slice, ast.Name) else KEYS[n.slice.value]
            return leaf(n.value)[0], k
        return n.id, ""

    def rec(n):
        if isinstance(n, ast.Expression):
            return rec(n.body)
        if isinstance(n, ast.BinOp):
            return {"o": NAMES[type(n.op)], "l": rec(n.left), "r": rec(n.right)}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            return {"o": "not", "l": rec(n.operand)}
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            name, k = leaf(n.left)
            v = n.comparators[0]
            v = -v.operand.value if isinstance(v, ast.UnaryOp) else v.value
            return {"o": NAMES[type(n.ops[0])], "k": k, "t": q(v / ux, 1)} if name == "x" else {"o": "?"}
        name, k = leaf(n)
        return {"o": "crisp"} if name == "function" else {"o": "?"}
    return rec(ast.parse(text.replace("Fuzzy-Bool", "function"), mode="eval"))


class History:
    """mode 'key': attributes of records; 'idx': columns of an array; 'plain': the variable is the value itself"""

    def __init__(self, c, mode, unit=(1 / 2, 1 / 4)):
        self.c, self.mode, self.vs, self.fs, self.first, self.ws = c, mode, [], [], True, {}
        # the logistic function depends on sharpness times value only: one unit of each, with product 1/8
        self.us, self.ux = unit

    def ev(self, st, val, **k):
        self.c.ev(new=self.first, out=vf.outcome(st, val), **k)
        self.first = False
        return st == "ok"

    def key(self, k):
        return {"key": k, "idx": KEYS.index(k), "plain": None}[self.mode]

    def var(self, s, k, how):
        def make():
            if self.mode == "plain":
                return FuzzyVariable() if s * self.us == 10 and how else FuzzyVariable(s * self.us)
            if how:
                return FuzzyVariable(s * self.us)[self.key(k)]
            return FuzzyVariable(key=self.key(k), sharpness=s * self.us)
        st, v = vf.call(make)
        if self.ev(st, v, op="var", s=s, k=k):
            self.vs.append(v)

    def call(self, v, s):
        st, r = vf.call(self.vs[v - 1], s * self.us)
        self.ev(st, r, op="call", v=v, s=s)
        self.vs[v - 1] = r if st == "ok" else self.vs[v - 1]

    def cmp(self, v, o, t):
        st, f = vf.call(REL[o], self.vs[v - 1], t * self.ux)
        if self.ev(st, f, op="cmp", v=v, o=o, t=t):
            self.fs.append(f)

    def crisp(self, k, t, sub):
        key = self.key(k)
        if key is None:
            st, f = vf.call(FuzzyBool, lambda x: np.where(x >= t * self.ux, 1., 0.))
        elif sub:
            st, f = vf.call(lambda: FuzzyBool(lambda x: float(x >= t * self.ux))[key])
        else:
            st, f = vf.call(FuzzyBool, lambda x: float(x[key] >= t * self.ux))
        if self.ev(st, f, op="crisp", k=k, t=t):
            self.fs.append(f)

    def comb(self, o, a, b=None):
        fn = {"and": operator.and_, "or": operator.or_}.get(o)
        st, f = vf.call(fn, self.fs[a - 1], self.fs[b - 1]) if fn else vf.call(operator.invert, self.fs[a - 1])
        k = {"a": a} if b is None else {"a": a, "b": b}
        if self.ev(st, f, op=o, **k):
            self.fs.append(f)

    def points(self, rng, n):
        return [{k: rng.choice([0, 4, 8, 9, 10, 12, 12, 13, 40, 200, 1000, rng.randint(0, 60), rng.randint(385, 415), rng.randint(392, 404)]) for k in KEYS} for _ in range(n)]

    def eval(self, rng):
        pts = self.points(rng, rng.randint(1, 3))
        if self.mode == "plain":
            pts = [{k: p["TWS"] for k in KEYS} for p in pts]

        def run():
            if self.mode == "plain":
                if rng.random() < .5:
                    a = np.array([p["TWS"] * self.ux for p in pts])
                    r = [list(f(a)) for f in self.fs]
                    return r, [q(x / self.ux, 1) for x in a] == [p["TWS"] for p in pts]
                return [[f(p["TWS"] * self.ux) for p in pts] for f in self.fs], True
            if self.mode == "key":
                recs = [{k: v * self.ux for k, v in p.items()} for p in pts]
                r = [[f(x) for x in recs] for f in self.fs]
                return r, recs == [{k: v * self.ux for k, v in p.items()} for p in pts]
            recs = [np.array([p[k] * self.ux for k in KEYS]) for p in pts]
            r = [[f(x) for x in recs] for f in self.fs]
            return r, [[q(y / self.ux, 1) for y in x] for x in recs] == [[p[k] for k in KEYS] for p in pts]
        with np.errstate(over="ignore"):
            st, r = vf.call(run)
        vals, kept = r if st == "ok" else ([], True)
        self.ev(st, r, op="eval", pts=pts, vals=[[fx(x, 10000) for x in v] for v in vals],
                of=list(range(1, len(self.fs) + 1)), kept=bool(kept))

    def printed(self):
        of, trees = [], []
        for i, f in enumerate(self.fs):
            st, t = vf.call(str, f)
            if st == "ok" and len(t) > 400:
                continue
            st, t = vf.call(shape, t, self.ux) if st == "ok" else (st, t)
            of.append(i + 1)
            trees.append(t if st == "ok" else {"o": "?"})
        if of:
            self.ev("ok", None, op="print", of=of, trees=trees, keyed=self.mode != "plain")

    def weigh(self, rng):
        if self.mode == "plain":
            return
        i, n = rng.randrange(len(self.fs)), rng.randint(0, 4) if rng.random() < .95 else rng.randint(60, 90)
        for _ in range(rng.choice([1, 2])):   # one weigher, several point sets
            self.weigh1(rng, i, self.points(rng, n))

    def weigh1(self, rng, i, pts):
        if self.mode == "key":
            if not pts:
                return
            d = Data()
            ks = KEYS + ["z"]
            rng.shuffle(ks)
            z = rng.choice(["s", None])     # a column which no statement looks at
            for k in ks:
                d.extend(k, [p[k] * self.ux if k != "z" else z for p in pts])
        else:
            d = np.array([[p[k] * self.ux for k in KEYS] for p in pts]).reshape(-1, 3)
        with np.errstate(over="ignore"):
            st, w = vf.call(self.ws.setdefault(i, FuzzyWeigher(self.fs[i])).weigh, d)
        if self.mode == "key":
            kept = all([q(x / self.ux, 1) for x in d[k]] == [p[k] for p in pts] for k in KEYS) and d.n_rows == len(pts)
        else:
            kept = [[q(x / self.ux, 1) for x in r] for r in d] == [[p[k] for k in KEYS] for p in pts]
        self.ev(st, w, op="weigh", pts=pts, vals=[[fx(x, 10000) for x in w]] if st == "ok" else [[]], of=[i + 1], kept=kept)


def main(c):
    rng = c.rng
    for hist in c.gen("MCFuzzy", limit=c.n(350, 8000)):
        h = History(c, rng.choice(["key", "key", "idx"]))
        h.var(20, "TWS", True)
        h.var(4, "TWA", False)
        for e in hist:
            if e["op"] == "call":
                h.call(e["v"], e["s"])
            elif e["op"] == "cmp":
                h.cmp(e["v"], e["o"], e["t"])
            elif e["op"] == "not":
                h.comb("not", e["a"])
            else:
                h.comb(e["op"], e["a"], e["b"])
        if h.fs:
            h.eval(rng)
    for _ in range(c.n(150, 4000)):
        h = History(c, rng.choice(["key", "idx", "plain"]), rng.choice([(1 / 2, 1 / 4), (1 / 2, 1 / 4), (16, 1 / 128), (1 / 32, 4), (256, 1 / 2048)]))
        for _ in range(rng.randint(1, 3)):
            h.var(rng.choice([1, 2, 4, 20, 20, -3]), rng.choice(KEYS), rng.random() < .5)
        for _ in range(rng.randint(2, 14)):
            r, nf = rng.random(), len(h.fs)
            if r < .25 and h.vs:
                h.call(rng.randint(1, len(h.vs)), rng.choice([1, 2, 3, 6, 20, 40, -4]))
            elif (r < .6 or not nf) and h.vs:
                h.cmp(rng.randint(1, len(h.vs)), rng.choice(list(REL)), rng.choice([0, 8, 9, 12, 40, rng.randint(0, 60), 401, 403]))
            elif r < .65:
                h.crisp(rng.choice(KEYS), rng.choice([8, 12]), rng.random() < .5)
            elif r < .8 and nf:
                h.comb(rng.choice(["and", "or"]), rng.randint(1, nf), rng.randint(1, nf))
            elif r < .88 and nf:
                h.comb("not", rng.randint(1, nf))
            elif nf:
                (h.eval if r < .95 else h.weigh)(rng)
        if h.fs:
            h.eval(rng)
            h.weigh(rng)
            h.printed()
    for _ in range(c.n(30, 400)):       # truth values close to 0 and 1, but not there
        h = History(c, rng.choice(["key", "idx", "plain"]))
        h.var(rng.choice([3, 4, 6]), "TWS", rng.random() < .5)
        for _ in range(3):
            h.cmp(1, rng.choice(["gt", "lt"]), rng.randint(396, 412))
        if len(h.fs) == 3:
            for o in ("and", "or"):
                h.comb(o, 1, 2)
                h.comb(o, 3, 1)
            h.comb("and", 4, 3)
            h.eval(rng)
            h.eval(rng)
    c.validate("TraceFuzzy")
