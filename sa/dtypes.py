"""Inference of numpy dtypes over value terms (worlds built with dt=True keep conversions as cast terms).

dt(x) is the set of element types the value may have: "weak" (Python scalars, which never decide a result type), "bool", "int",
"float32", "float64", "any" (decided by the caller: some integer or floating type up to double), None (not known).  The rules are
those of numpy 2 (NEP 50) for the operations the package uses."""
import terms as t
from terms import T

ORDER = {"weak": 0, "bool": 1, "int": 2, "float32": 3, "float64": 4}
UNKNOWN = frozenset([None])
WEAK, BOOL, INT, F4, F8, ANY = (frozenset([x]) for x in ("weak", "bool", "int", "float32", "float64", "any"))


def join2(a, b):
    if a is None or b is None:
        return None
    if "any" in (a, b):
        return "float64" if "float64" in (a, b) else "any"
    if {a, b} == {"int", "float32"}:
        return "float64"
    return a if ORDER[a] >= ORDER[b] else b


def promote(sets):
    out = None
    for s in sets:
        out = s if out is None else frozenset(join2(a, b) for a in out for b in s)
    return out if out is not None else WEAK


def floaty(s):
    return frozenset("float64" if a in ("int", "bool") else a for a in s)


SAME = {"T", "row", "col", "ravel", "squeeze", "stack1", "reshaped", "dev", "asarr", "su", "sl", "triu", "tril", "diagv", "delete",
        "chunk", "masksel", "ptsel", "takend", "sel", "elem", "sorted", "prunedn", "frozenv", "it", "unique", "boolview", "tri"}
PROMOTE = {"mm", "add", "concat", "hstack", "vstack", "hcat", "emin", "emax", "min0", "max0", "einsum"}
BOOLS = {"pos", "eq", "not", "and", "or", "isnan", "truth", "boolarr", "in", "exists", "like"}
INTS = {"arange", "argsort", "argmax", "argmin", "nz", "nz2", "shuffled", "len", "nelem", "dim", "ndim", "int", "floordiv"}
FLOATS = {"inv", "invcut", "Solve", "lsres"}


def parts(a):
    out = []
    for y in a:
        if isinstance(y, tuple):
            out += parts(y)
        elif isinstance(y, T):
            out.append(y)
    return out


class Infer(object):
    def __init__(self, lib, table=()):
        self.lib = lib
        self.memo = dict(table)

    def canon(self, d):
        c = self.lib.dtcanon(d) if isinstance(d, T) else None
        if c is None and isinstance(d, T) and t.isstr(d):
            c = d.args[1]
        if c in ("float32", "float64"):
            return frozenset([c])
        if c in ("float", "double"):
            return F8
        if c in ("bool", "bool_"):
            return BOOL
        if c and c.startswith(("int", "uint")):
            return INT
        if isinstance(d, T) and d.op == "attr" and d.args[1] == "dtype":
            return self(d.args[0])
        return UNKNOWN

    def __call__(self, x):
        if not isinstance(x, T):
            return WEAK
        r = self.memo.get(x)
        if r is None:
            self.memo[x] = UNKNOWN
            r = self.memo[x] = self.infer(x)
        return r

    def infer(self, x):
        op, a = x.op, x.args
        if op == "const":
            return WEAK
        if op == "cast":
            return self.canon(a[1])
        if op == "sym":
            at = t.ATTR.get(a[0]) or {}
            sh = t.shape(x)
            if sh == () or t.isint(x) or at.get("kind") in ("num", "int"):
                return WEAK
            return ANY
        if op == "garbage":
            return frozenset()
        if t.isbool(x):
            return BOOL
        if op in SAME:
            return self(a[0])
        if op in BOOLS:
            return BOOL
        if op in ("len", "nelem", "dim", "ndim"):
            return WEAK
        if op in INTS:
            return INT if op not in ("int",) else WEAK
        if op in FLOATS:
            return floaty(promote([self(y) for y in parts(a)]))
        if op == "ite":
            return self(a[1]) | self(a[2])
        if op == "store":
            return self(a[0])
        if op == "poly":
            return self.poly(x)
        if op in ("pw", "pow"):
            return floaty(self(a[0])) if op == "pow" and not t.isint(a[1]) else self(a[0])
        if op in ("abs", "sign", "floor", "ceil", "round"):
            return self(a[0])
        if op in ("fn", "ufapp", "exp", "tanh", "log", "log10", "sqrt", "sin", "cos", "expit"):
            return floaty(promote([self(y) for y in parts(a)]))
        if op == "cdist":
            return F8
        if op == "rand":
            return F8
        if op in PROMOTE:
            return promote([self(y) for y in parts(a)])
        if op in ("Scatter", "Filter", "chunk"):
            return self(a[0])
        if op == "Rec":
            return self.rec(x)
        if op == "attr" and a[1] == "eps" and a[0].op == "call":
            return UNKNOWN
        return UNKNOWN

    def rec(self, x):
        """least fixpoint over the components of a recurrence"""
        n, k, c, inits, bodies = x.args
        now = [self(y) for y in inits.args]
        bv = t.mk("bv", k)
        states = [y for y in t.subterms(bodies) if y.op == "st" and y.args[0] is bv]
        for _ in range(12):
            sub = Infer(self.lib, {y: now[y.args[1].args[0] if isinstance(y.args[1], T) else y.args[1]] for y in states})
            new = [a | sub(b) for a, b in zip(now, bodies.args)]
            if new == now:
                break
            now = new
        return now[c.args[0] if isinstance(c, T) else c]

    def poly(self, x):
        sets = []
        for mono, c in x.args[0]:
            sets.append(promote([WEAK] + [floaty(self(f)) if not isinstance(e, int) or e < 0 else self(f) for f, e in mono]))
        return promote(sets)
