"""Hash-consed symbolic terms with normalising constructors.

Terms denote the values a program computes; two terms that are the same Python object denote the same
value for every input.  Elementwise arithmetic is kept as polynomials over atoms (rational coefficients,
rational exponents), matrix products as flattened chains with transpositions pushed to the leaves,
integer divisions / minima / comparisons in canonical forms.  (ri.py interprets terms over random structures to decide
equalities the normal forms leave open; the package itself is never run.)
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_TABLE = {}


class _Attr(dict):
    """what is remembered about terms depends on these: any change drops it"""
    version = 0

    def __setitem__(self, k, v):
        if self.get(k) != v:
            self.changed()
        dict.__setitem__(self, k, v)

    def pop(self, k, d=None):
        self.changed()
        return dict.pop(self, k, d)

    def changed(self):
        self.version += 1
        for m in _MEMOS:
            m.clear()


_MEMOS = []


def memoised(f):
    memo = {}
    _MEMOS.append(memo)

    def g(t):
        r = memo.get(t, memo)
        if r is memo:
            r = f(t)
            memo[t] = r
        return r
    g.__doc__ = f.__doc__
    return g


ATTR = _Attr()          # attributes of symbols: name -> dict(kind=, shape=, pos=, nonneg=, sym=, notnone=)


LEAVES = ("const", "sym", "ext", "it", "obj", "fn", "bv")
OPEN_LEAVES = ("sym", "it", "obj", "bv")


def _flat(a):
    out = []
    for x in a:
        if type(x) is T:
            out.append(x)
        elif type(x) is tuple:
            out.extend(_flat(x))
    return out


class T(object):
    __slots__ = ("op", "args", "id", "mask", "height", "kids")

    def __init__(self, op, args, id):
        self.op = op
        self.args = args
        self.id = id
        self.height = h = args[0] + 1 if op == "bv" else 0
        if op in LEAVES:
            # a filter for "which leaves occur here": equal bits may clash, absent bits are certain
            self.mask = 1 << (id % 1021) if op in OPEN_LEAVES else 0
            self.kids = () if op in ("const", "bv", "it", "sym") else tuple(_flat(args))
        else:
            k = 0
            self.kids = tuple(_flat(args))
            for x in self.kids:
                k |= x.mask
                if x.height > h:
                    h = x.height
            self.mask = k
            self.height = h

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def norm(c):
    """integers as int, other rationals as Fraction"""
    if type(c) is int:
        return c
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


def ratio(a, b):
    if b == 1:
        return a
    return norm(Fraction(a) / b)


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args, len(_TABLE))
        _TABLE[key] = t
    return t


def C(v):
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return mk("ext", "numpy.inf" if v > 0 else "numpy.nan")
            v = Fraction(repr(v))
        v = norm(v)
        return mk("const", "num", v)
    if v is None:
        return mk("const", "none", None)
    if v is Ellipsis:
        return mk("const", "ellipsis", Ellipsis)
    return mk("const", type(v).__name__, v)


NONE, TRUE, FALSE, ZERO, ONE = C(None), C(True), C(False), C(0), C(1)
INF = mk("ext", "numpy.inf")


def isconst(t):
    return t.op == "const"


def isnum(t):
    return t.op == "const" and t.args[0] == "num"


def numval(t):
    return t.args[1]


def isstr(t):
    return t.op == "const" and t.args[0] == "str"


def sym(name, **attr):
    at = ATTR.get(name)
    if at is None:
        ATTR[name] = dict(attr)
    elif attr and any(k not in at or at[k] != v for k, v in attr.items()):
        ATTR[name] = dict(at, **attr)
    return mk("sym", name)


def tup(items):
    return mk("tuple", *items)


def lst(items):
    return mk("list", *items)


# ---------------------------------------------------------------- traversal
def children(t):
    return t.kids


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def occurs(x, t):
    if x.mask & ~t.mask:
        return False
    if t is x:
        return True
    return any(y is x for y in subterms(t))


BINDERS = ("Sum", "Vec", "Build", "Scatter", "Filter", "Rec", "Least")


def _map_args(args, f):
    out = []
    for a in args:
        if isinstance(a, T):
            out.append(f(a))
        elif isinstance(a, tuple):
            out.append(_map_args(a, f))
        else:
            out.append(a)
    return tuple(out)


def subst(t, m, memo=None):
    """Replace sub-terms (dict term->term) and re-normalise."""
    if not m:
        return t
    if memo is None:
        memo = {}
    masks = set(k.mask for k in m)
    avoid = 0
    for v in m.values():
        avoid |= v.mask
    if len(masks) > 6 and 0 not in masks:
        any_ = 0
        for k in masks:
            any_ |= k
        masks = None

    def go(x):
        xm = x.mask
        if masks is None:
            if not (xm & any_):
                return x
        else:
            for k in masks:
                if not (k & ~xm):
                    break
            else:
                return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ("const", "sym", "ext", "it", "obj", "fn", "bv"):
            memo[x] = x
            return x
        if x.op in ("Sum", "Vec", "Build", "Scatter", "Rec", "Least"):
            it, parts = open_cached(x, avoid)
            new = tuple(go(p) for p in parts)
            r = x if new == parts else close_binder(x.op, it, new)
        else:
            na = _map_args(x.args, go)
            r = x if na == x.args else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def replace_fn(t, f, memo=None):
    """Bottom-up rewriting with f(term)->term or None."""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("const", "sym", "ext", "it", "obj", "fn", "bv"):
            y = x
        elif x.op in ("Sum", "Vec", "Build", "Scatter", "Rec", "Least"):
            it, parts = open_cached(x)
            new = tuple(go(p) for p in parts)
            y = x if new == parts else close_binder(x.op, it, new)
        else:
            na = _map_args(x.args, go)
            y = x if na == x.args else rebuild(x.op, na)
        r = f(y)
        if r is None:
            r = y
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh_it(tag="q"):
    _fresh[0] += 1
    return mk("it", "%s%d" % (tag, _fresh[0]))


def _height(t):
    """one more than the highest bound variable in t"""
    return t.height


def close_binder(op, it, parts):
    """parts: (n, body...) ; n does not depend on it.  Sum/Vec/Build: (n, body); Scatter: (base, n, idx, val, )"""
    if op == "Sum":
        return mk_sum(parts[0], it, parts[1])
    if op in ("Vec", "Build"):
        n, body = parts
        # eta: Build(len(s), s[i]) = s
        if body.op == "elem" and body.args[1] is it and not occurs(it, body.args[0]) and length(body.args[0]) is n:
            return body.args[0]
        k = _height(body)
        bv = mk("bv", k)
        return mk(op, n, k, _rawsub(body, it, bv))
    if op == "Filter":
        n, cond, body = parts
        k = max(_height(cond), _height(body))
        bv = mk("bv", k)
        return mk(op, n, k, _rawsub(cond, it, bv), _rawsub(body, it, bv))
    if op == "Scatter":
        base, n, idx, val = parts
        k = max(_height(idx), _height(val))
        bv = mk("bv", k)
        return mk(op, base, n, k, _rawsub(idx, it, bv), _rawsub(val, it, bv))
    if op == "Rec":
        # value of component c after n steps of the recurrence; the components before a step are st(it, i, shape, kind)
        n, c, inits, bodies = parts
        k = _height(bodies)
        c = c.args[0] if isinstance(c, T) else c
        return mk("Rec", n, k, c, inits, _rawsub(bodies, it, mk("bv", k)))
    if op == "Least":
        # the smallest number for which a condition does not hold
        k = _height(parts[0])
        return mk("Least", k, _rawsub(parts[0], it, mk("bv", k)))
    raise ValueError(op)


_RAW = {}
_MEMOS.append(_RAW)


def _rawsub(t, it, bv):
    """substitution without renormalisation decisions changing shape (plain rename)"""
    im = it.mask
    if im & ~t.mask:
        return t
    memo = _RAW.get((it, bv))
    if memo is None:
        memo = _RAW[(it, bv)] = {}

    def go(x):
        if x is it:
            return bv
        if im & ~x.mask:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("const", "sym", "ext", "it", "obj", "fn", "bv"):
            r = x
        else:
            na = _map_args(x.args, go)
            if na == x.args:
                r = x
            elif x.op in BINDERS:
                r = mk(x.op, *na)
            else:
                r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


_OPEN = {}
_MEMOS.append(_OPEN)


def open_cached(t, avoid=0):
    """open_binder with one index per binder; `avoid`: leaves that may not be captured"""
    r = _OPEN.get(t)
    if r is None:
        r = _OPEN[t] = open_binder(t)
    if r[0].mask & avoid:
        return open_binder(t)
    return r


def open_binder(t, it=None):
    if it is None:
        it = fresh_it()
    if t.op in ("Sum", "Vec", "Build"):
        n, k, body = t.args
        return it, (n, _rawsub(body, mk("bv", k), it))
    if t.op == "Filter":
        n, k, cond, body = t.args
        bv = mk("bv", k)
        return it, (n, _rawsub(cond, bv, it), _rawsub(body, bv, it))
    if t.op == "Scatter":
        base, n, k, idx, val = t.args
        bv = mk("bv", k)
        return it, (base, n, _rawsub(idx, bv, it), _rawsub(val, bv, it))
    if t.op == "Rec":
        n, k, c, inits, bodies = t.args
        return it, (n, mk("comp", c), inits, _rawsub(bodies, mk("bv", k), it))
    if t.op == "Least":
        return it, (_rawsub(t.args[1], mk("bv", t.args[0]), it),)
    raise ValueError(t.op)


def mk_sum(n, it, body):
    """Sum_{it<n} body"""
    if not occurs(it, body):
        return mul(n, body)
    p = to_poly(body)
    const_part, groups, var = {}, {}, {}
    for m, c in p.items():
        out_ = tuple((a, e) for a, e in m if not occurs(it, a))
        in_ = tuple((a, e) for a, e in m if occurs(it, a))
        if not in_:
            const_part[m] = c
        else:
            groups.setdefault((out_), {})[in_] = c
    res = ZERO
    if const_part:
        res = mul(n, from_poly(const_part))
    for out_, g in groups.items():
        # one sum per inner monomial so that linear splitting is canonical
        for in_, c in g.items():
            b = from_poly({in_: 1})
            s = _count(n, it, in_)
            if s is not None:
                pass
            elif b is it:
                s = mul(mul(n, sub(n, ONE)), C(Fraction(1, 2)))
            else:
                k = _height(b)
                s = mk("Sum", n, k, _rawsub(b, it, mk("bv", k)))
            res = add(res, mul(from_poly({out_: c}), s))
    return res


def _count(n, it, in_):
    """number of it < n with it > c (or it < c), c a number"""
    if len(in_) != 1 or in_[0][1] != 1:
        return None
    a = in_[0][0]
    if a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO:
        a = a.args[0]
    if a.op != "pos":
        return None
    d = to_poly(a.args[0])
    k = d.get(((it, 1),))
    c = d.get((), 0)
    if k is None or len(d) > 2 or (len(d) == 2 and () not in d) or abs(k) != 1 or c.denominator != 1:
        return None
    if k == 1:                       # it > -c
        m = 1 - c
        if m <= 0:
            return n
        return ite(pos(sub(n, C(m - 1))), sub(n, C(m)), ZERO)
    if c <= 0:                       # it < c
        return ZERO
    return minimum(n, C(c))


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const":
        if t.args[0] == "num":
            return {(): t.args[1]} if t.args[1] else {}
        if t.args[0] == "bool":
            return {(): 1} if t.args[1] else {}
    if t.op == "not":
        d = {(): 1}
        for m, c in to_poly(t.args[0]).items():
            d[m] = d.get(m, 0) - c
            if not d[m]:
                del d[m]
        return d
    return {((t, 1),): 1}


def from_poly(d):
    d = {m: c if type(c) is int else norm(c) for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(d) > 1:
        # row vectors broadcast like plain vectors in sums
        nd = None
        for m in list(d):
            if len(m) == 1 and m[0][0].op == "row" and m[0][1] == 1:
                nm = ((m[0][0].args[0], 1),)
                c = d.pop(m)
                d[nm] = d.get(nm, 0) + c
        d = {m: c for m, c in d.items() if c}
    return mk("poly", tuple(sorted(d.items(), key=_mono_key)))


def _mono_key(mc):
    return tuple((a.id, e) for a, e in mc[0])


def _mul_mono(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = [(a, e) for a, e in d.items() if e]
    if len(r) > 1:
        r2 = {}
        for a, e in r:
            if a.op == "row":
                a = a.args[0]
            r2[a] = r2.get(a, 0) + e
        r = [(a, e) for a, e in r2.items() if e]
        # 0/1-valued atoms are idempotent
        r = [(a, 1 if (e > 1 and e.denominator == 1 and isbool(a)) else e) for a, e in r]
    elif r and r[0][1] > 1 and isbool(r[0][0]):
        r = [(r[0][0], 1)]
    return tuple(sorted(r, key=lambda x: x[0].id))


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE or a is TRUE:
        return b if not isbool(b) or a is ONE else b
    if b is ONE:
        return a
    p, q = to_poly(a), to_poly(b)
    # cancellation with inverse polynomials
    for x, y in ((p, q), (q, p)):
        if len(x) == 1 and len(y) > 1:
            (m, c), = x.items()
            for at, e in m:
                if at.op == "pw" and e < 0:
                    k = _proportional(y, to_poly(at.args[0]))
                    if k is not None:
                        rest = tuple((z, f) for z, f in m if z is not at)
                        if e != -1:
                            rest = tuple(sorted(rest + ((at, e + 1),), key=lambda w: w[0].id))
                        return from_poly({rest: c * k})
    for x, y in ((p, q), (q, p)):
        if len(x) > 1 and len(y) > 1 and any(at.op == "pw" and e < 0 and _proportional(y, to_poly(at.args[0])) is not None
                                            for m in x for at, e in m):
            z = from_poly(y)
            r = ZERO
            for m, c in x.items():
                r = add(r, mul(from_poly({m: c}), z))
            return r
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mul_mono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _expand_pw(r)


def _expand_pw(r):
    """pw(P)^k with positive integer k is expanded"""
    if any(at.op == "pw" and e > 0 and e.denominator == 1 for m in r for at, e in m):
        res = ZERO
        for m, c in r.items():
            t = C(c)
            for at, e in m:
                if at.op == "pw" and e > 0 and e.denominator == 1:
                    t = mul(t, power(at.args[0], e))
                else:
                    t = mul(t, from_poly({((at, e),): 1}))
            res = add(res, t)
        return res
    return from_poly(r)


def _proportional(y, p):
    if set(y) != set(p):
        return None
    k = None
    for m in y:
        r = ratio(y[m], p[m])
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def _root(c, e):
    """c**e for Fractions when rational, else None"""
    if e.denominator == 1:
        return norm(Fraction(c) ** int(e)) if not (c == 0 and e < 0) else None
    if c < 0:
        return None
    num, den = Fraction(c).numerator, Fraction(c).denominator

    def rt(n, k):
        r = int(round(n ** (1.0 / k)))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** k == n:
                return x
        return None
    a, b = rt(num, e.denominator), rt(den, e.denominator)
    if a is None or b is None or not b:
        return None
    if a == 0 and e < 0:
        return None
    return norm(Fraction(a, b) ** int(e.numerator))


def power(a, e):
    if isinstance(e, T):
        if not isnum(e):
            return mk("pow", a, e)
        e = e.args[1]
    e = norm(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    p = to_poly(a)
    if not p:
        return ZERO if e > 0 else mk("pow", a, C(e))
    if len(p) == 1:
        (m, c), = p.items()
        k = _root(c, e)
        if k is not None:
            r = {_mul_mono((), tuple((x, f * e) for x, f in m)): k}
            return _expand_pw(r)
        base = from_poly({m: 1})
        return mul(mk("pow", C(c), C(e)), power(base, e)) if m else mk("pow", C(c), C(e))
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    if e.denominator == 1:
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {x: min(f, d[x]) for x, f in com.items() if x in d and f > 0 and d[x] > 0}
        if com:
            cm = tuple(sorted(com.items(), key=lambda w: w[0].id))
            rest = from_poly({_mul_mono(m, tuple((x, -f) for x, f in cm)): c for m, c in p.items()})
            return mul(from_poly({tuple((x, f * e) for x, f in cm): 1}), power(rest, e))
    lead = sorted(p.items(), key=_mono_key)[0][1]
    if e.denominator == 1:
        q = from_poly({m: ratio(c, lead) for m, c in p.items()})
        return scale(from_poly({((mk("pw", q), e),): 1}), norm(Fraction(lead) ** int(e)))
    return from_poly({((mk("pw", a), e),): 1})


def div(a, b):
    if b is ONE:
        return a
    return mul(a, power(b, -1))


def sgn(p):
    """sign of the leading coefficient of a non-constant polynomial (lexicographic, any fixed order)"""
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=_mono_key)
    if not items:
        return 0
    return 1 if items[-1][1] > 0 else -1


def same(a, b):
    """a == b as rational functions (clears denominators)."""
    if a is b:
        return True
    d = sub(a, b)
    for _ in range(6):
        if d is ZERO:
            return True
        dens = {}
        for m in to_poly(d):
            for at, e in m:
                if at.op == "pw" and e < 0:
                    dens[at] = min(dens.get(at, 0), e)
                elif e < 0:
                    dens[at] = min(dens.get(at, 0), e)
        if not any(at.op == "pw" for at in dens):
            return d is ZERO
        at = sorted((x for x in dens if x.op == "pw"), key=lambda x: x.id)[0]
        q = at.args[0]
        r = ZERO
        for m, c in to_poly(d).items():
            ex = dict(m).get(at, 0)
            rest = tuple((x, e) for x, e in m if x is not at)
            t = from_poly({rest: c})
            k = ex - dens[at]
            if k.denominator != 1:
                return False
            for _i in range(int(k)):
                r_ = to_poly(t)
                t = from_poly({}) if not r_ else _plainmul(t, q)
            r = add(r, t)
        d = r
    return d is ZERO


def _plainmul(a, b):
    r = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m = _mul_mono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


# ---------------------------------------------------------------- kinds
INT_OPS = {"len", "nelem", "floordiv", "dim", "it", "bv", "min0", "nzcount", "ndim", "argmin", "argmaxs", "nselected",
           "trip", "Least", "lastit", "nnodes", "nlines"}
BOOL_OPS = {"pos", "eq", "not", "and", "or", "isinstance", "truth", "in", "exc", "boolarr", "like"}


def isbool(t):
    return t.op in BOOL_OPS or (t.op == "const" and t.args[0] == "bool")


@memoised
def isint(t):
    if t.op == "const":
        return (t.args[0] == "num" and t.args[1].denominator == 1) or t.args[0] == "bool"
    if t.op in INT_OPS:
        return True
    if t.op == "sym":
        return ATTR.get(t.args[0], {}).get("kind") == "int"
    if t.op == "poly":
        return all(c.denominator == 1 and all(isint(a) and e.denominator == 1 and e > 0 for a, e in m)
                   for m, c in t.args[0])
    if t.op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    if t.op == "ext":
        return t is INF
    if t.op == "fld":
        return ATTR.get("fld:" + t.args[1], {}).get("kind") == "int"
    if t.op == "Sum":
        return isint(t.args[2])
    if t.op == "st":
        return t.args[3] == "int"
    if t.op == "Rec":
        c = t.args[2]
        return isint(t.args[3].args[c]) and isint(t.args[4].args[c])
    if isbool(t):
        return True
    if t.op == "elem":
        return False
    return False


@memoised
def nonneg(t):
    if t.op == "const":
        return t.args[0] == "num" and t.args[1] >= 0
    if t.op in ("len", "nelem", "dim", "it", "bv", "nzcount", "ndim", "argmin", "nselected", "trip", "Least", "lastit", "nnodes", "nlines") or isbool(t):
        return True
    if t.op == "sym":
        a = ATTR.get(t.args[0], {})
        return bool(a.get("pos") or a.get("nonneg"))
    if t.op == "poly":
        if all(c >= 0 and all(nonneg(a) or (e.denominator == 1 and e.numerator % 2 == 0) for a, e in m)
               for m, c in t.args[0]):
            return True
        ps = _min_parts(t)
        if len(ps) > 1:
            return all(nonneg(x) for x in ps)
        if isint(t) and dict(t.args[0]).get((), 0) < 0 and positive(add(t, ONE)):
            return True
        q = _mod_bound(t)
        return q is not None and nonneg(q)
    if t.op == "Sum":
        return nonneg(t.args[2])
    if t.op == "floordiv":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t is INF:
        return True
    return False


def _mod_bound(t):
    """a lower bound of an integer polynomial with summand +-K*floordiv(y, K), from 0 <= y - K*floordiv(y, K) <= K - 1"""
    for fd in {a for m, c in t.args[0] for a, e in m if a.op == "floordiv"}:
        y, K = fd.args
        if not (positive(K) and isint(K) and isint(y)):
            continue
        kf = mul(K, fd)
        for s in (1, -1):
            rest = sub(t, kf) if s > 0 else add(t, kf)
            if any(a is fd for m in to_poly(rest) for a, e in m):
                continue
            return add(rest, sub(y, sub(K, ONE))) if s > 0 else sub(rest, y)
    return None


@memoised
def positive(t):
    if t.op == "const":
        return t.args[0] == "num" and t.args[1] > 0
    if t.op == "sym":
        return bool(ATTR.get(t.args[0], {}).get("pos"))
    if t is INF or t.op == "nnodes":
        return True
    if t.op == "ceil" and t.op != "poly":
        return positive(t.args[0])
    if t.op == "pw":
        return positive(t.args[0])
    if t.op == "poly":
        p = to_poly(t)
        if all(c >= 0 for c in p.values()) and nonneg(t):
            return any(c > 0 and all(positive(a) for a, e in m) for m, c in p.items())
        ps = _min_parts(t)
        if len(ps) > 1:
            return all(positive(x) for x in ps)
        if isint(t):
            q = _mod_bound(t)
            return q is not None and positive(q)
    if t.op == "ite":
        return positive(t.args[1]) and positive(t.args[2])
    return False


# ---------------------------------------------------------------- integer division, minimum
def floordiv(a, b):
    if isnum(a) and isnum(b) and numval(b) != 0:
        return C(numval(a) // numval(b))
    if b is ONE:
        return a
    pb = to_poly(b)
    out = ZERO
    if len(pb) == 1:
        (mb, cb), = pb.items()
        rest = {}
        for m, c in to_poly(a).items():
            q = _mono_div(m, mb)
            k = ratio(c, cb)
            if q is not None and k.denominator == 1 and all(isint(x) for x, _ in q) and all(e > 0 for _, e in q):
                out = add(out, from_poly({q: k}))
            elif q is not None and k.denominator != 1 and q == () and c.denominator == 1 and abs(k) > 1:
                w = int(c // cb)
                out = add(out, C(w))
                rest[m] = c - w * cb
            else:
                rest[m] = c
        a = from_poly(rest)
    elif len(pb) > 1:
        k = _proportional(to_poly(a), pb)
        if k is not None and k.denominator == 1:
            return C(k)
    if a is ZERO:
        return out
    if isnum(a) and nonneg(b) and numval(a) == -1:
        return sub(out, ONE)              # -1 // b for b >= 1
    # x//b == -1 - ((-x-1)//b): keep the form with positive leading coefficient
    if sgn(to_poly(a)) < 0:
        return sub(out, add(ONE, floordiv(sub(neg(a), ONE), b)))
    return add(out, mk("floordiv", a, b))


def _mono_div(m, d):
    x = dict(m)
    for a, e in d:
        x[a] = x.get(a, 0) - e
        if x[a] < 0:
            return None
    return tuple(sorted(((a, e) for a, e in x.items() if e), key=lambda w: w[0].id))


def ceildiv(a, b):
    return add(ONE, floordiv(sub(a, ONE), b))


def ceil(t):
    """ceil of a real-valued term; recognises a/b with integer a, b"""
    if isint(t):
        return t
    p = to_poly(t)
    # common inverse factor
    common = None
    for m in p:
        inv = frozenset((a, e) for a, e in m if e < 0)
        common = inv if common is None else common & inv
    ipart = {}
    if not common:
        # integer monomials may be pulled out
        frac = {}
        for m, c in p.items():
            (ipart if isint(from_poly({m: c})) else frac)[m] = c
        if not ipart or not frac:
            return mk("ceil", t)
        return add(from_poly(ipart), ceil(from_poly(frac)))
    den = from_poly({tuple(sorted(((a, -e) for a, e in common), key=lambda w: w[0].id)): 1})
    num = ZERO
    for m, c in p.items():
        num = add(num, from_poly({tuple((a, e) for a, e in m if (a, e) not in common): c}))
    l = 1
    for c in to_poly(num).values():
        l = l * c.denominator // _gcd(l, c.denominator)
    if l != 1:
        num, den = scale(num, l), scale(den, l)
    if den.op == "pw":
        den = den.args[0]
    if isint_loose(num) and isint_loose(den):
        return ceildiv(num, den)
    return mk("ceil", t)


def floor_(t):
    if isint(t):
        return t
    return neg(ceil(neg(t)))


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def isint_loose(t):
    """integer, or of unknown numeric kind (counts given by callers)"""
    for m in to_poly(t):
        for a, e in m:
            if e < 0 or e.denominator != 1:
                return False
            if not isint(a) and not (a.op in ("sym", "elem", "fld", "call", "mu", "ite") or a is INF):
                return False
    return True


def mod(a, b):
    if isnum(a) and isnum(b) and numval(b):
        return C(numval(a) % numval(b))
    if isstr(a):
        return mk("fmt", a, b)
    return sub(a, mul(b, floordiv(a, b)))


def _lexless(a, b):
    """translation invariant total order"""
    d = to_poly(sub(a, b))
    if not d:
        return False
    s = sgn(d)
    if s == 0:
        return d[()] < 0
    return s < 0


def minimum(*args):
    """minimum of scalars/arrays"""
    xs = []
    for a in args:
        if a is INF:
            continue
        xs.extend(_min_parts(a))
    if not xs:
        return INF
    # dedupe, constant-dominated
    out = []
    for x in xs:
        if any(x is y for y in out):
            continue
        out.append(x)
    keep = []
    for i, x in enumerate(out):
        dom = False
        for j, y in enumerate(out):
            if i != j:
                d = sub(x, y)
                if nonneg(d) and not (nonneg(neg(d)) and j > i):
                    dom = True
                    break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    base = keep[0]
    for x in keep[1:]:
        if _lexless(x, base):
            base = x
    ds = sorted((sub(x, base) for x in keep if x is not base), key=lambda t: t.id)
    if len(ds) == 1 and isnum(ds[0]):
        return base if numval(ds[0]) >= 0 else add(base, ds[0])
    return add(base, mk("min0", tuple(ds)))


def _min_parts(a):
    p = to_poly(a)
    ms = [(m, c) for m, c in p.items() if len(m) == 1 and m[0][0].op == "min0" and m[0][1] == 1]
    if len(ms) == 1 and ms[0][1] == 1:
        m0 = ms[0][0]
        rest = from_poly({m: c for m, c in p.items() if m != m0})
        return [rest] + [add(rest, d) for d in m0[0][0].args[0]]
    return [a]


def maximum(*args):
    return neg(minimum(*[neg(a) if a is not INF else mk("ext", "-inf") for a in args]))


# ---------------------------------------------------------------- booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    return mk("not", t)


def and_(*ts):
    s = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == "and" else (t,)):
            if x not in s:
                s.append(x)
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s, key=lambda t: t.id))


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def _prim(p):
    """divide by positive content"""
    g = None
    for c in p.values():
        g = abs(c) if g is None else Fraction(_gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                                               g.denominator * c.denominator)
    if not g:
        return p
    return {m: ratio(c, g) for m, c in p.items()}


def pos(d):
    """d > 0"""
    if isnum(d):
        return TRUE if numval(d) > 0 else FALSE
    if positive(d):
        return TRUE
    if nonneg(neg(d)):
        return FALSE
    p = to_poly(d)
    if isint(d):
        if sgn(p) < 0:
            return not_(pos(sub(ONE, d)))   # d>0  <=>  not (1-d > 0)   (integers)
        # tighten constants: d>0 with content g: floor
        nonc = {m: c for m, c in p.items() if m != ()}
        g = 0
        for c in nonc.values():
            g = _gcd(abs(c.numerator), g)
        if g > 1:
            c0 = p.get((), 0)
            # g*x + c0 > 0 <=> x > -c0/g <=> x - floor(-c0/g) > 0
            fl = ratio(-c0, g).__floor__()
            x = {m: ratio(c, g) for m, c in nonc.items()}
            x[()] = -fl
            return mk("pos", from_poly(x))
        return mk("pos", d)
    return mk("pos", from_poly(_prim(p)))


def lt(a, b):
    if b is INF and a is not INF:
        return TRUE
    if isstr(a) or isstr(b):
        return mk("like", "lt", a, b)
    return pos(sub(b, a))


def le(a, b):
    return not_(lt(b, a))


NUMERIC = {"poly", "len", "dim", "it", "bv", "floordiv", "min0", "ceil", "pow", "sum", "ndim", "Sum", "mm", "argmax", "score"}


def numericish(t):
    if t.op == "const":
        return t.args[0] in ("num", "bool")
    if t.op in NUMERIC:
        return True
    if t.op == "sym":
        return ATTR.get(t.args[0], {}).get("kind") in ("int", "num", "arr")
    return False


def kind(t):
    if t.op == "sym":
        return ATTR.get(t.args[0], {}).get("kind")
    if t.op == "st":
        return t.args[3] or None
    if t.op == "Rec":
        c = t.args[2]
        a, b = kind(t.args[3].args[c]), kind(t.args[4].args[c])
        return a if a == b else None
    if t.op == "const":
        return {"num": "num", "str": "str", "none": "none", "bool": "bool"}.get(t.args[0], "const")
    if t.op in ("tuple", "list", "Build"):
        return "seq"
    if t.op in ("fn", "bound", "cls"):
        return "fn"
    if t.op == "obj":
        return "obj"
    if t.op in ("fmt", "strcat"):
        return "str"
    if isint(t):
        return "int"
    if t.op in NUMERIC:
        return "num"
    if t.op in ("sel", "T", "cast", "store", "eye", "zeros", "ones", "chunk", "cdist", "nz", "hstack", "vstack", "argsort", "ptstore", "addat", "b2i", "bincount", "cat", "vcat", "predict", "proj", "su", "sl", "inv", "invcut", "col", "row", "view", "rand", "shuffled", "diagv", "masksel", "ptsel", "Solve", "unique", "where3", "dev", "eyer", "Scatter", "Vec", "ScatterP", "abs", "exp", "tanh", "Scatter", "delete"):
        return "arr"
    return None


def notnone(t):
    k = kind(t)
    if k not in (None, "none", "any"):
        return True
    if t.op == "ite":
        return notnone(t.args[1]) and notnone(t.args[2])
    if t.op in ("call", "ext", "elem", "Solve", "neurons", "cls", "node", "where", "dict") and t.op != "any":
        return t.op in ("ext", "cls", "node", "where", "dict") or False
    if isbool(t):
        return True
    return False


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        if a.args[0] in ("num", "bool") and b.args[0] in ("num", "bool"):
            return C(Fraction(a.args[1]) == Fraction(b.args[1]))
        return FALSE
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        if notnone(x):
            return FALSE
        if x.op == "ite":
            return ite(x.args[0], eq(x.args[1], NONE), eq(x.args[2], NONE))
        return mk("eq", NONE, x)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and y.op == "ite" and y.args[1].op in ("const", "ext") and y.args[2].op in ("const", "ext", "ite"):
            return ite(y.args[0], eq(y.args[1], x), eq(y.args[2], x))
    if a.op == "ext" and b.op == "ext":
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isstr(x) and (kind(y) not in (None, "str", "any", "const")):
            return FALSE
        if x.op == "ext" and x is not INF and y.op == "const":
            return FALSE
        if x.op in ("ext", "fn", "cls") and y.op == "fn" or x.op == "fn" and y.op == "const":
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if numericish(a) or numericish(b):
        if not (isstr(a) or isstr(b)):
            d = to_poly(sub(a, b))
            if not d:
                return TRUE
            if set(d) == {()}:
                return FALSE
            # boolean atoms: eq(x,1) -> x
            for x, y in ((a, b), (b, a)):
                if isbool(x) and isnum(y):
                    if numval(y) == 1:
                        return x
                    if numval(y) == 0:
                        return not_(x)
            dt = from_poly(d)
            if positive(dt) or positive(neg(dt)):
                return FALSE
            d = _prim(d)
            if sgn(d) < 0:
                d = {m: -c for m, c in d.items()}
            c0 = d.pop((), 0)
            if sgn(d) and len(d) == 1 or True:
                lhs = from_poly(d)
                if c0 == 0 and isint(lhs) and shape(lhs) == () and nonneg(lhs):
                    return not_(pos(lhs))
                return mk("eq", lhs, C(-c0)) if not isbool(lhs) else (lhs if -c0 == 1 else not_(lhs) if c0 == 0 else FALSE)
    if isbool(a) and isbool(b):
        x, y = a, b
        flip = False
        if x.op == "not":
            x, flip = x.args[0], not flip
        if y.op == "not":
            y, flip = y.args[0], not flip
        r = mk("eq", *sorted((x, y), key=lambda t: t.id))
        return not_(r) if flip else r
    return mk("eq", *sorted((a, b), key=lambda t: (0 if t.op != "const" else 1, t.id)))


def assume(t, c, val):
    """t with condition c known to be val"""
    m = {}
    for x, v in facts_of(c, val):
        m[x] = v
    return subst(t, m) if m else t


def facts_of(c, val):
    out = []
    if c.op == "not":
        return facts_of(c.args[0], not val)
    out.append((c, TRUE if val else FALSE))
    if c.op == "pos":
        d = c.args[0]
        for x in ((d, sub(d, ONE)) if isint(d) else (d,)):
            y = minimum(ZERO, x)
            if y.op == "min0":
                out.append((y, ZERO if val else x))
    if c.op == "and" and val:
        for x in c.args:
            out.extend(facts_of(x, True))
    if c.op == "eq" and val:
        a, b = c.args
        if b.op == "const" and a.op not in ("poly",) and not (b.args[0] == "num" and a.op not in ("sym",)):
            out.append((a, b))
        elif a.op == "const" and b.op not in ("poly",) and not (a.args[0] == "num"):
            out.append((b, a))
    return out


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" or b.op == "ite" or occurs(c, a) or occurs(c, b):
        a, b = assume(a, c, True), assume(b, c, False)
        if a is b:
            return a
    if isbool(a) and isbool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if a is TRUE:
            return or_(c, b)
        if b is TRUE:
            return or_(not_(c), a)
    if _arith(a) and _arith(b):
        if c.op == "pos":
            d = c.args[0]
            if same_pos(sub(a, b), d):
                return maximum(a, b)
            if same_pos(sub(b, a), d):
                return minimum(a, b)
            if isint(d):
                # (a-b >= 0) forms: d = a-b+1
                if sub(a, b) is sub(d, ONE):
                    return maximum(a, b)
                if sub(b, a) is sub(d, ONE):
                    return minimum(a, b)
            r = _ceil_rule(c, a, b)
            if r is not None:
                return r
            r = _guard_rule(c, a, b)
            if r is not None:
                return r
        if c.op == "eq":
            r = _ceil_rule(c, a, b)
            if r is not None:
                return r
            r = _guard_rule(c, a, b)
            if r is not None:
                return r
        pa, pb = to_poly(a), to_poly(b)
        common = {m: v for m, v in pa.items() if pb.get(m) == v}
        if common and not (len(common) == len(pa) == len(pb)):
            ra = from_poly({m: v for m, v in pa.items() if m not in common})
            rb = from_poly({m: v for m, v in pb.items() if m not in common})
            return add(from_poly(common), ite(c, ra, rb))
        if b is ZERO and len(pa) == 1:
            (m, k), = pa.items()
            if k != 1 and m:
                return scale(ite(c, from_poly({m: 1}), ZERO), k)
        if a is ZERO and len(pb) == 1:
            (m, k), = pb.items()
            if k != 1 and m:
                return scale(ite(c, ZERO, from_poly({m: 1})), k)
    return mk("ite", c, a, b)


def _arith(t):
    if t.op == "const":
        return t.args[0] == "num"
    return t.op in ("poly",) or numericish(t) or t.op in (
        "sel", "ite", "store", "elem", "T", "acc", "mu", "min0", "sum", "cast", "zeros", "Vec", "fld", "call", "batchterm", "Scatter", "mean", "eye")


def same_pos(x, d):
    if x is d:
        return True
    px, pd = to_poly(x), to_poly(d)
    if px and pd:
        k = _proportional(px, pd)
        return k is not None and k > 0
    return False


def _ceil_rule(c, a, b):
    """q + [N > q*B] == ceildiv(N, B) for q = N//B;   [N % B != 0] likewise"""
    for x in subterms(c):
        if x.op == "floordiv":
            num, den = x.args
            rem = sub(num, mul(den, x))
            cond_pos = pos(rem)
            cond_ne = not_(eq(rem, ZERO))
            # num itself may lack the multiple parts pulled out of the floordiv
            d = sub(a, b)
            if c is cond_pos and d is ONE:
                return add(b, sub(ceildiv(num, den), x))
            if c is not_(cond_pos) and neg(d) is ONE:
                return add(a, sub(ceildiv(num, den), x))
            if c.op == "eq" and c is not_(cond_ne) and neg(d) is ONE:
                return add(a, sub(ceildiv(num, den), x))
            # canonical floordiv(N-1,B)-based remainder tests are not produced by code
    return None


def _guard_rule(c, a, b):
    """[count > 0] guards around sums over that selection are redundant: the sum is zero otherwise"""
    cnt = None
    if c.op == "pos":
        cnt = c.args[0]
        x, other = a, b
    elif c.op == "eq" and c.args[1] is ZERO:
        cnt = c.args[0]
        x, other = b, a
    if cnt is None:
        return None
    if other is ZERO and _vanishes(x, cnt):
        return x
    d = sub(x, other)
    if d is not ZERO and other is not ZERO and _vanishes(d, cnt):
        return add(other, d)
    return None


def _vanishes(x, cnt):
    """x is 0 whenever the mask sum cnt is 0 (and defined)"""
    p = to_poly(x)
    pc = to_poly(cnt)
    if len(pc) != 1:
        return False
    (mc, _), = pc.items()
    if len(mc) != 1 or mc[0][0].op != "sum":
        return False
    s = mc[0][0]
    mask = s.args[0]
    if not isbool(mask):
        return False
    for m, c in p.items():
        ok = False
        for at, e in m:
            if e < 0:
                if at is s:
                    return False
                continue
            if at is s:
                ok = True
            if at.op == "sum" and at.args[1] is s.args[1]:
                for mm_, _c in to_poly(at.args[0]).items():
                    if not any(z is mask for z, _e in mm_):
                        break
                else:
                    ok = True
        if not ok:
            return False
    return True


# ---------------------------------------------------------------- shapes
@memoised
def shape(t):
    """tuple of terms, or None when unknown"""
    op = t.op
    if op == "score":
        return ()
    if op in ("any", "lsres"):
        return None
    if op == "st":
        return t.args[2].args if t.args[2] is not None else None
    if op == "Rec":
        c = t.args[2]
        a, b = shape(t.args[3].args[c]), shape(t.args[4].args[c])
        return a if a is not None and b is not None and len(a) == len(b) else None
    if op == "sym":
        at = ATTR.get(t.args[0], {})
        return () if at.get("shape") is None and at.get("kind") in ("int", "num", "bool") else at.get("shape")
    if op == "const":
        return () if t.args[0] in ("num", "bool") else None
    if op in ("len", "nelem", "dim", "it", "bv", "floordiv", "min0", "ceil", "ndim", "nzcount", "argmin", "argmaxs"):
        return ()
    if op == "poly":
        r = ()
        for m, c in t.args[0]:
            for a, e in m:
                s = shape(a)
                if s is None:
                    return None
                r = bshape(r, s)
                if r is None:
                    return None
        return r
    if op in ("pos", "not", "cast", "exp", "tanh", "abs", "isnan", "sqrt", "log", "ufunc", "boolarr", "pw", "uf1"):
        return shape(t.args[0])
    if op in ("eq", "and", "or", "pow"):
        r = ()
        for a in t.args:
            s = shape(a)
            if s is None:
                return None
            r = bshape(r, s)
            if r is None:
                return None
        return r
    if op == "ite":
        a, b = shape(t.args[1]), shape(t.args[2])
        return a if a == b else None
    if op == "T":
        s = shape(t.args[0])
        return None if s is None else tuple(reversed(s))
    if op == "mm":
        a, b = shape(t.args[0][0]), shape(t.args[0][-1])
        if a is None or b is None:
            return None
        return a[:-1] + (b[1:] if len(b) > 1 else ())
    if op == "col":
        s = shape(t.args[0])
        return None if s is None or len(s) != 1 else (s[0], ONE)
    if op == "row":
        s = shape(t.args[0])
        return None if s is None or len(s) != 1 else (ONE, s[0])
    if op in ("sum", "max", "min", "mean", "argmax", "std", "all", "any", "prod"):
        s = shape(t.args[0])
        ax = t.args[1]
        if ax is NONE:
            return ()
        if s is None or not isnum(ax):
            return None
        k = int(numval(ax))
        if k < 0:
            k += len(s)
        return s[:k] + s[k + 1:]
    if op == "sel":
        return sel_shape(t)
    if op in ("zeros", "ones", "empty"):
        s = t.args[0]
        return tuple(s.args) if s.op == "tuple" else (s,)
    if op == "eye":
        return (t.args[0], t.args[0])
    if op in ("su", "sl", "inv", "invcut"):
        return shape(t.args[0])
    if op == "cdist":
        a, b = shape(t.args[0]), shape(t.args[1])
        return None if a is None or b is None else (a[0], b[0])
    if op == "nz":
        m = shape(t.args[0])
        return (sum_(t.args[0], NONE),)
    if op == "store":
        return shape(t.args[0])
    if op == "Scatter":
        return shape(t.args[0])
    if op == "mask":
        return shape(t.args[0])
    if op == "Vec":
        s = shape(t.args[2])
        return None if s is None else (t.args[0],) + s
    if op == "Sum":
        return shape(t.args[2])
    if op in ("proj", "predict"):
        s = shape(t.args[1])
        if s is None:
            return None
        return (s[0], t.args[2])
    if op == "arange":
        return (t.args[0],)
    if op == "chunk":
        s = shape(t.args[0])
        return None if s is None else (mk("dim", mk("chunkidx", s[0], t.args[1], t.args[2]), 0),) + s[1:]
    if op == "elem":
        a = ATTR.get("elem", {})
        return None
    if op in ("argsort", "ptstore", "addat", "b2i"):
        return shape(t.args[0])
    if op in ("hcat", "cat"):
        q = t.args[0]
        if q.op in ("Build", "Vec"):
            it, (n, body) = open_binder(q)
            b = shape(body)
            if b:
                k = 1 if op == "hcat" and len(b) > 1 else 0
                if not any(occurs(it, d) for j, d in enumerate(b) if j != k):
                    return b[:k] + (mk_sum(n, it, b[k]),) + b[k + 1:]
        return None
    if op == "hstack":
        ss = [shape(x) for x in t.args]
        if any(s is None for s in ss) or not ss:
            return None
        if len(ss[0]) == 1:
            n = ZERO
            for s in ss:
                n = add(n, s[0])
            return (n,)
        if any(len(s) != 2 for s in ss):
            return None
        n = ZERO
        for s in ss:
            n = add(n, s[1])
        return (ss[0][0], n)
    if op == "fld":
        a = ATTR.get("fld:" + t.args[1], {})
        return a.get("shape")
    if op == "call":
        return None
    if op == "diagv":
        s = shape(t.args[0])
        return None if s is None else (s[0],)
    if op in ("trip", "Least", "lastit", "nnodes", "nlines"):
        return ()
    if op == "rand":
        return tuple(t.args[0].args) if isinstance(t.args[0], T) and t.args[0].op == "tuple" else None
    if op == "unique" and len(t.args) == 1:
        return (mk("len", t),)
    if op in ("shuffled", "dev", "sorted", "garbage"):
        return shape(t.args[0])
    if op == "numrow":
        return (t.args[1],)
    if op == "eyer":
        return (t.args[0], t.args[1])
    if op == "vstack":
        ss = [shape(x) for x in t.args]
        if any(s is None or not s for s in ss) or not ss:
            return None
        n = ZERO
        for s in ss:
            n = add(n, s[0] if len(s) > 1 or op == "concat" else ONE)
        return (n,) + (ss[0][1:] if len(ss[0]) > 1 else ss[0])
    if op in ("emax", "emin", "where3", "ufapp"):
        r = ()
        for a in t.args:
            if op == "ufapp" and a is t.args[0]:
                continue
            s = shape(a)
            if s is None:
                return None
            r = bshape(r, s)
            if r is None:
                return None
        return r
    if op == "Solve":
        return shape(t.args[1])
    if op == "nz2":
        return None
    if op == "masksel":
        s, m = shape(t.args[0]), shape(t.args[1])
        if s is None or m is None:
            return None
        return (sum_(t.args[1], NONE),) + s[len(m):]
    if op == "ptsel":
        return shape(t.args[1]) if t.args[1].op not in ("nz2",) else None
    if op == "delete":
        s = shape(t.args[0])
        if s is not None and len(s) == 1:
            k = shape(t.args[1])
            if k == ():
                return (sub(s[0], ONE),)
        if s is not None and isnum(t.args[2]) and is_scalar(t.args[1]):
            k = int(numval(t.args[2]))
            k = k + len(s) if k < 0 else k
            return s[:k] + (sub(s[k], ONE),) + s[k + 1:]
        return None
    return None


def bshape(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = list(a[:len(a) - len(b)])
    for x, y in zip(a[len(a) - len(b):], b):
        if x is y:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            return None
    return tuple(out)


@memoised
def is_scalar(t):
    if isint(t):
        if t.op == "sym" or t.op == "const":
            return True
        if t.op in INT_OPS:
            return True
    if t.op == "sym":
        return ATTR.get(t.args[0], {}).get("kind") in ("int", "num") or ATTR.get(t.args[0], {}).get("shape") == ()
    if t.op == "ext":
        return t is INF
    if t.op == "fld":
        return ATTR.get("fld:" + t.args[1], {}).get("kind") in ("int", "num")
    if t.op == "pw":
        return is_scalar(t.args[0])
    if t.op == "poly":
        return all(is_scalar(a) for m, _ in t.args[0] for a, _e in m)
    s = shape(t)
    return s == ()


LIST_OPS = ("list", "Build", "concat", "removed", "dellist", "range", "Filter")


def islist(t):
    """a Python list (joins and loop states of lists included)"""
    if t.op in LIST_OPS:
        return True
    if t.op == "ite":
        return islist(t.args[1]) or islist(t.args[2])
    if t.op == "sym":
        return ATTR.get(t.args[0], {}).get("kind") == "list"
    if t.op == "Rec":
        return islist(t.args[3].args[t.args[2]])
    if t.op == "store":
        return islist(t.args[0])
    if t.op == "sorted":
        return t.args[0].op == "listof" or islist(t.args[0])
    if t.op == "st":
        return t.args[3] == "list"
    return False


def ndim(t):
    s = shape(t)
    return None if s is None else len(s)


def rows(t):
    s = shape(t)
    if s:
        return s[0]
    return mk("dim", t, 0)


@memoised
def length(t):
    if t.op in ("tuple", "list"):
        return C(len(t.args))
    if t.op in ("Build", "Vec"):
        return t.args[0]
    if t.op == "concat":
        r = ZERO
        for x in t.args:
            r = add(r, length(x))
        return r
    if t.op == "const" and t.args[0] == "str":
        return C(len(t.args[1]))
    s = shape(t)
    if s:
        return s[0]
    if t.op == "nz":
        return sum_(t.args[0], NONE)
    if t.op == "zip":
        return minimum(*[length(x) for x in t.args])
    if t.op == "enumerate":
        return length(t.args[0])
    if t.op == "split":
        return t.args[1]
    return mk("len", t)


# ---------------------------------------------------------------- selection
FULL = ("full",)


def is_full(s):
    return s == FULL or s == ("slice", ZERO, NONE, ONE)


def occurs_any(ops, x):
    return any(y.op in ops for y in subterms(x))


def backwards(lo, hi, st, n):
    """selector of a slice with a negative step of an axis of length n"""
    lo = sub(n, ONE) if lo is NONE else minimum(add(n, lo) if isnum(lo) and numval(lo) < 0 else lo, sub(n, ONE))
    hi = C(-1) if hi is NONE else add(n, hi) if isnum(hi) and numval(hi) < 0 else hi
    it = fresh_it()
    return ("idx", close_binder("Build", it, (maximum(ZERO, ceildiv(sub(lo, hi), neg(st))), add(lo, mul(it, st)))))


def sel(base, sels):
    if base.op == "csvrow" and len(sels) == 1 and sels[0][0] in ("idx", "int"):
        return mk("csvcell", base, sels[0][1])
    """base indexed per axis; sels: tuple of FULL | ('slice',lo,hi,step) | ('idx',t) | ('int',t)  (outer indexing)"""
    sels = list(sels)
    sh = shape(base)
    # canonical slices
    for k, s in enumerate(sels):
        if s[0] == "slice":
            lo, hi, st = s[1], s[2], s[3]
            n = sh[k] if sh is not None and k < len(sh) else None
            if isnum(st) and numval(st) < 0:
                if n is None:
                    if lo is NONE and hi is NONE and base.op in ("tuple", "list") and len(sels) == 1:
                        return mk(base.op, *base.args[::int(numval(st))])
                    sels[k] = s
                    continue
                sels[k] = backwards(lo, hi, st, n)
                continue
            if lo is NONE:
                lo = ZERO
            if st is NONE:
                st = ONE
            if isnum(lo) and numval(lo) < 0 and n is not None:
                lo = add(n, lo)
            if hi is not NONE and isnum(hi) and numval(hi) < 0 and n is not None:
                hi = add(n, hi)
            if hi is not NONE and n is not None:
                hi = minimum(hi, n)
            if hi is NONE and n is not None:
                hi = n
            if lo is ZERO and st is ONE and (hi is NONE or (n is not None and hi is n)):
                sels[k] = FULL
            else:
                sels[k] = ("slice", lo, hi, st)
        elif s[0] == "idx" and s[1].op == "arange" and sh is not None and k < len(sh) and s[1].args[0] is sh[k]:
            sels[k] = FULL
        elif s[0] == "idx" and s[1].op == "arange":
            sels[k] = ("slice", ZERO, s[1].args[0], ONE)
        elif s[0] == "int" and isnum(s[1]) and numval(s[1]) < 0 and sh is not None and k < len(sh):
            sels[k] = ("int", add(sh[k], s[1]))
    while sels and sels[-1] == FULL:
        sels.pop()
    if not sels:
        return base
    # containers
    if base.op in ("tuple", "list") and len(sels) == 1:
        s = sels[0]
        if s[0] == "int" and isnum(s[1]) and s[1].args[1].denominator == 1:
            i = int(numval(s[1]))
            if -len(base.args) <= i < len(base.args):
                return base.args[i]
        if s[0] == "slice" and (isnum(s[1])) and (s[2] is NONE or isnum(s[2])) and isnum(s[3]):
            lo = int(numval(s[1]))
            hi = None if s[2] is NONE else int(numval(s[2]))
            return mk(base.op, *base.args[lo:hi:int(numval(s[3]))])
    if base.op in ("Build", "Vec") and sels[0][0] == "int":
        r = elem(base, sels[0][1])
        return sel(r, sels[1:]) if len(sels) > 1 else r
    if base.op == "Build" and len(sels) == 1 and sels[0][0] == "slice" and sels[0][3] is ONE:
        lo, hi = sels[0][1], sels[0][2]
        n = base.args[0]
        if hi is NONE:
            hi = n
        elif isnum(hi) and numval(hi) < 0:
            hi = add(n, hi)
        it, (n_, body) = open_binder(base)
        it2 = fresh_it()
        return close_binder("Build", it2, (sub(hi, lo), subst(body, {it: add(it2, lo)})))
    if base.op == "chunk" or True:
        pass
    # composition
    if base.op == "sel" and not any(s[0] == "int" for s in base.args[1]):
        inner = list(base.args[1])
        b0 = base.args[0]
        n = max(len(inner), len(sels))
        inner += [FULL] * (n - len(inner))
        outer = sels + [FULL] * (n - len(sels))
        comb = []
        for a, b in zip(inner, outer):
            c = _compose(a, b)
            if c is None:
                comb = None
                break
            comb.append(c)
        if comb is not None:
            return sel(b0, tuple(comb))
    # store/load
    if base.op == "store" and base.args[1] == tuple(sels):
        return base.args[2]
    if base.op == "zeros" and all(s[0] == "int" for s in sels) and sh is not None and len(sels) == len(sh):
        return ZERO
    if base.op == "ones" and all(s[0] == "int" for s in sels) and sh is not None and len(sels) == len(sh):
        return ONE
    if base.op == "arange" and len(sels) == 1:
        if sels[0][0] == "int":
            return sels[0][1]
        if sels[0][0] == "idx":
            return sels[0][1]
    if base.op == "store" and all(s[0] == "int" for s in sels) and len(base.args[1]) == len(sels):
        # different constant positions
        if all(s[0] == "int" and q[0] == "int" and isnum(sub(s[1], q[1])) for s, q in zip(sels, base.args[1])) and \
                any(numval(sub(s[1], q[1])) != 0 for s, q in zip(sels, base.args[1])):
            return sel(base.args[0], tuple(sels))
    if base.op == "ite":
        return ite(base.args[0], sel(base.args[1], tuple(sels)), sel(base.args[2], tuple(sels)))
    # row-wise operations commute with row selections
    if len(sels) == 1 and sels[0][0] in ("slice", "idx"):
        r = _push_rows(base, sels[0])
        if r is not None:
            return r
    if base.op == "T" and len(sels) <= 2 and not any(s[0] == "int" for s in sels):
        s2 = (sels + [FULL])[:2]
        return transpose(sel(base.args[0], (s2[1], s2[0])))
    if base.op == "mm" and len(sels) <= 2 and not any(s[0] == "int" for s in sels):
        fs = list(base.args[0])
        nd = [ndim(f) for f in fs]
        if len(sels) == 1 or all(x == 2 for x in nd):
            f0 = sel(fs[0], (sels[0],))
            fl = fs[-1] if len(sels) == 1 else sel(fs[-1], (FULL, sels[1]))
            if len(fs) > 1:
                return mm(*([f0] + fs[1:-1] + [fl]))
    if base.op == "cast":
        return mk("cast", sel(base.args[0], tuple(sels)), base.args[1])
    return mk("sel", base, tuple(sels))


def _push_rows(base, s):
    if base.op in ("argmax", "max", "min") and base.args[1] is ONE:
        return rebuild(base.op, (sel(base.args[0], (s,)),) + base.args[1:])
    if base.op == "sum" and base.args[1] is ONE:
        return sum_(sel(base.args[0], (s,)), ONE)
    if base.op in ("proj", "predict"):
        return mk(base.op, base.args[0], sel(base.args[1], (s,)), *base.args[2:])
    if base.op in ("pos", "not"):
        sh = shape(base)
        if sh:
            return rebuild(base.op, (_elemwise_sel(base.args[0], s, sh),))
    if base.op in ("eq",):
        sh = shape(base)
        if sh:
            return eq(_elemwise_sel(base.args[0], s, sh), _elemwise_sel(base.args[1], s, sh))
    if base.op == "poly":
        sh = shape(base)
        if sh:
            return _elemwise_sel(base, s, sh)
    if base.op == "col":
        return col(sel(base.args[0], (s,)))
    return None


def _elemwise_sel(t, s, sh):
    """select rows of an elementwise operand that broadcasts to shape sh"""
    if t.op == "poly":
        res = ZERO
        for m, c in t.args[0]:
            x = C(c)
            for a, e in m:
                x = mul(x, power(_elemwise_sel(a, s, sh), e))
            res = add(res, x)
        return res
    ts = shape(t)
    if ts is None or len(ts) < len(sh) or ts[0] is ONE:
        return t
    return sel(t, (s,))


def _compose(a, b):
    if a == FULL:
        return b
    if b == FULL:
        return a
    if a[0] == "slice":
        lo, hi, st = a[1:]
        if b[0] == "slice":
            if b[3] is ONE and st is ONE:
                nh = hi if b[2] is NONE else (add(lo, b[2]) if hi is NONE else minimum(hi, add(lo, b[2])))
                return ("slice", add(lo, b[1]), nh, ONE)
            return None
        if b[0] == "int":
            return ("int", add(lo, mul(st, b[1])))
        if b[0] == "idx" and st is ONE and lo is ZERO:
            return ("idx", b[1])
        return None
    if a[0] == "idx":
        r = sel(a[1], (b,))
        if b[0] == "int":
            return ("int", r)
        return ("idx", r)
    return None


def slice_len(s, n):
    lo, hi, st = s[1:]
    if hi is NONE:
        hi = n
    if st is ONE:
        return sub(hi, lo)
    return ceildiv(sub(hi, lo), st)


def sel_shape(t):
    base, sels = t.args
    sh = shape(base)
    if sh is None:
        return None
    out = []
    for k, n in enumerate(sh):
        s = sels[k] if k < len(sels) else FULL
        if s == FULL:
            out.append(n)
        elif s[0] == "slice":
            out.append(slice_len(s, n))
        elif s[0] == "idx":
            q = shape(s[1])
            out.append(length(s[1]) if q is None or len(q) != 1 else q[0])
        elif s[0] == "mask":
            out.append(sum_(s[1], NONE))
        elif s[0] == "int":
            pass
    return tuple(out)


def elem(seq, i):
    """element i of a sequence / first-axis element of an array"""
    if seq.op in ("tuple", "list") and isnum(i):
        k = int(numval(i))
        if -len(seq.args) <= k < len(seq.args):
            return seq.args[k]
    if seq.op in ("Build", "Vec"):
        if isnum(i) and numval(i) < 0:
            i = add(seq.args[0], i)
        it, (n, body) = open_binder(seq)
        return subst(body, {it: i})
    if seq.op == "zip":
        return tup([elem(x, i) for x in seq.args])
    if seq.op == "enumerate":
        st = seq.args[1] if len(seq.args) > 1 else ZERO
        return tup([add(i, st), elem(seq.args[0], i)])
    if seq.op == "range":
        a, b, s = seq.args
        return add(a, mul(s, i))
    if seq.op == "split":
        return mk("chunk", seq.args[0], seq.args[1], i)
    if seq.op == "reversed":
        n = length(seq.args[0])
        return elem(seq.args[0], sub(sub(n, ONE), i))
    if seq.op == "ite":
        return ite(seq.args[0], elem(seq.args[1], i), elem(seq.args[2], i))
    if seq.op == "concat" and isnum(i) and numval(i) >= 0:
        k = i
        for x in seq.args:
            n = length(x)
            if isnum(n):
                if numval(k) < numval(n):
                    return elem(x, k)
                k = sub(k, n)
            else:
                break
    if kind(seq) == "arr" or shape(seq):
        return sel(seq, (("int", i),))
    if seq.op == "nz2":
        return mk("nz", seq.args[0], i)
    return mk("elem", seq, i)


# ---------------------------------------------------------------- linear algebra
def transpose(t):
    p = to_poly(t)
    if t.op == "poly":
        res = ZERO
        two = ndim(t) == 2 or any(ndim(a) == 2 or a.op in ("T", "mm") for m in p for a, _ in m)
        for m, c in p.items():
            x = C(c)
            for a, e in m:
                # a vector in a two-dimensional product scales columns; transposed, it scales rows
                x = mul(x, power(col(a) if two and ndim(a) == 1 else _T1(a), e))
            res = add(res, x)
        return res
    return _T1(t)


def _T1(a):
    if is_scalar(a):
        return a
    if a.op == "T":
        return a.args[0]
    if a.op == "mm":
        return mm(*[transpose(f) for f in reversed(a.args[0])])
    if a.op == "col":
        return mk("row", a.args[0])
    if a.op == "row":
        return col(a.args[0])
    if a.op == "su":
        return tri("sl", transpose(a.args[0]))
    if a.op == "sl":
        return tri("su", transpose(a.args[0]))
    if a.op == "eye":
        return a
    if a.op == "inv":
        return mk("inv", transpose(a.args[0]))
    if a.op == "cast":
        return mk("cast", transpose(a.args[0]), a.args[1])
    if a.op == "zeros" and a.args[0].op == "tuple":
        return mk("zeros", tup(reversed(a.args[0].args)), *a.args[1:])
    if ndim(a) == 1:
        return a
    if a.op == "sym" and ATTR.get(a.args[0], {}).get("sym"):
        return a
    if a.op == "acc" and a.args[0] == "HH":
        return a
    if a.op == "ite":
        return ite(a.args[0], transpose(a.args[1]), transpose(a.args[2]))
    if a.op == "sel" and len(a.args[1]) <= 2 and not any(s[0] == "int" for s in a.args[1]) and ndim(a.args[0]) == 2:
        b = transpose(a.args[0])
        if b.op != "T":
            s2 = (list(a.args[1]) + [FULL])[:2]
            return sel(b, (s2[1], s2[0]))
    if a.op == "Sum":
        it, (n, body) = open_binder(a)
        return mk_sum(n, it, transpose(body))
    return mk("T", a)


def _split_scalar(m, c):
    """monomial -> (scalar part as poly dict, matrix atoms)"""
    sc, mat = [], []
    for a, e in m:
        (sc if is_scalar(a) else mat).append((a, e))
    return from_poly({tuple(sc): c}), mat


def mm(*factors):
    if len(factors) == 1:
        return factors[0]
    if len(factors) > 2:
        r = factors[0]
        for f in factors[1:]:
            r = mm(r, f)
        return r
    a, b = factors
    if a is ZERO or b is ZERO:
        return ZERO
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 16:
        return mk("mm", (a, b))
    res = ZERO
    fa = shape(a) if len(pa) > 1 else None
    fb = shape(b) if len(pb) > 1 else None
    for m1, c1 in pa.items():
        s1, x1 = _split_scalar(m1, c1)
        k1 = _spread(x1, fa, 1)
        for m2, c2 in pb.items():
            s2, x2 = _split_scalar(m2, c2)
            k2 = _spread(x2, fb, 0)
            if not k1 and not k2:
                v = _mm1(x1, x2)
            elif k1:
                y = _mono_term(x2) if x2 else ONE
                w = mul(fa[-1], y) if k2 else sum_(y, ZERO)
                v = mul(_mono_term(x1) if x1 else ONE, w)
            else:
                y = _mono_term(x1) if x1 else ONE
                d = ndim(y)
                w = sum_(y, NONE) if d == 1 else col(sum_(y, ONE)) if len(fb) > 1 else sum_(y, ONE)
                v = mul(w, _mono_term(x2) if x2 else ONE)
            res = add(res, mul(mul(s1, s2), v))
    return res


def _spread(x, full, axis):
    """does the summand x of a factor of the given full shape repeat along the contracted dimension?"""
    if full is None or not full:
        return False
    if not x:
        return True
    s = shape(_mono_term(x))
    if s is None:
        return False
    if axis == 1:       # left factor, contracted dimension is its last
        return len(s) == len(full) and s[-1] is ONE and full[-1] is not ONE
    if len(full) == 1:
        return s[0] is ONE and full[0] is not ONE
    return len(s) == 1 or s[0] is ONE and full[0] is not ONE


def _mono_term(ms):
    return from_poly({tuple(sorted(ms, key=lambda w: w[0].id)): 1})


def _mm1(x1, x2):
    if not x1 or not x2:
        return _mono_term(list(x1) + list(x2))
    fs1 = list(x1[0][0].args[0]) if len(x1) == 1 and x1[0][1] == 1 and x1[0][0].op == "mm" else [_mono_term(x1)]
    fs2 = list(x2[0][0].args[0]) if len(x2) == 1 and x2[0][1] == 1 and x2[0][0].op == "mm" else [_mono_term(x2)]
    # column scaling (1-d atoms) of the last left factor moves to the first right factor
    last = fs1[-1]
    if last.op == "poly" and len(last.args[0]) == 1:
        (m, c), = last.args[0]
        if any(ndim(a) == 2 or a.op in ("T", "mm") for a, _ in m):
            vec = [(a, e) for a, e in m if ndim(a) == 1]
            if vec:
                rest = [(a, e) for a, e in m if ndim(a) != 1]
                fs1[-1] = _mono_term(rest)
                f = fs2[0]
                for a, e in vec:
                    f = mul(f, power(col(a), e))
                fs2[0] = f
                sh, sv = shape(fs1[-1]), shape(vec[0][0])
                if sh is not None and sv is not None and len(sh) == 2 and sh[1] is ONE and sv[0] is not ONE:
                    # the left factor repeats along the contracted dimension
                    right = mm(*fs2)
                    if ndim(right) == 2:
                        return mul(mm(*fs1), sum_(right, ZERO))
                return mm(*(fs1 + fs2))
    if fs1[-1].op == "eye":
        return mm(*(fs1[:-1] + fs2)) if len(fs1) > 1 else (mm(*fs2) if len(fs2) > 1 else fs2[0])
    if fs2[0].op == "eye":
        return mm(*(fs1 + fs2[1:]))
    return mk("mm", tuple(fs1 + fs2))


def col(t):
    """vector as a column, distributes over elementwise arithmetic"""
    if t.op == "row":
        t = t.args[0]
    if t.op == "poly":
        res = ZERO
        for m, c in t.args[0]:
            x = C(c)
            for a, e in m:
                x = mul(x, power(col(a), e))
            res = add(res, x)
        return res
    if is_scalar(t) or t.op == "col":
        return t
    if t.op == "cast":
        return mk("cast", col(t.args[0]), t.args[1])
    return mk("col", t)


def symmetric(t):
    return transpose(t) is t


def tri(which, t):
    """strictly upper ('su') / strictly lower ('sl') part, linear"""
    p = to_poly(t)
    res = ZERO
    for m, c in p.items():
        s, mat = _split_scalar(m, c)
        if not mat:
            if m == ():
                return mk(which, t)
            return mk(which, t)
        x = _mono_term(mat)
        if x.op in ("eye", "diagm"):
            continue
        if x.op in ("su", "sl"):
            if x.op == which:
                res = add(res, mul(s, x))
            continue
        if x.op == "zeros":
            continue
        if x.op == "ite":
            res = add(res, mul(s, ite(x.args[0], tri(which, x.args[1]), tri(which, x.args[2]))))
            continue
        if x.op == "Sum":
            it, (n, body) = open_binder(x)
            res = add(res, mul(s, mk_sum(n, it, tri(which, body))))
            continue
        res = add(res, mul(s, mk(which, x)))
    return res


def triu(t, k=0):
    if k == 0:
        return sub(t, tri("sl", t))
    if k == 1:
        return tri("su", t)
    return mk("triu", t, C(k))


def tril(t, k=0):
    if k == 0:
        return sub(t, tri("su", t))
    if k == -1:
        return tri("sl", t)
    return mk("tril", t, C(k))


def symU(t):
    return add(triu(t), transpose(tri("su", t)))


def symL(t):
    return add(tril(t), transpose(tri("sl", t)))


# ---------------------------------------------------------------- reductions
def sum_(t, axis):
    if axis is NONE and is_scalar(t):
        return t
    if t.op == "zeros":
        if axis is NONE:
            return ZERO
    if t.op == "Vec" and axis is NONE:
        it, (n, body) = open_binder(t)
        return mk_sum(n, it, sum_(body, NONE))
    p = to_poly(t)
    if t.op in ("poly", "not"):
        sh = shape(t) if t.op == "poly" else shape(t.args[0])
        # distribute when every monomial has the full shape, or when shape known
        ok = True
        for m in p:
            ms = ()
            for a, e in m:
                s = shape(a)
                ms = bshape(ms, s) if (ms is not None and s is not None) else None
            if sh is None and len(p) > 1:
                ok = False
            if sh is not None and ms != sh and not (axis is NONE):
                ok = False
        if ok or len(p) == 1:
            res = ZERO
            for m, c in p.items():
                s, mat = _split_scalar(m, c)
                if not mat:
                    if sh is None:
                        return mk("sum", t, axis)
                    x = mul(s, size_of(sh, axis))
                else:
                    x0 = _mono_term(mat)
                    x = mul(s, _sum1(x0, axis))
                    if sh is not None and axis is NONE:
                        xs = shape(x0)
                        if xs is None:
                            return mk("sum", t, axis)
                        if xs != sh:
                            if any(q is ONE and r is not ONE for q, r in zip(xs, sh[len(sh) - len(xs):])) or len(xs) < len(sh):
                                f = ONE
                                ys = (ONE,) * (len(sh) - len(xs)) + tuple(xs)
                                for q, r in zip(ys, sh):
                                    if q is not r:
                                        f = mul(f, r)
                                x = mul(x, f)
                res = add(res, x)
            return res
        return mk("sum", t, axis)
    return _sum1(t, axis)


def _sum1(x, axis):
    if axis is NONE or axis is ZERO:
        r = _masked(x)
        if r is not None:
            return sum_(r, axis)
    if x.op == "ones":
        sh = shape(x)
        return size_of(sh, axis)
    if axis is NONE and x.op == "sum":
        return sum_(x.args[0], NONE)
    if axis is ZERO and ndim(x) == 1:
        axis = NONE
    return mk("sum", x, axis)


def _masked(x):
    """sum over rows selected by a mask: E[nz(mask)] -> mask * E"""
    masks = set()
    atoms = [x] if x.op != "poly" else [a for m, _ in x.args[0] for a, _e in m]
    for y in subterms(x):
        if y.op == "sel" and len(y.args[1]) >= 1 and y.args[1][0][0] == "idx" and y.args[1][0][1].op == "nz" \
                and y.args[1][0][1].args[1] is ZERO and ndim(y.args[1][0][1].args[0]) == 1:
            masks.add(y.args[1][0][1].args[0])
        elif y.op == "sel" and len(y.args[1]) >= 1 and y.args[1][0][0] == "mask":
            masks.add(y.args[1][0][1])
    if len(masks) != 1:
        return None
    mask = masks.pop()

    def strip(y):
        if y.op == "sel" and y.args[1] and (
                (y.args[1][0][0] == "idx" and y.args[1][0][1].op == "nz" and y.args[1][0][1].args[0] is mask)
                or (y.args[1][0][0] == "mask" and y.args[1][0][1] is mask)):
            return sel(y.args[0], (FULL,) + y.args[1][1:])
        return None
    z = replace_fn(x, strip)
    sz = shape(z)
    sm = shape(mask)
    if sz is None or sm is None or not sz or sz[0] is not sm[0]:
        return None
    if len(sz) == 1:
        return mul(mask, z)
    if len(sz) == 2:
        return mul(col(mask), z)
    return None


def size_of(sh, axis):
    if axis is NONE:
        r = ONE
        for x in sh:
            r = mul(r, x)
        return r
    k = int(numval(axis))
    return sh[k]


def mean(t, axis):
    sh = shape(t)
    if sh is None:
        return mk("mean", t, axis)
    if is_scalar(t):
        return t
    return div(sum_(t, axis), size_of(sh, axis))


# ---------------------------------------------------------------- rebuild
def _r_sum(t, axis):
    return sum_(t, axis)


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def _r_poly(items):
    res = ZERO
    for m, c in items:
        x = C(c)
        for a, e in m:
            x = mul(x, power(a, e))
        res = add(res, x)
    return res


def _r_pw(p):
    if p.op == "poly":
        return mk("pw", p)
    return p


def _r_min0(ds):
    return minimum(ZERO, *ds)


REBUILD.update({
    "poly": _r_poly, "pw": _r_pw, "min0": _r_min0, "floordiv": floordiv, "ceil": ceil, "not": not_, "and": and_,
    "or": or_, "pos": pos, "eq": eq, "ite": ite, "sel": sel, "elem": elem, "T": transpose, "col": col,
    "mm": lambda fs: mm(*fs), "su": lambda t: tri("su", t), "sl": lambda t: tri("sl", t), "sum": _r_sum,
    "mean": mean, "pow": power, "len": length,
    "dim": lambda t, k: (shape(t)[k] if shape(t) is not None and len(shape(t)) > k else mk("dim", t, k)),
})


def strip_casts(t):
    return replace_fn(t, lambda x: x.args[0] if x.op == "cast" else None)


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "const":
        v = a[1]
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return str(v.numerator) if v.denominator == 1 else ("%g" % float(v))
        return repr(v)
    if op in ("sym",):
        return str(a[0])
    if op == "ext":
        return a[0]
    if op == "it":
        return "#" + str(a[0])
    if op == "bv":
        return "$%d" % a[0]
    if op == "poly":
        ps = []
        for m, c in a[0]:
            fs = [show(x, d) if e == 1 else "%s^%s" % (show(x, d), e) for x, e in m]
            cs = str(c.numerator) if c.denominator == 1 else "%g" % float(c)
            if not fs:
                ps.append(cs)
            elif c == 1:
                ps.append("*".join(fs))
            elif c == -1:
                ps.append("-" + "*".join(fs))
            else:
                ps.append(cs + "*" + "*".join(fs))
        return "(" + " + ".join(ps).replace("+ -", "- ") + ")"
    if op == "mm":
        return "(" + " @ ".join(show(x, d) for x in a[0]) + ")"
    if op == "T":
        return show(a[0], d) + "'"
    if op == "sel":
        ss = []
        for s in a[1]:
            if s == FULL:
                ss.append(":")
            elif s[0] == "slice":
                ss.append("%s:%s" % (show(s[1], d), "" if s[2] is NONE else show(s[2], d)) +
                          ("" if s[3] is ONE else ":" + show(s[3], d)))
            else:
                ss.append(("" if s[0] == "int" else s[0] + " ") + show(s[1], d))
        return "%s[%s]" % (show(a[0], d), ", ".join(ss))
    if op == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if op == "pos":
        return "(%s > 0)" % show(a[0], d)
    if op == "eq":
        return "(%s == %s)" % (show(a[0], d), show(a[1], d))
    if op == "not":
        return "!" + show(a[0], d)

    def sh(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "<" + ", ".join(sh(y) for y in x) + ">"
        return str(x)
    return "%s(%s)" % (op, ", ".join(sh(x) for x in a))
