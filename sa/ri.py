"""Random interpretation of value numbers (Gulwani & Necula, "Discovering affine equalities using random
interpretation", POPL 2003).

Structural equality of normal forms is the proof.  When two value numbers have different normal forms the difference
may only be one of writing (a rewriting the normaliser lacks).  Before a rule calls it a violation, both terms are
interpreted over the same random small domains: only terms that take different values for some interpretation of
their symbols, and that contain no unmodelled part, are reported as different.  The program is never run: what is
interpreted are the analysis' own terms, with uninterpreted functions (projection, solution, random numbers)
replaced by arbitrary fixed functions."""
import hashlib
from fractions import Fraction
import time
import numpy as np
import terms as t
from terms import T, FULL


class Unmodelled(Exception):
    pass


class Undefd(Exception):
    """the interpretation has no value for the term (e.g. an index out of range)"""


class Wrong(Undefd):
    """the program stops here with an error, whatever the rest of it does"""


class Tok(object):
    """opaque value"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Tok) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "Tok%r" % (self.k,)


def h64(*xs):
    return int(hashlib.md5(repr(xs).encode()).hexdigest()[:15], 16)


_free = {}


def freebv(x):
    """bound-variable indices free in x"""
    r = _free.get(x.id)
    if r is not None:
        return r
    if x.op == "bv":
        r = frozenset((x.args[0],))
    else:
        r = frozenset()
        for c in t.children(x):
            r |= freebv(c)
        if x.op in ("Sum", "Vec", "Build"):
            r = freebv(x.args[0]) | (freebv(x.args[2]) - {x.args[1]})
        elif x.op == "Filter":
            r = freebv(x.args[0]) | ((freebv(x.args[2]) | freebv(x.args[3])) - {x.args[1]})
        elif x.op == "Rec":
            r = freebv(x.args[0]) | freebv(x.args[3]) | (freebv(x.args[4]) - {x.args[1]})
        elif x.op == "Least":
            r = freebv(x.args[1]) - {x.args[0]}
        elif x.op == "Scatter":
            r = freebv(x.args[0]) | freebv(x.args[1]) | ((freebv(x.args[3]) | freebv(x.args[4])) - {x.args[2]})
    _free[x.id] = r
    return r


def key(v):
    """hashable image of a value"""
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            v = v.astype(int)
        return ("a", v.shape, tuple(np.round(v.astype(float), 5).ravel().tolist()))
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, float, np.number)):
        return round(float(v), 5)
    if isinstance(v, (list, tuple)):
        return tuple(key(x) for x in v)
    return repr(v)


def close(a, b):
    if isinstance(a, Tok) or isinstance(b, Tok) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (ValueError, TypeError):
            return False
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True))


class Env(object):
    """one interpretation"""

    def __init__(self, seed, sizes=None, funcs=None):
        self.seed = seed
        self.sizes = sizes or {}
        self.funcs = funcs or {}
        self.memo = {}
        self.recs = {}
        self.bv = {}
        self.states = {}
        self.budget = 60000
        self.big = self.scale = self.deadline = None

    # ---- random values
    def rng(self, *k):
        return np.random.RandomState(h64(self.seed, *k) % (2 ** 32))

    def num(self, *k):
        return float(np.round(self.rng(*k).normal(), 3))

    def arr(self, shape, *k):
        return np.round(self.rng(*k).normal(size=shape), 3)

    def sym(self, x):
        name = x.args[0]
        at = t.ATTR.get(name, {})
        k = at.get("kind")
        r = self.rng("sym", name)
        if self.big is not None and (name in ROWS or (self.big[1] and name == "L")) and r.randint(0, 3):
            return int(self.big[0] * r.choice([1, 1, 1, 2]) + r.randint(-1, 4))
        if name in self.sizes:
            v = self.sizes[name]
            return self.val(v) if isinstance(v, T) else v
        if k == "int":
            lo = 1 if at.get("pos") else 0 if at.get("nonneg") else -3
            return int(lo + r.randint(0, 6))
        if k == "num" and not at.get("shape"):
            v = float(np.round(abs(r.normal()) + 0.1 if at.get("pos") else r.normal(), 3))
            return v
        if k == "str":
            return "s:" + name
        if k == "bool":
            return bool(r.randint(0, 2))
        if k == "seq":
            n = int(self.val(at["L"]))
            return [("n", self.seed, name, i) for i in range(n)]
        if k == "ufunc":
            return Tok("uf", name)
        sh = at.get("shape")
        if sh is not None:
            dims = tuple(int(self.val(s)) for s in sh)
            if any(d < 0 for d in dims):
                raise Undefd()
            if at.get("onehot"):
                z = np.zeros(dims)
                if dims[0] and dims[1]:
                    z[np.arange(dims[0]), r.randint(0, dims[1], dims[0])] = 1
                return z
            if at.get("labels"):
                return r.randint(0, 2, dims).astype(float)
            if at.get("perm"):
                p = r.permutation(int(self.val(at["perm"])))
                return p[:dims[0]]
            if at.get("indices"):
                m = int(self.val(at["indices"]))
                p = r.permutation(m)[:dims[0]]
                return p if at.get("unsorted") else np.sort(p)
            if at.get("integer"):
                return r.randint(-3, 4, dims)
            if at.get("bools"):
                return r.randint(0, 2, dims).astype(bool)
            a = np.round(r.normal(size=dims), 3)
            if at.get("pos"):
                a = np.abs(a) + 0.05
            if at.get("nonneg"):
                a = np.abs(a)
            if at.get("sym"):
                a = a + a.T
            if name[:1] in "XTYx" and dims and dims[0] and not at.get("sym") and not at.get("pos"):
                if self.seed % 5 == 3:      # data with some rows of zeros
                    a[r.randint(0, 2, dims[0]).astype(bool)] = 0
                elif self.seed % 5 == 4:    # data with many zeros
                    a = a * (r.randint(0, 3, dims) == 0)
            if self.scale is not None and (name[:1] in "XTYx" or name in ("mean", "std")):
                a = a * self.scale * r.choice([0.3, 1, 3])
            if at.get("flat"):          # some columns (entries) are zero
                a[..., r.randint(0, 2, dims[-1]).astype(bool)] = 0
            return a
        if k == "arr" or k is None:
            raise Unmodelled("symbol %s" % name)
        return Tok("sym", name)

    # ---- evaluation
    def val(self, x):
        fb = freebv(x)
        mk_ = (x.id, tuple((b, self.bv.get(b)) for b in sorted(fb)) if fb else ())
        if mk_ in self.memo:
            r = self.memo[mk_]
            if isinstance(r, Exception):
                raise r
            return r
        self.budget -= 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Unmodelled("evaluation time")
        if self.budget < 0:
            raise Unmodelled("evaluation budget")
        try:
            f = getattr(self, "o_" + x.op, None)
            if f is None:
                raise Unmodelled("operation " + x.op)
            r = f(x)
        except (Unmodelled, Undefd) as e:
            self.memo[mk_] = e
            raise
        except (IndexError, ValueError, TypeError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError, AttributeError) as e:
            e2 = Undefd("%s in %s: %s" % (type(e).__name__, x.op, e))
            self.memo[mk_] = e2
            raise e2
        self.memo[mk_] = r
        return r

    def a(self, x):
        v = self.val(x)
        if isinstance(v, (list, tuple)):
            v = np.asarray(v)
        return v

    def n(self, x):
        v = self.val(x)
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, (float, np.floating)):
            if v != int(v):
                raise Wrong("not an integer")
            return int(v)
        return int(v)

    def o_const(self, x):
        k, v = x.args
        if k == "num":
            return int(v) if v.denominator == 1 else float(v)
        return v

    o_sym = sym

    def o_ext(self, x):
        if x.args[0] == "numpy.inf":
            return float("inf")
        if x.args[0] == "numpy.nan":
            return float("nan")
        if x.args[0] in ("numpy.pi", "math.pi"):
            return float(np.pi)
        if x.args[0] in ("numpy.e", "math.e"):
            return float(np.e)
        return Tok("ext", x.args[0])

    def o_cls(self, x):
        return Tok("cls", x.args[0])

    def o_fn(self, x):
        return Tok("fn", x.args[0][1:3])

    def o_bv(self, x):
        if x.args[0] not in self.bv:
            raise Unmodelled("free bound variable")
        return self.bv[x.args[0]]

    def o_tuple(self, x):
        return [self.val(a) for a in x.args]

    o_list = o_tuple

    def o_concat(self, x):
        r = []
        for a in x.args:
            v = self.val(a)
            r += list(v)
        return r

    def o_listof(self, x):
        return list(self.val(x.args[0]))

    def o_dictv(self, x):
        return {key(self.val(a)): self.val(b) for a, b in x.args[0]}

    def o_poly(self, x):
        r = None
        for m, c in x.args[0]:
            v = float(c) if c.denominator != 1 else int(c)
            for at, e in m:
                y = self.val(at)
                if isinstance(y, list):
                    y = np.asarray(y)
                if isinstance(y, (bool, np.bool_)):
                    y = int(y)
                if isinstance(y, np.ndarray) and y.dtype == bool:
                    y = y.astype(int)
                if y is None or isinstance(y, (str, Tok)):
                    raise Undefd("arithmetic on %r" % (y,))
                if e != 1:
                    with np.errstate(all="ignore"):
                        if e.denominator == 1 and e > 0:
                            y = y ** int(e)
                        else:
                            y = np.asarray(y, dtype=float) ** float(e)
                with np.errstate(all="ignore"):
                    v = v * y
            r = v if r is None else r + v
        return 0 if r is None else r

    def o_pw(self, x):
        return self.val(x.args[0])

    def o_pow(self, x):
        with np.errstate(all="ignore"):
            return np.asarray(self.a(x.args[0]), dtype=float) ** self.a(x.args[1])

    o_powv = o_pow

    def o_it(self, x):
        raise Unmodelled("loop variable")

    # booleans
    def b(self, x):
        v = self.val(x)
        return self.truthy(v)

    def truthy(self, v):
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return bool(v.ravel()[0])
            raise Undefd("truth of an array")
        if isinstance(v, Tok):
            return True
        return bool(v)

    def o_truth(self, x):
        return self.b(x.args[0])

    def o_pos(self, x):
        v = self.a(x.args[0])
        with np.errstate(all="ignore"):
            if isinstance(v, np.ndarray) and v.ndim:
                return v > 1e-9
            return bool(v > 1e-9)

    def o_not(self, x):
        v = self.val(x.args[0])
        if isinstance(v, np.ndarray) and v.ndim:
            return ~(v.astype(bool))
        return not self.truthy(v)

    def o_eq(self, x):
        a, b = self.val(x.args[0]), self.val(x.args[1])
        for u, w in ((a, b), (b, a)):
            if u is None:
                return w is None
            if isinstance(u, (str, Tok)):
                if isinstance(u, Tok) and isinstance(w, str) and u.k and u.k[0] in ("csvcell", "line"):
                    return bool(self.rng("text", u.k, w).randint(0, 2))      # any text may be in the file
                return type(u) is type(w) and u == w
        if isinstance(a, list) and isinstance(b, list):
            return close(a, b)
        a, b = np.asarray(a), np.asarray(b)
        with np.errstate(all="ignore"):
            r = np.abs(a.astype(float) - b.astype(float)) < 1e-9
            r = r | (a == b)
        return r if r.ndim else bool(r)

    def _fold(self, x, f):
        vs = [self.val(a) for a in x.args]
        if any(isinstance(v, np.ndarray) and v.ndim for v in vs):
            r = None
            for v in vs:
                v = np.asarray(v).astype(bool)
                r = v if r is None else f(r, v)
            return r
        return None

    def o_and(self, x):
        try:
            r = self._fold(x, np.logical_and)
        except Undefd:
            r = None
        if r is not None:
            return r
        for a in x.args:
            if not self.b(a):
                return False
        return True

    def o_or(self, x):
        try:
            r = self._fold(x, np.logical_or)
        except Undefd:
            r = None
        if r is not None:
            return r
        return any(self.b(a) for a in x.args)

    def o_boolarr(self, x):
        v = self.a(x.args[0])
        return np.asarray(v).astype(bool)

    def o_ite(self, x):
        return self.val(x.args[1]) if self.b(x.args[0]) else self.val(x.args[2])

    def o_exists(self, x):
        return bool(self.rng("exists", key(self.val(x.args[0]))).randint(0, 2))

    def o_exc(self, x):
        """whether the guarded statements fail: any answer"""
        if getattr(self, "noexc", False):
            return False
        if len(x.args) > 2 and set(x.args[2]) & {"KeyError", "IndexError", "AttributeError", "ZeroDivisionError", "TypeError", "StopIteration", "NameError"}:
            raise Unmodelled("whether a statement raises " + "/".join(x.args[2]))
        return bool(self.rng("exc", repr(x.args[0]), repr([key(self.val(a)) for a in x.args[1]])).randint(0, 2))

    def o_score(self, x):
        """an arbitrary number that depends on the predictions"""
        v = np.asarray(self.val(x.args[1]), dtype=float).ravel()
        w = np.random.RandomState(h64("score", self.seed) % (2 ** 32)).uniform(1, 2, len(v))
        return 1 + 0.02 * float(np.sin(300 * v.dot(w)))

    def o_in(self, x):
        a, b = self.val(x.args[0]), self.val(x.args[1])
        return any(close(a, y) for y in b)

    # integers
    def o_floordiv(self, x):
        a, b = self.val(x.args[0]), self.val(x.args[1])
        return int(a // b) if np.ndim(a) == 0 else a // b

    def o_ceil(self, x):
        v = self.val(x.args[0])
        if isinstance(v, float) and (v != v or v in (float("inf"), -float("inf"))):
            raise Undefd("ceil of infinity")
        return int(np.ceil(round(float(v), 9))) if np.ndim(v) == 0 else np.ceil(v)

    def o_fceil(self, x):
        return np.ceil(self.a(x.args[0]))

    def o_min0(self, x):
        r = 0
        for d in x.args[0]:
            v = self.val(d)
            r = min(r, v)
        return r

    def o_emin(self, x):
        return np.minimum(self.a(x.args[0]), self.a(x.args[1]))

    def o_emax(self, x):
        return np.maximum(self.a(x.args[0]), self.a(x.args[1]))

    def o_nelem(self, x):
        return int(np.size(self.val(x.args[0])))

    def o_len(self, x):
        return len(self.val(x.args[0]))

    def o_ndim(self, x):
        return np.ndim(self.val(x.args[0]))

    def o_dim(self, x):
        a = x.args[0]
        if a.op == "chunkidx":
            n, k, i = [self.n(q) for q in a.args]
            return len(np.array_split(np.arange(n), k)[i])
        k = x.args[1]
        k = int(t.numval(k)) if isinstance(k, T) else k
        return np.asarray(self.val(a)).shape[k]

    def o_shapeof(self, x):
        return list(np.asarray(self.val(x.args[0])).shape)

    def o_nnodes(self, x):
        return len(self.val(x.args[0]))

    # arrays
    def dims(self, s):
        v = self.val(s)
        if isinstance(v, list):
            r = tuple(int(q) for q in v)
        else:
            r = (int(v),)
        if any(d < 0 for d in r):
            raise Undefd("negative dimension")
        return r

    def o_zeros(self, x):
        return np.zeros(self.dims(x.args[0]))

    def o_ones(self, x):
        return np.ones(self.dims(x.args[0]))

    def o_eye(self, x):
        return np.eye(self.n(x.args[0]))

    def o_eyer(self, x):
        return np.eye(self.n(x.args[0]), self.n(x.args[1]))

    def o_arange(self, x):
        return np.arange(self.n(x.args[0]))

    def o_range(self, x):
        return list(range(*[self.n(a) for a in x.args]))

    def o_T(self, x):
        return np.asarray(self.val(x.args[0])).T

    def o_mm(self, x):
        r = None
        for f in x.args[0]:
            v = np.asarray(self.a(f), dtype=float)
            r = v if r is None else r.dot(v)
        return r

    def o_col(self, x):
        v = np.asarray(self.a(x.args[0]))
        return v.reshape(-1, 1)

    def o_row(self, x):
        v = np.asarray(self.a(x.args[0]))
        return v.reshape(1, -1)

    def o_ravel(self, x):
        return np.asarray(self.a(x.args[0])).ravel()

    def o_squeeze(self, x):
        return np.squeeze(self.a(x.args[0]))

    def o_stack1(self, x):
        return np.asarray(self.a(x.args[0]))[None]

    def o_reshaped(self, x):
        s = x.args[1]
        if not isinstance(s, T):
            raise Unmodelled("reshape")
        return np.asarray(self.a(x.args[0])).reshape([self.n(q) for q in s.args])

    def _red(f):
        def g(self, x):
            ax = x.args[1] if len(x.args) > 1 else t.NONE
            v = np.asarray(self.a(x.args[0]))
            if v.dtype == bool:
                v = v.astype(int)
            if v.dtype == object:
                raise Undefd("ragged array")
            ax = None if ax is t.NONE else self.n(ax)
            with np.errstate(all="ignore"):
                r = f(v, axis=ax)
            return r if np.ndim(r) else (r.item() if hasattr(r, "item") else r)
        return g

    o_sum = _red(np.sum)
    o_max = _red(np.max)
    o_min = _red(np.min)
    o_prod = _red(np.prod)
    o_argmax = _red(np.argmax)
    o_argmin = _red(np.argmin)
    o_mean = _red(np.mean)
    o_std = _red(np.std)
    o_all = _red(np.all)
    o_anyax = _red(np.any)
    o_allax = _red(np.all)
    o_any_ = _red(np.any)
    o_all_ = _red(np.all)
    o_cumsum = _red(np.cumsum)

    def _un(f):
        def g(self, x):
            with np.errstate(all="ignore"):
                r = f(np.asarray(self.a(x.args[0]), dtype=float))
            return r if np.ndim(r) else float(r)
        return g

    o_exp, o_tanh, o_abs, o_log, o_sqrt, o_rint = _un(np.exp), _un(np.tanh), _un(np.abs), _un(np.log), _un(np.sqrt), _un(np.rint)

    def o_isnan(self, x):
        v = self.val(x.args[0])
        return np.isnan(v) if v is not None else False

    def o_cast(self, x):
        v = self.val(x.args[0])
        d = x.args[1]
        if d.op == "ext" and d.args[0] in ("int", "builtins.int", "numpy.int64", "numpy.int32"):
            return np.asarray(v).astype(int) if np.ndim(v) else int(v)
        if d.op == "ext" and d.args[0] in ("bool", "builtins.bool"):
            return np.asarray(v).astype(bool)
        if d.op == "ext" and d.args[0] in NARROW and not isinstance(v, (str, Tok, type(None))):
            z = np.asarray(v).astype(np.int64).astype(d.args[0].rpartition(".")[2]).astype(np.int64)
            return z if z.ndim else int(z)
        return v if not isinstance(v, list) else np.asarray(v)

    def o_asarr(self, x):
        return np.asarray(self.val(x.args[0]))

    def o_dev(self, x):
        return self.val(x.args[0])

    def o_su(self, x):
        return np.triu(np.asarray(self.val(x.args[0])), 1)

    def o_sl(self, x):
        return np.tril(np.asarray(self.val(x.args[0])), -1)

    def o_triu(self, x):
        return np.triu(self.val(x.args[0]), self.n(x.args[1]) if len(x.args) > 1 else 0)

    def o_tril(self, x):
        return np.tril(self.val(x.args[0]), self.n(x.args[1]) if len(x.args) > 1 else 0)

    def o_diagv(self, x):
        return np.diag(np.asarray(self.val(x.args[0]))).copy()

    def o_inv(self, x):
        v = np.asarray(self.val(x.args[0]), dtype=float)
        return np.linalg.inv(v + np.eye(len(v)) * 37.0) if len(v) else v

    def o_invcut(self, x):
        v = np.asarray(self.val(x.args[0]), dtype=float)
        return np.linalg.inv(v + np.eye(len(v)) * 41.0) if len(v) else v

    def o_Solve(self, x):
        A, b = [np.asarray(self.val(a), dtype=float) for a in x.args[:2]]
        if A.ndim != 2 or A.shape[0] != A.shape[1] or A.shape[0] != b.shape[0]:
            raise Undefd("Solve shapes")
        return np.linalg.solve(A + np.eye(len(A)) * 37.0, b) if len(A) else b

    def o_cdist(self, x):
        a, b = [np.asarray(self.val(q), dtype=float) for q in x.args[:2]]
        m = self.val(x.args[2]) if len(x.args) > 2 else "euclidean"
        d = a[:, None, :] - b[None, :, :]
        if a.shape[1] != b.shape[1]:
            raise Undefd("cdist")
        if m == "euclidean":
            return np.sqrt((d ** 2).sum(2))
        if m == "sqeuclidean":
            return (d ** 2).sum(2)
        if m == "cityblock":
            return np.abs(d).sum(2)
        if m == "chebyshev":
            return np.abs(d).max(2) if d.shape[2] else np.zeros(d.shape[:2])
        raise Unmodelled("metric %s" % m)

    def o_hstack(self, x):
        return np.hstack([np.asarray(self.val(a)) for a in x.args])

    def o_hcat(self, x):
        v = self.val(x.args[0])
        return np.hstack([np.asarray(a) for a in v])

    def o_vstack(self, x):
        return np.vstack([np.asarray(self.val(a)) for a in x.args])

    def o_nz(self, x):
        v = np.asarray(self.val(x.args[0]))
        return np.nonzero(v)[self.n(x.args[1]) if len(x.args) > 1 else 0]

    def o_nz2(self, x):
        return [np.asarray(q) for q in np.nonzero(np.asarray(self.val(x.args[0])))]

    def o_where3(self, x):
        return np.where(np.asarray(self.val(x.args[0])).astype(bool), self.a(x.args[1]), self.a(x.args[2]))

    def o_unique(self, x):
        return np.unique(self.a(x.args[0]))

    def o_view(self, x):
        how = x.args[1]
        if x.args[0].op == "obj":
            raise Unmodelled("view of an object")
        if how[0] == "sels":
            return self.val(t.mk("sel", x.args[0], tuple(how[1])))
        if how[0] == "T":
            return self.a(x.args[0]).T
        if how[0] == "same":
            return self.val(x.args[0])
        raise Unmodelled("view")

    def o_argsort(self, x):
        return np.argsort(self.a(x.args[0]), kind="stable")

    def o_sorted(self, x):
        if len(x.args) > 1:
            raise Unmodelled("sorting by a key")
        v = self.val(x.args[0])
        return sorted(v) if isinstance(v, list) else np.sort(v)

    def o_delete(self, x):
        v = self.a(x.args[0])
        i = self.a(x.args[1])
        ax = x.args[2] if len(x.args) > 2 else t.NONE
        return np.delete(v, np.asarray(i).astype(int) if np.ndim(i) else int(i), None if ax is t.NONE else self.n(ax))

    def o_chunk(self, x):
        v = np.asarray(self.a(x.args[0]))
        k, i = self.n(x.args[1]), self.n(x.args[2])
        return np.array_split(v, k)[i]

    def o_masksel(self, x):
        return np.asarray(self.a(x.args[0]))[np.asarray(self.val(x.args[1])).astype(bool)]

    def o_ptsel(self, x):
        v = np.asarray(self.a(x.args[0]))
        return v[tuple(np.asarray(self.a(q)).astype(int) for q in x.args[1:])]

    def o_takend(self, x):
        return np.asarray(self.a(x.args[0]))[np.asarray(self.a(x.args[1])).astype(int)]

    def o_einsum(self, x):
        return np.einsum(self.val(x.args[0]) if isinstance(x.args[0], T) else x.args[0], *[self.a(q) for q in x.args[1:]])

    def _ix(self, sels, shape):
        """per-axis index arrays, and the axes to drop"""
        ix, drop = [], []
        for k, n in enumerate(shape):
            s = sels[k] if k < len(sels) else FULL
            if s == FULL or s[0] == "full":
                ix.append(np.arange(n))
            elif s[0] == "slice":
                f = lambda q: None if q is t.NONE else self.n(q)
                ix.append(np.arange(n)[slice(f(s[1]), f(s[2]), f(s[3]))])
            elif s[0] == "idx":
                v = np.asarray(self.a(s[1]))
                if v.dtype == bool:
                    v = np.nonzero(v)[0]
                v = v.astype(int)
                if v.ndim == 0:
                    v = v.reshape(1)
                    drop.append(k)
                if v.ndim != 1:
                    raise Unmodelled("index array of %d dimensions" % v.ndim)
                if len(v) and (v.max() >= n or v.min() < -n):
                    raise Undefd("index out of range")
                ix.append(v)
            elif s[0] == "mask":
                v = np.asarray(self.a(s[1])).astype(bool)
                if v.shape != (n,):
                    raise Undefd("mask length")
                ix.append(np.nonzero(v)[0])
            elif s[0] == "int":
                i = self.n(s[1])
                if not -n <= i < n:
                    raise Undefd("index out of range")
                ix.append(np.array([i]))
                drop.append(k)
            else:
                raise Unmodelled("selector " + str(s[0]))
        return ix, tuple(drop)

    def o_sel(self, x):
        base, sels = x.args
        v = self.val(base)
        if isinstance(v, (list, tuple)):
            s = sels[0]
            if s[0] == "int":
                r = v[self.n(s[1])]
            elif s[0] == "slice":
                f = lambda q: None if q is t.NONE else self.n(q)
                r = v[slice(f(s[1]), f(s[2]), f(s[3]))]
            elif s[0] == "idx":
                r = [v[int(i)] for i in np.asarray(self.a(s[1])).ravel()]
            else:
                raise Unmodelled("list selector")
            if len(sels) > 1:
                r = np.asarray(r)
                ix, drop = self._ix(sels[1:], r.shape)
                r = r[np.ix_(*ix)]
                r = np.squeeze(r, axis=drop) if drop else r
            return r
        if isinstance(v, (str, Tok)) or v is None:
            raise Unmodelled("selection from %r" % (v,))
        v = np.asarray(v)
        if len(sels) > v.ndim:
            raise Undefd("too many indices")
        ix, drop = self._ix(sels, v.shape)
        r = v[np.ix_(*ix)] if v.ndim else v
        r = np.squeeze(r, axis=drop) if drop else r
        return r if r.ndim else r.item()

    def put(self, A, sels, v):
        if isinstance(A, list):
            s = sels[0]
            if len(sels) == 1 and s[0] == "int":
                A = list(A)
                A[self.n(s[1])] = v
                return A
            raise Unmodelled("list store")
        A = np.array(A, dtype=float)
        if isinstance(v, list):
            v = np.asarray(v)
        if sels == (("diag",),):
            i = np.arange(min(A.shape))
            A[i, i] = v
            return A
        ix, drop = self._ix(sels, A.shape)
        v = np.asarray(v, dtype=float)
        shp = [len(q) for q in ix]
        w = np.broadcast_to(v, [n for k, n in enumerate(shp) if k not in drop])
        A[np.ix_(*ix)] = w.reshape(shp)
        return A

    def o_store(self, x):
        A, sels, v = x.args
        if isinstance(sels, T):
            raise Unmodelled("store")
        return self.put(self.val(A), sels, self.val(v))

    def o_elem(self, x):
        return self.val(x.args[0])[self.n(x.args[1])]

    # binders
    def _loop(self, k, n, f):
        old = self.bv.get(k)
        out = []
        try:
            for i in range(max(0, n)):
                self.bv[k] = i
                out.append(f())
        finally:
            if old is None:
                self.bv.pop(k, None)
            else:
                self.bv[k] = old
        return out

    def o_Sum(self, x):
        n, k, body = x.args
        vs = self._loop(k, self.n(n), lambda: self.a(body))
        if not vs:
            s = t.shape(body)
            if s:
                return np.zeros([self.n(q) for q in s])
            return 0
        r = vs[0]
        if isinstance(r, np.ndarray) and r.dtype == bool:
            r = r.astype(int)
        for v in vs[1:]:
            if np.shape(r) == () and r == 0:      # zero of any shape
                r = v
                continue
            if np.shape(v) == () and v == 0:
                continue
            if np.shape(v) != np.shape(r):
                raise Undefd("sum of different shapes")
            r = r + v
        return int(r) if isinstance(r, bool) else r

    def o_Vec(self, x):
        n, k, body = x.args
        vs = self._loop(k, self.n(n), lambda: self.a(body))
        if not vs:
            s = t.shape(body)
            if s is None:
                return np.zeros(0)
            return np.zeros([0] + [self.n(q) for q in s])
        if len({np.shape(v) for v in vs}) > 1:
            vs = np.broadcast_arrays(*vs)       # rows given as one number
        return np.array(vs)

    def o_Build(self, x):
        n, k, body = x.args
        return self._loop(k, self.n(n), lambda: self.val(body))

    def o_Filter(self, x):
        n, k, c, body = x.args
        return [v[0] for v in self._loop(k, self.n(n), lambda: [self.val(body)] if self.b(c) else None) if v is not None]

    def o_Scatter(self, x):
        base, n, k, idx, val = x.args
        A = self.val(base)
        for s, v in self._loop(k, self.n(n), lambda: (self.frozen(idx.args[0]), self.val(val))):
            A = self.put(A, s, v)
        return A

    def o_Rec(self, x):
        n, k, c, inits, bodies = x.args
        n = self.n(n)
        memo, old, oldst = self.memo, self.bv.get(k), self.states.get(k)
        need, todo = set(), [c]                   # components the wanted one depends on
        while todo:
            i = todo.pop()
            if i not in need:
                need.add(i)
                todo += [y.args[1] for y in t.subterms(bodies.args[i]) if y.op == "st" and y.args[0].op == "bv" and y.args[0].args[0] == k]
        fb = (freebv(inits) | freebv(bodies)) - {k}
        rk = (inits.id, bodies.id, frozenset(need), tuple((q, self.bv.get(q), id(self.states.get(q))) for q in sorted(fb)))
        rec = self.recs.get(rk)
        if rec is None:
            rec = self.recs[rk] = ([{i: self.maybe(inits.args[i]) for i in need}], {}, [self.states.get(q) for q in fb])
        steps, mine, _ = rec
        try:
            self.memo = mine
            for i in range(len(steps) - 1, max(0, n)):
                self.bv[k] = i
                self.states[k] = steps[i]
                steps.append({q: self.maybe(bodies.args[q]) for q in need})
        finally:
            self.memo = memo
            for d, o in ((self.bv, old), (self.states, oldst)):
                if o is None:
                    d.pop(k, None)
                else:
                    d[k] = o
        state = steps[max(0, n)]
        v = state[c]
        if isinstance(v, Exception):
            raise v
        return v

    def o_cat(self, x):
        v = self.val(x.args[0])
        v = [np.atleast_2d(q) if np.asarray(q).ndim > 1 else np.asarray(q) for q in v]
        if not v:
            raise Undefd("nothing to concatenate")
        if len({q.ndim for q in v}) != 1:
            raise Unmodelled("arrays of several dimensions")
        return np.concatenate(v)

    def o_vcat(self, x):
        v = [np.atleast_2d(q) for q in self.val(x.args[0])]
        if not v:
            raise Undefd("nothing to concatenate")
        return np.concatenate(v)

    def o_b2i(self, x):
        return np.asarray(self.a(x.args[0])).astype(int)

    def o_addat(self, x):
        r = np.array(self.a(x.args[0]))
        v = np.asarray(self.a(x.args[1]))
        r = r.astype(np.result_type(r, v))
        np.add.at(r, tuple(np.asarray(self.a(q)).astype(int) for q in x.args[2:]), v)
        return r

    def o_bincount(self, x):
        v = np.asarray(self.a(x.args[0])).astype(int)
        w = None if x.args[1] is t.NONE else np.asarray(self.a(x.args[1]))
        return np.bincount(v.ravel(), w, self.n(x.args[2]))

    def o_ptstore(self, x):
        r = np.array(self.a(x.args[0]))
        v = np.asarray(self.a(x.args[1]))
        r = r.astype(np.result_type(r, v))
        r[tuple(np.asarray(self.a(q)).astype(int) for q in x.args[2:])] = v
        return r

    def o_Least(self, x):
        k, body = x.args
        old = self.bv.get(k)
        try:
            for i in range(200):
                self.bv[k] = i
                if not self.b(body):
                    return i
        finally:
            if old is None:
                self.bv.pop(k, None)
            else:
                self.bv[k] = old
        raise Undefd("loop does not end")

    def maybe(self, x):
        try:
            return self.val(x)
        except (Unmodelled, Undefd) as e:
            return e

    def o_st(self, x):
        k = x.args[0].args[0]
        if x.args[0].op != "bv" or k not in self.states:
            raise Unmodelled("free state")
        v = self.states[k][x.args[1]]
        if isinstance(v, Exception):
            raise v
        return v

    def frozen(self, sels):
        r = []
        for s in sels:
            r.append(tuple(t.C(self.n(q)) if isinstance(q, T) and q is not t.NONE and s[0] in ("slice", "int") else
                           (Const(self.val(q)) if isinstance(q, T) and s[0] in ("idx", "mask") else q) for q in s))
        return tuple(r)

    def o_frozenv(self, x):
        return x.args[0].v

    # uninterpreted functions
    def neuron(self, nid, d):
        r = np.random.RandomState(h64(nid) % (2 ** 32))
        return np.round(r.normal(size=d + 1), 3)

    def o_proj(self, x):
        nr, X = self.val(x.args[0]), np.asarray(self.val(x.args[1]), dtype=float)
        if X.ndim != 2:
            raise Undefd("proj")
        out = np.zeros((X.shape[0], len(nr)))
        for j, q in enumerate(nr):
            w = self.neuron(q, X.shape[1])
            out[:, j] = np.tanh(X.dot(w[:-1]) + w[-1]) + 0.3 * X.dot(w[:-1])
        return out

    def o_lsres(self, x):
        r = np.linalg.lstsq(np.asarray(self.a(x.args[1]), dtype=float), np.asarray(self.a(x.args[2]), dtype=float), rcond=None)
        return r[int(self.n(x.args[0]))]

    def o_prunedn(self, x):
        nr, i = self.val(x.args[0]), self.a(x.args[1])
        return [nr[int(k)] for k in np.asarray(i).ravel()]

    def o_addn(self, x):
        nr = list(self.val(x.args[0]))
        n, func, W, B = [self.val(a) for a in x.args[1:5]]
        f = key(func)
        for j in range(int(n)):
            nr.append(("w", f, key(np.asarray(W)[:, j]), key(np.asarray(B)[j])))
        return nr

    def o_noneurons(self, x):
        return []

    def o_ufapp(self, x):
        f = self.val(x.args[0])
        a = 0.5 + (h64(repr(f)) % 100) / 100.0
        return np.sin(a * np.asarray(self.a(x.args[1]), dtype=float) + a) + 0.2 * np.asarray(self.a(x.args[1]), dtype=float)

    def o_shuffled(self, x):
        v = self.val(x.args[0])
        where = tuple(key(self.val(q)) for q in x.args[2] if isinstance(q, T)) if len(x.args) > 2 else ()
        r = np.random.RandomState(h64(self.seed, "shuffle", len(v), where) % (2 ** 32))
        p = r.permutation(len(v))
        return [v[i] for i in p] if isinstance(v, list) else np.asarray(v)[p]

    def o_qget(self, x):
        """an item received from a queue (while processes are stepped, see procs.py)"""
        log = getattr(self, "queues", {}).get(x.args[0])
        k = self.n(x.args[1])
        if log is None or not 0 <= k < len(log):
            raise Unmodelled("queue item")
        return log[k]

    def o_int(self, x):
        v = np.asarray(self.val(x.args[0]))
        if v.size != 1:
            raise Undefd("int of an array")
        return int(v.ravel()[0])

    def o_rand(self, x):
        s = x.args[0]
        sh = () if s is t.NONE else self.dims(s)
        r = np.random.RandomState(h64(self.seed, "rand", x.args[1], sh, self.nth(x)) % (2 ** 32))
        return np.round(r.normal(size=sh), 3) if sh else float(np.round(r.normal(), 3))

    def nth(self, x):
        return 0

    def _path(tag):
        def g(self, x):
            return Tok(tag, key([self.val(a) if isinstance(a, T) else a for a in x.args]))
        return g

    o_fmt = _path("fmt")
    o_dtypeobj = _path("dtypeobj")
    o_adtype = _path("adtype")
    o_dkind = _path("dkind")
    o_fdtype = _path("fdtype")
    o_pickled = _path("pickled")

    def o_strcat(self, x):
        return "".join(str(self.val(a)) for a in x.args)

    def o_call(self, x):
        f = self.funcs.get(x.args[0])
        if f is None:
            raise Unmodelled("call " + str(x.args[0]))
        return f(self, x)

    def o_removed(self, x):
        v, q = list(self.val(x.args[0])), self.val(x.args[1])
        for i, y in enumerate(v):
            if key(y) == key(q) or not isinstance(y, (list, tuple, np.ndarray, Tok)) and y == q:
                return v[:i] + v[i + 1:]
        raise Undefd("removed item is not in the list")

    def o_dellist(self, x):
        v, i = list(self.val(x.args[0])), self.n(x.args[1])
        if not -len(v) <= i < len(v):
            raise Undefd("no such item in the list")
        del v[i]
        return v

    def o_setof(self, x):
        v = self.val(x.args[0])
        return sorted(set(key(q) for q in v), key=repr)

    def o_numrow(self, x):
        n = self.n(x.args[1])
        return self.arr((n,), "numrow", key(self.val(x.args[0])))

    def o_csvcell(self, x):
        return Tok("csvcell", key([self.val(a) for a in x.args]))

    def o_csvrow(self, x):
        return Tok("csvrow", key([self.val(a) for a in x.args]))

    def o_line(self, x):
        return Tok("line", key([self.val(a) for a in x.args]))

    def o_nlines(self, x):
        p = self.val(x.args[0])
        return int(self.rng("nlines", key(p)).randint(3, 8)) - self.n(x.args[1])


class Boxed(object):
    def __init__(self, v):
        self.v = v


def Const(v):
    """term for a concrete value"""
    return T("frozenv", (Boxed(v),), -1 - id(v) % (10 ** 9))


# terms created by Const are not hash-consed: give them private memo keys
_orig_val = Env.val


def _val(self, x):
    if x.op == "frozenv":
        return x.args[0].v
    return _orig_val(self, x)


Env.val = _val


ROWS = ("rows", "bs", "N", "batch", "istart", "rem", "icount", "N0")
NARROW = {"numpy.int8": 128, "numpy.uint8": 256, "numpy.int16": 32768, "numpy.uint16": 65536}
SPENT = [0.0]


def thresholds(pairs):
    """unusual numbers the terms compare or cut with: (sizes, values)"""
    big, val = set(), set()
    for x in set(s for p in pairs for q in p for s in t.subterms(q)):
        nums = []
        if x.op == "poly":
            nums = [c for m, c in x.args[0]]
        elif x.op == "const" and x.args[0] == "num":
            nums = [x.args[1]]
        for c in nums:
            if c.denominator == 1 and 30 <= abs(c) <= 200000:
                big.add(abs(int(c)))
        if x.op == "pos":
            y = x.args[0]
            c0 = [c for m, c in y.args[0] if not m] if y.op == "poly" else []
            for c in [c0[0] / c1 for m, c1 in y.args[0] if m] if c0 else []:
                c = abs(float(c))
                if 30 < c < 1e9 or 0 < c < 1e-2:
                    val.add(c)
        if x.op == "cast" and x.args[1].op == "ext" and x.args[1].args[0] in NARROW:
            big.add(NARROW[x.args[1].args[0]])
    return sorted(big)[:4], sorted(val)[:4]


def compare(pairs, facts=(), sizes=None, trials=24, funcs=None, seed=1):
    """interpret pairs (a, b) of terms.
    -> ("equal", trials used) | ("differ", assignment, index, va, vb) | ("unknown", reason)"""
    r = compare1(pairs, facts, sizes, trials, funcs, seed)
    if r[0] != "equal":
        return r
    big, vals = thresholds(pairs)
    for c, kind in [(c, 0) for c in big] + [(c, 1) for c in vals]:
        if SPENT[0] > 60:
            break
        t0 = time.time()
        r2 = beyond(pairs, facts, sizes, funcs, seed, c, kind)
        SPENT[0] += time.time() - t0
        if r2 is not None:
            return r2
    return r


def beyond(pairs, facts, sizes, funcs, seed, c, kind):
    """interpretations around an unusual constant of the terms: data larger than it, values of its magnitude"""
    seen, stop = 0, time.time() + 9
    for k in range(40):
        if time.time() > stop:
            break
        env = Env(seed * 1000 + 500 + k, sizes(k) if callable(sizes) else sizes, funcs)
        env.deadline = min(stop, time.time() + 4)
        if kind:
            env.scale = c
        else:
            env.big = (c, k % 3 == 2)
        try:
            if not all(env.b(f) for f in facts):
                continue
            for i, (a, b) in enumerate(pairs):
                va, vb = env.val(a), env.val(b)
                if close(va, vb):
                    continue
                if kind:
                    x, y = np.asarray(va, dtype=float), np.asarray(vb, dtype=float)
                    if x.shape == y.shape and np.allclose(x, y, rtol=1e-2, atol=1e-2 * float(np.max(np.abs(y))) if y.size else 0, equal_nan=True):
                        continue
                seen += 1
                if seen > kind:
                    return ("differ", {"scale" if kind else "sizes near": c}, i, va, vb)
        except (Unmodelled, Undefd, ValueError, TypeError, MemoryError):
            continue
    return None


def compare1(pairs, facts=(), sizes=None, trials=24, funcs=None, seed=1):
    """interpret pairs (a, b) of terms.
    -> ("equal", trials used) | ("differ", assignment, index, va, vb) | ("unknown", reason)"""
    used, tried, reason, wrong = 0, 0, None, 0
    for k in range(12 * trials):
        if tried >= trials:
            break
        env = Env(seed * 1000 + k, sizes(k) if callable(sizes) else sizes, funcs)
        try:
            if not all(env.b(f) for f in facts):
                continue
        except Undefd as e:
            reason = reason or "facts: %s" % e
            continue
        except Unmodelled as e:
            return ("unknown", "facts: %s" % e)
        bad = False
        tried += 1
        for i, (a, b) in enumerate(pairs):
            try:
                va, ea = env.val(a), None
            except Undefd as e:
                va, ea = None, e
            except Unmodelled as e:
                return ("unknown", str(e))
            try:
                vb, eb = env.val(b), None
            except Undefd as e:
                vb, eb = None, e
            except Unmodelled as e:
                return ("unknown", str(e))
            if (isinstance(ea, Wrong) and eb is None) or (isinstance(eb, Wrong) and ea is None):
                wrong += 1
                if wrong >= 3:
                    return ("differ", {}, i, ea if ea is not None else va, eb if eb is not None else vb)
            if ea is not None or eb is not None:
                bad = True
                reason = reason or "no value: %s" % (ea or eb)
                continue
            try:
                ok = close(va, vb)
            except (ValueError, TypeError):
                ok = False
            if not ok:
                syms = {}
                for q in (a, b) + tuple(facts):
                    for s in t.subterms(q):
                        if s.op == "sym" and t.ATTR.get(s.args[0], {}).get("kind") in ("int", "num", "bool"):
                            try:
                                syms[s.args[0]] = env.val(s)
                            except Exception:
                                pass
                return ("differ", syms, i, va, vb)
        if not bad:
            used += 1
    if used >= 3:
        return ("equal", used)
    return ("unknown", reason or "no interpretation satisfies the facts")
