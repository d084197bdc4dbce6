"""Shared pieces of the rules: symbolic inputs, range configurations, composition of helper processes."""
import terms as t
from terms import T, C, mk, NONE, TRUE, FALSE, ZERO, ONE, INF, sym, FULL
import drive
from drive import ELM, HPELM, NI, NO, BATCH, L, NORM, NEURONS, Refused, World, program
import interp

ISTART = sym("istart", kind="int", nonneg=True)
REM = sym("rem", kind="int", pos=True)          # N - istart
ICOUNT = sym("icount", kind="int", pos=True)
N0 = sym("N", kind="int", pos=True)
PROBE = sym("probe", kind="seq", L=C(3))
TOOLS = "hpelm.modules.hdf5_tools"


def arr(name, *shape, **at):
    t.ATTR.pop(name, None)
    return sym(name, kind="arr", shape=tuple(shape), **at)


class Range(object):
    """a configuration of istart/icount: N rows, selected rows [lo, hi)"""

    def __init__(self, name, n, lo, hi, kw):
        self.name, self.n, self.lo, self.hi, self.kw = name, n, lo, hi, kw
        self.count = t.sub(hi, lo)


def ranges(ck=None, full=True):
    n = t.add(ISTART, REM)
    out = [Range("all rows", N0, ZERO, N0, {})]
    if full:
        out.append(Range("istart, icount", n, ISTART, t.minimum(t.add(ISTART, ICOUNT), n), {"istart": ISTART, "icount": ICOUNT}))
        out.append(Range("istart", n, ISTART, n, {"istart": ISTART}))
        out.append(Range("icount", N0, ZERO, t.minimum(ICOUNT, N0), {"icount": ICOUNT}))
    return out


def rows(x, r):
    return t.sel(x, (("slice", r.lo, r.hi, ONE),)) if not (r.lo is ZERO and r.hi is r.n) else x


def sizes(k):
    """small domains: cycle through shapes of the batch/range relations"""
    import random
    r = random.Random(k * 7919 + 13)
    m = {"batch": r.choice([1, 2, 2, 3, 4, 5]), "istart": r.choice([0, 0, 1, 2, 3]), "rem": r.randint(1, 7), "N": r.randint(1, 9),
         "icount": r.randint(1, 9), "inputs": r.randint(1, 3), "outputs": r.randint(1, 3), "L": r.randint(1, 4)}
    return m


def data(w, n, no=NO, cl=None, h5=False, names=("X", "T")):
    """input and target data as arrays or HDF5 files"""
    X = arr(names[0], n, NI)
    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}
    T_ = arr(names[1], n, no, **at)
    if h5:
        w.lib.filesyms[C(names[0] + ".h5")] = X
        w.lib.filesyms[C(names[1] + ".h5")] = T_
        return C(names[0] + ".h5"), C(names[1] + ".h5"), X, T_
    return w.param(names[0], n, NI), w.param(names[1], n, no, **at), X, T_


def under(x, conds):
    """x simplified where all conditions hold"""
    m = {}
    for c in conds:
        for y, val in t.facts_of(c, True):
            m[y] = val
    return t.subst(x, m) if m else x


def guard(e, base=()):
    return t.and_(*[c for c in e.conds if c not in base]) if e.conds else TRUE


def esum(e, value):
    """sum of value over the executions of event e"""
    g = guard(e)
    v = value if g is TRUE else t.ite(g, value, ZERO)
    for it, n, lid in reversed(e.loops):
        v = t.mk_sum(n, it, v)
    return v


def total(evs, f):
    r = ZERO
    for e in evs:
        r = t.add(r, esum(e, f(e)))
    return r


# ---------------------------------------------------------------- helper processes
class Composed(object):
    """client and helper processes connected by queues"""

    def __init__(self, w, ck=None):
        self.w, self.ck = w, ck
        self.client = [e for e in w.events]
        self.helpers = []
        self.ok = True
        self.problems = []
        self.memo = {}
        for e in w.evs("Proc"):
            if e.how == "start":
                self.run(e)

    def run(self, e):
        w = self.w
        c = w.I.cell(w.st, e.proc)
        tgt, args = c.data["target"], c.data["args"]
        args = list(args.args) if args.op in ("tuple", "list") else None
        if args is None or tgt.op != "fn":
            self.ok = False
            self.problems.append("process target not resolved")
            return
        n0 = len(w.I.events)
        st0 = w.st
        w.st = st0.clone()
        h = {"start": e, "proc": e.proc, "args": args, "target": w.I.closures[tgt.args[0]].qual}
        try:
            w.I.call(w.st, tgt, args, {}, w.node())
            h["dead"] = False
        except interp.Dead:
            h["dead"] = True
        h["state"] = w.st
        w.st = st0
        h["events"] = w.I.events[n0:]
        self.helpers.append(h)

    # k-th item put into queue q by the given events
    def item(self, q, k, events):
        cases = []
        for e in events:
            if e.kind != "Put" or e.q is not q:
                continue
            val, idx = e.value, e.idx
            g = [c for c in e.conds]
            lv = [l for l in e.loops if t.occurs(l[0], idx)]
            idx = under(idx, g)
            if not e.loops:
                cases.append((t.eq(k, idx), val))
                continue
            if len(e.loops) != 1 or len(lv) != 1:
                return None
            it, n, _ = lv[0]
            off = t.sub(idx, it)
            if t.occurs(it, off):
                return None
            b = t.sub(k, off)
            cond = t.and_(*[t.subst(c, {it: b}) for c in g])
            cond = t.and_(cond, t.le(ZERO, b), t.lt(b, n))
            cases.append((cond, t.subst(val, {it: b})))
        if not cases:
            return None
        r = mk("undef", "queue item")
        for c, v in reversed(cases):
            r = t.ite(c, v, r)
        return r

    def producer(self, q):
        if any(e.kind == "Put" and e.q is q for e in self.client):
            return self.client
        for h in self.helpers:
            if any(e.kind == "Put" and e.q is q for e in h["events"]):
                return h["events"]
        return None

    def resolve(self, x, depth=0):
        """replace received items by what was sent"""
        if depth > 6:
            return x
        def f(y):
            if y.op == "qget":
                q, k = y.args
                p = self.producer(q)
                if p is None:
                    return None
                v = self.item(q, k, p)
                if v is None:
                    return None
                return self.strip(self.resolve(v, depth + 1))
            return None
        return t.replace_fn(x, f)

    def strip(self, v):
        """items are only requested when they exist (checked separately)"""
        if v.op == "ite":
            if v.args[2].op == "undef":
                return self.strip(v.args[1])
            if v.args[1].op == "undef":
                return self.strip(v.args[2])
            return t.ite(v.args[0], self.strip(v.args[1]), self.strip(v.args[2]))
        return v

    # ---------------------------------------------------------------- termination of helpers
    def loop_get(self, h):
        """(queue, loop variable) of the helper's request loop"""
        for e in h["events"]:
            if e.kind == "Get" and len(e.loops) == 1:
                return e
        return None

    def trips(self, facts):
        """number of requests each helper serves before it stops"""
        out = []
        for h in self.helpers:
            g = self.loop_get(h)
            h["n"] = None
            if g is None or not self.ck:
                continue
            it, tr, lid = g.loops[0]
            acts = [e for e in h["events"] if e.kind in ("Put", "Store") and len(e.loops) == 1 and e.loops[0][0] is it]
            if not acts or g.idx is not it:
                continue
            go = t.and_(*acts[0].conds)
            h["go"], h["it"], h["get"], h["acts"] = go, it, g, acts
            prod = self.producer(g.q)
            if prod is None:
                continue
            cands = []
            for e in prod:
                if e.kind == "Put" and e.q is g.q:
                    if not e.loops:
                        cands.append(e.idx)
                    elif len(e.loops) == 1 and t.occurs(e.loops[0][0], e.idx):
                        b, n, _ = e.loops[0]
                        cands.append(t.subst(under(e.idx, e.conds), {b: t.sub(n, ONE)}))
            k = sym("k_req", kind="int", nonneg=True)
            t.sym("k_req", shape=())
            h["why"] = None
            for n in cands:
                stop = self.resolve(t.subst(go, {it: n}))
                goon = self.resolve(t.subst(go, {it: k}))
                v1 = self.ck.compare([(stop, FALSE)], facts, sizes)
                v2 = self.ck.compare([(goon, TRUE)], list(facts) + [t.lt(k, n)], sizes)
                if v1[0] and v2[0]:
                    h["n"] = n
                    break
                h["why"] = (v1, v2)
        return out

    def final(self, h, key):
        """content of a file after a helper finished"""
        c = h["state"].heap.get(key)
        if c is None or h.get("n") is None:
            return None
        x = c.data["content"]
        n = h["n"]
        m = {}
        for y in t.subterms(x):
            if y.op in ("trip", "lastit"):
                m[y] = n
        x = t.subst(x, m) if m else x
        return self.resolve(x)


# ---------------------------------------------------------------- running drivers
def attempt(ck, rule, name, where, f, **world):
    """run driver f(w); returns (w, result) or None when it cannot complete (recorded as an obligation)"""
    w = ck.world(**world)
    try:
        r = f(w)
    except Refused as e:
        ck.refused(rule, name, w, loc_(where), e)
        ck.done(w)
        return None
    except (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, NotImplementedError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.add(rule, name, None, where, "analysis failed: %s: %s at %s:%s" % (type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno))
        ck.done(w)
        return None
    ck.done(w)
    ck.refusals(w, where)
    return w, r


def loc_(where):
    import rule
    return rule.loc(where) if isinstance(where, str) else where


def file_content(w, path):
    c = w.st.heap.get(("file", C(path)))
    return None if c is None else c.data["content"]


def project(X):
    return mk("proj", NEURONS, X, L)


B0 = sym("B0", kind="arr", shape=(L, NO))
M = {"elm": "hpelm.elm.ELM", "hp": "hpelm.hp_elm.HPELM"}


# ---------------------------------------------------------------- solvers
BASE = "hpelm.nnets.slfn.SLFN"
DOUBLE, SINGLE = mk("ext", "numpy.float64"), mk("ext", "numpy.float32")


def solvers():
    """all solver classes of the package"""
    P = program()
    out = []
    for node, (mod, q, cls) in P.fninfo.items():
        import ast
        if isinstance(node, ast.ClassDef) and BASE in P.mro(q):
            out.append(q)
    return sorted(out)


def short(q):
    return q.rsplit(".", 1)[-1]


def group_sizes(n):
    return [sym("L%d" % i, kind="int", pos=True) for i in range(n)]


def concrete_solver(w, q, ftypes=("lin", "sigm"), precision=DOUBLE, B=True, extra=None):
    """a solver with symbolic weights and one group per given type"""
    s = w.make(q, NI, NO, norm=NORM, precision=precision)
    ls = group_sizes(len(ftypes))
    for i, f in enumerate(ftypes):
        W = w.param("W%d" % i, NI, ls[i])
        b = w.param("b%d" % i, ls[i], pos=True) if str(f).startswith("rbf") else w.param("b%d" % i, ls[i])
        w.call(s, "add_neurons", ls[i], f, W, b)
    if B:
        l = ZERO
        for x in ls:
            l = t.add(l, x)
        w.call(s, "set_B", w.param("B0", l, NO))
    w.mark()
    return s


# ---------------------------------------------------------------- oracles
def hstack(xs):
    flat = []
    for x in xs:
        flat += list(x.args) if x.op == "hstack" else [x]
    return flat[0] if len(flat) == 1 else mk("hstack", *flat)


def vec(n, f):
    it = t.fresh_it()
    return t.close_binder("Vec", it, (n, f(it)))


def summ(n, f):
    it = t.fresh_it()
    return t.mk_sum(n, it, f(it))


def argmax(Y):
    return mk("argmax", Y, ONE)


def half(Y):
    return t.pos(t.sub(Y, C(t.Fraction(1, 2))))


def where1(T_, i):
    """indices of samples of class i"""
    return mk("nz", t.eq(t.sel(T_, (t.FULL, ("int", i))), ONE))


def err_term(cl, T_, Y, wc=None, no=NO):
    """the documented error"""
    if cl == "c":
        return t.mean(t.not_(t.eq(argmax(Y), argmax(T_))), NONE)
    if cl == "ml":
        return t.mean(t.not_(t.eq(half(Y), half(T_))), NONE)
    if cl == "wc":
        def per(i):
            m = t.eq(t.sel(T_, (t.FULL, ("int", i))), ONE)
            cnt = t.sum_(m, NONE)
            wrong = t.sum_(t.mul(m, t.not_(t.eq(argmax(Y), i))), NONE)
            return t.div(wrong, t.maximum(cnt, ONE))
        e = summ(no, lambda i: t.mul(per(i), t.elem(wc, i)))
        return t.div(e, t.sum_(wc, NONE))
    return t.mean(t.power(t.sub(Y, T_), 2), NONE)


def conf_term(cl, T_, Y, no=NO):
    if cl == "ml":
        cell = lambda i, j: t.sum_(t.mul(t.sel(half(T_), (t.FULL, ("int", i))), t.sel(half(Y), (t.FULL, ("int", j)))), NONE)
    else:
        cell = lambda i, j: t.sum_(t.mul(t.eq(argmax(T_), i), t.eq(argmax(Y), j)), NONE)
    return vec(no, lambda i: vec(no, lambda j: cell(i, j)))


def sample_weights(wc, T_):
    return t.sel(wc, (("arr", mk("nz2", t.eq(T_, ONE), ONE)),)) if False else t.mm(T_, wc)


def acc_terms(X, T_, w=None, HH=None, HT=None):
    """accumulated matrices for all rows of X, T"""
    H = project(X)
    if w is not None:
        s = t.col(t.power(w, t.Fraction(1, 2)))
        H, T_ = t.mul(H, s), t.mul(T_, s)
    a = t.add(t.mul(NORM, mk("eye", L)) if HH is None else HH, t.mm(t.transpose(H), H))
    b = t.add(ZERO if HT is None else HT, t.mm(t.transpose(H), T_))
    return a, b


NAMES = {"": "regression", "c": "classification", "wc": "weighted classification", "ml": "multi-label"}


def wcvec(w):
    return w.param("w", NO, pos=True), arr("w", NO, pos=True)


def mkparam(w, name):
    """a caller array for a symbol that already has its attributes"""
    at = dict(t.ATTR[name])
    sh = at.pop("shape")
    at.pop("kind", None)
    return w.param(name, *sh, **at)


def valcorr(w, cl, ok_steps=True, h5=True):
    """drive validation_corr; returns inputs and results"""
    kw = {"classification": cl} if cl else {}
    wc = None
    if cl == "wc":
        p, wc = wcvec(w)
        kw["w"] = p
    m = w.model(HPELM, **kw)
    fX, fT, X, T_ = data(w, N0, cl=cl, h5=h5, names=("Xv", "Tv"))
    HH, HT = arr("FHH", L, L), arr("FHT", L, NO)
    w.lib.filesyms[C("HH.h5")], w.lib.filesyms[C("HT.h5")] = HH, HT
    K = sym("K", kind="int", pos=True)
    steps = w.param("steps", K, integer=True, pos=True)
    res = w.call(m, "validation_corr", C("HH.h5"), C("HT.h5"), fX, fT, steps)
    return m, X, T_, HH, HT, arr("steps", K, integer=True, pos=True), wc, res


def vsizes(k):
    m = sizes(k)
    m["L"] = 2 + m["L"]
    m["K"] = 1 + k % 3
    return m


def use_solver(w, m, q, ftypes=("tanh",), precision=DOUBLE):
    """replace the solver of model m by a real one of class q with neurons of the given types; total number of neurons is L"""
    s = w.make(q, NI, NO, norm=NORM, precision=precision)
    assert len(ftypes) == 1
    w.call(s, "add_neurons", L, ftypes[0], w.param("W", NI, L), w.param("b", L))
    w.I.setfield(w.st, m, "nnet", s)
    w.mark()
    return s


def host_solvers():
    """solvers that keep their matrices in host memory"""
    P = program()
    out = []
    for q in solvers():
        m = P.modules[q.rpartition(".")[0]]
        if not any(b[0] in ("import", "from") and str(b[1]).startswith(("pycuda", "skcuda")) for b in m.globals.values()):
            out.append(q)
    return out


def opaque(x):
    """the term contains values the analysis could not model"""
    return any(y.op in ("opq", "unk", "unkfld", "any", "undef") for y in t.subterms(x))
