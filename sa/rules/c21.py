"""C21: training options are parsed completely and never leak between calls"""
import itertools
import terms as t
from terms import C, mk, NONE, TRUE, ZERO, ONE, sym
from common import *
from rules.c05 import auto
from rules.c06 import refuses
import mss
from mss import FOLDS, NCV, NV, KMAX

NE = sym("Ne", kind="int", pos=True)
KB = sym("newbatch", kind="int", pos=True)
MODE = {"": "", "c": "c", "wc": "wc", "ml": "ml", "mc": "ml", "r": ""}
ROUTES = [(ELM, "train"), (HPELM, "train"), (HPELM, "train_async")]


def osizes(k):
    d = mss.msizes(k)
    d.update(Ne=1 + k % 5, newbatch=1 + k % 3, N0_=2 + k % 3, L=2 + k % 4, kmax=1 + k % 3)
    d.update({q: v for q, v in sizes(k).items() if q not in d})
    return d


class Opt(object):
    """options of one call of train"""

    def __init__(self, cl="", sel="", op=0, kmax=0, w=0, batch=0, case=str.lower, rng=0, data=("X", "T")):
        self.cl, self.sel, self.op, self.kmax, self.w, self.batch, self.case, self.rng, self.data_ = cl, sel, op, kmax, w, batch, case, rng, data

    def __repr__(self):
        return " ".join([q for q in (self.sel, "OP" if self.op else "", "kmax" if self.kmax else "", self.cl or "no class", "w" if self.w else "",
                                     "batch" if self.batch else "") if q])

    def but(self, **kw):
        o = Opt()
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o


def mixed(s):
    return "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))


def title(s):
    return s[:1].upper() + s[1:].lower()


def go(w, m, cls, op, o):
    """call train with the options; its arrays are named after o.data_"""
    x, y = o.data_
    n = NCV if o.sel == "CV" else sym("N0_", kind="int", pos=True) if x == "X0" else N0
    h5 = cls is HPELM
    fX, fT, _, _ = data(w, n, cl="c", h5=h5, names=o.data_)
    kw = {}
    if o.sel == "V":
        kw.update(Xv=w.param("Xv", NV, NI), Tv=w.param("Tv", NV, NO, onehot=True))
    if o.sel == "CV":
        kw["k"] = FOLDS
    if o.kmax:
        kw["kmax"] = KMAX if o.kmax == 1 else sym("kmax2", kind="int", pos=True)
    if o.w:
        kw["w"] = w.param("w" if o.w == 1 else "w2", NO, pos=True)
    if o.batch:
        kw["batch"] = KB
    if o.rng:
        kw.update(istart=ISTART, icount=ICOUNT)
    args = [C(o.case(q)) for q in (o.sel, "op" if o.op else "", o.cl) if q]
    return w.call(m, op, fX, fT, *args, **kw)


def observed(w, m, r):
    """what can be seen of a trained model"""
    nn = w.field(m, "nnet")
    out = {"returned value": w.D(r) if r is not None else NONE, "output weights": w.content(nn, "B"), "neurons": w.content(nn, "neurons")}
    g = w.D(w.call(nn, "get_corr"))
    if g.op == "tuple":
        out["HH"], out["HT"] = w.D(g.args[0]), w.D(g.args[1])
    e = [w.param("Te", NE, NO, onehot=True), w.param("Ye", NE, NO)]
    out["error of other predictions"] = w.D(w.call(m, "error", *e))
    if any(e.kind == "Proc" for e in w.events):
        w.ev0 = 0
        c = Composed(w)
        out = {k: c.resolve(v) if v is not None else NONE for k, v in out.items()}
    return {k: v if v is not None else NONE for k, v in out.items()}


HOOKS = {x: mss.ranker for x in mss.RANKERS}
HOOKS2 = dict(HOOKS, **{ELM + "._error": mss.scorer})


def run(ck):
    ck.sizes = osizes
    K = ck.rule("case", "options in any letter case give the same result")
    H = ck.rule("honoured", "every given option takes effect: classification mode, class weights, model selection, ranking, batch size, range")
    X = ck.rule("exclusive", "mutually exclusive options are refused")
    L_ = ck.rule("leak", "the result of a training call does not depend on the options of earlier calls")
    D = ck.rule("discard", "a training call discards the data accumulated before")
    jobs = []
    basic = [Opt(cl) for cl in ("", "c", "ml", "mc", "r")] + [Opt("wc"), Opt("wc", w=1)]
    search = [Opt("c", "V", 1, 1), Opt("", "LOO", 1), Opt("c", "CV"), Opt("ml", "V")]
    if ck.thorough:
        search += [Opt("wc", "V", 1, 1, 1), Opt("ml", "LOO"), Opt("c", "CV", 1, 1), Opt("", "V", 1)]
    for cls, op in ROUTES:
        jobs.append(lambda ck, cls=cls, op=op: [cases(ck, K, cls, op, o) for o in basic if o.cl])
        jobs.append(lambda ck, cls=cls, op=op: [honoured(ck, H, cls, op, o) for o in basic] + [batch_(ck, H, cls, op)])
        jobs.append(lambda ck, cls=cls, op=op: exclusive(ck, X, cls, op))
        if cls is ELM:
            for o in (Opt("wc", "V", w=1), Opt("wc", "LOO", 1), Opt("ml", "CV"), Opt("c", "V", 1, 1)):
                jobs.append(lambda ck, o=o: honoured(ck, H, ELM, "train", o))
        first = [o.but(data_=("X0", "T0")) for o in basic + [Opt("wc", w=2), Opt("c", op=1, kmax=1)]]
        if not ck.thorough:
            pairs = [(a, b) for a in first for b in basic if (a.cl, a.w) != (b.cl, b.w) or a.cl == "wc" and a.w == b.w]
        else:
            pairs = [(a, b) for a in first for b in basic]
        for i in range(2):
            jobs.append(lambda ck, cls=cls, op=op, i=i: leaks(ck, L_, cls, op, pairs_of(pairs, i, 2)))
    for o in search:
        jobs.append(lambda ck, o=o: cases(ck, K, ELM, "train", o, (str.upper, mixed)))
        jobs.append(lambda ck, o=o: selected(ck, H, o))
    prev = [Opt("wc", w=2, op=1, kmax=2, data=("X0", "T0"))]
    for o in [Opt("c", "V", 1), Opt("", "V"), Opt("wc", "V"), Opt("", "LOO", 1), Opt("ml", "CV")] + (search if ck.thorough else []):
        jobs.append(lambda ck, o=o: leaks(ck, L_, ELM, "train", [(prev[0], o)]))
    after = Opt("ml", "V", 1, 1, data=("X0", "T0"))
    jobs.append(lambda ck: pruned_leak(ck, L_, after, [Opt("c"), Opt("")]))
    jobs.append(lambda ck: discards(ck, D))
    ck.parallel(jobs)


def pairs_of(pairs, i, n):
    return pairs[i::n]


def where_(cls, op):
    return M["elm" if cls is ELM else "hp"] + "." + op


def ref(ck, rule, name, cls, op, o, before=None, where=None):
    """observed results of training a new model (after a preparation)"""
    def f(w):
        m = w.model(cls)
        if before:
            before(w, m)
        w.mark()
        r = go(w, m, cls, op, o)
        return m, observed(w, m, r)
    return attempt(ck, rule, name, where or where_(cls, op), f, hooks=HOOKS)


def same_results(ck, rule, name, got, want, where):
    for k in sorted(want):
        a, b = got.get(k), want[k]
        if (a is NONE) != (b is NONE):
            ck.add(rule, "%s: %s" % (name, k), False, where, "%s instead of %s" % (t.show(a, 4)[:150], t.show(b, 4)[:150]))
        elif a is not NONE:
            ck.eq(rule, "%s: %s" % (name, k), a, b, where)


def cases(ck, rule, cls, op, o, how=(str.upper, title, mixed)):
    a = ref(ck, rule, "%s %s" % (short(cls), o), cls, op, o)
    if not a:
        return
    for c in how:
        n = "%s.%s %s as %s" % (short(cls), op, o, " ".join(c(q) for q in (o.sel, "op" if o.op else "", o.cl) if q))
        b = ref(ck, rule, n, cls, op, o.but(case=c))
        if b:
            same_results(ck, rule, n, b[1][1], a[1][1], where_(cls, op))


def honoured(ck, rule, cls, op, o):
    """classification mode and class weights as seen in the error of other predictions"""
    n = "%s.%s %s" % (short(cls), op, o)
    for init in ("", "c", "ml") if o.cl and not o.sel else ("",):
        # the options overwrite the mode given at creation
        def f(w):
            m = w.model(cls, **({"classification": C(init)} if init else {}))
            w.mark()
            r = go(w, m, cls, op, o)
            w.I.hooks.pop(ELM + "._error", None)
            return m, observed(w, m, r)
        a = attempt(ck, rule, n, where_(cls, op), f, hooks=dict(HOOKS2) if o.sel else None)
        if not a:
            continue
        Te, Ye = arr("Te", NE, NO, onehot=True), arr("Ye", NE, NO)
        T_ = arr("T", N0, NO, onehot=True)
        wc = None if o.cl != "wc" else arr("w", NO, pos=True) if o.w else auto(T_)
        got = a[1][1]["error of other predictions"]
        ck.eq(rule, "%s%s: error measure" % (n, ", created for %s" % init if init else ""), got, err_term(MODE[o.cl], Te, Ye, wc), where_(cls, op))


def batch_(ck, rule, cls, op):
    def batches(w):
        return [(e.args[0] if e.args else None, tuple((l[1]) for l in e.loops)) for e in w.events
                if e.kind == "Solver" and e.method == "add_batch"]
    n = "%s.%s batch" % (short(cls), op)
    g = []
    for given in (0, 1):
        def f(w):
            m = w.model(cls, **({} if given else {"batch": KB}))
            w.mark()
            go(w, m, cls, op, Opt("c", batch=given))
            return batches(w)
        a = attempt(ck, rule, n, where_(cls, op), f)
        if not a:
            return
        g.append(a[1])
    if not g[0] or len(g[0]) != len(g[1]):
        return ck.add(rule, n, None, where_(cls, op), "batches not recognised")
    for (x, ls), (y, ms) in zip(*g):
        ok = len(ls) == len(ms)
        if not ok:
            ck.add(rule, n, None, where_(cls, op), "different loops")
            continue
        for p, q in zip(ls, ms):
            ck.eq(rule, n + ": number of batches", q, p, where_(cls, op))


def exclusive(ck, rule, cls, op):
    sels = ("V", "CV", "LOO") if cls is ELM else ()
    pairs = [(a, b) for a, b in itertools.combinations(sels, 2)]
    pairs += [(a, b) for a, b in itertools.combinations(("c", "wc", "ml"), 2)] + [("c", "mc"), ("wc", "mc")]
    for a, b in pairs:
        for f, g in ((str.lower, str.lower), (str.upper, str.lower), (str.lower, str.upper)):
            for x, y in ((f(a), g(b)), (g(b), f(a))):
                def call(w, m):
                    n = NCV if "CV" in (a, b) else N0
                    fX, fT, _, _ = data(w, n, cl="c", h5=cls is HPELM)
                    kw = {}
                    if a in sels:
                        kw = {"Xv": w.param("Xv", NV, NI), "Tv": w.param("Tv", NV, NO, onehot=True), "k": FOLDS}
                    return w.call(m, op, fX, fT, C(x), C(y), **kw)
                refuses(ck, rule, "%s.%s(%s, %s)" % (short(cls), op, x, y), where_(cls, op), lambda w: w.model(cls), call, hooks=HOOKS)


def leaks(ck, rule, cls, op, pairs):
    refs = {}
    for a, b in pairs:
        if repr(b) not in refs:
            refs[repr(b)] = ref(ck, rule, "%s.%s %r" % (short(cls), op, b), cls, op, b)
        want = refs[repr(b)]
        n = "%s.%s %r after %r" % (short(cls), op, b, a)
        got = ref(ck, rule, n, cls, op, b, before=lambda w, m: go(w, m, cls, op, a))
        if want and got:
            same_results(ck, rule, n, got[1][1], want[1][1], where_(cls, op))


def pruned_leak(ck, rule, a, bs):
    """training after a model selection that pruned the network"""
    for b in bs:
        n = "ELM.train %r after %r" % (b, a)
        P = []

        def before(w, m):
            w.mark()
            go(w, m, ELM, "train", a)
            P.extend(e.args[0] for e in w.events if e.kind == "Solver" and e.method == "_prune")
        got = ref(ck, rule, n, ELM, "train", b, before)
        if not got:
            continue
        if len(P) != 1:
            ck.add(rule, n, None, where_(ELM, "train"), "pruning not recognised")
            continue
        want = ref(ck, rule, n, ELM, "train", b, lambda w, m: w.call(w.field(m, "nnet"), "_prune", P[0]))
        if want:
            same_results(ck, rule, n, got[1][1], want[1][1], where_(ELM, "train"))


def discards(ck, rule):
    for cls, op in ROUTES:
        for b in (Opt("c"), Opt("")) + ((Opt("", "V"),) if cls is ELM else ()):
            want = ref(ck, rule, "%s.%s %r" % (short(cls), op, b), cls, op, b)
            for add in ("add_data",) if cls is ELM else ("add_data", "add_data_async"):
                n = "%s.%s %r after %s" % (short(cls), op, b, add)

                def before(w, m):
                    fX, fT, _, _ = data(w, sym("N0_", kind="int", pos=True), cl="c", h5=cls is HPELM, names=("X0", "T0"))
                    w.call(m, add, fX, fT)
                got = ref(ck, rule, n, cls, op, b, before)
                if want and got:
                    same_results(ck, rule, n, got[1][1], want[1][1], where_(cls, op))


def selected(ck, rule, o):
    """model selection options take effect"""
    where = where_(ELM, "train")
    n = "ELM.train %r" % o

    def f(w):
        m = w.model()
        w.mark()
        r = go(w, m, ELM, "train", o)
        return m, r
    calls = []

    def hook(I, st, args, kw, node):
        v = args[2] if len(args) > 2 else kw.get("kmax")
        calls.append(I.D(st, v) if v is not None else NONE)
        return mss.ranker(I, st, args, kw, node)
    a = attempt(ck, rule, n, where, f, hooks={x: hook for x in mss.RANKERS})
    if not a:
        return
    w, (m, r) = a
    s = mss.Search(w, m, r, o.sel, MODE[o.cl], o.op)
    if not s.errs:
        return ck.add(rule, n + ": model selection", None if s.prune else False, where, "no error was calculated" + (
            "" if s.prune else ": the network is trained without model selection"))
    loo = any(x.R is not NONE for x in s.errs)
    val = any(x.T is arr_("Tv") for x in s.errs)
    cv = any(x.R is NONE and t.occurs(arr_("T"), x.T) and x.T is not arr_("T") for x in s.errs)
    want = {"V": (False, True, False), "LOO": (True, False, False), "CV": (False, False, True)}[o.sel]
    names = ("leave-one-out", "validation", "cross-validation")
    for got, q, what in zip((loo, val, cv), want, names):
        if got != q:
            ck.add(rule, n + ": model selection", False, where, "%s is %s" % (what, "used" if got else "not used"))
            return
    ck.add(rule, n + ": model selection", True, where, how="errors calculated by %s" % o.sel)
    ranks = [x.rank for x in s.cands if x.rank is not None]
    if not ranks:
        return ck.add(rule, n + ": ranking", None, where, "ranking not recognised")
    opt = all(any(y.op == "shuffled" and len(y.args) > 1 and y.args[1] == "ranking" for y in t.subterms(q)) for q in ranks)
    ck.add(rule, n + ": ranking", opt == bool(o.op), where, "the ranking is %s" % ("optimal" if opt else "random"))
    if o.op and calls:
        ck.eq(rule, n + ": number of neurons ranked", calls[-1], t.minimum(KMAX, L) if o.kmax else L, where)
    if o.sel == "CV":
        ck.add(rule, n + ": test error", r is not None and w.D(r) is not NONE, where, "no error is returned")


def arr_(n):
    return mk("sym", n)
