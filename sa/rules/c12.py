"""C12: invalid data is rejected before it can affect the model"""
import terms as t
from terms import C, mk, NONE, TRUE, FALSE, ONE, ZERO
from drive import Refused
from common import *
import mss
from mss import FOLDS, NCV, NV, KMAX
import ops

I3, O2, N5, NC6 = C(3), C(2), C(5), C(7)
KINDS = {"S": "byte strings", "U": "strings", "O": "objects"}
MATS = ("HH", "HT", "B")


def run(ck):
    ck.sizes = ops.osizes
    V = ck.rule("valid", "valid data is accepted")
    D = ck.rule("data", "inputs, targets and predictions of a wrong type or shape are rejected before any computation uses them")
    W = ck.rule("weights", "weights, biases, class weights, output weights and correlation matrices of a wrong shape are rejected before they are stored or merged")
    M = ck.rule("missing", "training or predicting without neurons, or predicting without a solution, is refused")
    jobs = [lambda ck, i=i: [check_op(ck, V, D, *o) for o in data_ops()[i::6]] for i in range(6)]
    jobs += [lambda ck: vectors(ck, V), lambda ck: weights(ck, V, W), lambda ck: correlations(ck, V, W), lambda ck: missing(ck, M)]
    ck.parallel(jobs)


# ------------------------------------------------------------------ drivers
def refused(ck, rule, name, where, prep, call, bad=(), **kw):
    """no path of call completes, and no computation is given any of the named invalid data before the refusal"""
    def f(w):
        x = prep(w)
        w.mark()
        return x
    a = attempt(ck, rule, name, where, f, **kw)
    if not a:
        return
    w, m = a
    w.mark()
    try:
        r = call(w, m)
    except Refused:
        used = [e for e in w.events if e.kind == "Solver" and e.method in ("add_batch", "_predict", "_project", "set_B", "set_corr", "add_neurons", "solve_corr")
                and any(s.op == "sym" and s.args[0] in bad for x in e.args for s in t.subterms(w.D(x)))]
        if used:
            ck.add(rule, name, None if w.I.notes or w.lib.unknown else False, used[0].where,
                   "the invalid data reaches %s before it is rejected" % used[0].method)
        else:
            ck.add(rule, name, True, where, "", "no normal completion")
    else:
        ck.add(rule, name, None if w.I.notes or w.lib.unknown else False, where,
               "the call completes%s" % ("" if r is None else " and returns %s" % t.show(w.D(r), 5)[:200]))
    ck.done(w)


def accepted(ck, rule, name, where, f, **kw):
    a = attempt(ck, rule, name, where, f, **kw)
    if a:
        ck.add(rule, name, True, where, "", "completes")
    return a


class Data(object):
    """one array argument: name, rows, columns, target attributes"""
    def __init__(self, name, rows, cols, h5=False, **at):
        self.name, self.rows, self.cols, self.h5, self.at = name, rows, cols, h5, at

    def variants(self, rows=True):
        n, c = self.rows, self.cols
        out = [("one column too many", (n, t.add(c, ONE)), {}), ("one column less", (n, t.sub(c, ONE)), {}), ("one column", (n, ONE), {}),
               ("three dimensions", (n, c, C(2)), {}), ("a vector", (n,), {})]
        if rows:
            out += [("one sample more", (t.add(n, ONE), c), {}), ("one sample less", (t.sub(n, ONE), c), {}), ("one sample", (ONE, c), {})]
        out += [(KINDS[k], (n, c), {"kind": k}) for k in KINDS if not (self.h5 and k == "O")]
        if self.h5:
            out = [v for v in out if v[0] not in ("a vector",)]
        return out

    def give(self, w, shape=None, kind=None):
        s = shape or (self.rows, self.cols)
        if kind:
            w.lib.dkinds[self.name + ".h5" if self.h5 else self.name] = kind
        if self.h5:
            w.lib.filesyms[C(self.name + ".h5")] = arr(self.name, *s, **self.at)
            return C(self.name + ".h5")
        return w.param(self.name, *s, **self.at)


def model(w, cls, cl="", B=False, **kw):
    if cl == "wc":
        kw["w"] = w.param("w", O2, pos=True)
    if cl:
        kw["classification"] = cl
    return w.model(cls, inputs=I3, outputs=O2, B=B, **kw)


def files(w, m=None):
    w.lib.filesyms[C("HH.h5")], w.lib.filesyms[C("HT.h5")] = arr("FHH", L, L, sym=True), arr("FHT", L, O2)
    return C("HH.h5"), C("HT.h5")


def data_ops():
    """(name, anchor, argument list, prep(w), call(w, m, values), rows checked)"""
    out = []
    for h5 in (False, True):
        s = "HDF5 files" if h5 else "arrays"
        X, T_, Y = Data("X", N5, I3, h5), Data("T", N5, O2, h5), Data("Y", N5, O2, h5)
        for cls in (ELM, HPELM):
            q = short(cls)
            if cls == HPELM or not h5:
                for cl in ("", "c", "wc", "ml"):
                    out.append(("%s.train %s, %s" % (q, NAMES[cl], s), cls + ".train", (X, T_), lambda w, cls=cls: model(w, cls),
                                lambda w, m, x, y, cl=cl: w.call(m, "train", x, y, *([C(cl)] if cl else [])), True))
                for cl in ("", "wc"):
                    out.append(("%s.add_data %s, %s" % (q, NAMES[cl], s), cls + ".add_data", (X, T_), lambda w, cls=cls, cl=cl: model(w, cls, cl),
                                lambda w, m, x, y: w.call(m, "add_data", x, y), True))
            out.append(("%s.predict, %s" % (q, s), cls + ".predict", (X,), lambda w, cls=cls: model(w, cls, B=True),
                        lambda w, m, x: w.call(m, "predict", x), False))
            out.append(("%s.project, %s" % (q, s), cls + ".project", (X,), lambda w, cls=cls: model(w, cls),
                        lambda w, m, x: w.call(m, "project", x), False))
            for cl in ("", "c", "wc", "ml"):
                out.append(("%s.error %s, %s" % (q, NAMES[cl], s), cls + ".error", (T_, Y), lambda w, cls=cls, cl=cl: model(w, cls, cl),
                            lambda w, m, a, b: w.call(m, "error", a, b), False))
                if cl:
                    out.append(("%s.confusion %s, %s" % (q, NAMES[cl], s), cls + ".confusion", (T_, Y), lambda w, cls=cls, cl=cl: model(w, cls, cl),
                                lambda w, m, a, b: w.call(m, "confusion", a, b), False))
        h = HPELM
        out.append(("HPELM.add_data to files, %s" % s, h + ".add_data", (X, T_), lambda w: model(w, HPELM),
                    lambda w, m, x, y: w.call(m, "add_data", x, y, **dict(zip(("fHH", "fHT"), files(w)))), True))
        out.append(("HPELM.validation_corr, %s" % s, h + ".validation_corr", (X, T_), lambda w: model(w, HPELM),
                    lambda w, m, x, y: w.call(m, "validation_corr", *(files(w) + (x, y, w.param("steps", C(3), integer=True, pos=True)))), True))
        if h5:
            for cl in ("", "wc"):
                out.append(("HPELM.train_async %s" % NAMES[cl], h + ".train_async", (X, T_), lambda w: model(w, HPELM),
                            lambda w, m, x, y, cl=cl: w.call(m, "train_async", x, y, *([C(cl)] if cl else [])), True))
                out.append(("HPELM.add_data_async %s" % NAMES[cl], h + ".add_data_async", (X, T_), lambda w, cl=cl: model(w, HPELM, cl),
                            lambda w, m, x, y: w.call(m, "add_data_async", x, y), True))
            out.append(("HPELM.predict_async", h + ".predict_async", (X,), lambda w: model(w, HPELM, B=True),
                        lambda w, m, x: w.call(m, "predict_async", x, C("OUT.h5")), False))
        for meth, c in (("predict", O2), ("project", None)):
            if c is not None and not h5:
                out.append(("HPELM.%s into an array" % meth, h + "." + meth, (Data("OUT", N5, c),), lambda w: model(w, HPELM, B=True),
                            lambda w, m, y, meth=meth: w.call(m, meth, w.param("X", N5, I3), y), "out"))
    for sel in ("V", "CV", "LOO"):
        for cl in ("", "wc"):
            n = NC6 if sel == "CV" else N5
            A = (Data("X", n, I3), Data("T", n, O2))
            if sel == "V":
                A += (Data("Xv", C(4), I3), Data("Tv", C(4), O2))

            def call(w, m, x, y, *v, sel=sel, cl=cl):
                kw = dict(zip(("Xv", "Tv"), v))
                if sel == "CV":
                    kw["k"] = C(3)
                return w.call(m, "train", x, y, C(sel), *([C(cl)] if cl else []), **kw)
            out.append(("ELM.train %s %s" % (sel, NAMES[cl]), ELM + ".train", A, lambda w: model(w, ELM), call, True))
    return out


def check_op(ck, V, D, name, where, args, prep, call, rows):
    hooks = dict([(x, mss.ranker) for x in mss.RANKERS] + [(ELM + "._error", mss.scorer)]) if any(" %s " % s in name for s in ("V", "CV", "LOO")) else None
    accepted(ck, V, name, where, lambda w: call(w, prep(w), *[a.give(w) for a in args]), hooks=hooks)
    for i, a in enumerate(args):
        vs = a.variants(rows is True)
        if rows == "out":
            vs = [v for v in vs] + [("one sample less", (t.sub(a.rows, ONE), a.cols), {})]
        for what, shape, kw in vs:
            refused(ck, D, "%s: %s with %s" % (name, a.name, what), where, prep,
                    lambda w, m: call(w, m, *[b.give(w, shape, **kw) if b is a else b.give(w) for b in args]), bad=(a.name,), hooks=hooks)


def vectors(ck, V):
    """vectors become one column"""
    for cls in (ELM, HPELM):
        q = short(cls)
        for meth in ("train", "add_data", "predict", "project", "error"):
            where = cls + "." + meth
            name = "%s.%s with vectors" % (q, meth)

            def f(w, flat=True):
                m = w.model(cls, inputs=ONE, outputs=ONE, B=meth == "predict", batch=BATCH)
                g = lambda n: w.param(n, N0) if flat else w.value(n, t.col(arr(n, N0)))
                a = {"train": "XT", "add_data": "XT", "predict": "X", "project": "X", "error": "TY"}[meth]
                r = w.call(m, meth, *[g(n) for n in a])
                nn = w.field(m, "nnet")
                return r if r is not NONE and r is not None else mk("tuple", *[w.content(nn, x) for x in ("HH", "HT")] + ([w.content(nn, "B")] if meth == "train" else []))
            a = accepted(ck, V, name, where, f)
            b = attempt(ck, V, name, where, lambda w: f(w, False)) if a else None
            if a and b:
                ck.eq(V, name + ": result", a[0].D(a[1]), b[0].D(b[1]), where)


# ------------------------------------------------------------------ parameters of the network
def weights(ck, V, W):
    n1 = C(4)
    for cls in (ELM, HPELM):
        q, where = short(cls), cls + ".add_neurons"
        for fn in ("lin", "sigm", "rbf_l2", "ufunc"):
            fun = lambda: mk("ext", "numpy.sin") if fn == "ufunc" else C(fn)
            gw, gb = (lambda w: w.param("Wn", I3, n1)), (lambda w: w.param("Bn", n1, pos=True))
            nm = "%s.add_neurons %s" % (q, fn)
            prep = lambda w: model(w, cls)
            accepted(ck, V, nm, where, lambda w: w.call(prep(w), "add_neurons", n1, fun(), gw(w), gb(w)))
            for what, s in (("one row more", (C(4), n1)), ("one row less", (C(2), n1)), ("one column more", (I3, C(5))), ("one column less", (I3, I3)), ("one column", (I3, ONE)), ("a vector", (I3,)), ("three dimensions", (I3, n1, ONE)), ("transposed", (n1, I3))):
                refused(ck, W, "%s: W with %s" % (nm, what), where, prep, lambda w, m: w.call(m, "add_neurons", n1, fun(), w.param("Wn", *s), gb(w)), bad=("Wn",))
                refused(ck, W, "%s: W with %s, random biases" % (nm, what), where, prep, lambda w, m: w.call(m, "add_neurons", n1, fun(), w.param("Wn", *s)), bad=("Wn",))
            for what, s in (("one more", (C(5),)), ("one less", (I3,)), ("one", (ONE,)), ("a column", (n1, ONE)), ("a row", (ONE, n1))):
                refused(ck, W, "%s: B with %s" % (nm, what), where, prep, lambda w, m: w.call(m, "add_neurons", n1, fun(), gw(w), w.param("Bn", *s)), bad=("Bn",))
                if fn != "lin":
                    refused(ck, W, "%s: B with %s, random weights" % (nm, what), where, prep, lambda w, m: w.call(m, "add_neurons", n1, fun(), NONE, w.param("Bn", *s)), bad=("Bn",))
        prep = lambda w: model(w, cls)
        refused(ck, W, "%s.add_neurons: unknown kind of neurons" % q, where, prep, lambda w, m: w.call(m, "add_neurons", n1, C("cosine")))
        refused(ck, W, "%s.add_neurons: number of neurons not an integer" % q, where, prep, lambda w, m: w.call(m, "add_neurons", C(2.5), C("tanh")))
        # class weights
        def init(w, s):
            return w.make(cls, I3, O2, classification=C("wc"), w=w.param("w", *s, pos=True), norm=NORM)
        accepted(ck, V, "%s: class weights" % q, cls + ".__init__", lambda w: init(w, (O2,)))
        for what, s in (("one more", (I3,)), ("one less", (ONE,)), ("a column", (O2, ONE)), ("a matrix", (O2, O2)), ("a row", (ONE, O2))):
            refused(ck, W, "%s: class weights with %s" % (q, what), cls + ".__init__", lambda w: None, lambda w, m: init(w, s))
            for meth in ("train",) + (("train_async",) if cls == HPELM else ()):
                def call(w, m):
                    x, y = data(w, N5, O2, "wc", h5=cls == HPELM)[:2]
                    w.lib.filesyms[C("X.h5")] = arr("X", N5, I3)
                    return w.call(m, meth, x if cls == HPELM else w.param("X", N5, I3), y, C("wc"), w=w.param("w", *s, pos=True))
                refused(ck, W, "%s.%s: class weights with %s" % (q, meth, what), cls + "." + meth, prep, call, bad=("w",))


def stored(w, m, names):
    return [w.content(w.field(m, "nnet"), x) for x in names]


def correlations(ck, V, W):
    for q in solvers():
        real = lambda w: concrete_solver(w, q, ftypes=("tanh",))
        l = group_sizes(1)[0]
        n = short(q)
        if True:
            accepted(ck, V, "%s.set_B" % n, q + ".set_B", lambda w: w.call(real(w), "set_B", w.param("Bn", l, NO)), real=True)
            for what, s in (("one row more", (t.add(l, ONE), NO)), ("one row less", (t.sub(l, ONE), NO)), ("one column more", (l, t.add(NO, ONE))), ("one column less", (l, t.sub(NO, ONE))), ("no columns", (l, ZERO)), ("a vector", (l,)), ("three dimensions", (l, NO, C(2)))):
                refused(ck, W, "%s.set_B with %s" % (n, what), q + ".set_B", real, lambda w, m: w.call(m, "set_B", w.param("Bn", *s)), bad=("Bn",), real=True)
        for meth in ("set_corr",):
            accepted(ck, V, "%s.%s" % (n, meth), q + "." + meth, lambda w: w.call(real(w), meth, w.param("HHn", l, l, sym=True), w.param("HTn", l, NO)), real=True)
            for what, s in bad_corr(l):
                refused(ck, W, "%s.%s: HH with %s" % (n, meth, what), q + "." + meth, real, lambda w, m: w.call(m, meth, w.param("HHn", *s), w.param("HTn", l, NO)), bad=("HHn",), real=True)
            for what, s in bad_targets(l, NO):
                refused(ck, W, "%s.%s: HT with %s" % (n, meth, what), q + "." + meth, real, lambda w, m: w.call(m, meth, w.param("HHn", l, l, sym=True), w.param("HTn", *s)), bad=("HTn",), real=True)
            for what, d in (("one neuron more", ONE), ("one neuron less", C(-1))):
                k = t.add(l, d)
                refused(ck, W, "%s.%s: HH and HT with %s" % (n, meth, what), q + "." + meth, real, lambda w, m: w.call(m, meth, w.param("HHn", k, k, sym=True), w.param("HTn", k, NO)), bad=("HHn",), real=True)
    # matrices in files
    h = HPELM

    def mats(w, a=None, b=None):
        w.lib.filesyms[C("HH.h5")] = arr("FHH", *(a or (L, L)))
        w.lib.filesyms[C("HT.h5")] = arr("FHT", *(b or (L, O2)))
        w.lib.existing |= {C("HH.h5"), C("HT.h5")}
        return C("HH.h5"), C("HT.h5")

    def xt(w, h5):
        x, y = Data("X", N5, I3, h5).give(w), Data("T", N5, O2, h5).give(w)
        return x, y
    todo = [("solve_corr", lambda w, m, f: w.call(m, "solve_corr", *f), False),
            ("validation_corr", lambda w, m, f: w.call(m, "validation_corr", *(f + xt(w, False) + (w.param("steps", C(3), integer=True, pos=True),))), False),
            ("add_data", lambda w, m, f: w.call(m, "add_data", *xt(w, False), fHH=f[0], fHT=f[1]), True),
            ("add_data_async", lambda w, m, f: w.call(m, "add_data_async", *xt(w, True), fHH=f[0], fHT=f[1]), True)]
    for meth, call, merge in todo:
        where = h + "." + meth
        prep = lambda w: model(w, HPELM)
        accepted(ck, V, "HPELM.%s with files" % meth, where, lambda w: call(w, prep(w), mats(w)))
        for what, s in bad_corr(L):
            merged(ck, W, "HPELM.%s: HH file with %s" % (meth, what), where, prep, lambda w, m: call(w, m, mats(w, a=s)), "FHH")
        for what, s in bad_targets(L, O2):
            merged(ck, W, "HPELM.%s: HT file with %s" % (meth, what), where, prep, lambda w, m: call(w, m, mats(w, b=s)), "FHT")
        for what, d in (("one neuron more", ONE), ("one neuron less", C(-1))):
            k = t.add(L, d)
            merged(ck, W, "HPELM.%s: HH and HT files with %s" % (meth, what), where, prep, lambda w, m: call(w, m, mats(w, (k, k), (k, O2))), "FHH")


def merged(ck, W, name, where, prep, call, bad):
    refused(ck, W, name, where, prep, call, bad=(bad,))
    # nothing of it is written to the files either
    a = attempt(ck, W, name, where, prep)
    if not a:
        return
    w, m = a
    w.mark()
    try:
        call(w, m)
    except Refused:
        pass
    else:
        return
    wr = [e for e in w.events if e.kind in ("Store", "Create", "Write", "Append")]
    ck.add(W, name + ": files", not wr or (None if w.I.notes or w.lib.unknown else False), wr[0].where if wr else where,
           "a correlation file is changed before the refusal" if wr else "", "no write")
    ck.done(w)


def bad_corr(l):
    return (("one row more", (t.add(l, ONE), l)), ("one row less", (t.sub(l, ONE), l)), ("one column more", (l, t.add(l, ONE))), ("one column less", (l, t.sub(l, ONE))),
            ("one neuron more", (t.add(l, ONE), t.add(l, ONE))), ("one neuron less", (t.sub(l, ONE), t.sub(l, ONE))), ("a vector", (l,)))


def bad_targets(l, c):
    return (("one row more", (t.add(l, ONE), c)), ("one row less", (t.sub(l, ONE), c)), ("one column more", (l, t.add(c, ONE))), ("one column less", (l, t.sub(c, ONE))), ("a vector", (l,)))


# ------------------------------------------------------------------ incomplete models
def missing(ck, M):
    h = HPELM
    real = host_solvers()[0]

    def empty(cls, cl=""):
        return lambda w: w.make(cls, I3, O2, norm=NORM, **({"classification": C(cl)} if cl else {}))

    def unsolved(cls):
        def f(w):
            m = w.make(cls, I3, O2, norm=NORM)
            w.call(m, "add_neurons", C(4), "tanh", w.param("Wn", I3, C(4)), w.param("Bn", C(4)))
            return m
        return f
    A, F = (lambda w: (w.param("X", N5, I3), w.param("T", N5, O2))), (lambda w: (Data("X", N5, I3, True).give(w), Data("T", N5, O2, True).give(w)))
    todo = []
    for cls in (ELM, HPELM):
        q = short(cls)
        for src, g in (("arrays", A), ("HDF5 files", F)):
            if cls == ELM and g is F:
                continue
            for opt in ("", "c", "wc", "ml"):
                todo.append((cls, "train", "%s.train %s, %s" % (q, NAMES[opt], src), lambda w, m, g=g, opt=opt: w.call(m, "train", *(g(w) + ((C(opt),) if opt else ()))), 0))
            todo.append((cls, "add_data", "%s.add_data, %s" % (q, src), lambda w, m, g=g: w.call(m, "add_data", *g(w)), 0))
            todo.append((cls, "predict", "%s.predict, %s" % (q, src), lambda w, m, g=g: w.call(m, "predict", g(w)[0]), 1))
            todo.append((cls, "project", "%s.project, %s" % (q, src), lambda w, m, g=g: w.call(m, "project", g(w)[0]), 0))
    for sel in ("V", "CV", "LOO"):
        kw = lambda w, sel=sel: {"V": dict(Xv=w.param("Xv", C(4), I3), Tv=w.param("Tv", C(4), O2)), "CV": dict(k=C(3)), "LOO": {}}[sel]
        todo.append((ELM, "train", "ELM.train %s" % sel, lambda w, m, sel=sel, kw=kw: w.call(m, "train", *(A(w) + (C(sel),)), **kw(w)), 0))
    ff = lambda w: dict(zip(("fHH", "fHT"), files(w)))
    todo += [(h, "add_data", "HPELM.add_data to files", lambda w, m: w.call(m, "add_data", *A(w), **ff(w)), 0),
             (h, "predict", "HPELM.predict to a file", lambda w, m: w.call(m, "predict", A(w)[0], C("OUT.h5")), 1),
             (h, "train_async", "HPELM.train_async", lambda w, m: w.call(m, "train_async", *F(w)), 0),
             (h, "add_data_async", "HPELM.add_data_async", lambda w, m: w.call(m, "add_data_async", *F(w)), 0),
             (h, "add_data_async", "HPELM.add_data_async to files", lambda w, m: w.call(m, "add_data_async", *F(w), **ff(w)), 0),
             (h, "predict_async", "HPELM.predict_async", lambda w, m: w.call(m, "predict_async", F(w)[0], C("OUT.h5")), 1),
             (h, "solve_corr", "HPELM.solve_corr", lambda w, m: w.call(m, "solve_corr", *files(w)), 0),
             (h, "validation_corr", "HPELM.validation_corr", lambda w, m: w.call(m, "validation_corr", *(files(w) + A(w))), 0)]
    for cls, meth, name, call, sol in todo:
        where = cls + "." + meth
        refused(ck, M, name + " without neurons", where, empty(cls), call, real=True)
        if sol:
            refused(ck, M, name + " without a solution", where, unsolved(cls), call, bad=("X",), real=True)
    for q in solvers():
        mkq = lambda w: w.make(q, I3, O2, norm=NORM, precision=DOUBLE)
        sol = lambda w: concrete_solver(w, q, ftypes=("tanh",), B=False)
        n = short(q)
        for prep, how in ((mkq, "without neurons"), (sol, "without a solution")):
            xx = (lambda w: w.param("X", N5, I3)) if prep is mkq else lambda w: w.param("X", N5, NI)
            refused(ck, M, "%s._predict %s" % (n, how), q + "._predict", prep, lambda w, m: w.call(m, "_predict", xx(w)), real=True)
            if prep is mkq:
                refused(ck, M, "%s._project %s" % (n, how), q + "._project", prep, lambda w, m: w.call(m, "_project", xx(w)), real=True)
