"""Every public operation of the package as a driver, for rules that quantify over all operations"""
import terms as t
from terms import C, mk, NONE, ZERO, ONE, sym
from common import *
import mss
from mss import FOLDS, NCV, NV, KMAX

MODS = "hpelm.modules"
NS = sym("nsamples", kind="int", pos=True)


class Op(object):
    """name, anchor function, driver f(w) -> (model or None, returned value), hooks"""

    def __init__(self, name, where, f, hooks=None, solver=None):
        self.name, self.where, self.f, self.hooks, self.solver = name, where, f, hooks, solver


def osizes(k):
    d = mss.msizes(k)
    for q, v in vsizes(k).items():
        d.setdefault(q, v)
    d.update(nsamples=1 + k % 4, n1=1 + k % 3)
    return d


def setup(w, cls, cl="", B=False, acc=False, solver=None, auto=False, **kw):
    if cl:
        kw["classification"] = cl
    if cl == "wc" and not auto:
        kw["w"] = w.param("w", NO, pos=True)
    m = w.model(cls, B=B and not solver, data=acc and not solver, **kw)
    if solver:
        nn = w.make(solver, NI, NO, norm=NORM, precision=kw.get("precision", DOUBLE))
        w.I.setfield(w.st, m, "nnet", nn)
        w.call(m, "add_neurons", L, "tanh", w.param("W", NI, L), w.param("b", L))
        if acc:
            w.call(nn, "set_corr", w.param("HH0", L, L, sym=True), w.param("HT0", L, NO))
        if B:
            w.call(nn, "set_B", w.param("B0", L, NO))
    w.mark()
    return m


def corr_files(w):
    w.lib.filesyms[C("HH.h5")], w.lib.filesyms[C("HT.h5")] = arr("FHH", L, L, sym=True), arr("FHT", L, NO)
    return C("HH.h5"), C("HT.h5")


def operations(solver=None, classes=(ELM, HPELM), modes=("", "c", "wc", "ml"), full=False):
    """drivers of all operations; solver: a solver class to use really, or None for the abstract solver"""
    out = []

    def op(name, where, hooks=None):
        def deco(f):
            out.append(Op(name, where, f, hooks, solver))
            return f
        return deco

    for cls in classes:
        q = short(cls)
        for h5 in (False, True):
            src = "HDF5 files" if h5 else "arrays"
            for cl in modes:
                @op("%s.train %s, %s" % (q, NAMES[cl], src), cls + ".train")
                def f(w, cls=cls, cl=cl, h5=h5):
                    m = setup(w, cls, "", solver=solver)
                    X, T_ = data(w, N0, cl=cl, h5=h5)[:2] if h5 else dat(w, cl)
                    a, kw = ([cl] if cl else []), {}
                    if cl == "wc":
                        kw["w"] = w.param("w", NO, pos=True)
                    return m, w.call(m, "train", X, T_, *a, **kw)

                @op("%s.error %s, %s" % (q, NAMES[cl], src), cls + ".error")
                def f(w, cls=cls, cl=cl, h5=h5):
                    m = setup(w, cls, cl, solver=solver)
                    if h5:
                        at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl else {}
                        w.lib.filesyms[C("T.h5")], w.lib.filesyms[C("Y.h5")] = arr("T", N0, NO, **at), arr("Y", N0, NO)
                        a = C("T.h5"), C("Y.h5")
                    else:
                        a = dat(w, cl)[1], w.param("Y", N0, NO)
                    return m, w.call(m, "error", *a)
                if cl:
                    @op("%s.confusion %s, %s" % (q, NAMES[cl], src), cls + ".confusion")
                    def f(w, cls=cls, cl=cl, h5=h5):
                        m = setup(w, cls, cl, solver=solver)
                        if h5:
                            at = {"onehot": True} if cl in ("c", "wc") else {"labels": True}
                            w.lib.filesyms[C("T.h5")], w.lib.filesyms[C("Y.h5")] = arr("T", N0, NO, **at), arr("Y", N0, NO)
                            a = C("T.h5"), C("Y.h5")
                        else:
                            a = dat(w, cl)[1], w.param("Y", N0, NO)
                        return m, w.call(m, "confusion", *a)

            @op("%s.predict %s" % (q, src), cls + ".predict")
            def f(w, cls=cls, h5=h5):
                m = setup(w, cls, B=True, solver=solver)
                return m, w.call(m, "predict", data(w, N0, h5=h5)[0] if h5 else dat(w)[0])

            @op("%s.project %s" % (q, src), cls + ".project")
            def f(w, cls=cls, h5=h5):
                m = setup(w, cls, solver=solver)
                return m, w.call(m, "project", data(w, N0, h5=h5)[0] if h5 else dat(w)[0])
        for cl in ("", "wc"):
            @op("%s.save %s" % (q, NAMES[cl]), cls + ".save")
            def f(w, cls=cls, cl=cl):
                m = setup(w, cls, cl, B=True, solver=solver)
                return m, w.call(m, "save", C("model.pkl"))

        @op("%s.load" % q, cls + ".load")
        def f(w, cls=cls):
            m = setup(w, cls, B=True, solver=solver)
            w.call(m, "save", C("model.pkl"))
            m2 = w.model(cls, neurons=False)
            return m2, w.call(m2, "load", C("model.pkl"))

        for how in ("given", "W given", "random", "rbf"):
            @op("%s.add_neurons, weights %s" % (q, how), cls + ".add_neurons")
            def f(w, cls=cls, how=how):
                m = setup(w, cls, solver=solver)
                n1 = sym("n1", kind="int", pos=True)
                kw = {}
                if how in ("given", "W given", "rbf"):
                    kw["W"] = w.param("Wn", NI, n1)
                if how in ("given", "rbf"):
                    kw["B"] = w.param("Bn", n1, pos=True)
                return m, w.call(m, "add_neurons", n1, C("rbf_l2" if how == "rbf" else "sigm"), **kw)

    # selection of the model structure
    hooks = dict([(x, mss.ranker) for x in mss.RANKERS] + [(ELM + "._error", mss.scorer)])
    for sel in ("V", "CV", "LOO"):
        for o in ((), ("OP",)):
            for cl in modes:
                if not full and (cl not in ("", "wc") or (cl == "wc") != bool(o)):
                    continue

                @op("ELM.train %s" % " ".join((sel,) + o + (NAMES[cl],)), ELM + ".train", hooks)
                def f(w, sel=sel, o=o, cl=cl):
                    m = setup(w, ELM, "", solver=solver)
                    n = NCV if sel == "CV" else N0
                    X, T_ = dat(w, cl, n)
                    kw = {}
                    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}
                    if sel == "V":
                        kw.update(Xv=w.param("Xv", NV, NI), Tv=w.param("Tv", NV, NO, **at))
                    if sel == "CV":
                        kw["k"] = FOLDS
                    if o:
                        kw["kmax"] = KMAX
                    if cl == "wc":
                        kw["w"] = w.param("w", NO, pos=True)
                    return m, w.call(m, "train", X, T_, C(sel), *([C(x) for x in o] + [C(cl)] if cl else [C(x) for x in o]), **kw)

    # HPELM
    h = HPELM
    for cl in ("", "wc"):
        for fr in ("memory", "files"):
            for src in ("arrays", "HDF5 files"):
                @op("HPELM.add_data %s from %s to %s" % (NAMES[cl], src, fr), h + ".add_data")
                def f(w, cl=cl, fr=fr, src=src):
                    m = setup(w, h, cl, solver=solver)
                    X, T_ = data(w, N0, cl=cl, h5=True)[:2] if src != "arrays" else dat(w, cl)
                    kw = dict(zip(("fHH", "fHT"), corr_files(w))) if fr == "files" else {}
                    return m, w.call(m, "add_data", X, T_, **kw)

            @op("HPELM.add_data_async %s to %s" % (NAMES[cl], fr), h + ".add_data_async")
            def f(w, cl=cl, fr=fr):
                m = setup(w, h, cl, solver=solver)
                X, T_ = data(w, N0, cl=cl, h5=True)[:2]
                kw = dict(zip(("fHH", "fHT"), corr_files(w))) if fr == "files" else {}
                return m, w.call(m, "add_data_async", X, T_, **kw)

        @op("HPELM.train_async %s" % NAMES[cl], h + ".train_async")
        def f(w, cl=cl):
            m = setup(w, h, "", solver=solver)
            X, T_ = data(w, N0, cl=cl, h5=True)[:2]
            a, kw = ([cl] if cl else []), {}
            if cl == "wc":
                kw["w"] = w.param("w", NO, pos=True)
            return m, w.call(m, "train_async", X, T_, *a, **kw)

    @op("HPELM.solve_corr", h + ".solve_corr")
    def f(w):
        m = setup(w, h, solver=solver)
        return m, w.call(m, "solve_corr", *corr_files(w))

    for cl in modes:
        for src in ("arrays", "HDF5 files"):
            @op("HPELM.validation_corr %s, %s" % (NAMES[cl], src), h + ".validation_corr")
            def f(w, cl=cl, src=src):
                m = setup(w, h, cl, solver=solver)
                a = corr_files(w)
                X, T_ = data(w, N0, cl=cl, h5=True)[:2] if src != "arrays" else dat(w, cl)
                steps = w.param("steps", sym("K", kind="int", pos=True), integer=True, pos=True)
                return m, w.call(m, "validation_corr", a[0], a[1], X, T_, steps)

    for meth, out_ in (("predict", NO), ("project", L)):
        for dst in ("HDF5 file", "array"):
            for src in ("arrays", "HDF5 files"):
                @op("HPELM.%s %s to %s" % (meth, src, dst), h + "." + meth)
                def f(w, meth=meth, out_=out_, dst=dst, src=src):
                    m = setup(w, h, B=True, solver=solver)
                    X = data(w, N0, h5=True)[0] if src != "arrays" else dat(w)[0]
                    return m, w.call(m, meth, X, C("OUT.h5") if dst == "HDF5 file" else w.param("OUT", N0, out_))

    @op("HPELM.predict_async", h + ".predict_async")
    def f(w):
        m = setup(w, h, B=True, solver=solver)
        return m, w.call(m, "predict_async", data(w, N0, h5=True)[0], C("OUT.h5"))

    # tools
    for src, arg in (("array", None), ("vector", None), ("text file", "d.txt"), ("csv file", "d.csv"), ("npy file", "d.npy"), ("compressed file", "d.txt.gz"), ("shape", None)):
        for it in (False, True) if src in ("csv file", "text file") else (False,):
            for comp in (0, 3):
                @op("make_hdf5 from %s%s%s" % (src, ", iterative" if it else "", ", compressed" if comp else ""), TOOLS + ".make_hdf5")
                def f(w, src=src, arg=arg, it=it, comp=comp):
                    nc = sym("ncols", kind="int", pos=True)
                    if src == "array":
                        a = w.param("D", N0, nc)
                    elif src == "vector":
                        a = w.param("D", N0)
                    elif src == "shape":
                        a = mk("tuple", N0, nc)
                    else:
                        a = C(arg)
                    kw = {"fill": "iter"} if False else {}
                    if it:
                        kw["delimiter"] = C(",")
                    return None, w.call(MODS, "make_hdf5", a, C("OUT.h5"), comp_level=comp, **kw)
    for h5 in (False, True):
        @op("rbf_param from %s" % ("a file" if h5 else "an array"), "hpelm.modules.rbf_param.rbf_param")
        def f(w, h5=h5):
            if h5:
                w.lib.filesyms[C("D.h5")] = arr("D", N0, NI)
            return None, w.call("hpelm.modules.rbf_param", "rbf_param", C("D.h5") if h5 else w.param("D", N0, NI), sym("k", kind="int", pos=True))
    for st in (False, True, None):
        @op("normalize_hdf5 %s" % ("with given statistics" if st else "of any data" if st is None else "computing statistics"), TOOLS + ".normalize_hdf5")
        def f(w, st=st):
            nc = sym("ncols", kind="int", pos=True)
            w.lib.filesyms[C("D.h5")] = arr("D", N0, nc)
            ck = ("file", C("D.h5"))
            w.lib.file_cell(w.st, C("D.h5"))
            c = w.st.heap[ck]
            d = dict(c.data)
            if st is not None:
                d["attr:mean"] = d["attr:std"] = NONE
            w.st.heap[ck] = c.with_(d)
            kw = {"mean": w.param("mean", nc), "std": w.param("std", nc, pos=True)} if st else {}
            return None, w.call(MODS, "normalize_hdf5", C("D.h5"), **kw)
    return out


def dat(w, cl="", n=N0):
    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}
    return w.param("X", n, NI), w.param("T", n, NO, **at)


def helpers(w):
    """evaluate the helper processes started by the operation; list of (qualified name, state, events)"""
    if not any(e.kind == "Proc" and e.how == "start" for e in w.events):
        return []
    return Composed(w).helpers
