"""C02: predictions and projections land on the row of their input"""
from common import *

SPARE = sym("spare", kind="int", nonneg=True, shape=())


def out(w, kind, n, cols):
    if kind == "new":
        return []
    if kind == "array":
        return [w.param("Yout", n, cols)]
    if kind == "larger array":
        return [w.param("Yout", t.add(n, SPARE), cols)]
    return [C("out.h5")]


def result(w, kind, r):
    if kind == "file":
        return file_content(w, "out.h5")
    if kind in ("array", "larger array"):
        return w.D(w.outref)
    return w.D(r)


def run(ck):
    ck.sizes = sizes
    R = ck.rule("rows", "the stored result equals hidden layer (times output weights) of exactly the selected rows, in order")
    S = ck.rule("solver", "a solver's _predict is its _project times B, row by row")
    K = ck.rule("async", "the asynchronous writer leaves the same content as the synchronous operation")
    for op in ("predict", "project"):
        cols = NO if op == "predict" else L
        want = (lambda X: t.mm(project(X), B0)) if op == "predict" else project

        def f(w):
            m = w.model(ELM, B=True)
            return w.D(w.call(m, op, w.param("X", N0, NI)))
        where = "%s.%s" % (M["elm"], op)
        a = attempt(ck, R, "ELM " + op, where, f)
        if a:
            ck.eq(R, "ELM " + op, a[1], want(arr("X", N0, NI)), where)
        where = "%s.%s" % (M["hp"], op)
        for r in ranges():
            for src in ("h5", "np"):
                for kind in ("new", "array", "larger array", "file"):
                    name = "HPELM %s %s->%s, %s" % (op, src, kind, r.name)

                    def f(w):
                        fX, fT, X, T_ = data(w, r.n, h5=src == "h5")
                        m = w.model(HPELM, B=True)
                        o = out(w, kind, r.count, cols)
                        w.outref = o[0] if o else None
                        w.lib.mayalias = False      # a conversion of the caller's matrix is a copy
                        res = w.call(m, op, fX, *o, **r.kw)
                        return X, result(w, kind, res)
                    a = attempt(ck, R, name, where, f)
                    if a is None:
                        continue
                    X, got = a[1]
                    if got is None:
                        ck.add(R, name, False, where, "the output file is never created")
                        continue
                    if kind == "larger array":
                        y = arr("Yout", t.add(r.count, SPARE), cols)
                        ck.eq(R, name + ": rows after the results", t.sel(got, (("slice", r.count, t.add(r.count, SPARE), ONE),)), t.sel(y, (("slice", r.count, t.add(r.count, SPARE), ONE),)), where)
                        got = t.sel(got, (("slice", ZERO, r.count, ONE),))
                    ck.eq(R, name, got, want(rows(X, r)), where)
    where = M["hp"] + ".predict_async"
    for r in ranges():
        name = "HPELM predict_async, %s" % r.name

        def f(w):
            fX, fT, X, T_ = data(w, r.n, h5=True)
            m = w.model(HPELM, B=True)
            w.call(m, "predict_async", fX, C("out.h5"), **r.kw)
            cp = Composed(w, ck)
            cp.trips([])
            return X, cp
        a = attempt(ck, K, name, where, f)
        if a is None:
            continue
        X, cp = a[1]
        got = None
        for h in cp.helpers:
            c = h["state"].heap.get(("file", C("out.h5")))
            if c is not None and any(e.kind == "Store" for e in h["events"]):
                got = cp.final(h, ("file", C("out.h5")))
        if got is None:
            got = file_content(a[0], "out.h5") if not cp.helpers else None
        if got is None:
            ck.add(K, name, None, where, "composition of helper processes failed: %s %s" % (cp.problems, [(h["target"], str(h["n"]), h.get("why")) for h in cp.helpers]))
        else:
            ck.eq(K, name, got, want_async(rows(X, r)), where)
    solver(ck, S)


def want_async(X):
    return t.mm(project(X), B0)


def solver(ck, S):
    for q in solvers():
        where = q + "._predict"

        def f(w):
            s = concrete_solver(w, q)
            X = w.param("X", N0, NI)
            p = w.D(w.call(s, "_project", X))
            y = w.D(w.call(s, "_predict", X))
            return p, y
        a = attempt(ck, S, "%s predicts project(X) B" % q, where, f, real=True)
        if a:
            p, y = a[1]
            ck.eq(S, "%s predicts project(X) B" % q, y, t.mm(p, B0), where)
