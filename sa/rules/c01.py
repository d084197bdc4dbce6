"""C01: batched processing covers every selected sample exactly once"""
from common import *


def run(ck):
    ck.sizes = sizes
    A = ck.rule("training", "the batches fed to the solver together are exactly the selected rows: sum(Xb'Tb) = X'T over rows [istart, min(istart+icount, N)), and the batch sizes add up to their number")
    S = ck.rule("async", "the batches fed to the solver by the asynchronous variant, after composition with its readers, are the same")
    P = ck.rule("outputs", "predict/project process every selected row exactly once")
    E = ck.rule("errors", "error and confusion matrix count every selected row exactly once")
    V = ck.rule("validation", "validation_corr counts every row exactly once")
    B = ck.rule("balanced", "a batch has at most `batch` rows and is never empty")
    where = M["elm"] + ".train"
    for op in ("train", "add_data"):
        where = "%s.%s" % (M["elm"], op)
        for cl in ("", "wc"):
            name = "ELM %s %s" % (op, cl)

            def f(w):
                X, T_, Xs, Ts = data(w, N0, cl=cl)
                kw = {"classification": cl} if cl else {}
                m = w.model(ELM, **kw)
                w.call(m, op, X, T_)
                return Xs, Ts
            a = attempt(ck, A, name, where, f)
            if a:
                covered(ck, A, name, a[0].evs("Solver"), a[1][0], a[1][1], where)
                small(ck, B, name, a[0].evs("Solver"), where)
    for op in ("train", "add_data"):
        where = "%s.%s" % (M["hp"], op)
        for cl in ("", "wc"):
            for r in ranges():
                for src in ("h5", "np"):
                    name = "HPELM %s %s %s, %s" % (op, cl, src, r.name)

                    def f(w):
                        fX, fT, X, T_ = data(w, r.n, cl=cl, h5=src == "h5")
                        kw = {"classification": cl} if cl else {}
                        m = w.model(HPELM, **kw)
                        w.call(m, op, fX, fT, **r.kw)
                        return rows(X, r), rows(T_, r)
                    a = attempt(ck, A, name, where, f)
                    if a:
                        covered(ck, A, name, a[0].evs("Solver"), a[1][0], a[1][1], where)
                        small(ck, B, name, a[0].evs("Solver"), where)
    for op in ("train_async", "add_data_async"):
        where = "%s.%s" % (M["hp"], op)
        for cl in ("", "wc"):
            for r in ranges():
                name = "HPELM %s %s, %s" % (op, cl, r.name)

                def f(w):
                    fX, fT, X, T_ = data(w, r.n, cl=cl, h5=True)
                    kw = {"classification": cl} if cl else {}
                    m = w.model(HPELM, **kw)
                    w.call(m, op, fX, fT, **r.kw)
                    return rows(X, r), rows(T_, r), Composed(w, ck)
                a = attempt(ck, S, name, where, f)
                if a:
                    X, T_, cp = a[1]
                    covered(ck, S, name, a[0].evs("Solver"), X, T_, where, cp.resolve)
    # operations that produce rows
    for cls, op, async_ in ((ELM, "predict", 0), (ELM, "project", 0), (HPELM, "predict", 0), (HPELM, "project", 0), (HPELM, "predict_async", 1)):
        where = "%s.%s" % (M["elm" if cls is ELM else "hp"], op)
        for r in ranges(full=cls is HPELM):
            name = "%s %s, %s" % (short(cls), op, r.name)

            def f(w):
                fX, fT, X, T_ = data(w, r.n, h5=cls is HPELM)
                m = w.model(cls, B=True)
                w.call(m, op, fX, *([C("out.h5")] if async_ else []), **r.kw)
                return rows(X, r), Composed(w, ck)
            a = attempt(ck, P, name, where, f)
            if a:
                X, cp = a[1]
                evs = [e for e in a[0].evs("Solver") if e.method in ("_predict", "_project")]
                if not evs:
                    ck.add(P, name, None, where, "no projection reached the solver")
                    continue
                got = total(evs, lambda e: t.sum_(cp.resolve(e.args[0]), ZERO))
                ck.eq(P, name, got, t.sum_(X, ZERO), where)
                got = total(evs, lambda e: t.length(cp.resolve(e.args[0])))
                ck.eq(P, name + ": number of rows", got, t.length(X), where)
    for cl in ("", "c", "wc", "ml"):
        for op in ("error", "confusion"):
            if op == "confusion" and not cl:
                continue
            where = "%s.%s" % (M["hp"], op)
            for r in ranges(full=op == "error"):
                name = "HPELM %s %s, %s" % (op, cl, r.name)

                def f(w):
                    kw = {"classification": cl} if cl else {}
                    wc = None
                    if cl == "wc":
                        p, wc = wcvec(w)
                        kw["w"] = p
                    m = w.model(HPELM, B=True, **kw)
                    T_ = arr("T", r.n, NO, **({"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}))
                    Y = arr("Y", r.n, NO)
                    w.lib.filesyms[C("T.h5")], w.lib.filesyms[C("Y.h5")] = T_, Y
                    return T_, Y, wc, w.D(w.call(m, op, C("T.h5"), C("Y.h5"), **r.kw))
                a = attempt(ck, E, name, where, f)
                if a:
                    T_, Y, wc, got = a[1]
                    T_, Y = rows(T_, r), rows(Y, r)
                    want = err_term(cl, T_, Y, wc) if op == "error" else conf_term(cl, T_, Y)
                    ck.eq(E, name, got, want, where)
    where = M["hp"] + ".validation_corr"

    def f(w):
        m, X, T_, HH, HT, steps, wc, res = valcorr(w, "")
        return X, T_
    a = attempt(ck, V, "validation_corr", where, f)
    if a:
        X, T_ = a[1]
        evs = [e for e in a[0].evs("Solver") if e.method == "_project"]
        if not evs:
            ck.add(V, "validation_corr", None, where, "no projection reached the solver")
        else:
            ck.eq(V, "validation_corr", total(evs, lambda e: t.sum_(e.args[0], ZERO)), t.sum_(X, ZERO), where)
            ck.eq(V, "validation_corr: number of rows", total(evs, lambda e: t.length(e.args[0])), t.length(X), where)


def covered(ck, rule, name, evs, X, T_, where, res=lambda x: x):
    evs = [e for e in evs if e.method == "add_batch"]
    if not evs:
        ck.add(rule, name, None, where, "no batch reached the solver")
        return
    got = total(evs, lambda e: t.mm(t.transpose(res(e.args[0])), res(e.args[1])))
    ck.eq(rule, name, got, t.mm(t.transpose(X), T_), where)
    ck.eq(rule, name + ": number of rows", total(evs, lambda e: t.length(res(e.args[0]))), t.length(X), where)
    ck.eq(rule, name + ": number of targets", total(evs, lambda e: t.length(res(e.args[1]))), t.length(X), where)


def small(ck, rule, name, evs, where):
    for e in evs:
        if e.method != "add_batch":
            continue
        n = t.length(e.args[0])
        facts = list(e.conds)
        s = {}
        for it, tr, lid in e.loops:
            i = sym("i_%s" % it.args[0], kind="int", nonneg=True, shape=())
            s[it] = i
            facts.append(t.lt(i, tr))
        ck.holds(rule, name, t.and_(t.lt(ZERO, t.subst(n, s)), t.le(t.subst(n, s), BATCH)), where, facts=facts)
