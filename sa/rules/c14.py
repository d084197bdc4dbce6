"""C14: confusion matrix counts true class by row, predicted by column"""
from common import *


def run(ck):
    ck.sizes = sizes
    R = ck.rule("counts", "entry (i,j) is the number of samples of true class/label i predicted as class/label j, over all samples")
    V = ck.rule("validation", "validation_corr reports the confusion matrix of every tested number of neurons")
    for cl in ("c", "wc", "ml"):
        for cls in (ELM, HPELM):
            where = "%s.confusion" % (M["elm"] if cls is ELM else M["hp"])
            for src in (("np",) if cls is ELM else ("np", "h5")):
                name = "%s confusion, %s, %s" % (cls.rsplit(".", 1)[-1], NAMES[cl], src)

                def f(w):
                    m = w.model(cls, B=True, classification=cl)
                    T_ = arr("T", N0, NO, **({"onehot": True} if cl in ("c", "wc") else {"labels": True}))
                    Y = arr("Y", N0, NO)
                    if src == "h5":
                        w.lib.filesyms[C("T.h5")], w.lib.filesyms[C("Y.h5")] = T_, Y
                        a = [C("T.h5"), C("Y.h5")]
                    else:
                        a = [mkparam(w, "T"), mkparam(w, "Y")]
                    return T_, Y, w.D(w.call(m, "confusion", *a))
                a = attempt(ck, R, name, where, f)
                if a:
                    T_, Y, got = a[1]
                    ck.eq(R, name, got, conf_term(cl, T_, Y), where)
    where = M["hp"] + ".validation_corr"
    for cl in ("c", "wc", "ml"):
        name = "validation_corr confusion matrices, %s" % NAMES[cl]

        def f(w):
            m, X, T_, HH, HT, steps, wc, res = valcorr(w, cl)
            r = w.D(res)
            return X, T_, HH, HT, w.D(r.args[0]), w.D(r.args[2])
        a = attempt(ck, V, name, where, f)
        if not a:
            continue
        X, T_, HH, HT, Ls, confs = a[1]

        def one(i):
            l = t.elem(Ls, i)
            s = ("slice", ZERO, l, ONE)
            B = mk("Solve", t.sel(HH, (s, s)), t.sel(HT, (s,)))
            return conf_term(cl, T_, t.mm(t.sel(project(X), (t.FULL, s)), B))
        i = sym("i_conf", kind="int", nonneg=True, shape=())
        facts = [t.lt(i, t.length(Ls))]
        ck.eq(V, name, t.elem(confs, i), one(i), where, facts=facts, sizes=vsizes)
        ck.eq(V, name + ": one matrix per tested number", t.length(confs), t.length(Ls), where, sizes=vsizes)
