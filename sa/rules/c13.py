"""C13: reported errors equal the documented metric, whatever the batching"""
from common import *

def run(ck):
    ck.sizes = sizes
    R = ck.rule("metric", "error() equals the documented metric of the selected samples for any number of samples and batch size")
    V = ck.rule("validation", "validation_corr reports the documented error of every tested number of neurons")
    for cl in ("", "c", "wc", "ml"):
        for cls in (ELM, HPELM):
            where = "%s.error" % (M["elm"] if cls is ELM else M["hp"])
            for src in (("np",) if cls is ELM else ("np", "h5")):
                for r in (ranges(full=cls is HPELM)):
                    name = "%s error, %s, %s, %s" % (cls.rsplit(".", 1)[-1], NAMES[cl], src, r.name)

                    def f(w):
                        kw = {"classification": cl} if cl else {}
                        wc = None
                        if cl == "wc":
                            p, wc = wcvec(w)
                            kw["w"] = p
                        m = w.model(cls, B=True, **kw)
                        T_ = arr("T", r.n, NO, **({"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}))
                        Y = arr("Y", r.n, NO)
                        if src == "h5":
                            w.lib.filesyms[C("T.h5")], w.lib.filesyms[C("Y.h5")] = T_, Y
                            a = [C("T.h5"), C("Y.h5")]
                        else:
                            a = [mkparam(w, "T"), mkparam(w, "Y")]
                        res = w.call(m, "error", *a, **r.kw)
                        return T_, Y, wc, w.D(res)
                    a = attempt(ck, R, name, where, f)
                    if a:
                        T_, Y, wc, got = a[1]
                        ck.eq(R, name, got, err_term(cl, rows(T_, r), rows(Y, r), wc), where)
    validation(ck, V)


def validation(ck, V):
    where = M["hp"] + ".validation_corr"
    for cl in ("", "c", "wc", "ml"):
        name = "validation_corr errors, %s" % NAMES[cl]

        def f(w):
            m, X, T_, HH, HT, steps, wc, res = valcorr(w, cl)
            r = w.D(res)
            return X, T_, HH, HT, wc, w.D(r.args[0]), w.D(r.args[1]), w.D(r.args[2])
        a = attempt(ck, V, name, where, f)
        if not a:
            continue
        X, T_, HH, HT, wc, Ls, errs, confs = a[1]
        def err(i):
            l = t.elem(Ls, i)
            s = ("slice", ZERO, l, ONE)
            B = mk("Solve", t.sel(HH, (s, s)), t.sel(HT, (s,)))
            return err_term(cl, T_, t.mm(t.sel(project(X), (t.FULL, s)), B), wc)
        ck.eq(V, name, errs, vec(t.length(Ls), err), where, sizes=vsizes)
