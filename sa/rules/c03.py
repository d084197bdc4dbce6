"""C03: training data accumulates additively; regularisation counts once"""
from common import *


def full(w, s):
    """correlation matrices a solver reports"""
    r = w.D(w.call(s, "get_corr"))
    return w.D(r.args[0]), w.D(r.args[1])


def lsum(k):
    r = ZERO
    for x in group_sizes(k):
        r = t.add(r, x)
    return r


def run(ck):
    ck.sizes = sizes
    F = ck.rule("first batch", "the first batch gives HH = norm*I + H'H and HT = H'T")
    A = ck.rule("next batch", "every further batch adds exactly H'H and H'T")
    G = ck.rule("given matrices", "a batch after set_corr adds to the given matrices, without adding norm again")
    Z = ck.rule("restart", "after reset() the accumulation starts again with norm*I")
    M1 = ck.rule("model", "HH and HT of the model are norm*I + sum(H'H) and sum(H'T) over all rows fed since the last reset, whatever the division into batches and calls")
    W = ck.rule("files", "merging a part adds exactly sum(H'H), sum(H'T) of that part to the files; new files contain norm*I once")
    Tr = ck.rule("train", "training solves with the accumulated matrices of all data")
    for q in solvers():
        where = q + ".add_batch"
        n = short(q)

        def f(w, given=False, wts=False):
            s = concrete_solver(w, q, B=False)
            l = lsum(2)
            if given:
                w.call(s, "set_corr", w.param("HHg", l, l, sym=True), w.param("HTg", l, NO))
            out = []
            for i in (1, 2):
                X, T_ = w.param("X%d" % i, sym("N%d" % i, kind="int", pos=True), NI), w.param("T%d" % i, sym("N%d" % i, kind="int", pos=True), NO)
                wt = [w.param("c%d" % i, sym("N%d" % i, kind="int", pos=True), pos=True)] if wts else []
                w.call(s, "add_batch", X, T_, *wt)
                H = w.D(w.call(s, "_project", w.param("X%d" % i, sym("N%d" % i, kind="int", pos=True), NI)))
                Ts = arr("T%d" % i, sym("N%d" % i, kind="int", pos=True), NO)
                if wts:
                    c = t.col(t.power(arr("c%d" % i, sym("N%d" % i, kind="int", pos=True), pos=True), t.Fraction(1, 2)))
                    H, Ts = t.mul(H, c), t.mul(Ts, c)
                HH, HT = full(w, s)
                out.append((H, Ts, HH, HT))
            w.call(s, "reset")
            N3 = sym("N3", kind="int", pos=True)
            w.call(s, "add_batch", w.param("X3", N3, NI), w.param("T3", N3, NO))
            H3 = w.D(w.call(s, "_project", w.param("X3", N3, NI)))
            out.append((H3, arr("T3", N3, NO)) + full(w, s))
            return out
        l = lsum(2)
        base = t.mul(NORM, mk("eye", l))
        for given in (False, True):
            for wts in (False, True):
                name = "%s%s%s" % (n, ", given matrices" if given else "", ", weighted" if wts else "")
                a = attempt(ck, G if given else F, name, where, lambda w: f(w, given, wts), real=True)
                if not a:
                    continue
                (H1, T1, a1, b1), (H2, T2, a2, b2), (H3, T3, a3, b3) = a[1]
                h0 = arr("HHg", l, l, sym=True) if given else base
                t0 = arr("HTg", l, NO) if given else ZERO
                h1, t1 = t.add(h0, t.mm(t.transpose(H1), H1)), t.add(t0, t.mm(t.transpose(H1), T1))
                h2, t2 = t.add(h1, t.mm(t.transpose(H2), H2)), t.add(t1, t.mm(t.transpose(H2), T2))
                R = G if given else F
                ck.eq(R, name + ": HH", a1, h1, where)
                ck.eq(R, name + ": HT", b1, t1, where)
                ck.eq(A, name + ": HH", a2, h2, where)
                ck.eq(A, name + ": HT", b2, t2, where)
                ck.eq(Z, name + ": HH", a3, t.add(base, t.mm(t.transpose(H3), H3)), where)
                ck.eq(Z, name + ": HT", b3, t.mm(t.transpose(H3), T3), where)
    # models over an abstract solver
    for cls in (ELM, HPELM):
        where = "%s.add_data" % M["elm" if cls is ELM else "hp"]
        for cl in ("", "wc"):
            name = "%s %s two calls" % (short(cls), cl)

            def f(w):
                kw = {"classification": cl} if cl else {}
                wc = None
                if cl:
                    p, wc = wcvec(w)
                    kw["w"] = p
                m = w.model(cls, **kw)
                n2 = sym("N2", kind="int", pos=True)
                x1, t1, X1, T1 = data(w, N0, cl=cl, h5=cls is HPELM, names=("X", "T"))
                x2, t2, X2, T2 = data(w, n2, cl=cl, h5=cls is HPELM, names=("X2", "T2"))
                w.call(m, "add_data", x1, t1)
                w.call(m, "add_data", x2, t2)
                nn = w.field(m, "nnet")
                return X1, T1, X2, T2, wc, w.content(nn, "HH"), w.content(nn, "HT")
            a = attempt(ck, M1, name, where, f)
            if a:
                X1, T1, X2, T2, wc, HH, HT = a[1]
                ws = (sample_weights(wc, T1), sample_weights(wc, T2)) if cl else (None, None)
                h, tt = acc_terms(X1, T1, ws[0])
                h, tt = acc_terms(X2, T2, ws[1], h, tt)
                ck.eq(M1, name + ": HH", HH, h, where)
                ck.eq(M1, name + ": HT", HT, tt, where)
    for cls, op in ((ELM, "train"), (HPELM, "train"), (HPELM, "train_async")):
        where = "%s.%s" % (M["elm" if cls is ELM else "hp"], op)
        for r, b_, d_ in [(r, False, False) for r in ranges(full=cls is HPELM)] + [(r, b, d) for r in ranges()[:1] for b, d in ((True, False), (False, True), (True, True))]:
            name = "%s %s, %s%s%s" % (short(cls), op, r.name, ", solved before" if b_ else "", ", fed before" if d_ else "")

            def f(w):
                m = w.model(cls, B=b_, data=d_)
                x1, t1, X, T_ = data(w, r.n, h5=cls is HPELM)
                w.call(m, op, x1, t1, **r.kw)
                cp = Composed(w, ck)
                nn = w.field(m, "nnet")
                return rows(X, r), rows(T_, r), cp.resolve(w.content(nn, "HH")), cp.resolve(w.content(nn, "HT")), cp.resolve(w.content(nn, "B"))
            a = attempt(ck, Tr, name, where, f)
            if a:
                X, T_, HH, HT, B = a[1]
                h, tt = acc_terms(X, T_)
                ck.eq(M1, name + ": HH", HH, h, where)
                ck.eq(M1, name + ": HT", HT, tt, where)
                ck.eq(Tr, name + ": B", B, mk("Solve", h, tt), where)
    for q in [None] + host_solvers():
        for op in ("add_data", "add_data_async"):
            where = "%s.%s" % (M["hp"], op)
            for r in ranges():
                if q and (r.kw or op != "add_data"):
                    continue
                for old in (True, False):
                    name = "%s files, %s%s%s" % (op, r.name, ", existing data in the model" if old else "", ", " + short(q) if q else "")

                    def f(w):
                        m = w.model(HPELM, data=old and not q)
                        if q:
                            use_solver(w, m, q)
                            if old:
                                w.call(m, "add_data", w.param("Xo", N0, NI), w.param("To", N0, NO))
                        x1, t1, X, T_ = data(w, r.n, h5=True)
                        w.lib.filesyms[C("HH.h5")], w.lib.filesyms[C("HT.h5")] = arr("FHH", L, L), arr("FHT", L, NO)
                        w.call(m, op, x1, t1, fHH=C("HH.h5"), fHT=C("HT.h5"), **r.kw)
                        cp = Composed(w, ck)
                        X = rows(X, r)
                        H = w.D(w.call(w.field(m, "nnet"), "_project", X)) if q else project(X)
                        return H, rows(T_, r), cp.resolve(file_content(w, "HH.h5")), cp.resolve(file_content(w, "HT.h5"))
                    a = attempt(ck, W, name, where, f, real=bool(q))
                    if a:
                        H, T_, HH, HT = a[1]
                        dH, dT = t.mm(t.transpose(H), H), t.mm(t.transpose(H), T_)
                        FH, FT = arr("FHH", L, L), arr("FHT", L, NO)
                        for ex in (True, False):
                            v = C(ex)
                            g, k = assume_files(HH, ex), assume_files(HT, ex)
                            nm = name + (", existing files" if ex else ", new files")
                            ck.eq(W, nm + ": HH", g, t.add(FH if ex else t.mul(NORM, mk("eye", L)), dH), where)
                            ck.eq(W, nm + ": HT", k, t.add(FT, dT) if ex else dT, where)


def assume_files(x, exist):
    m = {y: C(exist) for y in t.subterms(x) if y.op == "truth" and y.args[0].op == "exists"}
    m.update({y: C(exist) for y in t.subterms(x) if y.op == "exists"})
    return t.subst(x, m) if m else x
