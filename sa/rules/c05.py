"""C05: weighted classification uses one weight per sample, the weight of its class, in every training route"""
from common import *
NV = sym("Nv", kind="int", pos=True)
NF = t.add(C(3), sym("kx", kind="int", nonneg=True, shape=()))          # number of folds
NCV = t.add(NF, sym("nx", kind="int", nonneg=True, shape=()))           # at least one sample for each


def auto(T_):
    """automatic weights: number of samples divided by number of samples of the class"""
    ns = t.sum_(T_, ZERO)
    return t.div(t.sum_(ns, NONE), ns)


def present(T_):
    """every class has a sample (automatic weights are defined)"""
    return t.eq(t.sum_(t.le(t.sum_(T_, ZERO), ZERO), NONE), ZERO)


def csizes(k):
    m = sizes(k)
    m.update({"outputs": 2 + k % 2, "kx": k % 2, "nx": k % 4, "N": 4 + k % 5, "rem": 3 + k % 5, "Nv": 1 + k % 4, "L": 3 + k % 3})
    return m


def run(ck):
    ck.sizes = csizes
    Wt = ck.rule("weights", "every batch given to the solver carries, for each of its samples, the weight of the class of that sample")
    A = ck.rule("automatic", "without given weights, the weight of a class is the number of samples divided by the number of samples of that class, over all selected training rows")
    G = ck.rule("given", "weights given by the caller are used unchanged and kept")
    S = ck.rule("solver", "a sample of weight w contributes w times to HH and to HT")
    for q in solvers():
        where = q + ".add_batch"
        for ft in ("tanh", "lin"):
            def f(w):
                s = concrete_solver(w, q, ftypes=(ft,), B=False)
                X, T_ = w.param("X", N0, NI), w.param("T", N0, NO)
                H = w.D(w.call(s, "_project", X))
                w.call(s, "add_batch", X, T_, w.param("c", N0, pos=True))
                g = w.D(w.call(s, "get_corr"))
                return H, w.D(g.args[0]), w.D(g.args[1])
            a = attempt(ck, S, "%s, %s" % (short(q), ft), where, f, real=True)
            if a:
                H, HH, HT = a[1]
                c = t.col(arr("c", N0, pos=True))
                T_ = arr("T", N0, NO)
                ck.eq(S, "%s, %s: HH" % (short(q), ft), HH, t.add(t.mul(NORM, mk("eye", group_sizes(1)[0])), t.mm(t.transpose(t.mul(H, c)), H)), where)
                ck.eq(S, "%s, %s: HT" % (short(q), ft), HT, t.mm(t.transpose(t.mul(H, c)), T_), where)
    routes = [(ELM, "train", "np", 0), (ELM, "add_data", "np", 0), (HPELM, "train", "h5", 1), (HPELM, "train", "np", 1), (HPELM, "add_data", "h5", 1),
              (HPELM, "train_async", "h5", 1), (HPELM, "add_data_async", "h5", 1)]
    for cls, op, src, full in routes:
        where = "%s.%s" % (M["elm" if cls is ELM else "hp"], op)
        for given in (False, True):
            for r in ranges(full=bool(full)):
                name = "%s.%s %s, %s weights, %s" % (short(cls), op, src, "given" if given else "automatic", r.name)

                def f(w):
                    fX, fT, X, T_ = data(w, r.n, cl="wc", h5=src == "h5")
                    wc, kw, ar, init = None, dict(r.kw), [], {}
                    if op.startswith("train"):
                        ar = [C("wc")]
                    else:
                        init["classification"] = "wc"
                    if given:
                        p, wc = wcvec(w)
                        (kw if op.startswith("train") else init)["w"] = p
                    m = w.model(cls, **init)
                    w.call(m, op, fX, fT, *ar, **kw)
                    cp = Composed(w, ck)
                    return rows(X, r), rows(T_, r), wc, w.content(m, "wc"), cp
                a = attempt(ck, Wt, name, where, f)
                if not a:
                    continue
                X, T_, wc, kept, cp = a[1]
                want = wc if given else auto(T_)
                if kept is None or kept is NONE:
                    ck.add(G if given else A, name, False, where, "the model has no class weights after training")
                else:
                    ck.eq(G if given else A, name, kept, want, where, facts=[present(T_)])
                events(ck, Wt, name, a[0], want, where, cp.resolve, [present(T_)])
    mss(ck, Wt, A, G)


def events(ck, rule, name, w, want, where, res=lambda x: x, facts=()):
    evs = [e for e in w.evs("Solver") if e.method == "add_batch"]
    if not evs:
        return ck.add(rule, name, None, where, "no batch reached the solver")
    for j, e in enumerate(evs):
        nm = "%s, batch %d" % (name, j)
        wts = e.args[2] if len(e.args) > 2 else e.kw.get("wc") if hasattr(e, "kw") else None
        fs = list(e.conds) + list(facts)
        s = {}
        for it, tr, lid in e.loops:
            i = sym("i_%s" % it.args[0], kind="int", nonneg=True, shape=())
            s[it] = i
            fs.append(t.lt(i, tr))
        fs = [res(t.subst(c, s)) for c in fs]
        if wts is None or wts is NONE:
            ck.add(rule, nm, False, e.where, "the batch is added without class weights")
            continue
        ck.eq(rule, nm, t.subst(res(wts), s), t.mm(t.subst(res(e.args[1]), s), want), e.where, facts=fs)


def mss(ck, Wt, A, G):
    for v in ("V", "LOO", "CV"):
        for given in (False, True):
            where = {"V": "hpelm.mss_v.train_v", "LOO": "hpelm.mss_loo.train_loo", "CV": "hpelm.mss_cv.train_cv"}[v]
            name = "ELM.train %s, %s weights" % (v, "given" if given else "automatic")

            def f(w):
                m = w.model(ELM)
                kw, wc = {}, None
                if v == "V":
                    kw.update(Xv=w.param("Xv", NV, NI), Tv=w.param("Tv", NV, NO, onehot=True))
                if v == "CV":
                    kw.update(k=NF)
                if given:
                    kw["w"], wc = wcvec(w)
                fX, fT, X, T_ = data(w, NCV if v == "CV" else N0, cl="wc")
                w.call(m, "train", fX, fT, C(v), C("wc"), **kw)
                return T_, wc, w.content(m, "wc"), w.content(w.field(m, "nnet"), "B")
            a = attempt(ck, Wt, name, where, f)
            if not a:
                continue
            T_, wc, kept, B = a[1]
            want = wc if given else auto(T_)
            ck.eq(G if given else A, name, kept, want, where, facts=[present(T_)])
            events(ck, Wt, name, a[0], want, where, facts=[present(T_)])


