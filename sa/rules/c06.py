"""C06: a change of the neurons discards the solution and the accumulated matrices, a reset only the latter"""
from common import *
from rules.c19 import csizes, groups, total_l

NEW = sym("n1", kind="int", pos=True, shape=())
K = sym("K", kind="int", pos=True, shape=())


def state(w, s):
    g = w.D(w.call(s, "get_corr"))
    hh, ht = (w.D(x) for x in g.args) if g.op == "tuple" else (g, g)
    return w.D(w.call(s, "get_B")), hh, ht, w.content(s, "L"), groups(w, s)


def gone(ck, rule, name, v, where, what):
    if v is NONE:
        return ck.add(rule, name, True, where, "", "None on every path")
    if any(x.op in ("opq", "unk", "unkfld", "any") for x in t.subterms(v)):
        return ck.add(rule, name, None, where, "not fully modelled: %s" % t.show(v, 5)[:200])
    return ck.add(rule, name, False, where, "%s still present: %s" % (what, t.show(v, 6)[:300]))


def refuses(ck, rule, name, where, prep, call, **kw):
    """after prep, no path of call completes"""
    a = attempt(ck, rule, name, where, prep, **kw)
    if not a:
        return
    w, x = a
    w.mark()
    try:
        r = call(w, x)
    except Refused:
        ck.add(rule, name, True, where, "", "no normal completion")
    else:
        ck.add(rule, name, None if w.I.notes or w.lib.unknown else False, where,
               "the call completes%s" % ("" if r is None else " and returns %s" % t.show(w.D(r), 5)[:200]))
    ck.done(w)


def full(w, q, via):
    """a solver with neurons, output weights and accumulated matrices"""
    s = concrete_solver(w, q, ftypes=("lin", "tanh"))
    l = t.add(*group_sizes(2))
    if via == "set_corr":
        w.call(s, "set_corr", w.param("HH0", l, l, sym=True), w.param("HT0", l, NO))
    else:
        w.call(s, "add_batch", w.param("X0", N0, NI), w.param("T0", N0, NO))
    return s


def run(ck):
    ck.sizes = csizes
    D = ck.rule("discard", "after adding or pruning neurons or loading a model no output weights or accumulated matrices of the previous network are left")
    N_ = ck.rule("count", "the number of neurons of the network is the number of stored neurons")
    R = ck.rule("reset", "resetting keeps output weights and neurons and discards the accumulated matrices")
    F = ck.rule("refuse", "a model without output weights for its neurons refuses to predict")
    ls = group_sizes(2)
    n = t.add(*ls)
    for q in solvers():
        for via in ("set_corr", "add_batch"):
            for op in ("add_neurons of a known type", "add_neurons of a new type", "_prune"):
                name = "%s: %s after %s" % (short(q), op, via)
                where = q + "." + op.split()[0]

                def f(w, X=None):
                    s = full(w, q, via)
                    if X is not None:
                        w.call(s, "_project", X(w))
                    if op == "_prune":
                        w.call(s, "_prune", w.param("idxs", K, indices=n))
                    else:
                        w.call(s, "add_neurons", NEW, "tanh" if "known" in op else "sigm", w.param("Wn", NI, NEW), w.param("bn", NEW))
                    return s
                def again(w):
                    """the hidden layer of the same inputs before and after the change"""
                    X = w.param("X", N0, NI)
                    s = f(w, lambda w: X)
                    return w.D(w.call(s, "_project", X)), w.D(w.call(s, "_project", w.value("X again", arr("X", N0, NI))))
                a = attempt(ck, D, name, where, again, real=True)
                if a:
                    ck.eq(D, name + ": hidden layer of inputs seen before", a[1][0], a[1][1], where)
                a = attempt(ck, D, name, where, lambda w: state(w, f(w)), real=True)
                if not a:
                    continue
                B, hh, ht, l, gs = a[1]
                for what, v in (("output weights", B), ("HH", hh), ("HT", ht)):
                    gone(ck, D, "%s: %s" % (name, what), v, where, what)
                if gs:
                    facts = [t.le(K, n)] if op == "_prune" else []
                    ck.eq(N_, name, l, total_l([t.shape(g[2])[1] if t.shape(g[2]) else g[0] for g in gs]), where, facts)
                else:
                    ck.add(N_, name, None, where, "stored neurons are not a list of groups")
                refuses(ck, F, name, where, f, lambda w, s: w.call(s, "_predict", w.param("X", N0, NI)), real=True)
            name = "%s: reset after %s" % (short(q), via)
            where = q + ".reset"

            def f(w):
                s = full(w, q, via)
                a = state(w, s)
                w.call(s, "reset")
                return a, state(w, s), w.D(w.call(s, "_predict", w.param("X", N0, NI)))
            a = attempt(ck, R, name, where, f, real=True)
            if a:
                old, new, Y = a[1]
                ck.eq(R, name + ": output weights", new[0], arr("B0", n, NO), where)
                gone(ck, R, name + ": HH", new[1], where, "HH")
                gone(ck, R, name + ": HT", new[2], where, "HT")
                ck.eq(R, name + ": number of neurons", new[3], n, where)
                same = old[4] is not None and new[4] is not None and len(old[4]) == len(new[4]) and \
                    all(t.same(x, y) for g, h in zip(old[4], new[4]) for x, y in zip(g, h))
                ck.add(R, name + ": neurons", True if same else None if old[4] is None or new[4] is None else False, where, "the neurons change")
    models(ck, D, N_, R, F)


def models(ck, D, N_, R, F):
    for cls in (ELM, HPELM):
        for acc in (None, "basic", "GPU"):
            nm = "%s, %s" % (short(cls), acc or "default solver")
            where = M["elm"] + ".add_neurons"

            def solved(w):
                m = w.model(cls, neurons=False, accelerator=acc)
                w.call(m, "add_neurons", NEW, "tanh", w.param("Wa", NI, NEW), w.param("ba", NEW))
                s = w.field(m, "nnet")
                w.call(s, "set_corr", w.param("HH1", NEW, NEW, sym=True), w.param("HT1", NEW, NO))
                w.call(s, "set_B", w.param("B1", NEW, NO))
                return m

            def f(w):
                m = solved(w)
                w.call(m, "add_neurons", NEW, "tanh")
                return state(w, w.field(m, "nnet"))
            a = attempt(ck, D, nm + ": add_neurons", where, f, real=True)
            if a:
                B, hh, ht, l, gs = a[1]
                for what, v in (("output weights", B), ("HH", hh), ("HT", ht)):
                    gone(ck, D, "%s: add_neurons: %s" % (nm, what), v, where, what)
                ck.eq(N_, nm + ": add_neurons", l, t.mul(C(2), NEW), where)

            def f(w):
                m = solved(w)
                m2 = w.model(cls, neurons=False, accelerator=acc)
                w.call(m2, "add_neurons", NEW, "tanh", w.param("Wa", NI, NEW), w.param("ba", NEW))
                w.call(m2, "save", C("m.elm"))
                w.call(m, "load", C("m.elm"))
                return state(w, w.field(m, "nnet"))
            where = M["elm"] + ".load"
            a = attempt(ck, D, nm + ": load", where, f, real=True)
            if a:
                B, hh, ht, l, gs = a[1]
                for what, v in (("output weights", B), ("HH", hh), ("HT", ht)):
                    gone(ck, D, "%s: load of an unsolved model: %s" % (nm, what), v, where, what)
                ck.eq(N_, nm + ": load", l, NEW, where)
            if acc == "GPU":
                continue
            for op in ("predict",) + (("predict_async",) if cls is HPELM else ()):
                where = "%s.%s" % (cls if cls is ELM else M["hp"], op)

                def call(w, m):
                    if cls is HPELM:
                        fX, fT, X, T_ = data(w, N0, h5=True)
                        return w.call(m, op, fX, C("Y.h5"))
                    return w.call(m, op, w.param("X", N0, NI))

                def f(w):
                    m = w.model(cls, neurons=False, accelerator=acc)
                    w.call(m, "add_neurons", NEW, "tanh", w.param("Wa", NI, NEW), w.param("ba", NEW))
                    return m
                refuses(ck, F, "%s: %s of an unsolved model" % (nm, op), where, f, call, real=True)

                def f(w):
                    m = solved(w)
                    w.call(m, "add_neurons", NEW, "sigm")
                    return m
                refuses(ck, F, "%s: %s after add_neurons" % (nm, op), where, f, call, real=True)
