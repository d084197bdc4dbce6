"""C08: a saved model comes back complete, through a file or bytes, in any kind of model"""
from common import *
from rules.c19 import csizes as base_sizes, groups
from rules.c18 import act

N1, N2 = sym("n1", kind="int", pos=True, shape=()), sym("n2", kind="int", pos=True, shape=())
NI2, NO2 = sym("inputs2", kind="int", pos=True, shape=()), sym("outputs2", kind="int", pos=True, shape=())
NORM2 = sym("norm2", kind="num", pos=True, shape=())


def csizes(k):
    m = base_sizes(k)
    m.update({"inputs2": 1 + k % 3, "outputs2": 2 + (k + 1) % 3, "inputs": 1 + (k + 1) % 3, "outputs": 2 + k % 3})
    return m


def source(w, cls, acc, cl, given, solved, norm=NORM, corr=True):
    kw = {}
    if cl == "wc" and given:
        kw["w"] = w.param("wc", NO, pos=True)
    m = w.model(cls, neurons=False, accelerator=acc, classification=cl, norm=norm, **kw)
    w.call(m, "add_neurons", N1, "tanh", w.param("Wa", NI, N1), w.param("ba", N1))
    w.call(m, "add_neurons", N2, "rbf_l2", w.param("Wb", NI, N2), w.param("bb", N2, pos=True))
    s = w.field(m, "nnet")
    l = t.add(N1, N2)
    if solved:
        w.call(s, "set_B", w.param("B1", l, NO))
    if corr:
        w.call(s, "set_corr", w.param("HH1", l, l, sym=True), w.param("HT1", l, NO))
    return m


def target(w, cls, acc):
    m = w.model(cls, neurons=False, accelerator=acc, classification="ml", inputs=NI2, outputs=NO2, norm=NORM2, w=w.param("w2", NO2, pos=True))
    w.call(m, "add_neurons", N2, "sigm", w.param("Wc", NI2, N2), w.param("bc", N2))
    s = w.field(m, "nnet")
    w.call(s, "set_B", w.param("B2", N2, NO2))
    w.call(s, "set_corr", w.param("HH2", N2, N2, sym=True), w.param("HT2", N2, NO2))
    return m


def look(w, m, solved, cl):
    """what the model does now"""
    s = w.field(m, "nnet")
    r = {"inputs": w.content(s, "inputs"), "outputs": w.content(s, "outputs"), "neurons": groups(w, s), "B": w.D(w.call(s, "get_B")),
         "classification": w.content(m, "classification"), "wc": w.content(m, "wc")}
    g = w.D(w.call(s, "get_corr"))
    r["HH"] = w.D(g.args[0])
    if solved:
        r["Y"] = w.D(w.call(m, "predict", w.param("X", N0, NI)))
    w.call(s, "add_batch", w.param("Xn", N0, NI), w.param("Tn", N0, NO))
    g = w.D(w.call(s, "get_corr"))
    r["HH then"] = w.D(g.args[0])
    r["HT then"] = w.D(g.args[1])
    return r


def run(ck):
    ck.sizes = csizes
    R = ck.rule("complete", "the loaded model has the inputs, outputs, neurons, norm, output weights, classification mode and class weights of the saved one")
    U = ck.rule("use", "it predicts, scores and continues training as the saved one does")
    K = ck.rule("kind", "it keeps the kind of solver it was configured with, and nothing else of its previous content")
    S = ck.rule("source", "saving does not change the saved model")
    kinds = [(None, None), ("basic", None), (None, "basic"), ("GPU", None), (None, "GPU")]
    for route in ("file", "bytes"):
        for a0, a1 in kinds:
            for cl, given in (("", False), ("c", False), ("wc", True), ("wc", False), ("ml", False)):
                for solved in (True, False):
                    if (a0, a1) != (None, None) and (cl, given) not in (("wc", True), ("", False)):
                        continue
                    name = "%s, %s to %s, %s%s, %s" % (route, a0 or "default", a1 or "default", cl or "regression", " with weights" if given else "", "solved" if solved else "unsolved")
                    one(ck, R, U, K, S, name, route, a0, a1, cl, given, solved, ELM, ELM)
        one(ck, R, U, K, S, "%s, solved, no accumulated matrices" % route, route, None, None, "", False, True, ELM, ELM, corr=False)
        one(ck, R, U, K, S, "%s, norm is zero" % route, route, None, None, "", False, True, ELM, ELM, norm=ZERO)
    for c0, c1 in ((ELM, HPELM), (HPELM, ELM), (HPELM, HPELM)):
        for route in ("file", "bytes"):
            one(ck, R, U, K, S, "%s, %s to %s" % (route, short(c0), short(c1)), route, None, None, "wc", True, True, c0, c1)


def one(ck, R, U, K, S, name, route, a0, a1, cl, given, solved, c0, c1, norm=NORM, corr=True):
    where = ELM + (".load" if route == "file" else ".loads")

    def f(w):
        m0 = source(w, c0, a0, cl, given, solved, norm, corr)
        m1 = target(w, c1, a1)
        kind = solver_class(w, m1)
        if route == "file":
            w.call(m0, "save", C("m.elm"))
            w.call(m1, "load", C("m.elm"))
        else:
            w.call(m1, "loads", w.call(m0, "dumps"))
        k2 = solver_class(w, m1)
        return look(w, m1, solved and c1 is ELM, cl), look(w, m0, solved and c0 is ELM, cl), kind, k2
    a = attempt(ck, R, name, where, f, real=True)
    if not a:
        return
    new, old, k1, k2 = a[1]
    l = t.add(N1, N2)
    W, b = [arr("Wa", NI, N1), arr("Wb", NI, N2)], [arr("ba", N1), arr("bb", N2)]
    ns, fns = [N1, N2], ("tanh", "rbf_l2")
    same(ck, R, name + ": inputs", new["inputs"], NI, where)
    same(ck, R, name + ": outputs", new["outputs"], NO, where)
    g = new["neurons"]
    if g is None or len(g) != 2:
        ck.add(R, name + ": neurons", None if g is None else False, where, "two groups of neurons saved, %s loaded" % (g and len(g)))
    else:
        for i in (0, 1):
            for what, x, e in zip(("number", "type", "weights", "biases"), g[i], (ns[i], C(fns[i]), W[i], b[i])):
                ck.eq(R, "%s: %s of group %d" % (name, what, i), x, e, where)
    same(ck, R, name + ": output weights", new["B"], arr("B1", l, NO) if solved else NONE, where)
    same(ck, R, name + ": classification mode", new["classification"], C(cl) if cl else NONE, where)
    same(ck, R, name + ": class weights", new["wc"], arr("wc", NO) if given else NONE, where)
    ck.add(K, name, k1 == k2, where, "%s becomes %s" % (k1, k2))
    same(ck, K, name + ": accumulated matrices", new["HH"], NONE, where)
    X, Xn, Tn = arr("X", N0, NI), arr("Xn", N0, NI), arr("Tn", N0, NO)
    H = hstack([act(fns[i], X, W[i], b[i]) for i in (0, 1)])
    Hn = hstack([act(fns[i], Xn, W[i], b[i]) for i in (0, 1)])
    if "Y" in new:
        ck.eq(U, name + ": predictions", new["Y"], t.mm(H, arr("B1", l, NO)), where)
    # the norm shows in the matrices accumulated from nothing
    ck.eq(U, name + ": norm and HH of further training", new["HH then"], t.add(t.mul(norm, mk("eye", l)), t.mm(t.transpose(Hn), Hn)), where)
    ck.eq(U, name + ": HT of further training", new["HT then"], t.mm(t.transpose(Hn), Tn), where)
    where = ELM + (".save" if route == "file" else ".dumps")
    same(ck, S, name + ": output weights", old["B"], arr("B1", l, NO) if solved else NONE, where)
    same(ck, S, name + ": HH", old["HH"], arr("HH1", l, l) if corr else NONE, where)


def same(ck, rule, name, got, want, where):
    if got is None:
        return ck.add(rule, name, False, where, "missing")
    if want is NONE or got is NONE:
        if got is want:
            return ck.add(rule, name, True, where, "", "equal")
        from rule import unmodelled
        return ck.add(rule, name, None if unmodelled(got) else False, where, "expected %s, found %s" % (t.show(want, 5)[:200], t.show(got, 5)[:200]))
    return ck.eq(rule, name, got, want, where)


def solver_class(w, m):
    return w.I.cell(w.st, w.field(m, "nnet")).cls
