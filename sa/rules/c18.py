"""C18: the documented transformation of every neuron type, the same in every solver"""
from common import *

DIST = {"rbf_l1": "cityblock", "rbf_l2": "euclidean", "rbf_linf": "chebyshev"}
KNOWN = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")
UF = sym("myfunc", kind="ufunc")


def csizes(k):
    m = sizes(k)
    for i in range(8):
        m["L%d" % i] = 1 + (k + i) % 2
    return m


def act(fn, X, W, b):
    """the documented hidden outputs"""
    if fn is UF:
        return mk("ufapp", UF, t.add(t.mm(X, W), b))
    if fn in DIST:
        d = mk("cdist", X, t.transpose(W), C(DIST[fn]))
        return mk("exp", t.neg(t.div(t.power(d, 2), b)))
    z = t.add(t.mm(X, W), b)
    return z if fn == "lin" else mk("tanh", z) if fn == "tanh" else t.power(t.add(ONE, mk("exp", z)), -1)


def accepted():
    """names a model accepts"""
    w = World(real=True)
    m = w.model(ELM, neurons=False)
    v = w.content(m, "flist")
    if v is None or v.op not in ("list", "tuple") or not all(t.isstr(x) for x in v.args):
        return None
    return [x.args[1] for x in v.args]


def run(ck):
    ck.sizes = csizes
    S = ck.rule("type", "the hidden layer of a neuron type is its documented transformation of the inputs, weights and biases")
    K = ck.rule("stack", "groups of different types stand side by side in their stored order")
    P = ck.rule("predict", "predictions are the hidden layer times the output weights")
    A = ck.rule("accepted", "every type that add_neurons accepts can be projected by every solver, also with generated weights")
    ls = group_sizes(len(KNOWN) + 1)
    X = arr("X", N0, NI)
    Ws = [arr("W%d" % i, NI, l) for i, l in enumerate(ls)]
    bs = [arr("b%d" % i, l) for i, l in enumerate(ls)]
    for q in solvers():
        for fn in KNOWN + (UF,):
            nm = "%s, %s" % (short(q), fn if fn is not UF else "custom ufunc")
            where = q + "._project"

            def f(w):
                s = concrete_solver(w, q, ftypes=(fn,))
                x = w.param("X", N0, NI)
                return w.D(w.call(s, "_project", x)), w.D(w.call(s, "_predict", x)), w.D(x)
            a = attempt(ck, S, nm, where, f, real=True)
            if a:
                H, Y, x = a[1]
                e = act(fn, X, Ws[0], bs[0])
                ck.eq(S, nm, H, e, where)
                ck.eq(P, nm, Y, t.mm(e, arr("B0", ls[0], NO)), q + "._predict")
        for order in (KNOWN + (UF,), (UF,) + KNOWN[::-1], KNOWN[::-1], KNOWN):
            nm = "%s, %s ... %s" % (short(q), name(order[0]), name(order[-1]))

            def f(w):
                s = concrete_solver(w, q, ftypes=order)
                x = w.param("X", N0, NI)
                return w.D(w.call(s, "_project", x))
            a = attempt(ck, K, nm, where, f, real=True)
            if a:
                ck.eq(K, nm, a[1], hstack([act(g, X, Ws[i], bs[i]) for i, g in enumerate(order)]), where)
    names = accepted()
    if names is None:
        ck.add(A, "accepted names", None, ELM + ".add_neurons", "the list of accepted types is not a list of names")
        names = list(KNOWN)
    else:
        for fn in KNOWN:
            ck.add(A, "%s is accepted" % fn, fn in names, ELM + ".add_neurons", "add_neurons refuses the documented type %s" % fn)
    for q in solvers():
        for fn in list(names) + [UF]:
            nm = "%s, %s with generated weights" % (short(q), name(fn))

            def f(w):
                m = w.model(ELM, neurons=False)
                s = w.make(q, NI, NO, norm=NORM)
                w.I.setfield(w.st, m, "nnet", s)
                w.call(m, "add_neurons", sym("n1", kind="int", pos=True), fn)
                return w.D(w.call(s, "_project", w.param("X", N0, NI)))
            a = attempt(ck, A, nm, q + "._project", f, real=True)
            if a:
                H = a[1]
                sh = t.shape(H)
                if sh is None:
                    ck.add(A, nm, None, q + "._project", "the shape of the hidden layer is not known")
                else:
                    n = t.minimum(sym("n1"), NI) if fn == "lin" else sym("n1")
                    ck.add(A, nm + ": dimensions", len(sh) == 2, q + "._project", "shape %s" % (sh,))
                    if len(sh) == 2:
                        ck.eq(A, nm + ": rows", sh[0], N0, q + "._project")
                        ck.eq(A, nm + ": columns", sh[1], n, q + "._project")


def name(fn):
    return "custom ufunc" if fn is UF else fn
