"""C19: neuron numbers, weight columns and biases stay together when neurons are added and pruned"""
from common import *

K = sym("K", kind="int", pos=True, shape=())
NEW = sym("n1", kind="int", pos=True, shape=())
NEW2 = sym("n2", kind="int", pos=True, shape=())
TYPES = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")


def csizes(k):
    m = sizes(k)
    m.update({"L0": 1 + k % 3, "L1": 1 + (k // 2) % 3, "L2": 1 + k % 2, "K": 1 + k % 4, "n1": 1 + k % 3, "n2": 1 + (k // 3) % 3, "ell": 1 + k % 4})
    return m


def groups(w, s):
    """the stored neurons as [(number, type, W, bias)] or None"""
    v = w.D(w.call(s, "get_neurons"))
    if v.op not in ("list", "tuple"):
        return None
    out = []
    for g in v.args:
        g = w.D(g)
        if g.op not in ("tuple", "list") or len(g.args) != 4:
            return None
        out.append(tuple(w.D(x) for x in g.args))
    return out


def same_groups(ck, rule, name, got, want, where, facts=()):
    if got is None:
        return ck.add(rule, name, None, where, "the stored neurons are not a list of (number, type, weights, biases)")
    if len(got) != len(want):
        return ck.add(rule, name, False, where, "%d groups of neurons expected, %d stored" % (len(want), len(got)))
    for i, (g, e) in enumerate(zip(got, want)):
        for what, a, b in zip(("number", "type", "weights", "biases"), g, e):
            if b is not None:
                ck.eq(rule, "%s: %s of group %d" % (name, what, i), a, b, where, facts)


def total_l(ls):
    r = ZERO
    for x in ls:
        r = t.add(r, x)
    return r


def run(ck):
    ck.sizes = csizes
    ck.premises = (t.le(NEW, NI),)     # no more linear neurons than inputs
    A = ck.rule("append", "new neurons of a known type extend its group at the end, neurons of a new type form a new last group; other groups are unchanged")
    P = ck.rule("prune", "pruning keeps exactly the chosen neurons of every type, each with its own weight column and bias")
    C_ = ck.rule("count", "the number of neurons, the columns of W and the entries of the bias agree, and their total is the number of neurons of the network")
    O = ck.rule("hidden", "the hidden layer has one output per stored neuron, in the stored order, of the stored weights")
    G = ck.rule("generated", "weights and biases made by the model have one column and one entry per neuron of the requested number")
    for q in solvers():
        for fn in ("lin", "tanh", "sigm"):
            name = "%s: add %s to lin, tanh" % (short(q), fn)
            where = q + ".add_neurons"

            def f(w):
                s = concrete_solver(w, q, ftypes=("lin", "tanh"))
                w.call(s, "add_neurons", NEW, fn, w.param("Wn", NI, NEW), w.param("bn", NEW))
                X = w.param("X", N0, NI)
                return groups(w, s), w.content(s, "L"), w.D(w.call(s, "_project", X))
            a = attempt(ck, A, name, where, f, real=True)
            if not a:
                continue
            got, l, H = a[1]
            ls = group_sizes(2)
            Ws, bs = [arr("W%d" % i, NI, ls[i]) for i in (0, 1)], [arr("b%d" % i, ls[i]) for i in (0, 1)]
            want = [[ls[i], C(x), Ws[i], bs[i]] for i, x in enumerate(("lin", "tanh"))]
            Wn, bn = arr("Wn", NI, NEW), arr("bn", NEW)
            if fn == "sigm":
                want.append([NEW, C(fn), Wn, bn])
            else:
                i = 0 if fn == "lin" else 1
                want[i] = [t.add(ls[i], NEW), C(fn), hstack([Ws[i], Wn]), hstack([bs[i], bn])]
            same_groups(ck, A, name, got, want, where)
            ck.eq(C_, name, l, total_l([x[0] for x in want]), where)
            X = arr("X", N0, NI)
            ck.eq(O, name, H, hstack([act(X, x) for x in want]), where)
        pruned(ck, P, C_, O, q)
    for cls in (ELM, HPELM):
        model(ck, A, G, C_, cls)


def act(X, g):
    """hidden outputs of a group"""
    z = t.add(t.mm(X, g[2]), g[3])
    fn = g[1].args[1]
    return z if fn == "lin" else mk("tanh", z) if fn == "tanh" else t.power(t.add(ONE, mk("exp", z)), -1)


def pruned(ck, P, C_, O, q):
    where = q + "._prune"
    for ordered in ("sorted", "any order", "first"):
        name = "%s: prune to %s" % (short(q), {"first": "the first neurons"}.get(ordered, "indices in " + ordered if ordered != "sorted" else "sorted indices"))
        nm = {"sorted": "idxs", "any order": "idxu", "first": None}[ordered]
        how = {"unsorted": True} if ordered == "any order" else {}
        ls = group_sizes(2)
        n = t.add(*ls)
        ell = sym("ell", kind="int", pos=True, shape=())

        def f(w):
            s = concrete_solver(w, q, ftypes=("lin", "tanh"))
            if nm is None:
                idx = w.value("idx", mk("arange", ell))
            else:
                idx = w.param(nm, K, indices=n, **how)
            w.call(s, "_prune", idx)
            X = w.param("X", N0, NI)
            return groups(w, s), w.content(s, "L"), w.D(w.call(s, "_project", X))
        a = attempt(ck, P, name, where, f, real=True)
        if not a:
            continue
        got, l, H = a[1]
        facts = [t.le(K, n)] if nm else [t.le(ell, n)]
        kk = K if nm else ell
        idx = arr(nm, K, indices=n, **how) if nm else mk("arange", ell)
        if got is None or len(got) != 2:
            ck.add(P, name, None if got is None else False, where, "the neuron types are not kept apart")
            continue
        off = ZERO
        X = arr("X", N0, NI)
        want = []
        for i, (cnt, fn, W, b) in enumerate(got):
            it = t.fresh_it()
            x = t.elem(idx, it)
            sel = t.close_binder("Filter", it, (kk, t.and_(t.le(off, x), t.lt(x, t.add(off, ls[i]))), t.sub(x, off)))
            We, be = t.sel(arr("W%d" % i, NI, ls[i]), (t.FULL, ("idx", sel))), t.sel(arr("b%d" % i, ls[i]), (("idx", sel),))
            m = mk("len", sel)
            want.append((m, C(("lin", "tanh")[i]), We, be))
            ck.eq(P, "%s: type of group %d" % (name, i), fn, C(("lin", "tanh")[i]), where, facts)
            # whatever the order of the kept neurons within their type
            ck.eq(P, "%s: number in group %d" % (name, i), cnt, m, where, facts)
            ck.eq(P, "%s: weights of group %d" % (name, i), t.mm(W, t.transpose(W)), t.mm(We, t.transpose(We)), where, facts)
            ck.eq(P, "%s: biases of group %d" % (name, i), t.sum_(t.mul(b, b), NONE), t.sum_(t.mul(be, be), NONE), where, facts)
            ck.eq(P, "%s: weights with their biases in group %d" % (name, i), t.mm(W, b), t.mm(We, be), where, facts)
            off = t.add(off, ls[i])
        ck.eq(C_, name, l, kk, where, facts)
        ck.eq(O, name, H, hstack([act(X, g) for g in got]), where, facts)


def model(ck, A, G, C_, cls):
    where = M["elm" if cls is ELM else "hp"] + ".add_neurons"
    where = M["elm"] + ".add_neurons"
    name = "%s: given weights" % short(cls)

    def f(w):
        m = w.model(cls, neurons=False)
        w.call(m, "add_neurons", NEW, "tanh", w.param("Wa", NI, NEW), w.param("ba", NEW))
        w.call(m, "add_neurons", NEW2, "sigm", w.param("Wb", NI, NEW2), w.param("bb", NEW2))
        w.call(m, "add_neurons", NEW2, "tanh", w.param("Wc", NI, NEW2), w.param("bc", NEW2))
        s = w.field(m, "nnet")
        return groups(w, s), w.content(s, "L")
    a = attempt(ck, A, name, where, f, real=True)
    if a:
        g, l = a[1]
        want = [(t.add(NEW, NEW2), C("tanh"), hstack([arr("Wa", NI, NEW), arr("Wc", NI, NEW2)]), hstack([arr("ba", NEW), arr("bc", NEW2)])),
                (NEW2, C("sigm"), arr("Wb", NI, NEW2), arr("bb", NEW2))]
        same_groups(ck, A, name, g, want, where)
        ck.eq(C_, name, l, t.add(NEW, t.mul(C(2), NEW2)), where)
    for fn in TYPES:
        for given in ("", "W", "B"):
            name = "%s: %s neurons, %s" % (short(cls), fn, "only %s given" % given if given else "nothing given")

            def f(w):
                m = w.model(cls, neurons=False)
                kw = {}
                n = NEW
                if given == "W":
                    kw["W"] = w.param("Wg", NI, NEW)
                if given == "B":
                    n = NEW
                    kw["B"] = w.param("Bg", NEW, pos=True)
                w.call(m, "add_neurons", NEW, fn, **kw)
                s = w.field(m, "nnet")
                g1 = groups(w, s)
                w.call(m, "add_neurons", NEW2, fn, w.param("Wa", NI, NEW2), w.param("ba", NEW2, pos=True))
                return g1, groups(w, s), w.content(s, "L")
            # more linear neurons than inputs are cut to the number of inputs, a bias for them is refused
            a = attempt(ck, G, name, where, f, real=True)
            if not a:
                continue
            g1, g2, l = a[1]
            if not g1 or len(g1) != 1 or not g2 or len(g2) != 1:
                ck.add(G, name, None, where, "the stored neurons are not one group")
                continue
            n, ty, W, B = g1[0]
            want = t.minimum(NEW, NI) if fn == "lin" and given == "" else NEW
            facts = [t.le(NEW, NI)] if fn == "lin" and given == "B" else []
            ck.eq(G, name + ": number", n, want, where, facts)
            ck.eq(G, name + ": type", ty, C(fn), where)
            for what, x, k in (("weights", W, 1), ("biases", B, 0)):
                sh = t.shape(x)
                if sh is None or len(sh) != k + 1:
                    ck.add(G, "%s: %s" % (name, what), None if sh is None else False, where, "shape %s" % (sh,))
                    continue
                ck.eq(G, "%s: columns of the %s" % (name, what), sh[k], want, where, facts)
                if k:
                    ck.eq(G, "%s: rows of the %s" % (name, what), sh[0], NI, where, facts)
            if given:
                ck.eq(G, name + ": the given array is used", W if given == "W" else B, arr("Wg", NI, NEW) if given == "W" else arr("Bg", NEW), where, facts)
            n2, _, W2, B2 = g2[0]
            ck.eq(A, name + ", then more: number", n2, t.add(want, NEW2), where, facts)
            ck.eq(A, name + ", then more: weights", W2, hstack([W, arr("Wa", NI, NEW2)]), where, facts)
            ck.eq(A, name + ", then more: biases", B2, hstack([B, arr("ba", NEW2)]), where, facts)
            ck.eq(C_, name, l, t.add(want, NEW2), where, facts)
