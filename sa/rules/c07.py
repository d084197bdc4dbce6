"""C07: caller's data is never modified or captured"""
import terms as t
from terms import C, mk, NONE, ZERO, ONE, sym
from common import *
import ops

OUT = {"param:OUT"}


def run(ck):
    ck.sizes = ops.osizes
    M_ = ck.rule("modify", "no operation stores into an array (or list) it was given, except an explicit output array")
    K = ck.rule("capture", "after an operation no reference to a given array (or to a view of it) is reachable from the model")
    todo = [(o, {}) for o in ops.operations(full=ck.thorough)]
    for q in host_solvers():
        todo += [(o, {"real": True}) for o in ops.operations(solver=q, full=ck.thorough) if not o.hooks and "hdf5" not in o.name]
    jobs = [lambda ck, i=i: [one(ck, M_, K, o.name + (", " + short(o.solver) if getattr(o, "solver", None) else ""), o.where, o.f, o.hooks, kw) for o, kw in todo[i::6]] for i in range(6)]
    jobs.append(lambda ck: [one(ck, M_, K, n, w, f, None, {"real": True}, ("W0", "W1", "W2", "b0", "b1", "b2", "Wn", "bn")) for n, w, f in direct(ck)])
    ck.parallel(jobs)


def direct(ck):
    """operations of the solvers and helpers called with arrays"""
    out = []
    n1 = sym("n1", kind="int", pos=True)
    for q in solvers():
        def s_(w, q=q, **kw):
            s = concrete_solver(w, q, **kw)
            return s

        def put(nm, f, q=q):
            out.append(("%s.%s" % (short(q), nm), q + "." + nm.split()[0], f))
        l = t.add(*group_sizes(2))
        for ft in ("tanh", "sigm", "rbf_l2", "rbf_l1", "rbf_linf", "lin"):
            put("add_neurons %s" % ft, lambda w, s_=s_, ft=ft: (lambda s: (s, w.call(s, "add_neurons", n1, ft, w.param("Wn", NI, n1), w.param("bn", n1, pos=True))))(s_(w)))
        put("add_batch", lambda w, s_=s_: (lambda s: (s, w.call(s, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO))))(s_(w)))
        put("add_batch weighted", lambda w, s_=s_: (lambda s: (s, w.call(s, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO), w.param("w", N0, pos=True))))(s_(w)))
        put("add_batch twice", lambda w, s_=s_: (lambda s: (s, w.call(s, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO)),
                                                           w.call(s, "add_batch", w.param("X2", N0, NI), w.param("T2", N0, NO))))(s_(w)))
        put("set_B", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "set_B", w.param("Bn", l, NO))))(s_(w)))
        put("set_corr", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "set_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO))))(s_(w)))
        put("set_corr, add_batch", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "set_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO)),
                                                                    w.call(s, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO))))(s_(w)))
        put("set_corr, solve", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "set_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO)), w.call(s, "solve")))(s_(w)))
        put("solve_corr", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "solve_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO))))(s_(w)))
        put("_predict", lambda w, s_=s_: (lambda s: (s, w.call(s, "_predict", w.param("X", N0, NI))))(s_(w)))
        put("_project", lambda w, s_=s_: (lambda s: (s, w.call(s, "_project", w.param("X", N0, NI))))(s_(w, ftypes=("lin", "sigm", "rbf_l2"))))
        put("_prune", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "_prune", w.param("idxs", sym("K", kind="int", pos=True), indices=l))))(s_(w)))
        put("set_B, _prune", lambda w, s_=s_, l=l: (lambda s: (s, w.call(s, "set_B", w.param("Bn", l, NO)), w.call(s, "_prune", w.param("idxs", sym("K", kind="int", pos=True), indices=l))))(s_(w)))
    for q in ("hpelm.modules.mrsr.mrsr", "hpelm.modules.mrsr2.mrsr2"):
        out.append((q.rsplit(".", 1)[1], q, lambda w, q=q: (None, w.call(q, None, w.param("H", N0, L), w.param("T", N0, NO), sym("kmax", kind="int", pos=True)))))
    return out


def one(ck, M_, K, name, where, f, hooks, kw, handed=()):
    # handed: arrays whose ownership passes to the solver (the model copies the weights before it hands them over)
    a = attempt(ck, M_, name, where, f, hooks=hooks, **kw)
    if not a:
        return
    w, r = a
    m = r[0]
    bad = {}
    n = 0
    w.ev0 = 0
    states = [w.st]
    evs = list(w.events)
    for h in ops.helpers(w):
        evs += h["events"]
    for e in evs:
        if e.kind != "Mutate":
            continue
        n += 1
        tag = e.tag
        if tag and str(tag).startswith("param:") and tag not in OUT:
            bad.setdefault((tag, e.where), e)
    for (tag, wh), e in bad.items():
        soft = e.new is not None and e.new is e.old
        ck.add(M_, "%s: %s" % (name, tag[6:]), True if soft else False, wh, "the given array is modified (%s)" % e.how)
    if not bad:
        ck.add(M_, name, True, where, "", "%d stores" % n)
    # reachability
    if m is None or m.op != "obj":
        return
    got = [(p, r) for p, r in captured(w, m) if r.args[0] not in handed]
    for path, ref in got:
        ck.add(K, "%s: %s" % (name, t.show(ref)[:60]), False, where, "the model keeps a reference to the given array in %s" % path)
    if not got:
        ck.add(K, name, True, where)


def captured(w, m):
    out, seen = [], set()
    todo = [("the model", m)]
    while todo:
        path, v = todo.pop()
        if not isinstance(v, t.T):
            continue
        if v.op in ("obj", "view"):
            k = v.args[0] if v.op == "obj" else base(v)
            if k in seen:
                continue
            seen.add(k)
            if isinstance(k, tuple) and k and k[0] == "param":
                out.append((path, mk("sym", k[1])))
                continue
            c = w.st.heap.get(k)
            if c is None:
                continue
            if c.kind == "inst":
                for f, x in c.data.items():
                    todo.append(("%s.%s" % (path, f), x))
            elif c.kind == "dict":
                for a, x in c.data:
                    todo.append(("%s[...]" % path, x))
            elif c.kind in ("list", "set"):
                todo.append(("%s[...]" % path, c.data))
            continue
        if v.op in ("ite", "tuple", "list", "concat", "Build", "dev", "store", "Rec"):
            for x in v.args:
                if isinstance(x, t.T):
                    todo.append((path, x))
                elif isinstance(x, tuple):
                    todo += [(path, y) for y in x if isinstance(y, t.T)]
    return out


def base(v):
    while v.op == "view":
        v = v.args[0]
    return v.args[0] if v.op == "obj" else None
