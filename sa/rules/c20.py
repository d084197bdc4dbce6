"""C20: model parameters are kept in the configured precision"""
import terms as t
from terms import C, mk, NONE, TRUE, FALSE, ONE, ZERO, sym
from drive import Refused, F32, F64
from common import *
from rules.c19 import csizes
import dtypes

NAME = {"float32": F32, "float64": F64}
ACC = {"SLFN": "basic", "SLFNPython": None, "SLFNSkCUDA": "GPU"}
SPELL = [("single", "float32"), ("32", "float32"), ("float32", "float32"), (F32, "float32"), ("double", "float64"), ("64", "float64"),
         ("float64", "float64"), (F64, "float64"), (None, "float64")]
KINDS = [("lin", True, 2), ("lin", False, 2), ("tanh", True, 2), ("sigm", False, 2), ("rbf_l1", False, 2), ("rbf_linf", True, 2)]


def run(ck):
    ck.sizes = csizes
    S = ck.rule("spelling", "every documented way to name a precision selects it for the model and its solver; the default is double")
    P = ck.rule("stored", "weights, biases, accumulated matrices and output weights have the model's precision whatever the given dtypes")
    N = ck.rule("routines", "BLAS/LAPACK/CUBLAS routines and GPU operands have the model's precision")
    F = ck.rule("files", "output files and output arrays are created with the model's precision")
    jobs = [lambda ck: spelling(ck, S), lambda ck: files(ck, F)]
    jobs += [lambda ck, q=q, p=p: solver(ck, P, N, q, p) for q in solvers() for p in NAME]
    ck.parallel(jobs)


def verdict(ck, rule, name, where, w, got, want, what="", conv=lambda x: x):
    """got: term of the stored value; want: dtype name"""
    if got is None or got is NONE:
        return ck.add(rule, name, None, where, "nothing stored")
    got = conv(got)
    ty = dtypes.Infer(w.lib)(got)
    low = [x for x in t.subterms(got) if x.op == "cast" and w.lib.dtcanon(x.args[1]) is not None and short(str(w.lib.dtcanon(x.args[1]))) in ("float32", "float16", "half", "single")] \
        if want == "float64" and "load" not in name else []
    if low:
        return ck.add(rule, name, False, where, "%s passes through a lower precision: %s" % (what or "value", t.show(low[0], 3)[:160]), "dtype inference")
    if ty <= {want}:
        return ck.add(rule, name, True, where, "dtype %s" % want, "dtype inference")
    if None in ty or w.lib.unknown:
        return ck.add(rule, name, None, where, "dtype not known of %s" % t.show(got, 3)[:120])
    names = {"any": "the caller's dtype", "weak": "no array dtype"}
    ck.add(rule, name, False, where, "%s has dtype %s instead of %s: %s" % (what or "value", "/".join(sorted(names.get(x, x) for x in ty)), want, t.show(got, 3)[:160]), "dtype inference")


def spelling(ck, R):
    for cls in (ELM, HPELM):
        for acc in ACC.values():
            for sp, want in SPELL:
                kw = {} if sp is None else {"precision": sp if isinstance(sp, t.T) else C(sp)}
                if acc:
                    kw["accelerator"] = C(acc)
                name = "%s(precision=%s, accelerator=%s)" % (short(cls), t.show(sp) if isinstance(sp, t.T) else sp, acc)

                def f(w):
                    m = w.make(cls, NI, NO, **kw)
                    nn = w.field(m, "nnet")
                    return w.lib.dtcanon(w.D(w.field(m, "precision"))), w.lib.dtcanon(w.D(w.field(nn, "precision"))), w.D(w.field(nn, "norm"))
                a = attempt(ck, R, name, cls + ".__init__", f, real=True, dt=True)
                if not a:
                    continue
                w, (mp, sp_, norm) = a
                for who, got in (("model", mp), ("solver", sp_)):
                    ck.add(R, name + ": " + who, None if got is None else got == want, cls + ".__init__", "%s precision %s" % (who, got), "evaluation")
                if sp is F32 or sp is F64:
                    # the default regularisation is a multiple of the machine epsilon of that precision
                    eps = [x for m_, c_ in (norm.args[0] if norm.op == "poly" else ()) for x, e_ in m_ if x.op == "sym" and x.args[0].startswith("eps:")]
                    bad = [x for x in eps if want not in x.args[0]]
                    ck.add(R, name + ": default norm", False if bad else True if eps else None, cls + ".__init__", "default norm is %s" % t.show(norm), "evaluation")


def solver(ck, P, N, q, p):
    gpu = short(q) == "SLFNSkCUDA"
    acc = ACC[short(q)]
    seen = {}

    def undev(x):
        return x.args[0] if x.op == "dev" else x

    def model(w, cls=ELM):
        kw = {"accelerator": C(acc)} if acc else {}
        return w.make(cls, NI, NO, precision=NAME[p], norm=NORM, **kw)

    def routines(w, label):
        for e in w.I.events:
            if e.kind != "Routine":
                continue
            key = (e.where, e.name)
            tys = [dtypes.Infer(w.lib)(undev(x)) for x in e.args]
            if e.type is not None:
                seen.setdefault((key, "precision"), []).append((e.type == p, "%s is a %s routine in a %s model (%s)" % (e.name, e.type, p, label)))
            if gpu:
                for ty, x in zip(tys, e.args):
                    if x.op != "dev" and e.type and "posv" in e.name:
                        continue       # host routine: arguments are converted
                    seen.setdefault((key, "operands"), []).append((True if ty <= {p} else None if None in ty else False, "operand %s of %s is %s" % (
                        t.show(x, 2)[:80], e.name, "/".join(sorted(map(str, ty))))))

    def weights(w, m, name, where):
        nn = w.field(m, "nnet")
        its = w.lib.concrete_items(w.st, w.field(nn, "neurons"))
        if its is None:
            return ck.add(P, name, None, where, "neurons not enumerable")
        for k, it in enumerate(its):
            n, fn, W, B = [w.D(x) for x in w.lib.concrete_items(w.st, it)]
            verdict(ck, P, "%s: W%d" % (name, k), where, w, undev(W), p, "weight matrix")
            verdict(ck, P, "%s: B%d" % (name, k), where, w, undev(B), p, "bias")

    base = "%s %s" % (short(q), p)
    # neurons, given and random, one group and two
    for ft, given, n in KINDS:
        def f(w):
            m = model(w)
            for g in range(2):
                k = NI if ft == "lin" and not given else group_sizes(2)[g]
                args = [w.param("W%d" % g, NI, k), w.param("b%d" % g, k, pos=True)] if given else []
                w.call(m, "add_neurons", k, C(ft), *args)
            return m
        name = "%s, %s neurons, %s weights" % (base, ft, "given" if given else "random")
        a = attempt(ck, P, name, ELM + ".add_neurons", f, real=True, dt=True)
        if a:
            weights(a[0], a[1], name, ELM + ".add_neurons")
    # accumulated data, solution, supplied matrices
    for wc in (False, True):
        for first in ("batch", "corr"):
            def f(w):
                m = model(w)
                n1 = group_sizes(1)[0]
                w.call(m, "add_neurons", n1, C("tanh"), w.param("W", NI, n1), w.param("b", n1))
                nn = w.field(m, "nnet")
                out = []
                if first == "corr":
                    w.call(nn, "set_corr", w.param("HH0", n1, n1, sym=True), w.param("HT0", n1, NO))
                    out += [("set_corr", k, w.content(nn, k)) for k in ("HH", "HT")]
                for i in range(2):
                    w.call(nn, "add_batch", w.param("X%d" % i, N0, NI), w.param("T%d" % i, N0, NO), *([w.param("wc%d" % i, N0, pos=True)] if wc else []))
                    out += [("add_batch", k, w.content(nn, k)) for k in ("HH", "HT")]
                w.call(nn, "solve")
                out.append(("solve", "B", w.content(nn, "B")))
                w.call(nn, "_predict", w.param("X9", N0, NI))
                w.call(nn, "set_B", w.param("B0", n1, NO))
                out.append(("set_B", "B", w.content(nn, "B")))
                return out
            name = "%s, %s%s" % (base, "weighted " if wc else "", "after set_corr" if first == "corr" else "from zero")
            a = attempt(ck, P, name, q + ".add_batch", f, real=True, dt=True)
            if not a:
                continue
            w, out = a
            for i, (op, k, v) in enumerate(out):
                verdict(ck, P, "%s: %s #%d %s" % (name, op, i, k), "%s.%s" % (owner(q, op), op), w, undev(v), p, k)
            routines(w, name)
    # prediction with non-tanh neurons: routines only
    for ft in ("lin", "sigm", "rbf_l2", "rbf_l1", "rbf_linf"):
        def f(w):
            m = model(w)
            n1 = group_sizes(1)[0]
            w.call(m, "add_neurons", n1, C(ft), w.param("W", NI, n1), w.param("b", n1, pos=True))
            nn = w.field(m, "nnet")
            w.call(nn, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO))
            return w.content(nn, "HH"), w.content(nn, "HT")
        name = "%s, add_batch with %s neurons" % (base, ft)
        a = attempt(ck, P, name, q + ".add_batch", f, real=True, dt=True)
        if a:
            for k, v in zip(("HH", "HT"), a[1]):
                verdict(ck, P, name + ": " + k, owner(q, "add_batch") + ".add_batch", a[0], undev(v), p, k)
            routines(a[0], name)
    # pruning
    def f(w):
        m = model(w)
        ls = group_sizes(2)
        for i, n in enumerate(ls):
            w.call(m, "add_neurons", n, C("tanh"), w.param("W%d" % i, NI, n), w.param("b%d" % i, n))
        nn = w.field(m, "nnet")
        w.call(nn, "_prune", w.param("keep", sym("K", kind="int", pos=True), indices=t.add(*ls)))
        return m
    name = "%s, after pruning" % base
    a = attempt(ck, P, name, q + "._prune", f, real=True, dt=True)
    if a:
        weights(a[0], a[1], name, owner(q, "_prune") + "._prune")
    # loading a model saved in any precision
    for cls in (ELM, HPELM):
        for how in ("load", "loads"):
            for other in NAME:
                def f(w):
                    m0 = w.make(cls, NI, NO, norm=NORM, precision=NAME[other])
                    for i, ft in enumerate(("tanh", "lin")):
                        n = C(4 + i)
                        w.call(m0, "add_neurons", n, C(ft), w.param("W%d" % i, NI, n), w.param("b%d" % i, n))
                    w.call(w.field(m0, "nnet"), "set_B", w.param("B0", C(9), NO))
                    m = model(w, cls)
                    if how == "load":
                        w.call(m0, "save", C("m.elm"))
                        w.call(m, "load", C("m.elm"))
                    else:
                        w.call(m, "loads", w.call(m0, "dumps"))
                    return m, w.content(w.field(m, "nnet"), "B")
                name = "%s %s, %s of a %s model" % (base, short(cls), how, other)
                a = attempt(ck, P, name, cls + "." + how, f, real=True, dt=True)
                if a:
                    w, (m, B) = a
                    weights(w, m, name, cls + "." + how)
                    verdict(ck, P, name + ": Beta", cls + "." + how, w, undev(B), p, "output weights")
                    nn = w.field(m, "nnet")
                    got = w.lib.dtcanon(w.D(w.field(nn, "precision")))
                    ck.add(P, name + ": precision", None if got is None else got == p, cls + "." + how, "loaded solver has precision %s" % got, "evaluation")
    for ((where, nm), kind), vs in sorted(seen.items(), key=str):
        bad = [d for v, d in vs if v is False]
        und = [d for v, d in vs if v is None]
        ck.add(N, "%s: %s %s, line %s" % (base, nm, kind, where[1]), False if bad else None if und else True, where, (bad or und or ["%d uses" % len(vs)])[0], "dtype inference")


def owner(q, op):
    from drive import program
    m = program().method(q, op)
    return m[2] if m else q


def files(ck, R):
    for p in NAME:
        for cls, op, args in ((HPELM, "predict", ("out.h5",)), (HPELM, "project", ("out.h5",)), (HPELM, "predict_async", ("out.h5",)),
                              (HPELM, "predict", ()), (HPELM, "project", ()), (HPELM, "add_data", ("hh.h5", "ht.h5")), (HPELM, "add_data_async", ("hh.h5", "ht.h5"))):
            where = cls + "." + op
            name = "%s %s(%s)" % (p, op, ", ".join(args))
            tr = op.startswith("add_data")

            def f(w):
                fX, fT, X, T_ = data(w, N0, h5=True)
                m = w.model(cls, B=not tr, precision=NAME[p])
                if tr:
                    r = w.call(m, op, fX, fT, fHH=C(args[0]), fHT=C(args[1]))
                else:
                    r = w.call(m, op, fX, *[C(x) for x in args])
                return r, w.D(r) if r is not NONE else r
            a = attempt(ck, R, name, where, f, dt=True)
            if not a:
                continue
            w, (ref, val) = a
            if not args:
                verdict(ck, R, name + ": returned array", where, w, val, p, "result")
                continue
            cr = {}
            for e in w.I.events:
                if e.kind == "Create" and e.path in [C(x) for x in args]:
                    cr.setdefault(e.path, []).append(e)
            for x in args:
                es = cr.get(C(x), [])
                ts = [dtypes.Infer(w.lib).canon(e.dtype) for e in es]
                v = None if not es or any(None in y for y in ts) else all(y <= {p} for y in ts)
                ck.add(R, name + ": " + x, v, es[0].where if es else where, "created as %s" % ["/".join(map(str, y)) for y in ts], "evaluation")
