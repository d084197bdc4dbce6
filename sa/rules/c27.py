"""C27: solvers are interchangeable behind one interface"""
import ast
import terms as t
from terms import C, mk, NONE, TRUE, FALSE, ONE
from drive import Refused, World, program
from common import *
from rules.c19 import csizes
import names
import front
import ops

SLFN = "hpelm.nnets.slfn.SLFN"
API = ("add_neurons", "reset", "_prune", "add_batch", "solve", "solve_corr", "_project", "_predict", "get_B", "set_B", "get_corr", "set_corr", "get_neurons")
WANT = {None: "SLFNPython", "basic": "SLFN", "GPU": "SLFNSkCUDA"}


def run(ck):
    ck.sizes = csizes
    I_ = ck.rule("interface", "every solver has every operation and attribute that models, model selection and file tools use, with compatible parameters")
    R = ck.rule("results", "every solver's operations complete where the basic solver's do, and return results of the same kind, never device data")
    A = ck.rule("accelerator", "the requested accelerator name alone decides which solver is used, at creation and at loading")
    N = ck.rule("norm", "the solver regularises with the norm the model was given, zero included")
    S = ck.rule("models", "operations of models that use a solver return no device data and store none in files")
    todo = ops.operations(full=ck.thorough, modes=("", "wc"), solver=[q for q in solvers() if q.endswith("SkCUDA")][0], classes=(ELM, HPELM))
    n = 4
    ck.parallel([lambda ck: interface(ck, I_), lambda ck: results(ck, R), lambda ck: accelerator(ck, A, N)] +
                [lambda ck, i=i: [device(ck, S, o) for o in todo[i::n]] for i in range(n)])


# ------------------------------------------------------------------ interface
def used(prog):
    """attributes of the solver used outside the solvers: name -> (site, is called, call nodes)"""
    out = {}
    for m in prog.modules.values():
        if ".nnets" in m.name:
            continue
        called = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        own = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (
                    isinstance(n.value, ast.Attribute) and n.value.attr == "nnet" or isinstance(n.value, ast.Name) and n.value.id == "nnet"):
                own = own or own_(prog, m)
                out.setdefault(n.attr, []).append(((m.path, n.lineno, own(n)), called.get(id(n))))
    return out


def own_(prog, m):
    from rules import c23
    return c23.owners(prog, m)


def interface(ck, I_):
    from rules import c23
    prog = program()
    use = used(prog)
    for q in solvers():
        flds = c23.fields(prog, q)
        for a in sorted(set(use) | set(API)):
            x = prog.method(q, a)
            sites = use.get(a, [(loc_(q), None)])
            site = sites[0][0]
            if not x or not isinstance(x[1], ast.FunctionDef):
                ck.add(I_, "%s.%s" % (short(q), a), bool(x) or a in flds, site, "" if x or a in flds else "%s has no %s, which is used here" % (short(q), a), "attribute")
                continue
            bad = [(s, c23.binds(c, x[1], True)) for s, c in sites if c is not None]
            bad = [(s, y) for s, y in bad if y]
            ck.add(I_, "%s.%s" % (short(q), a), not bad, bad[0][0] if bad else site, "%s.%s: %s" % (short(q), a, bad[0][1]) if bad else "", "%d call sites bind" % len(sites))
            b = prog.method(SLFN, a)
            if b and b[1] is not x[1]:
                why = incompatible(b[1], x[1])
                ck.add(I_, "%s.%s: parameters" % (short(q), a), not why, loc_(x[2] + "." + a), why or "", "accepts every call of the basic solver")


def incompatible(base, over):
    from rules import c23
    bp, breq, bkr, bko, bvar, bkw, _ = c23.sig(base, True)
    op, oreq, okr, oko, ovar, okw, opo = c23.sig(over, True)
    if not ovar and len(op) < len(bp):
        return "takes %d parameters, the basic solver %d" % (len(op), len(bp))
    for i, p in enumerate(bp):
        if i < len(op) and op[i] != p and not (p in op or okw):
            return "has no parameter %s" % p
        if i < len(op) and op[i] != p:
            return "parameter %d is %s, not %s" % (i + 1, op[i], p)
        if i < len(op) and p not in breq and p in oreq:
            return "needs a value for %s, which the basic solver does not" % p
    for p in op[len(bp):]:
        if p in oreq:
            return "needs a value for %s, which the basic solver does not" % p
    for p in okr:
        if p not in bkr:
            return "needs a value for %s" % p
    return None


# ------------------------------------------------------------------ results
def kindof(w, r):
    r = w.D(r)
    if r.op in ("dev", "devview"):
        return "device data"
    if r is NONE:
        return "None"
    if r.op in ("tuple", "list"):
        return (r.op,) + tuple(kindof(w, x) for x in r.args)
    if r.op == "ite":
        a, b = kindof(w, r.args[1]), kindof(w, r.args[2])
        return a if a == b else ("either", a, b)
    if t.isstr(r):
        return "text"
    n = t.ndim(r)
    if n:
        return "array of %d dimensions" % n
    if t.isnum(r) or t.numericish(r) or t.is_scalar(r):
        return "number"
    return "?"


def states(w, q, which):
    s = w.make(q, NI, NO, norm=NORM, precision=DOUBLE)
    if which == "empty":
        return s
    l = group_sizes(1)[0]
    w.call(s, "add_neurons", l, C("tanh"), w.param("W0", NI, l), w.param("b0", l))
    if which in ("fed", "fed and solved"):
        w.call(s, "set_corr", w.param("HH0", l, l, sym=True), w.param("HT0", l, NO))
    if which in ("solved", "fed and solved"):
        w.call(s, "set_B", w.param("B0", l, NO))
    return s


def callers(w):
    l = group_sizes(1)[0]
    X, T_ = (lambda: w.param("X", N0, NI)), (lambda: w.param("T", N0, NO))
    return [("add_neurons", (), lambda s: w.call(s, "add_neurons", sym_(w), C("sigm"), w.param("Wn", NI, sym_(w)), w.param("Bn", sym_(w)))),
            ("reset", (), lambda s: w.call(s, "reset")),
            ("_prune", (), lambda s: w.call(s, "_prune", w.param("idxs", K_, indices=l))),
            ("add_batch", (), lambda s: w.call(s, "add_batch", X(), T_())),
            ("add_batch with weights", (), lambda s: w.call(s, "add_batch", X(), T_(), w.param("wcv", N0, pos=True))),
            ("solve", (), lambda s: w.call(s, "solve")),
            ("solve_corr", (), lambda s: w.call(s, "solve_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO))),
            ("_project", (), lambda s: w.call(s, "_project", X())),
            ("_predict", (), lambda s: w.call(s, "_predict", X())),
            ("get_B", (), lambda s: w.call(s, "get_B")),
            ("set_B", (), lambda s: w.call(s, "set_B", w.param("Bn", l, NO))),
            ("get_corr", (), lambda s: w.call(s, "get_corr")),
            ("set_corr", (), lambda s: w.call(s, "set_corr", w.param("HHn", l, l, sym=True), w.param("HTn", l, NO))),
            ("get_neurons", (), lambda s: w.call(s, "get_neurons"))]


K_ = t.sym("kk", kind="int", pos=True)


def sym_(w):
    return t.sym("n1", kind="int", pos=True)


FOLLOW = (("", None), ("get_B", 9), ("get_corr", 11), ("get_neurons", 13), ("_project", 7), ("_predict", 8), ("solve", 5))


def results(ck, R):
    todo = [(st, f) for st in ("empty", "with neurons", "fed", "solved", "fed and solved") for f in FOLLOW if f[1] is None or st == "fed and solved"]
    n = 4
    ck.parallel([lambda ck, i=i: [result(ck, R, *x) for x in todo[i::n]] for i in range(n)])


def result(ck, R, st, follow):
    base = {}
    fnm, fi = follow
    for q in [SLFN] + [x for x in solvers() if x != SLFN]:
        for i, (nm, _, _) in enumerate(callers(World(real=True))):
            w = ck.world(real=True)
            name = "%s.%s, %s" % (short(q), nm + (", then " + fnm if fnm else ""), st)
            where = q + "." + nm.split()[0]
            try:
                s = states(w, q, st)
                w.mark()
                r = callers(w)[i][2](s)
                if fi is not None:
                    r = callers(w)[fi][2](s)
            except Refused as e:
                if q == SLFN:
                    base[nm] = "refused"
                elif base.get(nm) == "refused":
                    ck.add(R, name, True, where, "", "refused, as by the basic solver")
                else:
                    ck.refused(R, name, w, loc_(where), e)
                ck.done(w)
                continue
            k = kindof(w, r)
            if q == SLFN:
                base[nm] = k
            ck.done(w)
            if has(k, "device data"):
                ck.add(R, name, None if w.I.notes or w.lib.unknown else False, where, "returns device data: %s" % t.show(w.D(r), 4)[:200])
            elif base[nm] == "refused":
                ck.add(R, name, True, where, "", "the basic solver refuses")
            else:
                ok = k == base[nm]
                ck.add(R, name, ok or (None if has(k, "?") or has(base[nm], "?") or w.I.notes or w.lib.unknown else False), where,
                       "" if ok else "returns %s, the basic solver %s" % (k, base[nm]), "same kind: %s" % (k,))


def holds_dev(w, v):
    v = w.D(v)
    if v.op == "dev":
        return True
    return v.op in ("tuple", "list", "dict", "ite") and any(holds_dev(w, x) for x in v.args if isinstance(x, t.T))


def has(k, x):
    return k == x or isinstance(k, tuple) and any(has(y, x) for y in k)


def device(ck, S, o):
    name = "%s with %s" % (o.name, short(o.solver))
    a = attempt(ck, S, name, o.where, o.f, hooks=o.hooks, real=True)
    if not a:
        return
    w, (m, r) = a
    bad = []
    if r is not None and has(kindof(w, r), "device data"):
        bad.append((o.where, "returns device data"))
    for e in w.events:
        for f in ("value", "obj", "new"):
            v = getattr(e, f, None)
            if e.kind in ("Store", "Write", "Pickle", "Append", "Put") and ".nnets." not in e.where[2] and isinstance(v, t.T) and holds_dev(w, v):
                bad.append((e.where, "stores device data"))
    gap = bool(w.I.notes or w.lib.unknown)
    ck.add(S, name, not bad or (None if gap else False), bad[0][0] if bad else o.where, bad[0][1] if bad else "", "no device data")


# ------------------------------------------------------------------ accelerator
def cls_of(w, m):
    v = w.field(m, "nnet")
    c = w.I.cell(w.st, v) if v is not None and v.op == "obj" else None
    return c.cls if c is not None and c.kind == "inst" else None


def accelerator(ck, A, N):
    for cls in (ELM, HPELM):
        q = short(cls)
        for acc in (None, "basic", "GPU", "other"):
            for prec in ("double", "single", "float32", None):
                for norm in (None, NORM, ZERO):
                    if norm is ZERO and prec not in ("double", "single"):
                        continue
                    name = "%s accelerator %s, precision %s%s" % (q, acc, prec, "" if norm is None else ", norm is zero" if norm is ZERO else ", norm given")
                    kw = {} if prec is None else {"precision": C(prec)}
                    if norm is not None:
                        kw["norm"] = norm
                    if acc is not None:
                        kw["accelerator"] = C(acc)
                    a = attempt(ck, A, name, cls + ".__init__", lambda w: w.make(cls, NI, NO, **kw), real=True)
                    if not a:
                        continue
                    w, m = a
                    got = cls_of(w, m)
                    verdict(ck, A, name, cls + ".__init__", got, WANT.get(acc), w)
                    if norm is not None and got is not None:
                        v = w.content(w.field(m, "nnet"), "norm")
                        ck.eq(N, name, v if v is not None else mk("undef", "norm"), norm, cls + ".__init__")
                    if norm is ZERO:
                        continue
                    if norm is not None and prec not in ("double", "single"):
                        continue
                    for how in ("load", "loads"):
                        for saved in (None, "GPU"):
                            def f(w):
                                m0 = w.make(cls, NI, NO, accelerator=C(saved) if saved else NONE, norm=NORM)
                                w.call(m0, "add_neurons", C(4), C("tanh"), w.param("Wn", NI, C(4)), w.param("Bn", C(4)))
                                m = w.make(cls, NI, NO, **kw)
                                if how == "load":
                                    w.call(m0, "save", C("model.pkl"))
                                    w.call(m, "load", C("model.pkl"))
                                else:
                                    w.call(m, "loads", w.call(m0, "dumps"))
                                return m
                            nm = "%s, %s of a model saved with accelerator %s" % (name, how, saved)
                            b = attempt(ck, A, nm, cls + "." + how, f, real=True)
                            if b:
                                verdict(ck, A, nm, cls + "." + how, cls_of(*b), WANT.get(acc) or got and short(got), b[0])


def verdict(ck, A, name, where, got, want, w):
    if got is None:
        ck.add(A, name, None if w.I.notes or w.lib.unknown else False, where, "the solver is decided by more than the accelerator name")
    elif want is None:
        ck.add(A, name, True, where, "", "one solver")
    else:
        ck.add(A, name, short(got) == want, where, "" if short(got) == want else "the solver is %s, not %s" % (short(got), want), "solver class")
