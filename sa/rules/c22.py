"""C22: results depend only on data and parameters"""
import terms as t
from terms import C, mk, NONE, T, sym
from drive import Refused
from common import *
import ops
import mss

TP = sym("tprint", kind="num", pos=True)
ENV = ("time.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.getlogin", "os.urandom", "os.times", "os.listdir", "os.stat", "os.path.getmtime",
       "random.", "secrets.", "uuid.", "platform.", "socket.", "getpass.", "locale.", "builtins.id", "builtins.hash", "multiprocessing.cpu_count",
       "os.cpu_count", "os.getcwd", "tempfile.", "sys.platform", "resource.", "threading.", "gc.")
FIELDS = ("classification", "wc", "ranking", "kmax_op", "precision", "batch", "flist")
SFIELDS = ("neurons", "L", "B", "HH", "HT", "norm", "inputs", "outputs")
VALUES = {"Solver": ("args", "HH", "HT"), "Store": ("value", "idx", "sels", "content"), "Create": ("path", "content", "dtype"), "Append": ("value", "args"),
          "AttrWrite": ("name", "value"), "Write": ("args", "value", "data"), "Pickle": ("value", "args"), "Put": ("value",)}


class Taint(object):
    """names of the nondeterministic sources a term depends on"""

    def __init__(self, bias=False):
        self.memo = {}
        self.bias = bias        # random vectors are requested (a bias that is not given)

    def __call__(self, x):
        if isinstance(x, (tuple, list)):
            out = frozenset()
            for y in x:
                out |= self(y)
            return out
        if not isinstance(x, T):
            return frozenset()
        r = self.memo.get(x)
        if r is None:
            self.memo[x] = frozenset()
            r = self.memo[x] = self.own(x) | self(x.args)
        return r

    def own(self, x):
        if x.op == "rand":
            if self.bias and x.args[0].op == "tuple" and len(x.args[0].args) == 1:
                return frozenset()
            return frozenset(["random numbers (%s)" % x.args[1]])
        if x.op == "shuffled" and not (len(x.args) > 1 and x.args[1] == "ranking"):      # (the modelled optimal ranking)
            return frozenset(["random numbers (shuffle)"])
        if x is TP:
            return frozenset(["the progress reporting interval"])
        if x.op in ("call", "ext", "extm", "unk", "iocall") and x.args:
            n = x.args[0]
            for y in x.args[:2]:
                if isinstance(y, str) and y.startswith(ENV):
                    return frozenset(["the clock" if y.startswith("time.") else "the environment (%s)" % y])
        return frozenset()


def run(ck):
    ck.sizes = ops.osizes
    R = ck.rule("determinism", "values returned, stored in models and solvers, written to files or sent to helper processes do not depend on random numbers, the clock, "
                               "the reporting interval or the environment, except requested random weights and random ranking")
    C_ = ck.rule("control", "which data is processed, how often, and which effects happen does not depend on them either")
    U = ck.rule("order", "no result depends on the iteration order of a set")
    todo = ops.operations(full=ck.thorough)
    for q in solvers():
        todo += [o for o in ops.operations(solver=q, modes=("", "wc"), classes=(ELM,) if not ck.thorough else (ELM, HPELM))
                 if ck.thorough or not any(" %s " % x in o.name for x in ("V", "CV", "LOO")) and "hdf5" not in o.name]
    todo += solver_ops()
    n = 8
    ck.parallel([lambda ck, i=i: [one(ck, R, C_, U, o) for o in todo[i::n]] for i in range(n)] + [lambda ck: ranking(ck, R, C_)])


def solver_ops():
    out = []
    for q in solvers():
        for ft in ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"):
            for wc in (0, 1):
                def f(w, q=q, ft=ft, wc=wc):
                    s = concrete_solver(w, q, (ft, "tanh"), B=False)
                    w.call(s, "add_batch", w.param("X", N0, NI), w.param("T", N0, NO), *([w.param("wc", N0, pos=True)] if wc else []))
                    w.call(s, "solve")
                    return s, mk("tuple", w.D(w.call(s, "_project", w.param("X2", N0, NI))), w.D(w.call(s, "_predict", w.param("X2", N0, NI))))
                out.append(ops.Op("%s with %s neurons%s" % (short(q), ft, ", weighted" if wc else ""), q + ".add_batch", f, None, q))
    return out


def allowed(name):
    """random numbers the operation may use: (in stored/returned values, label)"""
    if "add_neurons, weights random" in name:
        return "weights"
    if "add_neurons, weights W given" in name:
        return "bias"
    if name.startswith("rbf_param"):
        return "weights"
    if name.split(" ")[0] == "ELM.train" and name.split(" ")[1] in ("V", "CV", "LOO") and "OP" not in name.split(" "):
        return "ranking"
    return ""


def effects(w, m, r):
    """[(label, where, conds, loops, term)] of everything that lasts"""
    out = []
    evs = list(w.I.events)
    for h in ops.helpers(w):
        evs += [e for e in h["events"]]
    for e in evs:
        for k in VALUES.get(e.kind, ()):
            v = getattr(e, k, None)
            if v is not None and not callable(v):
                out.append(("%s %s" % (e.kind, k), e.where, e.conds, e.loops, v))
    # leaving a loop early decides how often its effects happen
    lids = set(l[2] for x in out for l in x[3])
    for e in evs:
        if e.kind == "Break" and e.loops and e.loops[-1][2] in lids or e.kind == "Return" and len(e.loops) > e.base and any(l[2] in lids for l in e.loops[e.base:]):
            out.append(("loop left by " + e.kind.lower(), e.where, e.conds, e.loops, NONE))
    if r is not None:
        out.append(("returned value", None, (), (), deep(w, r)))
    if m is not None:
        cell = w.I.cell(w.st, m)
        for k in FIELDS:
            v = cell.data.get(k) if isinstance(cell.data, dict) else None
            if v is not None:
                out.append(("field " + k, None, (), (), deep(w, v)))
        nn = w.field(m, "nnet") if isinstance(cell.data, dict) and "nnet" in cell.data else m
        c2 = w.I.cell(w.st, nn)
        for k in SFIELDS:
            v = c2.data.get(k) if c2 is not None and isinstance(c2.data, dict) else None
            if v is not None:
                out.append(("solver field " + k, None, (), (), deep(w, v)))
    return out


def deep(w, v, d=0):
    x = w.lib.plain(w.st, v) if isinstance(v, T) else v
    if isinstance(x, T) and x.op == "obj" and d < 6:
        its = w.lib.concrete_items(w.st, x) if w.I.cell(w.st, x) is not None and w.I.cell(w.st, x).kind == "list" else None
        return mk("list", *[deep(w, y, d + 1) for y in its]) if its is not None else x
    if isinstance(x, T) and x.op in ("tuple", "list") and d < 6:
        return mk(x.op, *[deep(w, y, d + 1) for y in x.args])
    return x


def go(o, ck, rev=False):
    w = ck.world(real=bool(o.solver), hooks=dict(o.hooks) if o.hooks else None)
    w.modelkw["tprint"] = TP
    w.lib.setrev = rev
    try:
        m, r = o.f(w)
    except Refused as e:
        return w, None, None, e
    return w, m, r, None


def one(ck, R, K, U, o):
    where = loc_(o.where)
    name = o.name + (" [%s]" % short(o.solver) if o.solver else "")
    try:
        w, m, r, err = go(o, ck)
        if err is not None:
            ck.add(R, name, None, where, "the call never completes in the model (%s)" % (err,))
            ck.done(w)
            return
        eff = effects(w, m, r)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.add(R, name, None, where, "analysis failed: %s: %s at %s:%s" % (type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno))
        return
    finally:
        pass
    judge(ck, R, K, name, where, eff, allowed(o.name), w)
    if w.lib.setused:
        w2, m2, r2, err2 = go(o, ck, True)
        eff2 = effects(w2, m2, r2) if err2 is None else None
        order(ck, U, name, where, eff, eff2, w)
        ck.done(w2)
    ck.done(w)


def order(ck, U, name, where, a, b, w):
    if b is None or len(a) != len(b):
        return ck.add(U, name, False if not w.lib.unknown else None, where, "different effects when a set is listed in another order")
    for x, y in zip(a, b):
        if x[4] is not y[4] and x[4] != y[4] and t.show(x[4]) != t.show(y[4]):
            ck.add(U, name, False if not w.lib.unknown else None, x[1] or where, "%s differs when a set is listed in another order: %s / %s" % (
                x[0], t.show(x[4], 3)[:100] if isinstance(x[4], T) else x[4], t.show(y[4], 3)[:100] if isinstance(y[4], T) else y[4]))
            return
    ck.add(U, name, True, where, "%d effects agree" % len(a), "two-order evaluation")


def judge(ck, R, K, name, where, eff, ok, w):
    ta = Taint(ok == "bias")
    ok = ok if ok != "bias" else ""
    bad, badc = [], []
    for label, wh, conds, loops, v in eff:
        d = ta(deep(w, v) if isinstance(v, T) else v)
        if ok:
            d = frozenset(x for x in d if not x.startswith("random"))
        if d:
            bad.append((label, wh, d, v))
        c = ta([x for x in conds]) | ta([x[1] for x in loops])
        if ok:
            c = frozenset(x for x in c if not x.startswith("random"))
        if c:
            badc.append((label, wh, c, conds))
    undec = w.I.notes or w.lib.unknown
    for rule, bs, what in ((R, bad, "depends on"), (K, badc, "happens depending on")):
        if not bs:
            ck.add(rule, name, True, where, "%d effects" % len(eff), "taint analysis of value terms")
            continue
        seen = set()
        for label, wh, d, v in bs:
            key = (label, wh)
            if key in seen:
                continue
            seen.add(key)
            ck.add(rule, "%s: %s" % (name, label), None if undec else False, wh or where, "%s %s %s" % (label, what, ", ".join(sorted(d))), "taint analysis of value terms")


def ranking(ck, R, K):
    """the optimal ranking itself"""
    import drive
    for kind, opt in (("OP", True), (None, False)):
        for few in (True, False):
            name = "_ranking, %s%s" % ("optimal" if opt else "random", "" if few else ", many outputs")
            w = ck.world()
            w.modelkw["tprint"] = TP
            where = loc_(ELM + "._ranking")
            try:
                m = w.model(ELM, neurons=False, outputs=C(2) if few else C(20))
                w.I.setfield(w.st, m, "ranking", C(kind) if kind else NONE)
                r = w.call(m, "_ranking", C(4), w.param("H", C(6), C(4)), w.param("T", C(6), C(2 if few else 20)))
            except Refused as e:
                ck.add(R, name, None, where, "never completes in the model")
                continue
            ck.done(w)
            # every source of randomness on an executed path
            ta = Taint()
            src = [e for e in w.I.events if e.kind in ("Random", "Clock")]
            for e in src:
                if opt:
                    d = ta(deep(w, r))
                    ck.add(R, "%s: line %s" % (name, e.where[1]), False if d and not w.I.notes else None, e.where, "the optimal ranking uses %s" % (e.kind.lower(),), "effect analysis")
            if not src:
                ck.add(R, name, True if opt else None, where, "no source of randomness, clock or environment is reached", "effect analysis")
            elif not opt:
                d = frozenset(x for x in ta(deep(w, r)) if not x.startswith("random"))
                ck.add(R, name, not d, where, "depends on %s" % sorted(d) if d else "depends on random numbers only", "taint analysis")
