"""Model structure selection: what the search compared, kept and retrained on, read off the effect events."""
import itertools
import terms as t
from terms import T, C, mk, NONE, TRUE, ZERO, ONE, sym
import ri
from common import *

KMAX = sym("kmax", kind="int", pos=True)
KX = sym("kx", kind="int", nonneg=True)
NX = sym("nx", kind="int", nonneg=True)
NV = sym("Nv", kind="int", pos=True)
FOLDS = t.add(C(3), KX)
NCV = t.add(FOLDS, NX)
RANKERS = ("hpelm.modules.mrsr.mrsr", "hpelm.modules.mrsr2.mrsr2")
SLOT = 60           # bound variables standing for loop counters of events


def ranker(I, st, args, kw, node):
    """an arbitrary ranking of the columns of H that depends on H and T (rule C17 is about the real ones)"""
    H, T_, k = [I.D(st, a) for a in (list(args) + [kw[x] for x in ("X", "T", "kmax") if x in kw])[:3]]
    m = t.shape(H)[1]
    return t.sel(mk("shuffled", mk("arange", m), "ranking", (H, T_)), (("slice", ZERO, t.minimum(k, m), ONE),))


def scorer(I, st, args, kw, node):
    """an arbitrary error of the predictions, instead of ELM._error"""
    a = dict(zip(("self", "T", "Y", "R"), args))
    a.update(kw)
    a.setdefault("R", NONE)
    q = "hpelm.elm.ELM._error"
    I.record("Enter", st, node, qual=q, args=dict((n, a[n]) for n in ("self", "T", "Y", "R")))
    v = mk("score", I.D(st, a["T"]), I.D(st, a["Y"]), I.D(st, a["R"]))
    I.record("Exit", st, node, qual=q, value=v)
    return v


def msizes(k):
    import random
    r = random.Random(k * 104729 + 7)
    d = sizes(k)
    d.update(L=2 + (k * 5) % 13, Nv=r.randint(2, 5), kmax=1 + (k * 3) % 11, kx=k % 3, nx=r.randint(0, 6), inputs=r.randint(1, 2),
             outputs=r.randint(2, 3), batch=r.choice([1, 2, 3]), N=r.randint(3, 7))
    return d


def train(w, v, cl, op, hooked=True):
    n = NCV if v == "CV" else N0
    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}
    t.ATTR.pop("X", None), t.ATTR.pop("T", None), t.ATTR.pop("Tv", None), t.ATTR.pop("Xv", None)
    m = w.model()
    kw = {}
    if v == "V":
        kw.update(Xv=w.param("Xv", NV, NI), Tv=w.param("Tv", NV, NO, **at))
    if v == "CV":
        kw["k"] = FOLDS
    if op:
        kw["kmax"] = KMAX
    if cl == "wc":
        kw["w"] = w.param("w", NO, pos=True)
    args = [v] + ([cl] if cl else []) + (["OP"] if op else [])
    r = w.call(m, "train", w.param("X", n, NI), w.param("T", n, NO, **at), *args, **kw)
    return m, r


def pruned_train(w, cl, P, v):
    """plain training of the model with the kept neurons only"""
    n = NCV if v == "CV" else N0
    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl == "ml" else {}
    m = w.model()
    w.call(w.field(m, "nnet"), "_prune", P)
    kw = {"w": w.param("w", NO, pos=True)} if cl == "wc" else {}
    w.call(m, "train", w.param("X", n, NI), w.param("T", n, NO, **at), *([cl] if cl else []), **kw)
    return m


def searching(e):
    """inside a loop whose length only the search decides"""
    return any(sought(l[1]) for l in e.loops)


def sought(n):
    """a number of iterations that only the search decides"""
    return any(x.op in ("Least", "trip") for x in t.subterms(n))


class Err(object):
    """one evaluation site of the error"""

    def __init__(self, w, enter, exit_):
        self.e, self.exit = enter, exit_
        a = [w.D(x) for x in enter.args.values()]
        self.T, self.Y = a[1], a[2]
        self.R = a[3] if len(a) > 3 else NONE
        self.value = w.D(exit_.value)
        self.where = enter.where
        self.cols = columns(self.Y)
        self.S = self.cols[0] if self.cols else None

    @property
    def rank(self):
        return prefix(self.S)

    @property
    def fold(self):
        """(counter, number) of the loop over folds this site is in"""
        for it, n, lid in self.e.loops:
            if not sought(n):
                return it, n
        return None


def columns(Y):
    """index sets that select columns (neurons) in a term"""
    out, seen = [], set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == "sel":
            s = x.args[1]
            if len(s) > 1 and s[1][0] in ("arr", "idx") and s[1][1] not in out:
                out.append(s[1][1])
            go(x.args[0])
            return
        for c in t.children(x):
            go(c)
    go(Y)
    return out


def prefix(S):
    """the sequence S is an initial part of"""
    if S is not None and S.op == "sel" and len(S.args[1]) == 1:
        s = S.args[1][0]
        if s[0] == "slice" and s[1] is ZERO and s[3] is ONE:
            return S.args[0]
    return None


class Search(object):
    def __init__(self, w, m, r, v, cl, op):
        self.w, self.m, self.r, self.v, self.cl, self.op = w, m, r, v, cl, op
        self.errs = []
        stack = []
        for e in w.events:
            if e.kind == "Enter" and e.qual.endswith("._error"):
                stack.append(e)
            elif e.kind == "Exit" and stack and e.qual == stack[-1].qual:
                self.errs.append(Err(w, stack.pop(), e))
        self.cands = [x for x in self.errs if searching(x.e)]
        first = min([x.e.seq for x in self.cands], default=None)
        last = max([x.e.seq for x in self.cands], default=None)
        self.full = [x for x in self.errs if first is not None and x.e.seq < first]
        self.test = [x for x in self.errs if last is not None and x.e.seq > last]
        self.prune = [e for e in w.events if e.kind == "Solver" and e.method == "_prune"]
        self.corr = [e for e in w.events if e.kind == "Solver" and e.method == "get_corr"]
        self.limit = t.minimum(KMAX, L) if op else L


def slots(x, loops):
    m = {l[0]: mk("bv", SLOT + d) for d, l in enumerate(loops)}
    return t._rawsub_all(x, m) if hasattr(t, "_rawsub_all") else t.subst(x, m)


def runs(env, e):
    """assignments of the loop counters for which event e happens in interpretation env"""
    loops = list(e.loops)
    conds = [slots(c, loops) for c in e.conds]

    def go(d):
        if d == len(loops):
            if all(env.b(c) for c in conds):
                yield d
            return
        n = env.n(slots(loops[d][1], loops[:d]))
        for i in range(max(0, n)):
            env.bv[SLOT + d] = i
            for y in go(d + 1):
                yield y
        env.bv.pop(SLOT + d, None)
    for y in go(0):
        yield y


def site_eq(ck, rule, name, e, got, want, abstracted=None):
    """got equals want: for the abstracted pair when that is decided, else whenever event e happens under random interpretations"""
    if abstracted:
        v, how, d = ck.compare([abstracted[0]], sizes=abstracted[1])
        if v is not None:
            return ck.add(rule, name, v, e.where, "" if v else "%s; expected %s, found %s" % (
                d, t.show(abstracted[0][1], 6)[:300], t.show(abstracted[0][0], 6)[:300]), how)
    import rule as r_
    bad = sorted(set(r_.unmodelled(got) + r_.unmodelled(want)))
    if bad:
        return ck.add(rule, name, None, e.where, "not fully modelled (%s)" % ", ".join(bad))
    n, last = 0, None
    got, want = slots(got, e.loops), slots(want, e.loops)
    for k in range(6 * ck.trials):
        if n >= ck.trials:
            break
        env = ri.Env(ck.seed * 3000 + k, msizes(k), None)
        env.budget = 400000
        try:
            for _ in runs(env, e):
                a, b = env.val(got), env.val(want)
                n += 1
                try:
                    ok = ri.close(a, b)
                except (ValueError, TypeError):
                    ok = False
                if not ok:
                    at = dict(msizes(k), round=[env.bv.get(SLOT + q) for q in range(len(e.loops))])
                    return ck.add(rule, name, False, e.where, "differs, e.g. for %s; expected %s, found %s" % (
                        ", ".join("%s=%s" % q for q in sorted(at.items())), t.show(want, 6)[:300], t.show(got, 6)[:300]))
        except ri.Undefd as q:
            last = str(q)
        except ri.Unmodelled as q:
            return ck.add(rule, name, None, e.where, "undecided: %s" % q)
    if n < 3:
        return ck.add(rule, name, None, e.where, "undecided: no interpretation (%s)" % last)
    return ck.add(rule, name, True, e.where, how="no difference in %d executions under random interpretations" % n)
