"""C10: asynchronous training and prediction complete and match requests"""
import numpy as np
import ri
import procs
import terms as t
from terms import C, NONE, T
from common import *
from rule import unmodelled


def run(ck):
    ck.sizes = psizes
    P = ck.rule("protocol", "the caller and its helper processes never block each other for ever, for any number of batches; every helper is waited for before the call "
                            "returns, after all its results were consumed, and every request is served")
    R = ck.rule("requests", "blocks handed to the computation are the selected rows of inputs and targets, each exactly once, in order, and paired")
    W = ck.rule("writer", "every block is written to the rows it belongs to, each row exactly once")
    B = ck.rule("buffers", "data handed to a queue is not modified afterwards (it is sent later, by another thread)")
    jobs = []
    for r in ranges():
        for cl in ("", "wc"):
            for op in ("train_async", "add_data_async"):
                for files in (False, True) if op == "add_data_async" else (False,):
                    jobs.append(lambda ck, r=r, cl=cl, op=op, files=files: train(ck, P, R, B, r, cl, op, files))
        jobs.append(lambda ck, r=r: predict(ck, P, R, W, B, r))
    ck.parallel(jobs)


def psizes(k):
    import random
    r = random.Random(k * 104729 + 7)
    # few and many batches, with and without a partial one
    b = r.choice([1, 2, 3, 4])
    nb = [1, 1, 2, 3, 4, 6, 9][k % 7]
    n = max(1, b * nb - r.choice([0, 0, 1]))
    return {"batch": b, "istart": r.choice([0, 1, 3]), "rem": n if k % 3 else n + r.randint(0, 2 * b), "N": n if k % 3 else n + r.randint(0, 2 * b),
            "icount": n, "inputs": r.randint(1, 2), "outputs": r.randint(2, 3), "L": r.randint(1, 3)}


def train(ck, P, R, B, r, cl, op, files):
    where = "%s.%s" % (M["hp"], op)
    name = "%s%s%s, %s" % (op, " weighted" if cl else "", " into files" if files else "", r.name)

    def f(w):
        fX, fT, X, T_ = data(w, r.n, cl=cl, h5=True)
        m = w.model(HPELM, **({"classification": cl, "w": w.param("w", NO, pos=True)} if cl and op != "train_async" else {}))
        kw = dict(r.kw)
        a = [cl] if cl and op == "train_async" else []
        if a:
            kw["w"] = w.param("w", NO, pos=True)
        if files:
            kw.update(fHH=C("HH.h5"), fHT=C("HT.h5"))
        w.call(m, op, fX, fT, *a, **kw)
        return X, T_, Composed(w, ck)
    a = attempt(ck, P, name, where, f)
    if not a:
        return
    w, (X, T_, cp) = a
    interest = {"Solver": lambda e: (e.args[0], e.args[1]) if e.method == "add_batch" else None}
    wantX, wantT = rows(X, r), rows(T_, r)

    def judge(env, net):
        xs = [v for p, e, v in net.trace if e.kind == "Solver"]
        ev = next((e for p, e, v in net.trace if e.kind == "Solver"), None)
        WX, WT = env.a(wantX), env.a(wantT)
        if not xs:
            return ev, "no block reaches the solver"
        for x, y in xs:
            if len(x) != len(y):
                return ev, "a block of %d inputs is paired with %d targets" % (len(x), len(y))
        gx, gt = np.concatenate([np.asarray(x) for x, _ in xs]), np.concatenate([np.asarray(y) for _, y in xs])
        if gx.shape != WX.shape or not np.array_equal(gx, WX):
            return ev, "blocks of inputs are %d rows instead of the selected %d, or in another order" % (len(gx), len(WX))
        if gt.shape != WT.shape or not np.array_equal(gt, WT):
            return ev, "blocks of targets are %d rows instead of the selected %d, or in another order" % (len(gt), len(WT))
        return None
    steps(ck, P, name, where, w, cp, interest, ((R, judge),))
    buffers(ck, B, name, where, w, cp)


def predict(ck, P, R, W, B, r):
    where = M["hp"] + ".predict_async"
    name = "predict_async, %s" % r.name

    def f(w):
        fX, fT, X, T_ = data(w, r.n, h5=True)
        m = w.model(HPELM, B=True)
        w.call(m, "predict_async", fX, C("out.h5"), **r.kw)
        return X, Composed(w, ck)
    a = attempt(ck, P, name, where, f)
    if not a:
        return
    w, (X, cp) = a
    helperstores = set(id(e) for h in cp.helpers for e in h["events"] if e.kind == "Store")
    interest = {"Solver": lambda e: (e.args[0],) if e.method in ("_predict", "_project") else None,
                "Store": lambda e: span(e) if id(e) in helperstores else None}
    want = rows(X, r)
    full = t.mm(project(want), B0)

    def judge(env, net):
        xs = [v[0] for p, e, v in net.trace if e.kind == "Solver"]
        ev = next((e for p, e, v in net.trace if e.kind == "Solver"), None)
        WX = env.a(want)
        if not xs:
            return ev, "no block reaches the solver"
        g = np.concatenate([np.asarray(x) for x in xs])
        if g.shape != WX.shape or not np.array_equal(g, WX):
            return ev, "blocks are %d rows instead of the selected %d, or in another order" % (len(g), len(WX))
        return None

    def written(env, net):
        st = [(e, v) for p, e, v in net.trace if e.kind == "Store"]
        Y = env.a(full)
        hit = np.zeros(len(Y), int)
        got = np.full(Y.shape, np.nan)
        if not st:
            return None, "nothing is written"
        for e, (lo, hi, v) in st:
            if lo is None:
                raise procs.Unsure("rows of a store")
            lo, hi = int(lo), len(Y) if isinstance(hi, str) and hi == "end" or hi == np.inf else int(hi)
            if lo < 0 or hi > len(Y) or np.asarray(v).shape != (hi - lo, Y.shape[1]):
                return e, "a block of shape %s is written to rows %d..%d of %d" % (np.asarray(v).shape, lo, hi, len(Y))
            hit[lo:hi] += 1
            got[lo:hi] = v
        if (hit != 1).any():
            return st[0][0], "row %d is written %d times" % (int(np.argmax(hit != 1)), hit[np.argmax(hit != 1)])
        if not np.allclose(got, Y, rtol=1e-9, atol=1e-12):
            return st[0][0], "rows hold predictions of other rows"
        return None
    steps(ck, P, name, where, w, cp, interest, ((R, judge), (W, written)))
    buffers(ck, B, name, where, w, cp)


def span(e):
    """rows written by a store, or None when they are not a plain range"""
    s = e.sels
    if not s or s[0][0] != "slice" or s[0][3] not in (None, NONE, ONE) or any(x[0] != "slice" or x[1] not in (None, NONE, ZERO) or x[2] not in (None, NONE, t.INF) for x in s[1:]):
        return None, None, e.value
    lo, hi = [x if isinstance(x, T) and x is not NONE else None for x in s[0][1:3]]
    return ZERO if lo is None else lo, hi if hi is not None else "end", e.value


def steps(ck, P, name, where, w, cp, interest, judges):
    loc = loc_(where)
    rules = [P] + [r for r, _ in judges]
    if not cp.ok or cp.problems or any(h["dead"] for h in cp.helpers):
        for r in rules:
            ck.add(r, name, None, where, "helpers not resolved: %s" % (cp.problems,))
        return
    if not cp.helpers:
        for r in rules:
            ck.add(r, name, None, where, "no helper processes are used")
        return
    un = []
    for e in cp.client + [x for h in cp.helpers for x in h["events"]]:
        if e.kind in procs.OPS:
            for x in list(e.conds) + [l[1] for l in e.loops] + [getattr(e, "value", NONE)]:
                un += [u for u in (unmodelled(x) if isinstance(x, T) else []) if u not in ("trip", "qget", "Least", "lastit")]
    n, why, last, unsure = 0, {}, None, {}
    total = 3 * ck.trials
    for k in range(total):
        env = ri.Env(ck.seed * 11000 + k, psizes(k), None)
        env.budget = 400000
        try:
            net = procs.Net(env, cp, interest)
            try:
                bad = net.execute()
                if bad:
                    why.setdefault(P, (bad[1], bad[2], env.sizes))
            except procs.Wrong as e:
                why.setdefault(P, (None, str(e), env.sizes))
                bad = True
            if not bad:
                for r, j in judges:
                    try:
                        b = j(env, net)
                    except procs.Unsure as e:
                        unsure[r] = str(e)
                        b = None
                    if b:
                        why.setdefault(r, (b[0], b[1], env.sizes))
            n += 1
        except (ri.Undefd, ri.Unmodelled, procs.Unsure) as e:
            last = "%s: %s" % (type(e).__name__, e)
        if why:
            break
    for r in rules:
        if r in why:
            ev, txt, sz = why[r]
            s = {q: v for q, v in sz.items() if q in ("batch", "istart", "icount", "N", "rem")}
            ck.add(r, name, None if un or w.lib.unknown else False, ev.where if ev is not None else where, "%s (for %s)%s" % (txt, s, "; not fully modelled: %s" % sorted(set(un))[:3] if un else ""),
                   "stepping of the communication skeleton")
        elif P in why:
            ck.add(r, name, None, where, "the call does not complete")
        elif r in unsure:
            ck.add(r, name, None, where, unsure[r])
        elif n < total // 2:
            ck.add(r, name, None, where, "only %d of %d interpretations could be stepped (%s)" % (n, total, last))
        else:
            ck.add(r, name, True, where, "%d interpretations, %d processes" % (n, 1 + len(cp.helpers)), "stepping of the communication skeleton")


def buffers(ck, B, name, where, w, cp):
    """an object put into a queue must not be changed in place later (in any iteration that can follow the put)"""
    bad, npt = [], 0
    for evs in [cp.client] + [h["events"] for h in cp.helpers]:
        puts = [e for e in evs if e.kind == "Put"]
        for e in puts:
            npt += 1
            for ref in refs(w, e.raw):
                made = alloc_loops(evs, ref)
                for m in evs:
                    if m.kind == "Mutate" and m.ref.op == "obj" and m.ref is ref:
                        common = [a[0] for a, b in zip(m.loops, e.loops) if a[0] is b[0]]
                        again = any(l not in made for l in common)      # the same object in a later iteration
                        if m.seq > e.seq or again:
                            bad.append((m, e))
    if bad:
        for m, e in bad[:3]:
            ck.add(B, "%s: line %s" % (name, e.where[1]), False, m.where, "an array put into a queue at line %s is changed in place afterwards" % e.where[1], "alias and effect analysis")
    else:
        ck.add(B, name, True, where, "%d queue sends" % npt, "alias and effect analysis")


def refs(w, x, d=0):
    if x.op == "obj":
        c = w.I.cell(w.st, x)
        if c is not None and c.kind == "arr":
            return [x]
        its = w.lib.concrete_items(w.st, x) if c is not None and c.kind in ("list",) else None
        return [y for z in its or () for y in refs(w, z, d + 1)] if d < 4 else []
    if x.op == "view":
        return refs(w, x.args[0], d + 1)
    if x.op in ("tuple", "list") and d < 4:
        return [y for z in x.args for y in refs(w, z, d + 1)]
    return []


def alloc_loops(evs, ref):
    """loops inside which the object is created anew (its identity depends on their counters)"""
    out = []

    def walk(x):
        if isinstance(x, T):
            if x.op in ("it", "bv"):
                out.append(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(ref.args)
    return out
