"""C26: HPELM touches the dataset only in blocks of at most batch rows"""
import terms as t
from terms import C, mk, NONE, TRUE, FALSE, ZERO, ONE
from common import *
import ops
from lib import num

DATA = ("X.h5", "T.h5", "Y.h5", "Xv.h5", "Tv.h5")


def run(ck):
    ck.sizes = bsizes
    R = {"slice": ck.rule("slice", "every read of a data file is a slice of at most batch rows"),
         "block": ck.rule("block", "the solver receives at most batch rows at once"),
         "grow": ck.rule("grow", "blocks are not collected: no list, array or unbounded queue grows with the number of blocks"),
         "held": ck.rule("held", "no array with a row per sample is held, except results requested in memory")}
    jobs = []
    for r in ranges(full=True):
        for cl in ("", "auto") if not ck.thorough else ("", "c", "wc", "auto", "ml"):
            for op in ("train", "add_data", "train_async", "add_data_async"):
                jobs.append((op, cl, r, ""))
        for op in ("predict", "project"):
            for dst in ("", "file", "array"):
                jobs.append((op, "", r, dst))
        jobs.append(("predict_async", "", r, "file"))
        if r.name != "all rows":
            for cl in ("", "c", "wc", "ml"):
                jobs.append(("error", cl, r, ""))
    r = ranges(full=False)[0]
    for cl in ("", "c", "wc", "ml"):
        jobs.append(("error", cl, r, ""))
        jobs.append(("validation_corr", cl, r, ""))
        if cl:
            jobs.append(("confusion", cl, r, ""))
    jobs = [(j, src) for j in jobs for src in ("HDF5 files", "arrays") if src != "arrays" or "async" not in j[0]]
    ck.parallel([lambda ck, i=i: [one(ck, R, src, *j) for j, src in jobs[i::6]] for i in range(6)])


def bsizes(k):
    import random
    d = ops.osizes(k)
    g = random.Random(k * 31 + 5)
    d.update(it0=g.randint(0, 5), it1=g.randint(0, 4), it2=g.randint(0, 4))
    return d


def drive_(w, src, op, cl, r, dst):
    train = op.startswith("train")
    auto = cl == "auto"
    cl = "wc" if auto else cl
    m = ops.setup(w, HPELM, "" if train else cl, auto=auto, B=op.startswith(("predict", "project")))
    h5 = src != "arrays"
    kw = dict(r.kw)

    def give(nm, *sh, **at):
        x = arr(nm, *sh, **at)
        if h5:
            w.lib.filesyms[C(nm + ".h5")] = x
            return C(nm + ".h5")
        return mkparam(w, nm)
    at = {"onehot": True} if cl in ("c", "wc") else {"labels": True} if cl else {}
    if op == "validation_corr":
        a = ops.corr_files(w)
        steps = w.param("steps", sym("K", kind="int", pos=True), integer=True, pos=True)
        return m, w.call(m, op, a[0], a[1], give("Xv", N0, NI), give("Tv", N0, NO, **at), steps)
    if op in ("error", "confusion"):
        return m, w.call(m, op, give("T", r.n, NO, **at), give("Y", r.n, NO), **(kw if op == "error" else {}))
    if op.startswith(("predict", "project")):
        x = give("X", r.n, NI)
        o = [C("OUT.h5")] if dst == "file" else [w.param("OUT", r.count, L if op == "project" else NO)] if dst else []
        return m, w.call(m, op, x, *o, **kw)
    a = [cl] if train and cl else []
    if train and cl == "wc" and not auto:
        kw["w"] = w.param("w", NO, pos=True)
    return m, w.call(m, op, give("X", r.n, NI), give("T", r.n, NO, **at), *a, **kw)


def one(ck, R, src, op, cl, r, dst):
    name = "%s %s%s, %s, %s" % (op, dict(NAMES, auto="automatic class weights")[cl] if cl else "", " to " + dst if dst else "", src, r.name)
    where = (ELM if op == "confusion" else HPELM) + "." + op
    a = attempt(ck, R["slice"], name, where, lambda w: drive_(w, src, op, cl, r, dst))
    if not a:
        return
    w, (m, res) = a
    client = list(w.events)
    c = None
    streams = [client]
    if any(e.kind == "Proc" and e.how == "start" for e in client):
        c = Composed(w, ck)
        streams += [h["events"] for h in c.helpers]
    reads = 0
    for evs in streams:
        for e in evs:
            if e.kind == "NodeRead" and e.path.op == "const" and e.path.args[1] in DATA:
                reads += 1
                read(ck, R["slice"], name, w, c, e)
            elif e.kind == "Solver" and e.method in ("add_batch", "_predict", "_project"):
                rows_(ck, R["block"], name, c, e)
            elif e.kind in ("ListOp", "ArrAppend") and e.loops:
                if e.kind == "ListOp" and e.how != "append":
                    continue
                grow(ck, R["grow"], name, c, e, e.item, w.I)
            elif e.kind == "Put":
                queue(ck, R["grow"], name, w, c, e)
    if src != "arrays":
        ck.add(R["slice"], name, True if reads else None, where, "" if reads else "no read of the data seen", "%d reads" % reads)
    held(ck, R["held"], name, w, res, where)


def closed(x, e, c):
    """loop variables as symbols with their bounds; received items replaced by what was sent"""
    facts = list(e.conds)
    if c is not None:
        x = c.resolve(x)
        facts = [c.resolve(f) for f in facts]
    m = {}
    for i, (it, n, _) in enumerate(e.loops):
        s = sym("it%d" % i, kind="int", nonneg=True, shape=())
        m[it] = s
        facts.append(t.lt(s, n))
    facts = [t.subst(f, m) for f in facts]
    return t.subst(x, m), [f for f in facts if not any(y.op in ("trip", "qget", "while") for y in t.subterms(f))]


def bounded(ck, rule, name, c, e, n, what):
    n, facts = closed(n, e, c)
    n = t.subst(n, e.facts) if e.facts else n
    v, how, d = ck.compare([(t.le(n, BATCH), TRUE)], facts, bsizes)
    if v is False and any(y.op in ("trip", "qget", "while") for f in e.conds for y in t.subterms(c.resolve(f) if c else f)):
        return ck.add(rule, name, None, e.where, what + ": depends on conditions that are not modelled")
    ck.holds(rule, name, t.le(n, BATCH), e.where, facts, what)


def read(ck, rule, name, w, c, e):
    idx = e.idx
    if idx.op in ("tuple", "itup") and idx.args:
        idx = idx.args[0]
    nm = "%s: read of %s" % (name, t.show(e.path))
    if getattr(e, "by", None) == "rows":
        return ck.add(rule, nm, True, e.where, "", "row by row")
    if idx.op != "slice":
        if t.ndim(idx) == 0:
            return ck.add(rule, nm, True, e.where, "", "one row")
        return ck.add(rule, nm, None, e.where, "index not understood: %s" % t.show(idx, 4)[:200])
    n = t.length(w.lib.filesyms[e.path]) if e.path in w.lib.filesyms else None
    lo, hi, st = idx.args
    if n is None:
        return ck.add(rule, nm, None, e.where, "file not known")
    lo = ZERO if lo is NONE else lo
    hi = n if hi is NONE else hi
    if lo is ZERO and (hi is n or t.same(hi, n)):
        return ck.add(rule, nm, False, e.where, "the whole dataset is read at once")
    if st not in (NONE, ONE):
        return ck.add(rule, nm, None, e.where, "step of the slice")
    bounded(ck, rule, nm, c, e, t.sub(t.minimum(hi, n), lo), "rows %s to %s" % (t.show(lo, 4)[:80], t.show(hi, 4)[:120]))


def rows_(ck, rule, name, c, e):
    if not e.args:
        return
    x = e.args[0]
    if c is not None:
        x = c.resolve(x)
    n = t.length(x)
    nm = "%s: %s" % (name, e.method)
    bounded(ck, rule, nm, c, e, n, "rows given to %s" % e.method)


def datadep(x):
    return any(y.op == "sym" and y.args[0] in ("X", "T", "Y", "Xv", "Tv") or y.op == "qget" for y in t.subterms(x))


def grow(ck, rule, name, c, e, item, I):
    made = e.ref.args[0][0] if e.kind == "ListOp" and e.ref.op == "obj" and isinstance(e.ref.args[0][0], tuple) else ()
    inside = {lid for (ctx, nid), lid in I.loopids.items() if isinstance(ctx, tuple) and made[:len(ctx) + 1] == ctx + (("l", nid),)}     # loops of which every iteration makes a list of its own
    loop = [l for l in e.loops if t.occurs(BATCH, l[1]) and l[2] not in inside]
    if not loop:
        return
    sh = t.shape(item)
    if not datadep(item) or sh is None and t.ndim(item) == 0 or sh == ():
        return
    big = sh is None or any(t.occurs(l[0], d) or t.occurs(BATCH, d) for d in sh for l in loop)
    if not big:
        return      # numbers of one block, not its rows
    ck.add(rule, "%s: blocks collected" % name, False if big and sh is not None else None, e.where, "a block of every iteration is kept: %s" % t.show(item, 4)[:200])


def queue(ck, rule, name, w, c, e):
    v = e.value
    sh = t.shape(v)
    block = False
    for y in (v.args if v.op in ("tuple", "list") else (v,)):
        s = t.shape(y)
        if datadep_arr(y) and (s is None or len(s) > 1):
            block = True
    if not block:
        return
    size = w.I.cell(w.st, e.q).data.get("size", ZERO) if w.I.cell(w.st, e.q) is not None else None
    ok = size is not None and (num(size) or 0) > 0
    ck.add(rule, "%s: queue of data blocks" % name, ok if size is not None and num(size) is not None else None, e.where,
           "" if ok else "the queue may hold any number of blocks")


def datadep_arr(x):
    return t.kind(x) not in ("int", "bool", "str") and (datadep(x) or any(y.op in ("pred", "proj") for y in t.subterms(x)))


def held(ck, rule, name, w, res, where):
    """arrays allocated by the operation with a dimension that grows with the number of samples"""
    bad = []
    rk = set()
    if res is not None:
        for y in (w.I.D(w.st, res),):
            pass
        def refs(v):
            if v.op in ("obj", "view"):
                rk.add(v.args[0] if v.op == "obj" else v.args[0].args[0])
            elif v.op in ("tuple", "list"):
                for z in v.args:
                    refs(z)
        refs(res)
    for k, cell in w.st.heap.items():
        if cell.kind != "arr" or k in rk or k and k[0] in ("param", "solver", "file"):
            continue
        if cell.tag:
            continue
        sh = t.shape(cell.data)
        if sh is None:
            continue
        for d in sh:
            if any(y.op == "sym" and y.args[0] in ("N", "rem") for y in t.subterms(d)) and not any(y is BATCH for y in t.subterms(d)):
                bad.append((k, cell, d))
                break
    for k, cell, d in bad:
        ck.add(rule, "%s: array of %s rows" % (name, t.show(d, 3)[:60]), False if not w.I.notes else None, where, "an array with a row per sample is kept: %s" % t.show(cell.data, 3)[:200])
    if not bad:
        ck.add(rule, name, True, where, "", "%d objects" % len(w.st.heap))
