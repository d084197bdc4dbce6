"""C11: files are flushed and closed when an operation completes"""
import terms as t
from terms import C, NONE, TRUE, FALSE
from common import *
import ops

USE = ("Walk", "NodeRead", "Store", "AttrWrite", "Append", "Flush", "Create", "Write")


def run(ck):
    ck.sizes = ops.osizes
    W = ck.rule("written", "every file opened for writing is closed when the operation returns")
    R = ck.rule("registered", "every file opened for reading is closed or registered with the model when the operation returns, and closed with the model")
    U = ck.rule("use", "no file, array node or attribute is used after its file was closed")
    todo = ops.operations(full=ck.thorough)
    n = 6
    ck.parallel([lambda ck, i=i: [one(ck, W, R, U, o) for o in todo[i::n]] for i in range(n)])


def handles(st):
    return [(k, c) for k, c in st.heap.items() if c.kind == "inst" and c.cls in ("ext:H5File", "ext:File")]


def one(ck, W, R, U, o):
    a = attempt(ck, W, o.name, o.where, o.f, hooks=o.hooks)
    if not a:
        return
    w, (m, r) = a
    hs = ops.helpers(w)
    final(ck, W, R, w, w.st, o.name, o.where, m)
    use(ck, U, o.name, w.events[:hs[0]["events"][0].seq - w.ev0] if hs and hs[0]["events"] else w.events, o.where)
    for i, h in enumerate(hs):
        nm = "%s, helper %d" % (o.name, i + 1)
        if h["dead"]:
            ck.add(W, nm, None, h["target"], "the helper never returns")
            continue
        final(ck, W, R, w, h["state"], nm, h["target"], None, w.st.heap)
        use(ck, U, nm, h["events"], h["target"])


def final(ck, W, R, w, st, name, where, m, before=()):
    model = []
    if m is not None:
        lst = w.I.field(st, m, "opened_hdf5")
        x = w.I.D(st, lst) if lst is not None else None
        model = list(x.args) if x is not None and x.op == "list" else []
        if x is not None and x.op not in ("list", "tuple"):
            ck.add(R, name, None, where, "registered files not modelled: %s" % t.show(x, 4)[:200])
    for k, c in handles(st):
        if k in before:
            continue
        op, mode, path = c.data["open"], c.data.get("mode", NONE), c.data["path"]
        rd = c.cls == "ext:H5File" and mode is C("r")
        rule = R if rd else W
        nm = "%s: file %s" % (name, t.show(path))
        site = origin(w, k) or where
        if op is FALSE:
            ck.add(rule, nm, True, site)
            continue
        if any(x.op == "obj" and x.args[0] == k for x in model):
            if rd:
                ck.add(rule, nm + " (registered)", True, site)
                continue
            ck.add(rule, nm, False, site, "still open for writing when the operation returns")
            continue
        if op is TRUE:
            ck.add(rule, nm, False, site, "never closed")
        else:
            ck.add(rule, nm, None if opaque(op) else False, site, "not closed when %s" % t.show(op, 5)[:200])
    if m is not None and model:
        fake = st.clone()
        old = w.st
        w.st = fake
        try:
            w.call(m, "__del__")
            left = [(k, c) for k, c in handles(fake) if c.data["open"] is not FALSE and any(x.op == "obj" and x.args[0] == k for x in model)]
            for k, c in left:
                ck.add(R, "%s: %s after destruction of the model" % (name, t.show(c.data["path"])), False, ELM + ".__del__", "the registered file is not closed")
            if not left:
                ck.add(R, name + ": registered files are closed with the model", True, ELM + ".__del__")
        except Refused:
            ck.add(R, name + ": registered files are closed with the model", False, ELM + ".__del__", "destruction of the model fails")
        w.st = old


def origin(w, k):
    for e in w.I.events:
        if e.kind == "Open" and e.ref.op == "obj" and e.ref.args[0] == k:
            return e.where
    return None


def use(ck, U, name, events, where):
    bad, n = [], 0
    for e in events:
        if e.kind not in USE or not hasattr(e, "open"):
            continue
        n += 1
        op = e.open
        op = under(op, e.conds)
        op = t.subst(op, e.facts) if e.facts else op
        if op is not TRUE:
            bad.append((e, op))
    for e, op in bad:
        ck.add(U, "%s: %s" % (name, e.kind), None if op is not FALSE and opaque(op) else False, e.where, "the file is closed%s" % ("" if op is FALSE else " unless %s" % t.show(op, 4)[:200]))
    if not bad:
        ck.add(U, "%s: %d accesses" % (name, n), True, where)
