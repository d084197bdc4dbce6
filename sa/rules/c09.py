"""C09: shared HH/HT files are only touched under their lock"""
import ast
import terms as t
from terms import C, mk, NONE, TRUE, FALSE
from common import *
import ops

ACCESS = ("Open", "Exists", "Create", "Store", "AttrWrite", "Append", "NodeRead", "Walk", "Flush", "Close", "Call")
PATHS = {C("HH.h5"): C("HH.h5.lock"), C("HT.h5"): C("HT.h5.lock")}
FILES = ("with existing files", "with new files")


def run(ck):
    ck.sizes = ops.osizes
    R = {"lock": ck.rule("lock", "every check, creation, read and write of an HH/HT file happens while holding the lock file of that file"),
         "atomic": ck.rule("atomic", "existence check and creation, and read and merged write, happen within one critical section"),
         "closed": ck.rule("closed", "the file is closed before its lock is released"),
         "released": ck.rule("released", "every lock is released, also when an operation on the file fails"),
         "order": ck.rule("order", "locks are never taken in opposite orders, nor twice")}
    jobs = []
    for op in ("add_data", "add_data_async"):
        for cl in ("", "wc"):
            for h5 in ((True,) if op == "add_data_async" else (False, True)):
                for pre in FILES:
                    jobs.append((op, cl, h5, pre, None))
    for q in host_solvers():
        jobs.append(("add_data", "", False, FILES[0], q))
    jobs.append(("parts", "", False, FILES[1], None))
    nest = []
    for j in jobs:
        one(ck, R, nest, *j)
    seen = set(nest)
    bad = [(a, b) for a, b in seen if (b, a) in seen]
    ck.add(R["order"], "nested locks", not bad, HPELM + ".add_data", "taken in opposite orders: %s" % [(t.show(a), t.show(b)) for a, b in bad] if bad else "",
           "%d nested pairs" % len(seen))


def one(ck, R, nest, op, cl, h5, pre, solver):
    name = "%s %s from %s, %s%s" % (op, NAMES[cl], "files" if h5 else "arrays", pre, ", " + short(solver) if solver else "")
    where = HPELM + "." + ("add_data" if op == "parts" else op)

    def f(w):
        m = ops.setup(w, HPELM, cl, solver=solver)
        if h5:
            X, T_ = data(w, N0, cl=cl, h5=True)[:2]
        else:
            X, T_ = ops.dat(w, cl)
        if pre == FILES[0]:
            ops.corr_files(w)
        if op == "parts":
            X2, T2 = w.param("X2", N0, NI), w.param("T2", N0, NO)
            w.call(m, "add_data", X, T_, fHH=C("HH.h5"), fHT=C("HT.h5"))
            return w.call(m, "add_data", X2, T2, fHH=C("HH.h5"), fHT=C("HT.h5"))
        return w.call(m, op, X, T_, fHH=C("HH.h5"), fHT=C("HT.h5"))
    a = attempt(ck, R["lock"], name, where, f)
    if not a:
        return
    w, _ = a
    soft = [n for n in w.I.notes] or sorted(w.lib.unknown)

    def verdict(ok):
        return True if ok else (None if soft else False)
    touched = {p: 0 for p in PATHS}
    closed_in = {}
    sections = {p: None for p in PATHS}       # (sequence number of acquisition, what happened in it)
    prev = ()
    for e in w.events:
        if e.kind == "Acquire":
            if e.path in e.locks:
                ck.add(R["order"], "%s: lock %s" % (name, t.show(e.path)), verdict(False), e.where, "taken again while it is held")
            nest += [(q, e.path) for q in e.locks]
            for p, l in PATHS.items():
                if l is e.path:
                    sections[p] = {"Exists": 0, "NodeRead": 0}
            guarded(ck, R["released"], name, w, e, verdict)
            continue
        if e.kind == "Release":
            for p, l in PATHS.items():
                if l is e.path:
                    sections[p] = None
                    left = [x for x in e.openfiles if x[1] is p]
                    ck.add(R["closed"], "%s: %s at release of its lock" % (name, t.show(p)), verdict(not left), e.where,
                           "the file is still open when its lock is released" if left else "")
            continue
        if e.kind not in ACCESS:
            continue
        if e.kind == "Call":
            ps = [p for p in PATHS if p in e.args]
            if not ps or e.name.startswith("builtins."):
                continue
        else:
            ps = [p for p in PATHS if e.path_ is p] if hasattr(e, "path_") else [p for p in PATHS if epath(w, e) is p]
        for p in ps:
            touched[p] += 1
            ok = PATHS[p] in e.locks
            ck.add(R["lock"], "%s: %s of %s" % (name, e.kind, t.show(p)), verdict(ok), e.where,
                   "" if ok else "%s of %s while holding %s" % (e.kind if e.kind != "Call" else e.name, t.show(p), [t.show(l) for l in e.locks] or "no lock"))
            s = sections[p]
            if s is None:
                continue
            if e.kind in s:
                s[e.kind] += 1
            if e.kind == "Open" and e.mode is not C("r"):
                s["write"] = True
            if e.kind == "Create":
                ck.add(R["atomic"], "%s: creation of %s" % (name, t.show(p)), verdict(s["Exists"] > 0), e.where,
                       "" if s["Exists"] else "the file is created without checking, under the same lock, that it does not exist")
            if e.kind == "Store" and not s.get("created"):
                dep = t.occurs(e.old, e.new) or any(x.op == "sym" and t.occurs(x, e.new) for x in t.subterms(e.old) if x.op == "sym" and str(x.args[0]).startswith(("FHH", "FHT", "file:")))
                if dep:
                    ck.add(R["atomic"], "%s: update of %s" % (name, t.show(p)), verdict(s["NodeRead"] > 0), e.where,
                           "" if s["NodeRead"] else "the merged content was read before the lock was taken")
            if e.kind == "Create":
                s["created"] = True
    for p, n in touched.items():
        ck.add(R["lock"], "%s: %s" % (name, t.show(p)), True if n else None, where, "no access of the file seen" if not n else "", "%d accesses" % n)
    left = w.st.locks
    ck.add(R["released"], "%s: locks at return" % name, verdict(not left), where, "still held: %s" % [t.show(x) for x in left] if left else "")


def epath(w, e):
    p = getattr(e, "path", None)
    if p is None and e.kind == "Walk":
        p = w.I.field(w.st, e.ref, "path")
    return p


def guarded(ck, rule, name, w, e, verdict):
    """the acquisition belongs to a with statement, or is followed by try ... finally with a release"""
    if getattr(e, "how", "with") == "with":
        return ck.add(rule, "%s: %s" % (name, t.show(e.path)), True, e.where, "", "context manager")
    mod = [m for m in w.I.prog.modules.values() if m.path == e.where[0]]
    ok = None
    if mod:
        for node in ast.walk(mod[0].tree):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(node, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign)) and s.lineno <= e.where[1] <= (s.end_lineno or s.lineno):
                        ok = False
                        for nx in b[i + 1:]:
                            if isinstance(nx, ast.Try) and any(isinstance(x, ast.Attribute) and x.attr == "release" for y in nx.finalbody for x in ast.walk(y)):
                                ok = True
                                break
                            if any(isinstance(x, ast.Call) for x in ast.walk(nx)):
                                break
                        if isinstance(node, ast.Try) and fld == "body" and any(isinstance(x, ast.Attribute) and x.attr == "release" for y in node.finalbody for x in ast.walk(y)):
                            ok = True
    ck.add(rule, "%s: %s" % (name, t.show(e.path)), ok if ok is not False else verdict(False), e.where,
           "" if ok else "the lock stays taken when an operation on the file fails" if ok is False else "acquisition not recognised")
