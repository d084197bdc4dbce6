"""C24: make_hdf5 stores every row and column of its source unchanged"""
from common import *
from drive import F32, F64

F = "hpelm.modules.hdf5_tools.make_hdf5"
R0 = sym("rows", kind="int", pos=True, shape=())
C0 = sym("cols", kind="int", pos=True, shape=())
SKIP = sym("skip", kind="int", nonneg=True, shape=())


def csizes(k):
    return {"rows": 1 + k % 5, "cols": 1 + k % 3, "skip": k % 3}


def text(path, skip, delim):
    """rows of the text file from the first one kept"""
    p = C(path)
    j = t.fresh_it()
    n = sym("ncols:" + t.show(p), kind="int", pos=True)
    return t.close_binder("Vec", j, (mk("nlines", p, skip), mk("numrow", mk("csvrow", p, t.add(skip, j), C(delim)), n)))


def precise(ck, rule, name, f, out, want):
    a = attempt(ck, rule, name, F, f, dt=True)
    c = a and a[0].st.heap.get(("file", out))
    if not c:
        return
    w = a[0]
    low = ("float16", "half", "int8", "uint8", "int16", "uint16") + (() if want is F32 else ("float32", "single"))
    bad = [x for x in t.subterms(c.data["content"]) if x.op == "cast" and w.lib.dtcanon(x.args[1]) is not None and short(str(w.lib.dtcanon(x.args[1]))) in low]
    ck.add(rule, name, not bad, F, "values pass through a narrower type: %s" % t.show(bad[0], 3)[:160] if bad else "", "dtype inference")


def run(ck):
    ck.sizes = csizes
    R = ck.rule("content", "the stored array holds all rows and columns of the source in order")
    D = ck.rule("dtype", "the stored array has the requested type")
    P = ck.rule("precision", "values do not pass through a type narrower than the requested one on their way to the file")
    U = ck.rule("mark", "the new file is marked as not normalised")
    A = ck.rule("one", "the file is created once and replaces an existing one")
    out = C("o.h5")
    X2, X1 = arr("X", R0, C0), arr("x", R0)
    src = [("matrix", lambda w: w.value("X", X2), X2, {}),
           ("vector", lambda w: w.value("x", X1), mk("col", X1), {}),
           ("shape", lambda w: mk("tuple", R0, C0), t.mk("zeros", mk("tuple", R0, C0)), {}),
           (".npy matrix", lambda w: C("d.npy"), X2, {}),
           (".npy vector", lambda w: C("v.npy"), mk("col", X1), {})]
    for e in ("txt", "csv", "txt.gz", "csv.bz2", "csv.gz"):
        for skip in (None, SKIP):
            for delim in (None, ",", "\t"):
                kw = {}
                if skip is not None:
                    kw["skiprows"] = skip
                if delim:
                    kw["delimiter"] = delim
                p = "dir/data." + e
                src.append((".%s%s%s" % (e, ", rows skipped" if skip else "", ", delimiter %r" % delim if delim else ""), lambda w, p=p: C(p),
                            text(p, skip or ZERO, delim or " "), kw))
    for nm, make, want, kw in src:
        for old in (False, True):
            for dt in (None, F32) if not kw else (F32,):
                for comp in (0, 9) if len(kw) != 1 else (0,):
                    name = "%s%s%s%s" % (nm, ", existing file" if old else "", ", single precision" if dt is F32 else "", ", compressed" if comp else "")
                    k2 = dict(kw)
                    if dt is not None:
                        k2["dtype"] = dt
                    if comp:
                        k2["comp_level"] = comp

                    def f(w):
                        w.lib.filesyms[C("d.npy")] = X2
                        w.lib.filesyms[C("v.npy")] = X1
                        if old:
                            w.lib.filesyms[out] = arr("old", R0, C0)
                        w.call(F, None, make(w), out, **k2)
                    a = attempt(ck, R, name, F, f)
                    if not a:
                        continue
                    w = a[0]
                    c = w.st.heap.get(("file", out))
                    if c is None:
                        ck.add(R, name, None if w.I.notes or w.lib.unknown else False, F, "no file is written")
                        continue
                    facts = [t.pos(mk("nlines", x.args[0], x.args[1])) for x in t.subterms(want) if x.op == "nlines"]
                    facts = list(dict.fromkeys(facts))
                    got = under(c.data["content"], facts)
                    ck.eq(R, name, got, want, F, facts)
                    es = c.data.get("eshape")
                    if es is not None and es.op == "tuple" and len(es.args) == 2:
                        cols = [s for s in t.subterms(want) if s.op == "sym" and s.args[0].startswith("ncols:")]
                        ck.eq(R, name + ": row width", under(es.args[1], facts), cols[0] if cols else mk("shp", want, ONE), F, facts)
                    if not old and not comp:
                        precise(ck, P, name, f, out, dt or F64)
                    d = c.data.get("dtype")
                    ck.eq(D, name, under(d, facts) if d is not None else NONE, dt or F64, F, facts)
                    for x in ("mean", "std"):
                        v = c.data.get("attr:" + x)
                        ck.eq(U, "%s: %s" % (name, x), under(v, facts) if v is not None else mk("undef", x), NONE, F, facts)
                    cr = w.evs("Create")
                    op = [e for e in w.evs("Open") if e.path is out]
                    if not op:
                        ck.add(A, name, None, F, "no opening of the output file found")
                    else:
                        ok = all(t.isstr(e.mode) and e.mode.args[1].startswith("w") for e in op[:1])
                        ck.add(A, name, ok, op[0].where, "an existing output file is not replaced: opened with mode %s" % t.show(op[0].mode))
                    if len(cr) > 1 and not any(e.conds for e in cr):
                        ck.add(A, name + ": arrays", False, cr[1].where, "more than one array is created in the file")
