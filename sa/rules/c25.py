"""C25: normalize_hdf5 applies (x - mean) / std exactly once to every row"""
from fractions import Fraction
from common import *

F = "hpelm.modules.hdf5_tools.normalize_hdf5"
R0 = sym("rows", kind="int", pos=True, shape=())
C0 = sym("cols", kind="int", pos=True, shape=())
BT = sym("bs", kind="int", pos=True, shape=())
CH = sym("chunk0:'x.h5'", kind="int", pos=True, shape=())


def csizes(k):
    return {"rows": 1 + (k * 5 + k // 4) % 7, "cols": 1 + k % 3, "bs": 1 + k % 4, "chunk0:'x.h5'": 1 + k % 5}


def fixed(s):
    """deviations with zeros replaced by one"""
    return mk("store", s, (("idx", mk("nz", t.eq(s, ZERO), ZERO)),), ONE)


def norm(x, m, s):
    return t.mul(t.sub(x, m), t.power(fixed(s), -1))


def run(ck):
    ck.sizes = csizes
    A = ck.rule("apply", "every element of the file becomes (x - mean) / std of its column")
    S = ck.rule("stats", "the mean and std used are the given ones or those of the stored data, zero deviations replaced by one")
    Q = ck.rule("return", "the mean and std used are returned and recorded with the data")
    O = ck.rule("once", "data recorded as normalised stays unchanged unless mean and std are given, and the recorded values are returned")
    p = C("x.h5")
    X = arr("X", R0, C0, flat=True)
    am, as_ = sym("attr:mean:'x.h5'", kind="arr", shape=(C0,)), sym("attr:std:'x.h5'", kind="arr", shape=(C0,))
    mean, std = arr("mean", C0), arr("std", C0, nonneg=True, flat=True)
    cm = t.mean(X, ZERO)
    cs = t.power(t.sub(t.mean(t.mul(X, X), ZERO), t.mul(cm, cm)), Fraction(1, 2))
    for batch in (None, BT):
        for given in ("", "mean std", "mean", "std"):
            for state in ("fresh data", "normalised data"):
                nm = "%s%s, %s" % ("given " + given.replace(" ", " and ") if given else "own statistics", ", batch size given" if batch else "", state)

                def f(w):
                    w.lib.filesyms[p] = X
                    w.lib.file_cell(w.st, p)
                    k = ("file", p)
                    d = dict(w.st.heap[k].data)
                    d["attr:mean"], d["attr:std"] = (NONE, NONE) if state == "fresh data" else (am, as_)
                    w.st.heap[k] = w.st.heap[k].with_(d)
                    kw = {}
                    if "mean" in given:
                        kw["mean"] = w.value("mean", mean)
                    if "std" in given:
                        kw["std"] = w.value("std", std)
                    if batch is not None:
                        kw["batch"] = batch
                    r = w.D(w.call(F, None, p, **kw))
                    c = w.st.heap[k].data
                    return r, c["content"], c.get("attr:mean"), c.get("attr:std")
                a = attempt(ck, A, nm, F, f)
                if not a:
                    continue
                if given == "mean std":
                    m, s, want = mean, std, norm(X, mean, std)
                elif state == "fresh data":
                    m, s, want = cm, cs, norm(X, cm, cs)
                else:
                    m, s, want = am, as_, X
                r, content, gm, gs = a[1]
                done = state != "fresh data" and given != "mean std"
                used = s if done else fixed(s)
                T_ = Q if given == "mean std" else O if done else S
                ck.eq(O if done else A, nm, content, want, F)
                for what, got, exp in (("mean", gm, m), ("std", gs, used)):
                    ck.eq(T_, "%s: recorded %s" % (nm, what), got if got is not None else mk("undef", what), exp, F)
                if r.op == "tuple" and len(r.args) == 2:
                    ck.eq(O if done else Q, nm + ": returned mean", r.args[0], m, F)
                    ck.eq(O if done else Q, nm + ": returned std", r.args[1], used, F)
                else:
                    gap = any(y.op in ("unk", "opq", "ite") for y in t.subterms(r))
                    ck.add(Q, nm + ": returned", None if gap else False, F, "does not return a pair of mean and std")
