"""C04: the output weights solve the regularised normal equations exactly once, whatever the storage of the matrices"""
from common import *

PRECS = (("double", DOUBLE), ("single", SINGLE))


def mats(w):
    l = t.add(*group_sizes(2))
    HH, HT = w.param("HH", l, l, sym=True), w.param("HT", l, NO)
    return HH, HT, w.D(HH), w.D(HT)


def solution(HH, HT):
    return t.mm(mk("inv", HH), HT)


def verdict(ck, rule, name, got, want, where):
    """the result of a failed factorisation must not be used"""
    if got is None:
        return ck.add(rule, name, False, where, "no solution is stored")
    if any(y.op == "garbage" for y in t.subterms(got)):
        return ck.add(rule, name, False, where, "a matrix overwritten by the library or the output of a failed factorisation is used: %s" % t.show(got, 6)[:300])
    return ck.eq(rule, name, got, want, where)


def run(ck):
    ck.sizes = sizes
    R = ck.rule("solution", "solve() and solve_corr() return inv(HH) HT of the full symmetric HH, on the direct path and in the fallback for rank-deficient matrices")
    A = ck.rule("accumulated", "after accumulating data, in whatever triangular storage a solver uses, solve() and get_corr() describe the full matrices")
    K = ck.rule("unchanged", "solving changes neither the given matrices nor the accumulated ones")
    H = ck.rule("model", "the model's solve_corr and train store the solution of exactly the given or accumulated equations")
    for q in solvers():
        for pn, p in PRECS:
            nm = "%s, %s" % (short(q), pn)
            where = q + ".solve_corr"

            def f(w):
                s = concrete_solver(w, q, B=False, precision=p)
                HH, HT, a, b = mats(w)
                r = w.call(s, "solve_corr", HH, HT)
                return a, b, w.D(r), w.D(HH), w.D(HT)
            x = attempt(ck, R, nm + ", solve_corr", where, f, real=True)
            if x:
                a, b, r, a1, b1 = x[1]
                verdict(ck, R, nm + ", solve_corr", r, solution(a, b), where)
                verdict(ck, K, nm + ", solve_corr keeps HH", a1, a, where)
                verdict(ck, K, nm + ", solve_corr keeps HT", b1, b, where)

            def f(w):
                s = concrete_solver(w, q, B=True, precision=p)
                HH, HT, a, b = mats(w)
                w.call(s, "set_corr", HH, HT)
                w.call(s, "solve")
                r = w.D(w.call(s, "get_B"))
                g = w.D(w.call(s, "get_corr"))
                return a, b, r, w.D(g.args[0]), w.D(g.args[1])
            where = q + ".solve"
            x = attempt(ck, R, nm + ", set_corr and solve", where, f, real=True)
            if x:
                a, b, r, a1, b1 = x[1]
                verdict(ck, R, nm + ", set_corr and solve", r, solution(a, b), where)
                verdict(ck, A, nm + ", get_corr after set_corr: HH", a1, a, q + ".get_corr")
                verdict(ck, A, nm + ", get_corr after set_corr: HT", b1, b, q + ".get_corr")
            for first in (False, True):
                def f(w):
                    s = concrete_solver(w, q, B=False, precision=p)
                    a, b = t.mul(NORM, mk("eye", t.add(*group_sizes(2)))), ZERO
                    if first:
                        HH, HT, a, b = mats(w)
                        w.call(s, "set_corr", HH, HT)
                    X, T_ = w.param("X", N0, NI), w.param("T", N0, NO)
                    P = w.D(w.call(s, "_project", X))
                    w.call(s, "add_batch", X, T_)
                    w.call(s, "solve")
                    r = w.D(w.call(s, "get_B"))
                    g = w.D(w.call(s, "get_corr"))
                    h1, h2 = w.D(g.args[0]), w.D(g.args[1])
                    a = t.add(a, t.mm(t.transpose(P), P))
                    b = t.add(b, t.mm(t.transpose(P), w.D(T_)))
                    r2 = w.D(w.call(s, "solve_corr", g.args[0], g.args[1]))
                    return a, b, r, h1, h2, r2
                what = "set_corr, add_batch" if first else "add_batch"
                x = attempt(ck, A, "%s, %s" % (nm, what), q + ".add_batch", f, real=True)
                if x:
                    a, b, r, h1, h2, r2 = x[1]
                    verdict(ck, A, "%s, solve after %s" % (nm, what), r, solution(a, b), where)
                    verdict(ck, A, "%s, get_corr after %s and solve: HH" % (nm, what), h1, a, q + ".get_corr")
                    verdict(ck, A, "%s, get_corr after %s and solve: HT" % (nm, what), h2, b, q + ".get_corr")
                    verdict(ck, A, "%s, solve_corr of get_corr after %s" % (nm, what), r2, solution(a, b), where)
    models(ck, H)


def models(ck, H):
    where = M["hp"] + ".solve_corr"

    def f(w):
        m = w.model(HPELM)
        HH, HT = arr("FHH", L, L), arr("FHT", L, NO)
        w.lib.filesyms[C("HH.h5")], w.lib.filesyms[C("HT.h5")] = HH, HT
        w.call(m, "solve_corr", C("HH.h5"), C("HT.h5"))
        return HH, HT, w.content(w.field(m, "nnet"), "B")
    a = attempt(ck, H, "HPELM.solve_corr", where, f)
    if a:
        HH, HT, B = a[1]
        ck.eq(H, "HPELM.solve_corr", B, mk("Solve", HH, HT), where)
    for cls in (ELM, HPELM):
        for op in ("train", "train_async"):
            if op == "train_async" and cls is ELM:
                continue
            where = "%s.%s" % (cls, op)
            name = "%s.%s" % (short(cls), op)

            def f(w):
                m = w.model(cls)
                fX, fT, X, T_ = data(w, N0, h5=cls is HPELM)
                w.call(m, op, fX, fT)
                s = w.field(m, "nnet")
                return w.content(s, "HH"), w.content(s, "HT"), w.content(s, "B")
            a = attempt(ck, H, name, where, f)
            if a:
                HH, HT, B = a[1]
                if HH is None or B is None:
                    ck.add(H, name, False, where, "training leaves no solution")
                else:
                    ck.eq(H, name, B, mk("Solve", HH, HT), where)
    for q in host_solvers():
        name = "ELM.train with %s" % short(q)

        def f(w):
            m = w.model(ELM, neurons=False)
            use_solver(w, m, q)
            X, T_ = w.param("X", N0, NI), w.param("T", N0, NO)
            w.call(m, "train", X, T_)
            s = w.field(m, "nnet")
            P = w.D(w.call(s, "_project", X))
            return P, w.D(T_), w.content(s, "B")
        a = attempt(ck, H, name, ELM + ".train", f, real=True)
        if a:
            P, T_, B = a[1]
            verdict(ck, H, name, B, solution(t.add(t.mul(NORM, mk("eye", L)), t.mm(t.transpose(P), P)), t.mm(t.transpose(P), T_)), ELM + ".train")
