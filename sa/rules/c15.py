"""C15: model selection scores exactly the sub-model it would keep, then retrains."""
import numpy as np
import terms as t
from terms import C, mk, NONE, TRUE, ZERO, ONE, sym
import ri
from common import *
import mss
from mss import NV, NCV, FOLDS, KMAX, SLOT, Search

WHERE = {"V": "hpelm.mss_v.train_v", "CV": "hpelm.mss_cv.train_cv", "LOO": "hpelm.mss_loo.train_loo"}


def run(ck):
    ck.sizes = mss.msizes
    a = ck.rule("same-neurons", "each candidate of k neurons is scored with the first k neurons of one ranking: same rows and columns of HH, rows of HT and columns of H")
    b = ck.rule("training-only", "candidate equations are built from the training data only")
    c = ck.rule("kept", "the candidate kept has the lowest penalised error among those compared and is an initial part of the ranking")
    d = ck.rule("retrained", "the network is pruned to exactly the kept neurons and retrained on the complete training data")
    f = ck.rule("test-error", "the error returned by cross-validation is that of the selected models on the test parts")
    cfg = [("V", "", 0), ("V", "c", 1), ("V", "wc", 0), ("LOO", "", 0), ("LOO", "c", 1), ("LOO", "ml", 0), ("CV", "", 1), ("CV", "c", 0)]
    if ck.thorough:
        cfg = [(v, cl, op) for v in ("V", "LOO", "CV") for cl in ("", "c", "wc", "ml") for op in (0, 1)
               if not (v == "LOO" and cl == "wc")]
    ck.parallel([lambda ck, q=q: one(ck, q, (a, b, c, d, f)) for q in sorted(cfg, key=lambda q: q[0] != "CV")])


def one(ck, q, rules):
    v, cl, op = q
    a, b, c, d, f = rules
    name = "%s %s%s" % (v, NAMES[cl], " optimal" if op else "")
    g = attempt(ck, c, name, WHERE[v], lambda w: (w, mss.train(w, v, cl, op)), hooks={x: mss.ranker for x in mss.RANKERS})
    if g is None:
        return
    w, (_, (m, r)) = g
    s = Search(w, m, r, v, cl, op)
    if not s.cands or not s.full or len(s.prune) != 1 or not s.corr:
        ck.add(c, name, None, WHERE[v], "the steps of the search were not recognised")
        return
    scored(ck, a, name, s)
    trained(ck, b, name, s)
    kept(ck, c, name, s)
    g = attempt(ck, c, name, WHERE[v], lambda w: (w, mss.train(w, v, cl, op)),
                hooks=dict([(x, mss.ranker) for x in mss.RANKERS] + [("hpelm.elm.ELM._error", mss.scorer)]))
    if g is not None:
        s2 = Search(g[0], g[1][1][0], g[1][1][1], v, cl, op)
        if s2.cands and s2.full and len(s2.prune) == 1:
            kept(ck, c, name + ": for any errors", s2, 12)
    retrained(ck, d, name, s)
    if v == "CV":
        tested(ck, f, name, s)


def fold_of(s, x):
    """validation (or test) inputs of the error site: rows of the same index set as its targets"""
    if s.v == "V":
        return arr_("Xv")
    if s.v == "LOO":
        return arr_("X")
    if x.T.op == "sel":
        return t.sel(arr_("X"), x.T.args[1])
    return None


def arr_(n):
    return mk("sym", n)


def corr_of(s, x):
    """HH, HT of the fold of the error site"""
    e = s.corr[0]
    HH, HT = e.HH, e.HT
    if e.loops and x.fold:
        q = {e.loops[0][0]: x.fold[0]}
        HH, HT = t.subst(HH, q), t.subst(HT, q)
    return HH, HT


def model_of(s, x, S):
    """output (and leave-one-out residual factor) of the sub-model with neurons S (None: all) for the site's samples"""
    X = fold_of(s, x)
    HH, HT = corr_of(s, x)
    H = project(X)
    n = N0
    if S is not None:
        H = t.sel(H, (t.FULL, ("idx", S)))
        HH = t.sel(t.sel(HH, (("idx", S), t.FULL)), (t.FULL, ("idx", S)))
        HT = t.sel(HT, (("idx", S), t.FULL))
    if s.v == "LOO":
        P = mk("inv", HH)
        R = t.sub(mk("ones", mk("tuple", n)), t.sum_(t.mul(t.mm(H, P), H), ONE))
        return t.mm(t.mm(H, P), HT), R
    return t.mm(H, mk("Solve", HH, HT)), NONE


def abstracted(s, x, terms, fold=True):
    """the same terms for an arbitrary index set and fold"""
    m = {}
    if x.S is not None:
        S = sym("Sset", kind="arr", indices=L, shape=(sym("kset", kind="int", pos=True),))
        m[x.S] = S
    out = [t.subst(q, m) for q in terms]
    if x.fold:
        j = sym("fold", kind="int", nonneg=True)
        out = [t.subst(q, {x.fold[0]: j}) for q in out]
    return out


def fsizes(k):
    d = mss.msizes(k)
    d["fold"] = k % (3 + d["kx"])
    d["kset"] = 1 + k % 3
    return d


def scored(ck, rule, name, s):
    want_T = {"V": arr_("Tv"), "LOO": arr_("T")}.get(s.v)
    seen = set()
    for x in s.cands + s.full[:1]:
        part = x in s.cands
        key = (x.where, x.S.id if x.S is not None else None)
        if part and x.S is None:
            ck.add(rule, name, None, x.where, "no selection of neurons in the scored output")
            continue
        if s.v == "CV" and x.T.op != "sel":
            ck.add(rule, name, None, x.where, "the validation part was not recognised")
            continue
        if want_T is not None:
            ck.eq(rule, name + ": targets", x.T, want_T, x.where)
        Y, R = model_of(s, x, x.S if part else None)
        got, gR, aY, aR = abstracted(s, x, [x.Y, x.R, Y, R])
        what = "a candidate" if part else "the full network"
        mss.site_eq(ck, rule, "%s: output of %s" % (name, what), x.e, x.Y, Y, ((got, aY), fsizes))
        if s.v == "LOO":
            mss.site_eq(ck, rule, "%s: leave-one-out factor of %s" % (name, what), x.e, x.R, R, ((gR, aR), fsizes))


def trained(ck, rule, name, s):
    e = s.corr[0]
    if s.cl == "wc":
        wt = t.mm(t.ATTR and arr_("T"), arr_("w"))
    if s.v == "CV":
        from rules import c16
        return c16.judged(ck, s, (rule,) * 5, name)
    X, T_ = arr_("X"), arr_("T")
    if s.cl == "wc":
        return          # C05
    a, b = acc_terms(X, T_)
    ck.eq(rule, name + ": HH", e.HH, a, e.where)
    ck.eq(rule, name + ": HT", e.HT, b, e.where)


def score(s, x, K):
    """error of the first K neurons (K: bound variable) at site x"""
    rk = x.rank
    if rk is None:
        return None
    S = t.sel(rk, (("slice", ZERO, K, ONE),))
    v = t.subst(x.value, {x.S: S})
    return v


def folded(s, x, v):
    """mean over the folds"""
    if not x.fold or x.fold[1] is None:
        return v
    it, n = x.fold
    return t.div(t.mk_sum(n, it, v), n)


def kept(ck, rule, name, s, more=1):
    P = s.prune[0].args[0]
    where = s.prune[0].where
    x = s.cands[0]
    K = mk("bv", SLOT + 9)
    sc = score(s, x, K)
    if sc is None:
        return ck.add(rule, name, None, x.where, "scored neurons are not an initial part of a ranking: %s" % t.show(x.Y, 4)[:200])
    sc = folded(s, x, sc)
    full = folded(s, s.full[0], s.full[0].value)
    lim = s.limit
    total = t.add(sc, t.mul(K, t.div(t.mul(full, C(t.Fraction(1, 100))), lim)))
    rank = x.rank
    if x.fold:          # the network keeps neurons by the ranking of the last fold
        rank = t.subst(rank, {x.fold[0]: t.sub(x.fold[1], ONE)})
    bad = [u for q in (P, total, rank) for u in __import__("rule").unmodelled(q)]
    if bad:
        return ck.add(rule, name, None, where, "not fully modelled (%s)" % ", ".join(sorted(set(bad))))
    n = tried = 0
    why = None
    last = None
    import time
    t0 = time.time()
    for k in range(6 * ck.trials * more):
        if n >= 2 * ck.trials * more or time.time() - t0 > (200 if ck.thorough else 20):
            break
        env = ri.Env(ck.seed * 7000 + k, mss.msizes(k), None)
        env.budget = 400000
        try:
            lm = int(env.n(lim))
            R = [int(q) for q in env.val(rank)][:lm]
            Pv = [int(q) for q in np.asarray(env.val(P)).ravel()]
            cand = {}
            for y in s.cands:
                S = mss.slots(y.S, y.e.loops)
                for _ in mss.runs(env, y.e):
                    cand.setdefault(len(env.val(S)), y)
            if lm == env.n(L):
                cand.setdefault(lm, s.full[0])
            vals = {}
            for q in sorted(set(cand) | {len(Pv)}):
                env.bv[SLOT + 9] = q
                vals[q] = float(env.val(total))
            env.bv.pop(SLOT + 9, None)
        except ri.Undefd as e:
            last = str(e)
            continue
        except ri.Unmodelled as e:
            return ck.add(rule, name, None, where, "undecided: %s" % e)
        n += 1
        if Pv != R[:len(Pv)] or not Pv:
            why = "neurons %s are kept, the ranking is %s" % (Pv, R)
        elif len(Pv) not in cand:
            why = "%d neurons are kept but were never scored (scored: %s)" % (len(Pv), sorted(cand))
        elif any(vals[q] < vals[len(Pv)] - 1e-9 for q in cand):
            best = min(cand, key=lambda q: vals[q])
            why = "%d neurons are kept (penalised error %.6g) although %d were scored better (%.6g)" % (len(Pv), vals[len(Pv)], best, vals[best])
        if why:
            return ck.add(rule, name, False, where, "%s, e.g. with %d neurons%s" % (why, env.n(L), ", kmax=%d" % env.n(KMAX) if s.op else ""))
    if n < 3:
        return ck.add(rule, name, None, where, "undecided: no interpretation (%s)" % last)
    ck.add(rule, name, True, where, how="no counterexample under %d random interpretations" % n)


def retrained(ck, rule, name, s):
    P = s.prune[0].args[0]
    nn = s.w.field(s.m, "nnet")
    B1, n1 = s.w.content(nn, "B"), s.w.content(nn, "neurons")
    g = attempt(ck, rule, name, WHERE[s.v], lambda w: mss.pruned_train(w, s.cl, P, s.v))
    if g is None:
        return
    w2, m2 = g
    nn2 = w2.field(m2, "nnet")
    ck.eq(rule, name + ": neurons", n1, w2.content(nn2, "neurons"), s.prune[0].where)
    if B1 is None:
        return ck.add(rule, name, False, s.prune[0].where, "no output weights after the search")
    ck.eq(rule, name + ": output weights", B1, w2.content(nn2, "B"), s.prune[0].where)


def tested(ck, rule, name, s):
    if not s.test:
        return ck.add(rule, name, None, WHERE["CV"], "evaluation on the test parts not recognised")
    x = s.test[-1]
    if x.S is None or x.T.op != "sel" or not x.fold:
        return ck.add(rule, name, None, x.where, "test part or selected neurons not recognised")
    Y, _ = model_of(s, x, x.S)
    got, aY = abstracted(s, x, [x.Y, Y])
    mss.site_eq(ck, rule, name + ": output on the test part", x.e, x.Y, Y, ((got, aY), fsizes))
    c = s.cands[0]
    a, b = abstracted(s, x, [x.T])[0], abstracted(s, c, [c.T])[0]
    v = ck.compare([(a, b)], sizes=fsizes)[0]
    ck.add(rule, name + ": test part is not the validation part", None if v is None else not v, x.where,
           "the returned error is measured on the samples that were used to select the neurons" if v else "")
    if x.rank is None or c.rank is None:
        ck.add(rule, name + ": neurons", None, x.where, "selected neurons are not an initial part of a ranking")
    else:
        j = sym("fold", kind="int", nonneg=True)
        ck.eq(rule, name + ": ranking", t.subst(x.rank, {x.fold[0]: j}), t.subst(c.rank, {c.fold[0]: j}), x.where, sizes=fsizes)
        ck.eq(rule, name + ": number of neurons", t.length(x.S), t.length(s.prune[0].args[0]), x.where, sizes=fsizes)
    ck.eq(rule, name + ": mean over the folds", s.w.D(s.r), folded(s, x, x.value), x.where, sizes=fsizes)
