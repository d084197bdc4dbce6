"""C17: neuron rankings contain no duplicates and respect kmax."""
import numpy as np
import terms as t
from terms import C, mk, NONE, ZERO, ONE, sym
import ri
import rule
from common import *
import mss
from mss import KMAX, SLOT, Search

FUNCS = mss.RANKERS


def rsizes(k):
    import random
    r = random.Random(k * 15485863 + 3)
    return {"N": 2 + (k * 3) % 7, "L": 1 + (k * 5) % 8, "outputs": 1 + k % 3, "kmax": 1 + (k * 7) % 10, "inputs": 2, "batch": 3}


def run(ck):
    ck.sizes = rsizes
    ck.premises = (t.pos(t.sub(NO, ONE)),)     # classification needs two classes
    a = ck.rule("distinct", "a ranking holds distinct valid neuron indices, one per step, at most min(kmax, number of neurons)")
    b = ck.rule("one-step", "every step moves exactly one unranked neuron to the end of the ranking; the lists of ranked and unranked neurons "
                            "are a division of all neurons")
    c = ck.rule("aligned", "matrices of ranked and unranked neurons stay aligned with the lists")
    d = ck.rule("random", "without optimal pruning the ranking is a random permutation of all neurons")
    e = ck.rule("kmax", "with optimal pruning, kmax limits the number of neurons considered; the ranking is made from the scored samples")
    cfg = [("V", "", 0), ("V", "c", 1), ("LOO", "", 0), ("LOO", "", 1), ("CV", "", 1), ("CV", "c", 0)]
    if ck.thorough:
        cfg = [(v, cl, op) for v in ("CV", "V", "LOO") for cl in ("", "c") for op in (0, 1)]
    cfg.sort(key=lambda q: q[0] != "CV")
    ck.parallel([lambda ck, q=q: used(ck, q, d, e) for q in cfg] + [lambda ck, q=q: ranking(ck, q, a, b, c) for q in FUNCS])


# ---------------------------------------------------------------- the rankings themselves
def norm_(env, x):
    a = [env.val(y) for y in x.args[1]] + [env.val(v) for k, v in x.args[2]]
    return float(np.linalg.norm(np.asarray(a[0], dtype=float), *a[1:2]))


def root_(env, x):
    """some number between the ends of the interval"""
    lo, hi = float(env.val(x.args[1][1])), float(env.val(x.args[1][2]))
    rest = [ri.key(env.val(v)) for k, v in x.args[2] if k == "args"]
    u = env.rng("brentq", str(rest)).random_sample()
    return lo + (hi - lo) * (0.2 + 0.6 * u)


LIB = {"numpy.size": lambda env, x: int(np.size(env.val(x.args[1][0]))), "numpy.linalg.norm": norm_, "scipy.optimize.brentq": root_}


def ranking(ck, q, a, b, c):
    name = short(q)
    if program().find(q) is None:
        raise rule.Anchor(q)
    g = attempt(ck, a, name, q, lambda w: (w, w.D(w.call(q, None, w.param("H", N0, L), w.param("T", N0, NO), KMAX))), real=True)
    if g is None:
        return
    w, (_, r) = g
    where = loc_(q)
    bad = rule.unmodelled(r)
    if set(bad) - {"undef"}:
        return ck.add(a, name, None, where, "not fully modelled (%s)" % ", ".join(bad))
    recs = recurrence(r)
    done, last, used_, lost = 0, None, 0, 0
    trials = 20 * ck.trials if ck.thorough else 8 * ck.trials
    aux = {}
    verdict = None
    import time
    t0 = time.time()
    for k in range(4 * trials):
        if done >= trials or time.time() - t0 > (300 if ck.thorough else 40):
            break
        env = ri.Env(ck.seed * 5000 + k, rsizes(k), LIB)
        env.budget = 400000
        try:
            n, m, km = int(env.n(N0)), int(env.n(L)), int(env.n(KMAX))
            R = list(np.asarray(env.val(r)).ravel())
        except ri.Undefd as e:
            last = str(e)
            lost += "in the list" in last
            if lost > 2:
                return ck.add(a, name, False, where, "the lists of neurons do not match: %s" % last)
            continue
        except ri.Unmodelled as e:
            return ck.add(a, name, None, where, "undecided: %s" % e)
        done += 1
        eg = "e.g. for %d neurons, %d samples, kmax=%d: %s" % (m, n, km, R)
        if any(q_ != int(q_) or not 0 <= q_ < m for q_ in R):
            verdict = "not an index of a neuron, " + eg
        elif len(set(R)) != len(R):
            verdict = "a neuron is ranked twice, " + eg
        elif len(R) > min(km, m):
            verdict = "more than kmax neurons ranked, " + eg
        elif len(R) < min(km, m, n):
            verdict = "not every step ranked a neuron, " + eg
        if verdict:
            return ck.add(a, name, False, where, verdict)
        for rec in recs:
            used_ += steps(env, rec, R, m, n, aux)
    if done < 3:
        return ck.add(a, name, None, where, "undecided: no interpretation (%s)" % last)
    ck.add(a, name, True, where, how="no counterexample under %d random interpretations" % done)
    if not used_:
        return
    how = "no counterexample under %d random interpretations of the loop states" % used_
    un = [x for x in aux.values() if x["unranked"] and x["steps"] > 5]
    for x in un:
        ck.add(b, "%s: unranked neurons" % name, not x["wrong u"], where, x["wrong u"], how)
    for i, x in sorted(aux.items()):
        for kind in ("ranked", "unranked", "full"):
            if x["matrix"] and x[kind] and x["steps"] > 5:
                w_ = x["wrong " + kind]
                ck.add(c, "%s: matrix of %s neurons" % (name, "ranked" if kind == "full" else kind), not w_, where, w_, how)


def recurrence(r):
    """the recurrence the returned sequence is a component of"""
    out = []

    def go(x):
        if x.op == "Rec":
            out.append(x)
        elif x.op == "ite":
            go(x.args[1])
            go(x.args[2])
        elif x.op in ("cast", "sel"):
            go(x.args[0])
    go(r)
    return out


def steps(env, rec, R, m, n, aux):
    """compare all components of the loop state with the ranking after every step"""
    _, k, c, inits, bodies = rec.args
    seen = 0
    try:
        total = env.n(rec.args[0])
    except (ri.Undefd, ri.Unmodelled):
        return 0
    X = np.asarray(env.val(mk("sym", "H")), dtype=float)
    for i in range(total + 1):
        try:
            r = [int(q) for q in np.asarray(env.val(mk("Rec", C(i), k, c, inits, bodies))).ravel()]
        except (ri.Undefd, ri.Unmodelled):
            return seen
        seen += 1
        for q in range(len(inits.args)):
            x = aux.setdefault((rec.id, q), {"matrix": True, "ranked": True, "unranked": True, "full": inits.args[q].op in ("zeros", "garbage", "empty"),
                                             "list": True, "steps": 0, "wrong u": "", "wrong ranked": "", "wrong unranked": "", "wrong full": ""})
            try:
                v = np.asarray(env.val(mk("Rec", C(i), k, q, inits, bodies)))
            except (ri.Undefd, ri.Unmodelled):
                continue
            if v.dtype == object or q == c:
                x["unranked"] = x["ranked"] = x["full"] = False
                continue
            x["steps"] += 1
            if v.ndim == 1 and len(v) == m - len(r):
                x["matrix"] = x["matrix"] and v.ndim == 2 or not len(v) and x["matrix"]
                if np.abs(v.astype(float) - np.round(v.astype(float))).max(initial=0) > 0:
                    x["unranked"] = False        # not a list of indices
                    continue
                if sorted(int(y) for y in v) != sorted(set(range(m)) - set(r)):
                    x["wrong u"] = x["wrong u"] or "after step %d the ranked neurons are %s, the unranked %s of %d" % (i, r, [int(y) for y in v], m)
                x["ranked"] = x["full"] = False
                continue
            if v.ndim != 2 or v.shape[0] != n:
                x["ranked"] = x["unranked"] = x["full"] = False
                continue
            x["ranked"] &= v.shape == (n, len(r))
            x["unranked"] &= v.shape == (n, m - len(r))
            x["full"] &= v.shape == (n, m)
            u = [y for y in range(m) if y not in r]
            sel = v[:, :len(r)] if x["full"] else v
            if not all(np.abs(X - y[:, None]).max(0).min() < 1e-12 for y in sel.T):
                x["ranked"] = x["unranked"] = x["full"] = False      # not a selection of columns
                continue
            if x["ranked"] and not np.allclose(v, X[:, r]):
                x["wrong ranked"] = x["wrong ranked"] or "after step %d its columns are not those of neurons %s" % (i, r)
            if x["unranked"] and not np.allclose(sorted(v.T.tolist()), sorted(X[:, u].T.tolist())):
                x["wrong unranked"] = x["wrong unranked"] or "after step %d its columns are not those of neurons %s" % (i, u)
            if x["full"] and not np.allclose(v[:, :len(r)], X[:, r]):
                x["wrong full"] = x["wrong full"] or "after step %d its first columns are not those of neurons %s" % (i, r)
    return seen


# ---------------------------------------------------------------- their use
def used(ck, q, d, e):
    v, cl, op = q
    from rules.c15 import WHERE
    name = "%s %s%s" % (v, NAMES[cl], " optimal" if op else "")
    calls = []

    def hook(I, st, args, kw, node):
        a = [I.D(st, x) for x in (list(args) + [kw[y] for y in ("X", "T", "kmax") if y in kw])[:3]]
        if not calls or calls[-1][:3] != tuple(a):
            calls.append(tuple(a) + (I.where(node) if hasattr(I, "where") else None,))
        return mss.ranker(I, st, args, kw, node)
    g = attempt(ck, e if op else d, name, WHERE[v], lambda w: (w, mss.train(w, v, cl, op)), hooks={x: hook for x in mss.RANKERS})
    if g is None:
        return
    w, (_, (m, r)) = g
    s = Search(w, m, r, v, cl, op)
    lim = t.minimum(KMAX, L)
    if op:
        for H, T_, k, _ in calls[-2:]:
            ck.eq(e, name + ": limit", k, lim, WHERE[v], sizes=mss.msizes)
    if not s.cands or s.cands[0].rank is None:
        return ck.add(e if op else d, name, None, WHERE[v], "the ranking was not recognised")
    x = s.cands[0]
    where = x.where
    if not op:
        rk = x.rank
        if rk.op == "shuffled":
            return ck.eq(d, name, rk.args[0], mk("arange", L), where)
        rnd = [y for y in t.subterms(rk) if y.op in ("shuffled", "rand")]
        if rk.op == "rand" and rk.args[1] in ("randint", "rand", "randn", "random", "random_sample", "normal", "uniform"):
            return ck.add(d, name, False, where, "not a permutation: neurons may be drawn twice: %s" % t.show(rk, 5)[:200])
        if not rnd and not rule.unmodelled(rk):
            return ck.add(d, name, False, where, "the ranking is not random: %s" % t.show(rk, 5)[:200])
        return ck.add(d, name, None, where, "ranking not recognised: %s" % t.show(rk, 5)[:200])
    if not calls:
        return ck.add(e, name, None, where, "no optimal ranking recognised")
    # neurons considered by the search
    bad, n = None, 0
    for k in range(2 * ck.trials):
        env = ri.Env(ck.seed * 3000 + k, mss.msizes(k), None)
        env.budget = 400000
        try:
            lm = int(env.n(lim))
            for y in s.cands:
                S = mss.slots(y.S, y.e.loops)
                for _ in mss.runs(env, y.e):
                    z = len(env.val(S))
                    if z > lm:
                        bad = "%d neurons considered with kmax=%d, %d neurons" % (z, env.n(KMAX), env.n(L))
        except ri.Undefd:
            continue
        except ri.Unmodelled as ex:
            return ck.add(e, name + ": candidates", None, where, "undecided: %s" % ex)
        n += 1
    ck.add(e, name + ": candidates", None if n < 3 else not bad, where, bad or "", "no counterexample under %d random interpretations" % n)
