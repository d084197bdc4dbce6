"""C16: cross-validation folds are disjoint and cover all samples."""
import numpy as np
import terms as t
from terms import C, mk, ZERO, ONE
import ri
from common import *
import mss
from mss import FOLDS, NCV, SLOT, Search

W = "hpelm.mss_cv.train_cv"


def run(ck):
    ck.sizes = mss.msizes
    a = ck.rule("aligned", "inputs and targets of every part are selected by the same indices")
    b = ck.rule("parts", "in every round the training, validation and test parts are disjoint and together contain every sample exactly once")
    c = ck.rule("rounds", "over all rounds every sample is in the validation part once and in the test part once; the training part is the union of the other parts")
    e = ck.rule("equations", "the equations of a round are made from its training part only")
    d = ck.rule("number", "there is one round per part")
    cfg = [("", 0), ("c", 1)] + ([("ml", 0), ("", 1), ("c", 0)] if ck.thorough else [])
    ck.parallel([lambda ck, q=q: one(ck, q, (a, b, c, d, e)) for q in cfg])


def project_of(Y):
    """inputs of the projection whose output the sub-model is applied to"""
    out, seen = [], set()

    def go(x):
        if x.id in seen or out:
            return
        seen.add(x.id)
        if x.op == "proj":
            out.append(x.args[1])
        elif x.op == "sel":
            go(x.args[0])
        elif x.op not in ("Solve", "inv", "shuffled"):
            for y in t.children(x):
                go(y)
    go(Y)
    return out[0] if out else None


def rows_of(v, X):
    """indices of the rows of X that v consists of"""
    v = np.asarray(v, dtype=float)
    out = []
    for r in v.reshape(-1, X.shape[1]):
        hit = np.where(np.abs(X - r).max(1) < 1e-12)[0]
        if len(hit) != 1:
            return None
        out.append(int(hit[0]))
    return out


def distinct(X):
    return all(np.abs(X[i] - X[j]).max() > 1e-9 for i in range(len(X)) for j in range(i))


def one(ck, q, rules):
    b = rules[1]
    cl, op = q
    name = "%s%s" % (NAMES[cl], " optimal" if op else "")
    g = attempt(ck, b, name, W, lambda w: (w, mss.train(w, "CV", cl, op)), hooks={x: mss.ranker for x in mss.RANKERS})
    if g is None:
        return
    w, (_, (m, r)) = g
    judged(ck, Search(w, m, r, "CV", cl, op), rules, name)


def judged(ck, s, rules, name):
    a, b, c, d, e_ = rules
    w = s.w
    batches = [e for e in w.events if e.kind == "Solver" and e.method == "add_batch" and s.cands and e.seq < s.cands[0].e.seq]
    if not s.cands or not s.full or not s.test or not batches or not s.test[-1].fold or not all(x.fold for x in s.cands):
        ck.add(b, name, None, W, "the parts of cross-validation were not recognised")
        return
    sites = [("validation", x) for x in s.full + s.cands] + [("test", s.test[-1])]
    for what, x in sites:
        if project_of(x.Y) is None or not x.fold:
            ck.add(b, name, None, x.where, "the %s inputs were not recognised" % what)
            return
        ck.eq(d, "%s: rounds of %s" % (name, what), x.fold[1], FOLDS, x.where)
    where = batches[0].where
    X0, T0 = mk("sym", "X"), mk("sym", "T")
    done = 0
    folds = set()
    last = None
    trials = 3 * ck.trials if not ck.thorough else 6 * ck.trials
    for k in range(20 * trials):
        if done >= trials:
            break
        d_ = mss.msizes(k)
        d_["kx"] = k % (6 if ck.thorough else 4)
        d_["inputs"], d_["L"] = 2, 2 + k % 3
        env = ri.Env(ck.seed * 9000 + k, d_, None)
        env.budget = 400000
        try:
            X, n, kf = env.val(X0), int(env.n(NCV)), int(env.n(FOLDS))
            # targets that identify their sample
            Tv = np.asarray(env.val(T0), dtype=float)
            if not distinct(X):
                continue
            # the position of a row is recovered from its inputs; targets are compared with the rows at that position
            parts = {}
            bad = None
            for i in range(kf):
                tr, trT = [], []
                for e in batches:
                    n_ = 0
                    for xs, ts in fold_values(env, e, i):
                        tr += [list(q) for q in np.asarray(xs, dtype=float)]
                        trT += [list(q) for q in np.asarray(ts, dtype=float)]
                if not tr:
                    bad = (b, "no training samples in round %d" % i, where)
                    break
                idx = rows_of(np.array(tr), X) if np.shape(tr)[1:] == X.shape[1:] else None
                if idx is None or np.shape(trT) != Tv[idx].shape or not np.allclose(np.array(trT), Tv[idx]):
                    bad = (a, "training targets of round %d do not belong to its inputs" % i, where)
                    break
                parts[i, "tr"] = idx
                for q in s.corr[:1]:
                    if len(q.loops) != 1 or q.loops[0][1] is not FOLDS:
                        continue
                    env.bv[SLOT] = i
                    H = np.asarray(env.val(project(X0)), dtype=float)[idx]
                    ac = (H.T.dot(H) + float(env.val(NORM)) * np.eye(H.shape[1]), H.T.dot(Tv[idx]))
                    for u, want in zip((q.HH, q.HT), ac):
                        got = np.asarray(env.val(mss.slots(u, q.loops)), dtype=float)
                        if not ri.close(got, want):
                            bad = (e_, "the equations of round %d are not those of its training part" % i, q.where)
                    env.bv.pop(SLOT, None)
                if bad:
                    break
                for what, x in sites:
                    env.bv[SLOT] = i
                    q = {x.fold[0]: mk("bv", SLOT)}
                    px = np.asarray(env.val(t.subst(project_of(x.Y), q)), dtype=float)
                    tx = np.asarray(env.val(t.subst(x.T, q)), dtype=float)
                    env.bv.pop(SLOT, None)
                    idx = rows_of(px, X)
                    if idx is None or len(tx) != len(idx) or not np.allclose(tx, Tv[idx]):
                        bad = (a, "%s targets of round %d do not belong to its inputs" % (what, i), x.where)
                        break
                    old = parts.setdefault((i, what), idx)
                    if sorted(old) != sorted(idx):
                        bad = (b, "the validation part of round %d is not the same for all candidates" % i, x.where)
                        break
                if bad:
                    break
            if not bad:
                bad = judge(parts, n, kf, b, c, where)
        except ri.Undefd as e:
            last = str(e)
            continue
        except ri.Unmodelled as e:
            ck.add(b, name, None, where, "undecided: %s" % e)
            return
        done += 1
        folds.add(kf)
        if bad:
            ck.add(bad[0], name, False, bad[2], "%s, e.g. for %d samples in %d parts" % (bad[1], n, kf))
            return
    if done < 3:
        ck.add(b, name, None, where, "undecided: no interpretation (%s)" % last)
        return
    how = "no counterexample under %d random interpretations (%s parts)" % (done, ", ".join(str(q) for q in sorted(folds)))
    for r in (a, b, c, e_):
        ck.add(r, name, True, where, how=how)


def fold_values(env, e, i):
    """batches added in round i"""
    loops = list(e.loops)
    f = [j for j, l in enumerate(loops) if l[1] is FOLDS]
    if not f:
        raise ri.Unmodelled("training loop")
    sx, st = mss.slots(e.args[0], loops), mss.slots(e.args[1], loops)
    for _ in mss.runs(env, e):
        if env.bv[SLOT + f[0]] == i:
            yield env.val(sx), env.val(st)


def judge(parts, n, kf, b, c, where):
    every = list(range(n))
    for i in range(kf):
        tr, vl, ts = parts[i, "tr"], parts[i, "validation"], parts[i, "test"]
        if set(vl) & set(ts):
            return b, "validation and test parts of round %d share samples" % i, where
        if set(tr) & (set(vl) | set(ts)):
            return b, "training data of round %d contains validation or test samples" % i, where
        if sorted(tr + vl + ts) != every:
            return b, "the parts of round %d are not all samples, each once" % i, where
        if not vl or not ts or not tr:
            return b, "a part of round %d is empty" % i, where
    for what in ("validation", "test"):
        if sorted(sum([parts[i, what] for i in range(kf)], [])) != every:
            return c, "over all rounds the %s parts do not contain every sample once" % what, where
    vs = sorted(tuple(sorted(parts[i, "validation"])) for i in range(kf))
    if vs != sorted(tuple(sorted(parts[i, "test"])) for i in range(kf)):
        return c, "validation and test parts are not the same division of the samples", where
    return None
