"""Obligations, verdicts, findings and evidence."""
import json
import os
import re
import sys
import time
import front
import terms as t
from terms import T, C, mk, NONE, TRUE, FALSE, ZERO, ONE
import drive
from drive import World, Refused, program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Anchor(Exception):
    """a public entry point the property is about does not exist any more"""


def unmodelled(x):
    """operations in a term whose meaning the analysis does not know"""
    return sorted({y.op for y in t.subterms(x) if y.op in ("unk", "opq", "undef", "lastit", "garbage")})


def judged(c):
    for x in t.subterms(c):
        if x.op in ("isnan", "nan", "isfinite", "rand", "opaque", "any"):
            return False
        if x.op == "sym" and re.match(r"(rows|cols):|steps", str(x.args[0])):
            return False
    return True


def caught(prog, where):
    """the error may be handled: it lies in a try statement with handlers, or its function is called in one"""
    if not hasattr(prog, "tries"):
        import ast
        prog.tries, prog.tried = [], set()
        for n in list(prog.modules.values()):
            for y in ast.walk(n.tree):
                if isinstance(y, ast.Try) and y.handlers:
                    prog.tries.append((n, y.lineno, y.end_lineno))
                    for z in y.body:
                        for q in ast.walk(z):
                            if isinstance(q, ast.Call):
                                prog.tried.add(q.func.attr if isinstance(q.func, ast.Attribute) else getattr(q.func, "id", None))
    if where[2].rsplit(".", 1)[-1] in prog.tried:
        return True
    return any(lo <= where[1] <= hi and n.path == where[0] for n, lo, hi in prog.tries)


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.obls = []
        self.t0 = time.time()
        self.worlds = 0
        self.functions = {}
        self.premises = ()
        self.gaps = set()
        self.unknown = set()
        self.nevents = 0
        self.trials = 120 if self.thorough else 24
        self.rules = {}
        self.sizes = None
        self.funcs = None

    def rule(self, key, text):
        self.rules[key] = text
        return key

    # ---------------------------------------------------------------- worlds
    def world(self, **kw):
        w = World(**kw)
        self.worlds += 1
        w.check = self
        self.cur = w
        return w

    LOST = ("list method on ", "in-place change of ", "list bound to several", "item store into ")

    def lost(self):
        """effects the last world could not follow"""
        w = getattr(self, "cur", None)
        return w is not None and any(what.startswith(self.LOST) for what, _ in w.I.notes)

    def done(self, w):
        """account for what a world analysed"""
        for q, n in w.I.visited.items():
            self.functions[q] = self.functions.get(q, 0) + n
        self.nevents += len(w.I.events)
        for what, wh in w.I.notes:
            self.gaps.add((what, wh[2]))
        self.unknown |= set(w.lib.unknown)

    def refusals(self, w, where):
        """assertions and raised errors on the way of a valid call that completes: for no input of the world may they stop it.
        Conditions that are not fully understood, or that are about the shapes of supplied files, are not judged."""
        import ri
        prog = program()
        seen = self.__dict__.setdefault("refseen", {})
        for e in w.I.events:
            if e.loops or e.kind not in ("Assert", "Raise") or w.I.notes:
                continue
            c = e.cond if e.kind == "Assert" else FALSE
            if c is TRUE or e.kind == "Assert" and c is FALSE:
                continue
            k = (e.where, c, e.asserts)
            if k in seen or caught(prog, e.where):
                continue
            seen[k] = None
            used = (c,) if e.kind == "Assert" else e.asserts
            if any(unmodelled(x) for x in used) or not all(judged(x) for x in used):
                continue
            if e.kind == "Raise" and not e.asserts:
                continue
            try:
                r = ri.compare([(c, TRUE)], list(e.asserts) + list(self.premises), self.sizes, 8, self.funcs, self.seed)
            except (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError):
                continue
            if r[0] == "unknown":
                continue
            if "no-refusal" not in self.rules:
                self.rule("no-refusal", "a valid call is not refused for some inputs only")
            self.add("no-refusal", "%s at %s" % (t.show(c, 4)[:80], e.where[2]), r[0] == "equal", e.where,
                     "a valid call is refused %s, e.g. for %s" % ("unless " + t.show(c, 5)[:160] if e.kind == "Assert" else "here",
                                                                    ", ".join("%s=%s" % (q, _num(v)) for q, v in sorted(r[1].items()))) if r[0] == "differ" else "",
                     "no interpretation of the inputs is refused")

    def run_part(self, job):
        """a part of the rules that the analysis cannot follow is undecided; it does not spoil the others"""
        try:
            job(self)
        except Anchor:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            text = "analysis failed: %s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
            print(text, flush=True)
            self.add("analysis", "part of the rules", None, ("", 0, ""), text)

    def parallel(self, jobs, procs=8):
        """independent parts of the analysis (functions of a Check) in processes of their own"""
        import pickle
        fields = ("obls", "worlds", "functions", "gaps", "unknown", "nevents")
        empty = {"obls": list, "worlds": int, "functions": dict, "gaps": set, "unknown": set, "nevents": int}
        sys.stdout.flush()
        running, res, todo = {}, {}, list(enumerate(jobs))
        while todo or running:
            while todo and len(running) < procs:
                i, job = todo.pop(0)
                r, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        for f in fields:
                            setattr(self, f, empty[f]())
                        self.run_part(job)
                        with os.fdopen(wr, "wb") as out:
                            pickle.dump({f: getattr(self, f) for f in fields}, out)
                        code = 0
                    except Anchor as e:
                        print("anchor: %s" % e, flush=True)
                        code = 3
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    os._exit(code)
                os.close(wr)
                running[r] = (pid, i, [])
            import select
            for r in select.select(list(running), [], [])[0]:
                data = os.read(r, 1 << 20)
                if data:
                    running[r][2].append(data)
                    continue
                pid, i, parts = running.pop(r)
                os.close(r)
                rc = os.waitpid(pid, 0)[1]
                if rc and os.waitstatus_to_exitcode(rc) == 3:
                    raise Anchor("see above")
                if rc != 0:
                    raise RuntimeError("analysis of part %d failed" % i)
                res[i] = pickle.loads(b"".join(parts))
        for i in sorted(res):
            d = res[i]
            self.obls += d["obls"]
            self.worlds += d["worlds"]
            self.nevents += d["nevents"]
            self.gaps |= d["gaps"]
            self.unknown |= d["unknown"]
            for q, n in d["functions"].items():
                self.functions[q] = self.functions.get(q, 0) + n

    # ---------------------------------------------------------------- obligations
    def add(self, rule, name, verdict, where, detail="", how="", **kw):
        """verdict: True (holds) | False (violated) | None (undecided)"""
        if isinstance(where, str):
            where = loc(where)
        o = {"rule": rule, "name": name, "verdict": {True: "holds", False: "violated", None: "undecided"}[verdict],
             "file": where[0], "line": where[1], "function": where[2], "detail": detail, "how": how}
        o.update(kw)
        self.obls.append(o)
        return verdict

    def eq(self, rule, name, got, want, where, facts=(), detail="", sizes=None, funcs=None):
        """got must equal want for every interpretation satisfying facts"""
        if got.op == "undef":
            return self.add(rule, name, False, where, "never set; expected %s" % t.show(want, 6)[:300])
        v, how, d = self.compare([(got, want)], facts, sizes, funcs)
        if v is False and self.lost():
            v, d = None, "an effect was not followed; " + d
        txt = detail
        if v is not True:
            txt = "%s%s; expected %s, found %s" % (detail + ": " if detail else "", d, t.show(want, 6)[:400], t.show(got, 6)[:400])
        return self.add(rule, name, v, where, txt, how)

    def compare(self, pairs, facts=(), sizes=None, funcs=None):
        m = {}
        for f in facts:
            for x, val in t.facts_of(f, True):
                m[x] = val
        rest = []
        for a, b in pairs:
            if m:
                a, b = t.subst(a, m), t.subst(b, m)
            if a is b or t.same(a, b):
                continue
            import tiles
            a2, b2 = tiles.collapse(a), tiles.collapse(b)
            if a2 is b2 or t.same(a2, b2):
                continue
            rest.append((a, b))
        if not rest:
            return True, "normal forms equal", ""
        un = sorted({u for a, b in rest for u in unmodelled(a) + unmodelled(b)})
        if un:
            return None, "", "not fully modelled (%s)" % ", ".join(un)
        import ri
        r = ri.compare(rest, facts, sizes or self.sizes, self.trials, funcs or self.funcs, self.seed)
        if r[0] == "equal":
            return True, "no difference under %d random interpretations" % r[1], ""
        if r[0] == "differ":
            return False, "", "differs e.g. for %s" % ", ".join("%s=%s" % (k, _num(v)) for k, v in sorted(r[1].items()))
        return None, "", "undecided: %s" % r[1]

    def holds(self, rule, name, cond, where, facts=(), detail="", sizes=None):
        """boolean term cond must be true for every interpretation satisfying facts"""
        if isinstance(cond, bool):
            return self.add(rule, name, cond, where, detail, "syntactic" if cond else "")
        return self.eq(rule, name, cond, TRUE, where, facts, detail, sizes)

    def refused(self, rule, name, w, where, e):
        """a call with valid arguments cannot complete normally"""
        if w.I.notes or w.lib.unknown:
            return self.add(rule, name, None, where, "call never completes in the model, which has gaps: %s" % (w.I.notes[:2],))
        last = [x for x in w.events if x.kind in ("Assert", "Raise", "TypeErr")]
        ev = last[-1] if last else None
        known = ev is not None and (ev.kind in ("Raise", "TypeErr") or ev.kind == "Assert" and ev.cond is FALSE)
        return self.add(rule, name, False if known else None, ev.where if ev is not None else where,
                        "a valid call never completes normally: %s" % (ev,) if ev is not None else "no normal path")


def _num(v):
    return "%g" % v if isinstance(v, float) else str(v)


def loc(qual):
    """(file, line, qualified name) of a function or class of the package"""
    P = program()
    for node, (mod, q, cls) in P.fninfo.items():
        if q == qual:
            return (mod.path, node.lineno, q)
    r = P.find(qual)
    if r is not None:
        node = r[1]
        info = P.fninfo.get(node)
        return (r[0].path, node.lineno, info[1] if info else qual)
    return ("?", 0, qual)


def report(ck, known):
    """print the verdict, write the evidence; returns the exit code"""
    viol = [o for o in ck.obls if o["verdict"] == "violated"]
    und = [o for o in ck.obls if o["verdict"] == "undecided"]
    good = [o for o in ck.obls if o["verdict"] == "holds"]
    evdir = os.environ.get("SA_OUT") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repo = program().repo
    rel = lambda p: os.path.relpath(p, repo) if p and os.path.isabs(p) else p
    seen, out = set(), 0
    fresh = []
    for o in viol:
        key = "%s|%s|%s" % (o["rule"], o["function"], o["name"])
        if key in seen:
            continue
        seen.add(key)
        k = known.get((ck.pid, key))
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (ck.pid, k))
            continue
        fresh.append((key, o))
    rp = os.path.join("evidence", "%s.replay.txt" % ck.pid)
    for key, o in fresh:
        print("VIOLATION property=%s replay=%s" % (ck.pid, rp))
        print("  rule %s: %s" % (o["rule"], ck.rules.get(o["rule"], "")))
        print("  at %s:%s in %s [%s]" % (rel(o["file"]), o["line"], o["function"], o["name"]))
        print("  %s" % o["detail"][:700])
        out += 1
    with open(os.path.join(evdir, "%s.replay.txt" % ck.pid), "w") as f:
        for key, o in fresh:
            f.write("%s\n%s:%s %s\n%s\n\n" % (key, rel(o["file"]), o["line"], o["function"], o["detail"]))
        f.write("repeat with: cd /verif && python3 sa/check.py %s\n" % ck.pid)
    samples = []
    for o in (good[:4] + good[-2:] + und[:4]):
        samples.append({k: (rel(o[k]) if k == "file" else str(o[k])[:200]) for k in ("rule", "name", "file", "line", "function", "verdict", "how")})
    hows = {}
    for o in good:
        h = re.sub(r"\d+", "k", o["how"]) or "checked"
        hows[h] = hows.get(h, 0) + 1
    byrule = {}
    for o in ck.obls:
        byrule.setdefault(o["rule"], {}).setdefault(o["verdict"], 0)
        byrule[o["rule"]][o["verdict"]] += 1
    cov = {
        "explanation": "Static analysis of the current source: abstract interpretation (value numbering with gated joins and "
                       "solved loop recurrences) of the listed functions, driven from the public entry points under the listed "
                       "configurations; the package is not executed. Obligations are decided on the resulting terms and effect "
                       "events; equalities the normaliser does not prove are accepted only if no random interpretation of the "
                       "terms distinguishes the two sides, and rejected only if one does.",
        "rules": ck.rules,
        "obligations": len(ck.obls),
        "discharged": len(good),
        "undecided": [{"name": o["name"], "function": o["function"], "why": o["detail"][:160]} for o in und][:40],
        "decided_by": hows,
        "per_rule": byrule,
        "entry_configurations_analysed": ck.worlds,
        "functions_analysed": {q: n for q, n in sorted(ck.functions.items())},
        "effect_events": ck.nevents,
        "modelling_gaps": sorted("%s in %s" % g for g in ck.gaps)[:40],
        "opaque_library_calls": sorted(ck.unknown),
        "samples": samples,
    }
    cov.update(getattr(ck, "extra", {}))
    ev = {"property": ck.pid, "tier": ck.tier, "seed": ck.seed, "level": "other", "coverage": cov,
          "assumptions": ["library functions behave as modelled in sa/lib.py", "Python semantics as modelled in sa/interp.py"],
          "wall_s": round(time.time() - ck.t0, 2), "violations": len(fresh)}
    with open(os.path.join(evdir, "%s.json" % ck.pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s: %d obligations, %d hold, %d violated, %d undecided; %d entry configurations, %d functions, %.1f s"
          % (ck.pid, len(ck.obls), len(good), len(viol), len(und), ck.worlds, len(ck.functions), time.time() - ck.t0))
    if out:
        return 1
    if not good:
        print("no obligation could be decided: the construction of the code is not understood, nothing is claimed about it")
    return 0
