"""C23: no undefined names, missing library facilities or wrong internal calls"""
import ast
import builtins
import re
import names
import front
import ops
from common import *
from drive import program
import terms as t

KINDS = ("MaybeUndef", "UndefinedName", "MissingAttr", "BadCall", "BadUnpack")
MODE = re.compile(r"^(?!.*([rwaxbt+]).*\1)[rwaxbt+]{1,3}$")


def run(ck):
    ck.sizes = ops.osizes
    N = ck.rule("names", "every name read in a function is bound by the function, an enclosing scope, the module or the builtins")
    U = ck.rule("assigned", "a local name is assigned before it is read, also in handlers and on every path of every operation")
    A = ck.rule("library", "every library function, class, attribute and keyword that is used exists in the installed library")
    M = ck.rule("modes", "files are opened with valid modes")
    B = ck.rule("calls", "every call of a function or method of the package supplies the arguments the callee takes")
    F = ck.rule("formats", "format strings take as many values as they are given")
    P = ck.rule("paths", "no path of any operation reads an undefined name or a missing attribute, or calls with wrong arguments")
    todo = ops.operations(full=ck.thorough)
    for q in solvers():
        if ck.thorough or q.endswith("SkCUDA"):
            todo += ops.operations(solver=q, modes=("", "wc"), full=False)
    n = 7
    ck.parallel([lambda ck: lint(ck, N, U, A, M, B, F)] + [lambda ck, i=i: [one(ck, P, o) for o in todo[i::n]] for i in range(n)])


# ------------------------------------------------------------------ every path of every operation
def one(ck, P, o):
    name = o.name + (" with %s" % short(o.solver) if o.solver else "")
    keep = []

    def f(w):
        keep.append(w)
        return o.f(w)
    a = attempt(ck, P, name, o.where, f, hooks=o.hooks, real=bool(o.solver))
    if not keep:
        return
    w, bad = keep[0], {}
    evs = [e for e in w.I.events if e.kind in KINDS]
    for h in ops.helpers(w) if a else ():
        evs += [e for e in h["events"] if e.kind in KINDS]
    for e in evs:
        bad.setdefault((e.kind, e.where[:3], getattr(e, "name", None) or getattr(e, "qual", None) or ""), e)
    if not bad and a:
        ck.add(P, name, True, o.where, "", "%d events" % len(w.I.events))
    for (k, wh, nm), e in bad.items():
        why = {"MaybeUndef": "%s may be read before it is assigned" % nm, "UndefinedName": "name %s is not defined" % nm,
               "MissingAttr": "%s has no attribute %s" % (getattr(e, "cls", ""), nm), "BadCall": "wrong arguments for %s: %s" % (nm, getattr(e, "why", "")),
               "BadUnpack": "unpacking %s values into %s" % (getattr(e, "got", ""), getattr(e, "n", ""))}[k]
        v = False
        if k == "MaybeUndef":
            v = None if any(y.op in ("opq", "mu", "unk") for y in t.subterms(undef_cond(e.value))) else unassigned(ck, e)
        ck.add(P, "%s: %s" % (name, nm), v, wh, why)


def undef_cond(v):
    """condition under which an ite tree reaches its undefined leaf"""
    if v.op == "undef":
        return t.TRUE
    if v.op == "ite":
        a, b = undef_cond(v.args[1]), undef_cond(v.args[2])
        return t.or_(t.and_(v.args[0], a), t.and_(t.not_(v.args[0]), b))
    return t.FALSE


def unassigned(ck, e):
    """False when the name is unbound on a reachable path"""
    c = undef_cond(e.value)
    if c is t.FALSE:
        return True
    g = t.and_(c, *e.conds) if e.conds else c
    v = ck.compare([(t.ite(g, t.ONE, t.ZERO), t.ZERO)], list(e.facts) + list(e.asserts), ck.sizes)[0]
    return v


# ------------------------------------------------------------------ all functions, reached or not
def lint(ck, N, U, A, M, B, F):
    prog = program()
    need, files = set(), {}
    for m in prog.modules.values():
        for name, dotted in names.import_map(m, m.tree).items():
            if dotted.split(".")[0] != front.PKG:
                need.add(dotted)
                while "." in dotted:
                    dotted = dotted.rsplit(".", 1)[0]
                    need.add(dotted)
    need |= {"builtins", "os.path", "numpy.linalg", "numpy.random", "numpy.lib", "scipy.linalg", "scipy.linalg.lapack", "scipy.linalg.blas", "multiprocessing.queues",
             "multiprocessing.process", "multiprocessing.context", "threading", "queue", "_thread", "io", "types", "csv", "_csv", "gzip", "pickle", "tables", "tables.file", "tables.carray",
             "tables.array", "tables.attributeset", "tables.group", "tables.leaf", "fasteners", "fasteners.process_lock", "decimal", "datetime", "collections", "numpy", "_io"}
    extra = set()
    for m in prog.modules.values():
        im = names.import_map(m, m.tree)
        for n in ast.walk(m.tree):
            c = names.chain(n) if isinstance(n, ast.Attribute) else None
            if c and c[0] in im and im[c[0]].split(".")[0] != front.PKG:
                d = im[c[0]]
                for p in c[1][:-1]:
                    d += "." + p
                    extra.add(d)
    tab = names.tables(need | extra)
    universe = attribute_universe(prog, tab)
    absent = sorted({d.split(".")[0] for d, v in tab.items() if v is None and "." not in d})
    for m in prog.modules.values():
        rel = m.path.split("/hpelm/", 1)[-1]
        safe = names.guarded_try(m.tree)
        owner = owners(prog, m)
        at = lambda n: (m.path, getattr(n, "lineno", 0), owner(n))
        # names
        bad, k = names.undefined(m)
        files[rel] = k
        bad = [(x, s) for x, s in bad if id(x) not in safe]
        ck.add(N, "%s: %d name reads" % (rel, k) if not bad else rel, not bad or None, m.path, "", "scopes") if not bad else None
        for x, s in bad:
            ck.add(N, "%s: %s" % (rel, x.id), False, at(x), "name %s is not defined in the function, the module or the builtins" % x.id)
        nb = 0
        for fn in [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            nb += 1
            for x, why in names.certainly_unbound(fn):
                ck.add(U, "%s.%s: %s" % (rel, fn.name, x.id), False, at(x), "%s %s" % (x.id, why))
        ck.add(U, "%s: %d functions" % (rel, nb), True, m.path, "", "definite assignment")
        library(ck, A, prog, m, tab, universe, absent, safe, at, rel)
        modes(ck, M, m, at, rel)
        formats(ck, F, m, at, rel)
        calls(ck, B, prog, m, at, rel, owner)


def owners(prog, m):
    spans = [(n.lineno, n.end_lineno, prog.fninfo[n][1]) for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n in prog.fninfo]

    def f(x):
        l = getattr(x, "lineno", 0)
        best = [s for s in spans if s[0] <= l <= s[1]]
        return max(best)[2] if best else m.name
    return f


def attribute_universe(prog, tab):
    u = set()
    for d, v in tab.items():
        if v:
            u |= set(v["names"])
            for c, xs in v["cls"].items():
                u |= set(xs)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                u.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                u.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                u.add(n.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                u.add(n.args[1].value)
    u |= {"T", "shape", "dtype", "ndim", "size", "args", "errno", "strerror", "filename", "nrows", "attrs", "nrow", "mean", "std", "eps", "tiny", "resolution", "bits", "itemsize", "smallest_normal"}
    return u


def library(ck, A, prog, m, tab, universe, absent, safe, at, rel):
    im = names.import_map(m, m.tree)
    seen, nuse = set(), 0
    has = {c.args[1].value for c in ast.walk(m.tree) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr")
           and len(c.args) > 1 and isinstance(c.args[1], ast.Constant)}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            mod = m._abs(n)
            if mod.split(".")[0] == front.PKG:
                for a in n.names:
                    if a.name != "*" and prog.lookup(mod, a.name) is None and id(n) not in safe:
                        ck.add(A, "%s: %s.%s" % (rel, mod, a.name), False, at(n), "module %s has no name %s" % (mod, a.name))
                continue
            v = tab.get(mod)
            for a in n.names:
                nuse += 1
                if v is not None and a.name != "*" and a.name not in v["names"] and not v["getattr"] and tab.get(mod + "." + a.name) is None and id(n) not in safe:
                    ck.add(A, "%s: %s.%s" % (rel, mod, a.name), False, at(n), "the installed %s has no %s" % (mod, a.name))
                if v is None and mod.split(".")[0] not in absent and id(n) not in safe:
                    ck.add(A, "%s: %s" % (rel, mod), False, at(n), "there is no installed module %s" % mod)
        elif isinstance(n, ast.Import):
            for a in n.names:
                nuse += 1
                if tab.get(a.name) is None and id(n) not in safe and a.name.split(".")[0] not in ("pycuda", "skcuda"):
                    ck.add(A, "%s: %s" % (rel, a.name), False, at(n), "there is no installed module %s" % a.name)
        elif isinstance(n, ast.Attribute):
            c = names.chain(n)
            if c and c[0] in im:
                d = im[c[0]]
                if d.split(".")[0] == front.PKG:
                    continue
                for p in c[1]:
                    v = tab.get(d)
                    if v is None:
                        break
                    nuse += 1
                    if p not in v["names"] and not v["getattr"] and p not in has and tab.get(d + "." + p) is None:
                        if id(n) not in safe and (d, p, n.lineno) not in seen:
                            seen.add((d, p, n.lineno))
                            ck.add(A, "%s: %s.%s" % (rel, d, p), False, at(n), "the installed %s has no %s" % (d, p))
                        break
                    d += "." + p
            elif isinstance(n.ctx, ast.Load) and n.attr not in universe and n.attr not in has and id(n) not in safe and not (absent and gpu(m)):
                ck.add(A, "%s: attribute %s" % (rel, n.attr), False, at(n), "no class of the package, the builtins or any imported library has an attribute %s" % n.attr)
        if isinstance(n, ast.Call):
            d = None
            if isinstance(n.func, ast.Name) and n.func.id in im:
                d = im[n.func.id]
            elif isinstance(n.func, ast.Name) and hasattr(builtins, n.func.id) and n.func.id not in m.globals:
                d = "builtins." + n.func.id
            elif isinstance(n.func, ast.Attribute):
                c = names.chain(n.func)
                if c and c[0] in im:
                    d = ".".join([im[c[0]]] + c[1])
            if d is None or "." not in d or d.split(".")[0] == front.PKG:
                continue
            v = tab.get(d.rsplit(".", 1)[0])
            sig = v and v["sigs"].get(d.rsplit(".", 1)[1])
            if not sig or id(n) in safe:
                continue
            nuse += 1
            for k in n.keywords:
                if k.arg is not None and k.arg not in sig[0]:
                    ck.add(A, "%s: %s(%s=)" % (rel, d, k.arg), False, at(n), "%s takes no argument %s" % (d, k.arg))
            if sig[1] is not None and len(n.args) > sig[1] and not any(isinstance(x, ast.Starred) for x in n.args):
                ck.add(A, "%s: %s of %d arguments" % (rel, d, len(n.args)), False, at(n), "%s takes %d arguments" % (d, sig[1]))
    ck.add(A, "%s: %d uses" % (rel, nuse), True, m.path, "", "attribute tables of the installed libraries")


def gpu(m):
    return any(d.split(".")[0] in ("pycuda", "skcuda") for d in names.import_map(m, m.tree).values())


def modes(ck, M, m, at, rel):
    im = names.import_map(m, m.tree)
    k = 0
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call):
            continue
        c = names.chain(n.func) if isinstance(n.func, ast.Attribute) else (n.func.id, []) if isinstance(n.func, ast.Name) else None
        if not c:
            continue
        d = ".".join([im.get(c[0], c[0])] + c[1])
        if d not in ("open", "tables.open_file", "io.open", "gzip.open", "codecs.open"):
            continue
        arg = n.args[1] if len(n.args) > 1 else next((x.value for x in n.keywords if x.arg == "mode"), None)
        k += 1
        if isinstance(arg, ast.Constant):
            ok = isinstance(arg.value, str) and (arg.value in ("r", "w", "a", "r+") if d.startswith("tables") else bool(MODE.match(arg.value)) and sum(x in arg.value for x in "rwax") == 1
                                                 and not ("b" in arg.value and "t" in arg.value))
            ck.add(M, "%s: %s mode %r" % (rel, d, arg.value), ok, at(n), "" if ok else "invalid mode %r" % (arg.value,), "constant")
    ck.add(M, "%s: %d opens" % (rel, k), True, m.path, "", "calls that open files")


def formats(ck, F, m, at, rel):
    k = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            want = names.fmt_args(n.left.value)
            if want is None:
                continue
            k += 1
            r = n.right
            if want == -1:
                ck.add(F, "%s: %r" % (rel, n.left.value[:40]), False, at(n), "invalid format")
            elif isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts):
                ck.add(F, "%s: %r" % (rel, n.left.value[:40]), len(r.elts) == want, at(n), "%d values for %d places" % (len(r.elts), want), "tuple")
            elif not isinstance(r, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Starred, ast.IfExp)) and want != 1:
                ck.add(F, "%s: %r" % (rel, n.left.value[:40]), False, at(n), "one value for %d places" % want)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            import string
            if any(isinstance(x, ast.Starred) for x in n.args) or any(x.arg is None for x in n.keywords):
                continue
            try:
                fs = [f for _, f, _, _ in string.Formatter().parse(n.func.value.value) if f is not None]
            except ValueError:
                ck.add(F, "%s: %r" % (rel, n.func.value.value[:40]), False, at(n), "invalid format")
                continue
            k += 1
            auto = sum(1 for f in fs if re.match(r"^($|[.\[])", f))
            idx = [int(re.match(r"\d+", f).group()) for f in fs if re.match(r"\d", f)]
            kws = {re.match(r"[A-Za-z_]\w*", f).group() for f in fs if re.match(r"[A-Za-z_]", f)}
            ok = max([auto] + [i + 1 for i in idx]) <= len(n.args) and kws <= {x.arg for x in n.keywords}
            ck.add(F, "%s: %r" % (rel, n.func.value.value[:40]), ok, at(n), "" if ok else "not enough values", "format")
    ck.add(F, "%s: %d formats" % (rel, k), True, m.path, "", "constant formats")


# ------------------------------------------------------------------ internal calls
def sig(fn, method):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    deco = [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]
    if method and "staticmethod" not in deco:
        pos = pos[1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else pos
    if method and nd > len(pos):
        req = []
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, kwreq, {x.arg for x in a.kwonlyargs}, a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}


def binds(call, fn, method):
    """None when the call binds to the function, else the reason"""
    if any(not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod")) for d in fn.decorator_list):
        return None
    pos, req, kwreq, kwo, var, kw, po = sig(fn, method)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not var:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwo and not kw or k.arg in po:
            return "no parameter %s" % k.arg
        if k.arg in given:
            return "parameter %s given twice" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in req + kwreq if x not in given]
        if miss:
            return "no value for %s" % ", ".join(miss)
    return None


def calls(ck, B, prog, m, at, rel, owner):
    k = 0
    fns = {}
    for fn, (mm, q, cls) in prog.fninfo.items():
        if mm is m and isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fns[fn] = (q, cls)
    classes = [prog.fninfo[n][1] for n in prog.fninfo if isinstance(n, ast.ClassDef)]
    slv = solvers()
    loc = {}
    for fn in fns:
        _, ss = names.scopes(ast.Module(body=[fn], type_ignores=[]))
        loc[fn] = set([s for s in ss if s.node is fn][0].local)

    def targets(n, fn, cls):
        """possible callees: [(function, is method, name)] or [] when not resolved"""
        f = n.func
        if isinstance(f, ast.Name):
            if fn is not None and f.id in loc[fn]:
                loc_imp = names.import_map(m, fn)
                if f.id in loc_imp and loc_imp[f.id].split(".")[0] == front.PKG:
                    d = loc_imp[f.id]
                    r = prog.lookup(d.rsplit(".", 1)[0], d.rsplit(".", 1)[1])
                else:
                    return []
            else:
                r = prog.lookup(m.name, f.id)
            if not r:
                return []
            if r[0] == "fn":
                return [(r[2], False, f.id)]
            if r[0] == "cls":
                q = prog.fninfo[r[2]][1] if r[2] in prog.fninfo else None
                i = q and prog.method(q, "__init__")
                return [(i[1], True, f.id)] if i and isinstance(i[1], ast.FunctionDef) else []
            return []
        if not isinstance(f, ast.Attribute):
            return []
        v = f.value
        out = []
        if isinstance(v, ast.Name) and v.id == "self" and cls:
            # the class itself and every class that inherits the calling method
            for q in classes:
                if cls in prog.mro(q):
                    own = prog.method(q, fn.name) if fn is not None else None
                    if own and own[1] is not fn and q != cls:
                        continue
                    x = prog.method(q, f.attr)
                    if x and isinstance(x[1], ast.FunctionDef):
                        out.append((x[1], True, x[2] + "." + f.attr))
                    elif not x and f.attr not in fields(prog, q) and known_bases(prog, q):
                        out.append((None, True, q + "." + f.attr))
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls:
            x = prog.method(cls, f.attr, cls)
            if x and isinstance(x[1], ast.FunctionDef):
                out.append((x[1], True, x[2] + "." + f.attr))
        elif isinstance(v, ast.Attribute) and v.attr == "nnet" or isinstance(v, ast.Name) and v.id == "nnet":
            for q in slv:
                x = prog.method(q, f.attr)
                if x and isinstance(x[1], ast.FunctionDef):
                    out.append((x[1], True, x[2] + "." + f.attr))
                elif not x and f.attr not in fields(prog, q):
                    out.append((None, True, q + "." + f.attr))
        elif isinstance(v, ast.Name) and v.id == "self" and fn is not None and not cls:
            for q in (ELM, HPELM):     # model selection functions take the model as their first parameter
                x = prog.method(q, f.attr)
                if x and isinstance(x[1], ast.FunctionDef):
                    out.append((x[1], True, x[2] + "." + f.attr))
        elif isinstance(v, ast.Name):
            r = prog.lookup(m.name, v.id) if fn is None or v.id not in loc[fn] else None
            if r and r[0] == "cls":
                q = prog.fninfo[r[2]][1]
                x = prog.method(q, f.attr)
                if x and isinstance(x[1], ast.FunctionDef):
                    out.append((x[1], False, q + "." + f.attr))
            elif r and r[0] == "mod":
                r2 = prog.lookup(r[1], f.attr)
                if r2 and r2[0] == "fn":
                    out.append((r2[2], False, f.attr))
        return out

    def visit(n, fn, cls):
        nonlocal k
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn2, cls2 = (n, fns[n][1]) if n in fns else (fn, cls)
            for c in ast.iter_child_nodes(n):
                visit(c, fn2, cls2 if n in fns else cls)
            return
        if isinstance(n, ast.Call):
            for f, meth, nm in targets(n, fn, cls):
                k += 1
                why = "no such method" if f is None else binds(n, f, meth)
                if why:
                    ck.add(B, "%s: %s" % (rel, nm), False, at(n), "%s: %s" % (nm, why))
        for c in ast.iter_child_nodes(n):
            visit(c, fn, cls)
    visit(m.tree, None, None)
    # helper processes
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == "Process" or isinstance(n.func, ast.Name) and n.func.id == "Process"):
            kw = {x.arg: x.value for x in n.keywords}
            tg, ar = kw.get("target"), kw.get("args")
            r = prog.lookup(m.name, tg.id) if isinstance(tg, ast.Name) else None
            if r and r[0] == "fn" and (ar is None or isinstance(ar, (ast.Tuple, ast.List))):
                fake = ast.Call(func=tg, args=list(ar.elts) if ar is not None else [], keywords=[])
                d = kw.get("kwargs")
                if isinstance(d, ast.Dict) and all(isinstance(x, ast.Constant) for x in d.keys):
                    fake.keywords = [ast.keyword(arg=x.value, value=y) for x, y in zip(d.keys, d.values)]
                elif d is not None:
                    continue
                k += 1
                why = binds(fake, r[2], False)
                ck.add(B, "%s: process %s" % (rel, tg.id), not why, at(n), why or "", "arguments bind")
    ck.add(B, "%s: %d calls" % (rel, k), True, m.path, "", "arguments bind")


def fields(prog, q):
    out = set()
    for c in prog.mro(q):
        n = prog.cls(c)
        n = n[1] if isinstance(n, tuple) else n
        n = n if isinstance(n, ast.AST) else next((x for x, i in prog.fninfo.items() if i[1] == c), None)
        if n is None:
            continue
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            elif isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def known_bases(prog, q):
    """all base classes belong to the package or are object"""
    for c in prog.mro(q):
        n = next((x for x, i in prog.fninfo.items() if i[1] == c and isinstance(x, ast.ClassDef)), None)
        if n is None and c not in ("object", "builtins.object", "ext:builtins.object"):
            return False
        if n is not None and any(isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__") for x in n.body):
            return False
    return True
