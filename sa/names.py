"""Name resolution, definite assignment, library attribute tables, call binding and format checks over every function of
the package, reached or not (used by C23)."""
import ast
import builtins
import json
import os
import subprocess
import sys

LIBPY = "/opt/venv/bin/python"

TABLE = r'''
import sys, json, importlib, inspect
out = {}
for m in json.load(sys.stdin):
    try:
        o = importlib.import_module(m)
    except BaseException as e:
        o = None
        if "." in m:
            try:
                o = importlib.import_module(m.rsplit(".", 1)[0])
                for p in [m.rsplit(".", 1)[1]]:
                    o = getattr(o, p)
            except BaseException:
                o = None
        if o is None:
            out[m] = None
            continue
    names, sigs, cls = [], {}, {}
    try:
        import re
        cls[""] = sorted(set(re.findall(r"self\.(\w+)", open(o.__file__).read()))) if o.__file__.endswith(".py") else []
    except BaseException:
        pass
    for n in dir(o):
        try:
            v = getattr(o, n)
        except BaseException:
            continue
        names.append(n)
        if inspect.isclass(v):
            try:
                cls[n] = [x for x in dir(v)] + sorted(set(getattr(v, "__annotations__", {})))
            except BaseException:
                pass
        if callable(v):
            try:
                s = inspect.signature(v)
                ps = list(s.parameters.values())
                if not any(p.kind == p.VAR_KEYWORD for p in ps):
                    sigs[n] = [[p.name for p in ps if p.kind in (p.KEYWORD_ONLY, p.POSITIONAL_OR_KEYWORD)],
                               None if any(p.kind == p.VAR_POSITIONAL for p in ps) else sum(p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in ps)]
            except BaseException:
                pass
    out[m] = {"names": names + [k for k in sys.modules if k.startswith(m + ".")] , "sigs": sigs, "cls": cls, "getattr": bool(getattr(o, "__getattr__", None)) and m not in ("numpy",)}
json.dump(out, sys.stdout)
'''


def tables(mods):
    """attribute tables of installed library modules (the package itself is never imported)"""
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([LIBPY, "-W", "ignore", "-c", TABLE], input=json.dumps(sorted(mods)), capture_output=True, text=True, cwd="/", env=e, timeout=120)
    return json.loads(r.stdout)


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Scope(object):
    def __init__(self, node, parent, cls=False):
        self.node, self.parent, self.cls = node, parent, cls
        self.local, self.glob, self.loads = {}, set(), []


def bind_names(tg):
    for n in ast.walk(tg):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def scopes(tree):
    """all scopes of a module with their bound names and name loads"""
    out = []

    def visit(n, s):
        if isinstance(n, FN):
            if not isinstance(n, ast.Lambda):
                s.local.setdefault(n.name, []).append(n)
                for d in n.decorator_list:
                    visit(d, s)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, s)
            f = Scope(n, s)
            out.append(f)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                f.local.setdefault(x.arg, []).append(x)
            for b in (n.body if isinstance(n.body, list) else [n.body]):
                visit(b, f)
            return
        if isinstance(n, ast.ClassDef):
            s.local.setdefault(n.name, []).append(n)
            for b in n.bases + n.decorator_list:
                visit(b, s)
            c = Scope(n, s, True)
            out.append(c)
            for b in n.body:
                visit(b, c)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            c = Scope(n, s)
            out.append(c)
            for i, g in enumerate(n.generators):
                visit(g.iter, s if i == 0 else c)
                visit(g.target, c)
                for x in g.ifs:
                    visit(x, c)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                visit(x, c)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                s.loads.append(n)
            else:
                s.local.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.local.setdefault((a.asname or a.name.split(".")[0]), []).append(n)
        elif isinstance(n, ast.Global):
            s.glob |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            s.glob |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.local.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            s.local.setdefault(n.name, []).append(n)
        for c in ast.iter_child_nodes(n):
            visit(c, s)
    top = Scope(tree, None)
    out.append(top)
    for b in tree.body:
        visit(b, top)
    return top, out


def undefined(m):
    """name loads of a module that no enclosing scope, module or builtin defines: [(node, scope)]"""
    top, all_ = scopes(m.tree)
    if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
        return [], 0
    known = set(top.local) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__"}
    for s in all_:
        known |= s.glob
    bad, n = [], 0
    for s in all_:
        for x in s.loads:
            n += 1
            q, first = s, True
            while q is not None:
                if x.id in q.local and (first or not q.cls):
                    break
                q, first = q.parent, False
            else:
                if x.id not in known:
                    bad.append((x, s))
    return bad, n


# ------------------------------------------------------------------ definite assignment
def certainly_unbound(fn):
    """loads of local names that are unbound on every path from the entry, and loads in handlers and finally blocks of names
    that only the protected block binds, by a statement that can itself fail before binding: [(node, why)]"""
    top, ss = scopes(ast.Module(body=[fn], type_ignores=[]))
    sc = [s for s in ss if s.node is fn][0]
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    local = {k for k in sc.local if k not in sc.glob and k not in params}
    own = {id(x) for x in sc.loads}
    out = []

    def loads(e):
        return [n for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and id(n) in own]

    def bound(s):
        """names a statement may bind anywhere inside"""
        r = set()
        for n in ast.walk(s):
            if isinstance(n, FN + (ast.ClassDef,)):
                if hasattr(n, "name"):
                    r.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r |= {(a.asname or a.name.split(".")[0]) for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
        return r

    def exprs(s):
        """expressions of a simple or compound statement's own header, in evaluation order before its bindings"""
        for f, v in ast.iter_fields(s):
            if f in ("body", "orelse", "finalbody", "handlers", "cases"):
                continue
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.AST):
                    yield x

    def risky(s):
        return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert)) for n in ast.walk(s))

    def block(body, may):
        """may: names bound on some path; returns the names possibly bound afterwards"""
        for s in body:
            may = stmt(s, may)
        return may

    def chk(e, may):
        inner = {x for n in ast.walk(e) if isinstance(n, ast.NamedExpr) for x in bind_names(n.target)}
        for n in loads(e):
            if n.id not in may and n.id not in inner:
                out.append((n, "is not assigned on any path before"))

    def stmt(s, may):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return may | {s.name}
        for e in exprs(s):
            chk(e, may)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            inside = may | bound(s)
            block(s.body, inside)
            return block(s.orelse, inside)
        if isinstance(s, ast.If):
            return block(s.body, may | bound_h(s)) | block(s.orelse, may | bound_h(s))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return block(s.body, may | bound_h(s))
        if isinstance(s, ast.Try):
            r = block(s.body, may)
            for h in s.handlers + ([s] if s.finalbody else []):
                hb = h.body if h is not s else s.finalbody
                seen = set()
                for x in hb:
                    for n in loads(x):
                        if n.id in may or n.id in seen:
                            continue
                        if guarded(hb, n.id):
                            continue
                        ss_ = s.body
                        ok = True
                        for y in ss_:
                            if n.id in bound(y):
                                ok = not any(risky(z) for z in ss_[:ss_.index(y) + 1])
                                break
                        else:
                            ok = n.id in may | bound(x)
                            if n.id in {z for q in hb for z in bound(q)}:
                                ok = True
                        if not ok:
                            out.append((n, "may be unassigned when the protected block fails"))
                    seen |= bound(x)
            for h in s.handlers:
                r |= block(h.body, may | bound_all(s.body) | ({h.name} if h.name else set()))
            r |= block(s.orelse, r)
            return block(s.finalbody, r | bound_all(s.body))
        if isinstance(s, ast.Match):
            r = set(may)
            for c in s.cases:
                r |= block(c.body, may | bound(c))
            return r
        r = set(may) | bound(s)
        return r

    def guarded(hb, name):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "dir") for x in hb for n in ast.walk(x))

    def bound_h(s):
        r = set()
        for e in exprs(s):
            r |= bound(e)
        return r

    def bound_all(b):
        r = set()
        for s in b:
            r |= bound(s)
        return r
    block(fn.body, set(params))
    return out


# ------------------------------------------------------------------ library uses
def chain(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    return (e.id, parts[::-1]) if isinstance(e, ast.Name) else None


def import_map(m, node):
    """imports visible in a module (function-level ones included): name -> dotted external name"""
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            mod = m._abs(n)
            for a in n.names:
                out[a.asname or a.name] = mod + "." + a.name
    return out


def guarded_try(tree):
    """nodes inside a try whose handler catches a missing name, attribute or module"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "AttributeError", "NameError", "Exception", "BaseException", "TypeError")
                                                               for x in ast.walk(h.type)) for h in n.handlers):
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
    return out


def fmt_args(s):
    """number of values a %-format takes, or None when it takes a mapping or varies"""
    n, i = 0, 0
    while i < len(s):
        if s[i] == "%":
            i += 1
            if i < len(s) and s[i] == "(":
                return None
            while i < len(s) and s[i] in "#0- +":
                i += 1
            while i < len(s) and (s[i].isdigit() or s[i] in ".*"):
                if s[i] == "*":
                    return None
                i += 1
            if i >= len(s):
                return -1
            if s[i] in "hlL":
                i += 1
            if i >= len(s) or s[i] not in "diouxXeEfFgGcrsa%":
                return -1
            if s[i] != "%":
                n += 1
        i += 1
    return n
