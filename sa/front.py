"""Front end: parses /repo's package, resolves modules, classes, imports and qualified names."""
import ast
import os

REPO = os.environ.get("HPELM_REPO", "/repo")
PKG = "hpelm"

# canonical names of library objects that have several spellings
CANON = {
    "six.moves.xrange": "builtins.range", "six.moves.range": "builtins.range", "six.moves.zip": "builtins.zip",
    "six.moves.map": "builtins.map", "six.moves.cPickle": "pickle", "cPickle": "pickle", "_pickle": "pickle",
    "six.moves.input": "builtins.input", "six.moves.reduce": "functools.reduce",
    "tables.file.open_file": "tables.open_file", "scipy.special._ufuncs.expit": "scipy.special.expit",
    "fasteners.process_lock.InterProcessLock": "fasteners.InterProcessLock",
    "numpy.concat": "numpy.concatenate",
}


def canon(dotted):
    if dotted in CANON:
        return CANON[dotted]
    for k, v in CANON.items():
        if dotted.startswith(k + "."):
            return v + dotted[len(k):]
    return dotted


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.globals = {}      # name -> ('fn', node) | ('cls', node) | ('import', dotted) | ('from', mod, name) | ('expr', node)
        self.stars = []
        self._scan(self.tree.body)

    def _abs(self, node):
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.globals[n.name] = ("fn", n)
            elif isinstance(n, ast.ClassDef):
                self.globals[n.name] = ("cls", n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.bind_import(n, self.globals)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ("expr", n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                self.globals[a.id] = ("expr", b)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.globals[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.With):
                self._scan(n.body)

    def bind_import(self, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = ("import", a.name)
                else:
                    table[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        else:
            mod = self._abs(n)
            for a in n.names:
                if a.name == "*":
                    self.stars.append(mod)
                else:
                    table[a.asname or a.name] = ("from", mod, a.name)


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ("tests", "__pycache__")]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                with open(p, encoding="utf-8") as fh:
                    self.modules[".".join(rel)] = Module(".".join(rel), p, fh.read())
        self._mro = {}
        self.fninfo = {}          # node -> (module, qualname, class qual or None)
        for m in self.modules.values():
            self._index(m, m.tree.body, m.name, None)

    def _index(self, m, body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fninfo[n] = (m, prefix + "." + n.name, cls)
                self._index(m, n.body, prefix + "." + n.name, cls)
            elif isinstance(n, ast.ClassDef):
                self.fninfo[n] = (m, prefix + "." + n.name, None)
                self._index(m, n.body, prefix + "." + n.name, prefix + "." + n.name)
            elif hasattr(n, "body") and isinstance(getattr(n, "body"), list):
                for f in ("body", "orelse", "finalbody"):
                    self._index(m, getattr(n, f, []) or [], prefix, cls)
                for h in getattr(n, "handlers", []) or []:
                    self._index(m, h.body, prefix, cls)

    # -------------------------------------------------------------- resolution
    def lookup(self, modname, name, seen=()):
        """-> ('fn', module, node) | ('cls', module, node) | ('mod', name) | ('ext', dotted) | ('expr', module, node) | None"""
        m = self.modules.get(modname)
        if m is None:
            return ("ext", canon(modname + "." + name))
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        b = m.globals.get(name)
        if b is None:
            if modname + "." + name in self.modules:
                return ("mod", modname + "." + name)
            for s in m.stars:
                r = self.lookup(s, name, seen)
                if r is not None and not (r[0] == "ext" and s in self.modules):
                    return r
            return None
        return self.resolve_binding(m, b, seen)

    def resolve_binding(self, m, b, seen=()):
        if b[0] in ("fn", "cls", "expr"):
            return (b[0], m, b[1])
        if b[0] == "import":
            if b[1] in self.modules:
                return ("mod", b[1])
            return ("ext", canon(b[1]))
        mod, nm = b[1], b[2]
        if mod in self.modules:
            r = self.lookup(mod, nm, seen)
            if r is not None:
                return r
            if mod + "." + nm in self.modules:
                return ("mod", mod + "." + nm)
            return None
        return ("ext", canon(mod + "." + nm))

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        r = self.lookup(mod, name)
        return r if r and r[0] == "cls" else None

    def bases(self, qual):
        r = self.cls(qual)
        out = []
        if r is None:
            return out
        m, node = r[1], r[2]
        for b in node.bases:
            d = self.expr_name(m, b)
            if d:
                out.append(d)
        return out

    def expr_name(self, m, e):
        """qualified name of a Name/Attribute expression at module level"""
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            if r is None:
                return "builtins." + e.id
            if r[0] in ("fn", "cls"):
                return r[1].name + "." + r[2].name
            if r[0] in ("mod", "ext"):
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            b = self.expr_name(m, e.value)
            return canon(b + "." + e.attr) if b else None
        return None

    def mro(self, qual):
        if qual not in self._mro:
            out = [qual]
            for b in self.bases(qual):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            self._mro[qual] = out
        return self._mro[qual]

    def method(self, qual, name, after=None):
        """-> (module, node, defining class) ; 'after' for super() lookups"""
        mro = self.mro(qual)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            r = self.cls(q)
            if r is None:
                continue
            for n in r[2].body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    return (r[1], n, q)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            return (r[1], n.value, q)
        return None

    def find(self, qual):
        """function or method by qualified name (hpelm.elm.ELM.train)"""
        mod, _, name = qual.rpartition(".")
        if mod in self.modules:
            r = self.lookup(mod, name)
            return (r[1], r[2], None) if r and r[0] == "fn" else None
        if self.cls(mod):
            return self.method(mod, name)
        return None
