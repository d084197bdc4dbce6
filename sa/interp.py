"""Abstract interpreter over the resolved package: a forward dataflow analysis whose domain is hash-consed value
numbers (terms.py).  Branches are joined by gated phi terms, loops are summarised by solving their recurrences, calls to
functions of the package are inlined, library calls go through transfer functions (lib.py); no code is run."""
import ast
import live
from fractions import Fraction
import terms as t
from terms import T, C, mk, NONE, TRUE, FALSE, ZERO, ONE, INF, ite, and_, or_, not_, sym, FULL


class Dead(Exception):
    """the current path cannot complete normally"""


class Budget(Exception):
    pass


class Cell(object):
    __slots__ = ("kind", "data", "tag", "cls")

    def __init__(self, kind, data, tag=None, cls=None):
        self.kind, self.data, self.tag, self.cls = kind, data, tag, cls

    def with_(self, data):
        return Cell(self.kind, data, self.tag, self.cls)


class State(object):
    __slots__ = ("frames", "heap", "path", "facts", "locks", "asserts")

    def __init__(self):
        self.frames, self.heap, self.path, self.facts, self.locks, self.asserts = {}, {}, (), {}, (), ()

    def clone(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.path, s.facts, s.locks, s.asserts = self.path, dict(self.facts), self.locks, self.asserts
        return s

    def take(self, o):
        self.frames, self.heap, self.path, self.facts = o.frames, o.heap, o.path, o.facts
        self.locks, self.asserts = o.locks, o.asserts

    def learn(self, c, val=True):
        for x, v in t.facts_of(c, val):
            self.facts[x] = v
        self.asserts = self.asserts + ((c if val else not_(c)),)


class Out(object):
    def __init__(self, fall=None):
        self.fall, self.rets, self.brks, self.conts = fall, [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts


class Closure(object):
    def __init__(self, node, module, parent, cls, qual, defaults=(), kwdefaults=()):
        self.node, self.module, self.parent, self.cls, self.qual = node, module, parent, cls, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Ev(object):
    def __init__(self, kind, seq, path, facts, asserts, loops, where, locks, data):
        self.kind, self.seq, self.path, self.facts, self.asserts = kind, seq, path, facts, asserts
        self.conds = path
        self.loops, self.where, self.locks = loops, where, locks
        self.__dict__.update(data)
        self.data = data

    def __repr__(self):
        return "<%s %s %s%s @%s>" % (self.kind, {k: v for k, v in self.data.items()},
                                     "if %s " % (self.path,) if self.path else "",
                                     "for %s" % ([(str(a), str(b)) for a, b, _ in self.loops],) if self.loops else "", self.where)


ARR_OPS = {"sel", "T", "mm", "zeros", "ones", "eye", "store", "cdist", "nz", "hstack", "vstack", "proj", "su", "sl",
           "inv", "invcut", "col", "row", "Vec", "exp", "tanh", "cast", "Scatter", "argmax", "arange", "chunk", "delete", "rand", "ufapp",
           "dev", "sumk", "max", "abs", "ravel", "lstsqB", "filesym", "where3", "unique", "linspace", "asarr", "argsort", "ptstore", "addat", "b2i", "bincount", "cat", "vcat"}


def arrayish(v):
    if v.op in ("const", "obj", "tuple", "fn", "ext", "list"):
        return False
    s = t.shape(v)
    if s is not None:
        return len(s) > 0
    if v.op in ("poly", "pw", "not", "pos", "eq", "and", "cast", "pow"):
        if v.op == "poly":
            return any(arrayish(a) for m, _ in v.args[0] for a, _e in m)
        return any(arrayish(a) for a in v.args if isinstance(a, T))
    if v.op == "ite":
        return arrayish(v.args[1]) and (arrayish(v.args[2]) or v.args[2] is NONE) or (v.args[1] is NONE and arrayish(v.args[2]))
    if v.op == "sym":
        return t.ATTR.get(v.args[0], {}).get("kind") == "arr"
    return v.op in ARR_OPS


BASE_SOLVER = "hpelm.nnets.slfn.SLFN"


class Interp(object):
    MAX_STEPS = 400000

    def __init__(self, prog, abstract_solver=True, precision=None, hooks=None):
        import lib
        self.prog = prog
        self.lib = lib.Lib(self)
        self.abstract_solver = abstract_solver
        self.events = []
        self.rec = True
        self.loops = []
        self.ctx = ()
        self.closures = {}
        self.stack = []              # call stack: (qualname, node)
        self.fid = None
        self.cur = None              # current closure
        self.yh = []
        self.steps = 0
        self.notes = []              # modelling gaps: (what, where)
        self.loopids = {}
        self.outreads = {}
        self.mglobals = {}
        self.visited = {}            # function qual -> number of statement evaluations
        self.calls_seen = set()
        self.hooks = hooks or {}
        self.base = 0
        self._shared = None
        self.nids = {}
        self.undef_hit = set()

    # ------------------------------------------------------------------ utilities
    def nid(self, node):
        r = self.nids.get(id(node))
        if r is None:
            r = self.nids[id(node)] = (len(self.nids), node)
        return r[0]

    def where(self, node):
        m = self.cur.module if self.cur else None
        fn = self.cur.qual if self.cur else "<driver>"
        return (m.path if m else "<driver>", getattr(node, "lineno", 0), fn)

    def record(self, kind, st, at_, /, **data):
        if not self.rec:
            return None
        e = Ev(kind, len(self.events), st.path, st.facts.copy(), st.asserts, tuple(self.loops), self.where(at_), st.locks, data)
        self.events.append(e)
        return e

    def gap(self, what, node):
        if not self.rec:
            return
        w = self.where(node)
        if (what, w) not in self.notes:
            self.notes.append((what, w))

    def unk(self, what, node):
        self.gap(what, node)
        return mk("unk", what, self.key(node), self.its())

    def its(self):
        return tuple(l[0] for l in self.loops)

    def key(self, node):
        return (self.ctx, self.nid(node))

    def newref(self, st, cell, node, extra=None):
        k = (self.ctx, self.nid(node), extra)
        n = 0
        while k in st.heap:
            n += 1
            k = (self.ctx, self.nid(node), extra, n)
        st.heap[k] = cell
        return mk("obj", k)

    def cell(self, st, ref):
        return st.heap.get(ref.args[0])

    def alloc_arr(self, st, term, node, tag=None, extra=None):
        return self.newref(st, Cell("arr", term, tag), node, extra)

    def alloc_list(self, st, items, node, extra=None):
        term = items if isinstance(items, T) else mk("list", *items)
        return self.newref(st, Cell("list", term), node, extra)

    def alloc_dict(self, st, pairs, node, extra=None):
        return self.newref(st, Cell("dict", tuple(pairs)), node, extra)

    def alloc_inst(self, st, cls, fields, node, extra=None, tag=None):
        return self.newref(st, Cell("inst", dict(fields), tag, cls), node, extra)

    def field(self, st, ref, name):
        c = self.cell(st, ref)
        return c.data.get(name) if c is not None and c.kind == "inst" else None

    def setfield(self, st, ref, name, v):
        c = self.cell(st, ref)
        d = dict(c.data)
        d[name] = v
        st.heap[ref.args[0]] = c.with_(d)

    def D(self, st, v, deep=False):
        """content of a value: array cells and views are read"""
        if v.op == "obj":
            c = self.cell(st, v)
            if c is None:
                return v
            if c.kind == "arr":
                return c.data
            if c.kind == "list":
                x = c.data
                if x.op in ("list", "concat"):
                    return mk(x.op, *[self.D(st, a) if a.op in ("obj", "view", "ite", "tuple") else self.inner(st, a) for a in x.args])
                return self.inner(st, x)
            return v
        if v.op == "view":
            b = self.D(st, v.args[0])
            return self.apply_view(b, v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.D(st, v.args[1]), self.D(st, v.args[2]))
        if v.op == "tuple":
            return mk("tuple", *[self.D(st, a) for a in v.args])
        if v.op == "node":
            return v
        return v

    def inner(self, st, x, known=None):
        """reads the arrays and views of arrays inside a sequence"""
        if not isinstance(x, T) or x.op in ("obj", "view", "sym", "num", "const"):
            return x
        for op in ("view", "obj"):
            m = {}
            for y in t.subterms(x):
                o = y if op == "obj" else y.args[0] if y.op == op else None
                if y.op != op or o.op != "obj" or known is not None and o.args[0] in known:
                    continue
                c = st.heap.get(o.args[0])
                if c is not None and c.kind == "arr" and not any(z.op in t.BINDERS for z in t.subterms(c.data)):
                    m[y] = self.apply_view(c.data, y.args[1]) if op == "view" else c.data
            if m:
                x = t.subst(x, m)
        return x

    def apply_view(self, b, how):
        if how[0] == "sels":
            return t.sel(b, how[1])
        if how[0] == "T":
            return t.transpose(b)
        if how[0] == "col":
            return t.col(b)
        if how[0] == "row":
            return mk("row", b)
        if how[0] == "same":
            return b
        if how[0] == "ravel":
            return mk("ravel", b)
        return mk("reshaped", b, how)

    def view(self, v, how):
        if v.op in ("obj", "view"):
            return mk("view", v, how)
        return None

    def snapshot(self, st, v, known=None):
        """value without references to cells missing from 'known' (None: all references)"""
        if v.op == "obj":
            k = v.args[0]
            if known is not None and k in known:
                return v
            c = st.heap.get(k)
            if c is None:
                return v
            if c.kind == "arr":
                return c.data
            if c.kind == "list":
                return self.snapshot(st, c.data, known) if c.data.op in ("list", "concat", "Build", "ite") else c.data
            if c.kind == "dict" and known is None:
                return mk("dictv", tuple((a, self.snapshot(st, b, known)) for a, b in c.data))
            return v
        if v.op == "view":
            b = self.snapshot(st, v.args[0], known)
            if b is v.args[0]:
                return v
            return self.apply_view(b, v.args[1])
        if v.op in ("tuple", "list", "concat"):
            return mk(v.op, *[self.snapshot(st, a, known) for a in v.args])
        if v.op == "ite":
            return ite(v.args[0], self.snapshot(st, v.args[1], known), self.snapshot(st, v.args[2], known))
        return v

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state that is a when c else b"""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.path = a.path
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                s.frames[fid] = dict(fa or fb)
                continue
            f = {}
            for k in set(fa) | set(fb):
                x, y = fa.get(k), fb.get(k)
                if x is None or y is None:
                    # defined on one path only
                    if k.startswith("<") or not isinstance(x if y is None else y, T):
                        f[k] = x if y is None else y
                    else:
                        u = mk("undef", k)
                        f[k] = ite(c, u if x is None else x, u if y is None else y)
                else:
                    f[k] = x if x is y else self.mval(c, x, y)
            s.frames[fid] = f
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                s.heap[k] = x
            elif x is None:
                s.heap[k] = y
            else:
                s.heap[k] = self.mcell(c, x, y, a, b, k)
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        s.asserts = tuple(x for x in a.asserts if x in b.asserts)
        s.locks = a.locks if a.locks == b.locks else tuple(x for x in a.locks if x in b.locks)
        return s

    def mval(self, c, x, y):
        return ite(c, x, y)

    def mcell(self, c, x, y, sa, sb, key=None):
        if x.kind != y.kind:
            return Cell("arr", mk("unk", "merge", x.kind, y.kind), x.tag)
        if x.kind in ("arr", "list"):
            if x.data is y.data:
                return x
            return x.with_(self.mlist(c, x.data, y.data) if x.kind == "list" else ite(c, x.data, y.data))
        if x.kind == "inst":
            d = {}
            for k in set(x.data) | set(y.data):
                p, q = x.data.get(k), y.data.get(k)
                if k.startswith("attr:") and (p is None or q is None):
                    old = sym("%s:%s" % (k, t.show(key[1])))
                    p, q = old if p is None else p, old if q is None else q
                d[k] = (p if q is None else q) if p is None or q is None else (p if p is q else self.mval(c, p, q))
            return x.with_(d)
        if x.kind == "dict":
            px, py = dict(x.data), dict(y.data)
            out = []
            for k in list(px) + [k for k in py if k not in px]:
                p, q = px.get(k, mk("missing")), py.get(k, mk("missing"))
                out.append((k, p if p is q else ite(c, p, q)))
            return x.with_(tuple(out))
        if x.kind == "set":
            return x.with_(tuple(dict.fromkeys(x.data + y.data)))
        return x

    def mlist(self, c, x, y):
        return ite(c, x, y)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        out = Out()
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.stmt(s, cur)
            out.absorb(o)
            cur = o.fall
        out.fall = cur
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        q = self.cur.qual if self.cur else None
        if q:
            self.visited[q] = self.visited.get(q, 0) + 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.gap("statement " + type(s).__name__, s)
            return Out(st)
        try:
            return m(s, st)
        except Dead:
            return Out(None)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.ev(s.value, st)
        return Out(st)

    def s_Pass(self, s, st):
        return Out(st)

    s_Global = s_Nonlocal = s_ClassDef = s_Pass

    def s_Import(self, s, st):
        tab = {}
        self.cur.module.bind_import(s, tab)
        for k, b in tab.items():
            r = self.prog.resolve_binding(self.cur.module, b)
            st.frames[self.fid][k] = self.resolved(r, st, k)
        return Out(st)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        st.frames[self.fid][s.name] = self.mkclosure(s, st, self.cur.qual + "." + s.name)
        return Out(st)

    def mkclosure(self, node, st, qual):
        a = node.args
        defaults = tuple(self.ev(d, st) for d in a.defaults)
        kwd = tuple(self.ev(d, st) if d is not None else None for d in a.kw_defaults)
        key = (self.ctx, self.nid(node))
        self.closures[key] = Closure(node, self.cur.module, self.fid, self.cur.cls, qual, defaults, kwd)
        return mk("fn", key)

    def s_Return(self, s, st):
        o = Out()
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.record("Return", st, s, base=self.base, value=v)
        o.rets.append((v, st))
        return o

    def s_Break(self, s, st):
        o = Out()
        self.record("Break", st, s)
        o.brks.append(st)
        return o

    def s_Continue(self, s, st):
        o = Out()
        o.conts.append(st)
        return o

    def s_Raise(self, s, st):
        self.record("Raise", st, s, exc=self.excname(s.exc))
        return Out(None)

    def excname(self, e):
        if e is None:
            return "re-raise"
        if isinstance(e, ast.Call):
            e = e.func
        return ast.unparse(e)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.record("Assert", st, s, cond=c)
        if c is FALSE:
            return Out(None)
        st.learn(c)
        return Out(st)

    def s_Delete(self, s, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                st.frames[self.fid].pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                b = self.ev(x.value, st)
                i = self.ev_index(x.slice, st)
                self.lib.delitem(st, b, i, s)
            elif isinstance(x, ast.Attribute):
                b = self.ev(x.value, st)
                if b.op == "obj" and self.cell(st, b).kind == "inst":
                    c = self.cell(st, b)
                    d = dict(c.data)
                    d.pop(x.attr, None)
                    st.heap[b.args[0]] = c.with_(d)
        return Out(st)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        return self.branch(c, st, lambda a: self.block(s.body, a), lambda b: self.block(s.orelse, b))

    def branch(self, c, st, fa, fb):
        a, b = st.clone(), st.clone()
        a.path = st.path + (c,)
        a.learn(c)
        b.path = st.path + (not_(c),)
        b.learn(c, False)
        oa, ob = fa(a), fb(b)
        out = Out()
        out.absorb(oa)
        out.absorb(ob)
        if oa.fall is not None and ob.fall is not None:
            na, nb = len(oa.fall.path), len(ob.fall.path)
            ca = and_(*oa.fall.path[len(st.path):])
            cb = and_(*ob.fall.path[len(st.path):])
            simple = ca is c and cb is not_(c)
            f = self.merge(ca if not simple else c, oa.fall, ob.fall)
            f.path = st.path if simple else st.path + (or_(ca, cb),)
            # what both branches imply
            out.fall = f
        else:
            f = oa.fall if oa.fall is not None else ob.fall
            if f is not None and not oa.rets and not oa.brks and not oa.conts and not ob.rets and not ob.brks and not ob.conts:
                # the other branch only raises: on normal completion this one was taken
                f.path = st.path + f.path[len(st.path) + 1:]
            out.fall = f
        return out

    def s_With(self, s, st):
        return self.with_items(s, list(s.items), st)

    def with_items(self, s, items, st):
        if not items:
            return self.block(s.body, st)
        it = items[0]
        v = self.ev(it.context_expr, st)
        # a generator-based context manager of the package
        if v.op == "gen":
            out = Out()

            def handler(val, s2):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, s2)
                o = self.with_items(s, items[1:], s2)
                out.absorb(o)
                if o.fall is None:
                    raise Dead()
                s2.take(o.fall)
            self.run_gen(v, st, handler)
            out.fall = st
            return out
        ent, ex = self.lib.ctx_enter_exit(st, v, s)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st)
        o = self.with_items(s, items[1:], st)
        for x in self.states(o):
            ex(x)
        return o

    def states(self, o):
        return ([o.fall] if o.fall is not None else []) + [r[1] for r in o.rets] + o.brks + o.conts

    def no_keyerror(self, body, st):
        """the statements only look up keys that their dictionaries have"""
        def name(x):
            return isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and name(x.value)
        looked = 0
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call):
                    if not isinstance(x.func, ast.Name) or x.func.id not in ("int", "float", "str", "bool", "len", "min", "max", "abs", "print"):
                        return False
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                    if not name(x.value) or not isinstance(x.slice, (ast.Constant, ast.Name)):
                        return False
                    tmp = st.clone()
                    d = self.ev(x.value, tmp)
                    c = self.cell(tmp, d) if d.op == "obj" else None
                    k = self.ev(x.slice, tmp)
                    if c is None or c.kind != "dict" or not any(a is k and not any(y.op == "missing" for y in (v,) + v.args if isinstance(y, T))
                                                                for a, v in c.data):
                        return False
                    looked += 1
                elif isinstance(x, (ast.Delete, ast.Raise, ast.Try, ast.With)):
                    return False
        return looked > 0

    def s_Try(self, s, st):
        before = st.clone()
        nev = len(self.events)
        o = self.block(s.body, st)
        if o.fall is not None and s.orelse:
            o2 = self.block(s.orelse, o.fall)
            o.absorb(o2)
            o.fall = o2.fall
        atom_base = None
        for h in s.handlers:
            names = [n_.attr if isinstance(n_, ast.Attribute) else n_.id for n_ in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                     if isinstance(n_, (ast.Attribute, ast.Name))] if h.type is not None else []
            if names == ["KeyError"] and self.no_keyerror(s.body, before):
                continue
            x = mk("exc", self.key(h), self.its(), tuple(names))
            hs = before.clone()
            hs.path = before.path + (x,)
            hs.learn(x)
            if h.name:
                hs.frames[self.fid][h.name] = mk("call", "exception", self.key(h))
            n0 = len(self.events)
            ho = self.block(h.body, hs)
            for e in self.events[n0:]:
                e.handler = True
            o.absorb(ho)
            if ho.fall is not None:
                if o.fall is not None:
                    f = self.merge(x, ho.fall, o.fall)
                    f.path = o.fall.path
                    f.facts = {k: v for k, v in o.fall.facts.items() if before.facts.get(k) is v or ho.fall.facts.get(k) is v}
                    o.fall = f
                else:
                    o.fall = ho.fall
        if s.finalbody:
            res = Out()
            for kind, lst_ in (("fall", [o.fall] if o.fall is not None else []), ("rets", o.rets), ("brks", o.brks), ("conts", o.conts)):
                for item in lst_:
                    x = item[1] if kind == "rets" else item
                    fo = self.block(s.finalbody, x)
                    res.absorb(fo)
                    if fo.fall is None:
                        continue
                    if kind == "fall":
                        res.fall = fo.fall
                    elif kind == "rets":
                        res.rets.append((item[0], fo.fall))
                    else:
                        getattr(res, kind).append(fo.fall)
            return res
        return o

    s_TryStar = s_Try

    # ---- assignment
    def bind(self, st, v, node, extra=None):
        if arrayish(v):
            return self.alloc_arr(st, v, node, extra=extra)
        return v

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if len(s.targets) > 1 or not isinstance(s.targets[0], (ast.Tuple, ast.List)):
            v = self.bind(st, v, s)
        for tg in s.targets:
            self.assign(tg, v, st)
        return Out(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.bind(st, self.ev(s.value, st), s), st)
        return Out(st)

    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            v = self.bind(st, v, tg)
            self.setname(tg.id, v, st)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st)
            self.setattr(st, b, tg.attr, self.bind(st, v, tg), tg)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)
            i = self.ev_index(tg.slice, st)
            self.setitem(st, b, i, v, tg, tg.value)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, n, star[0] if star else None, tg)
            for k, (e, x) in enumerate(zip(tg.elts, items)):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st)

    def unpack(self, st, v, n, star, node):
        c = v
        if v.op == "obj":
            cell = self.cell(st, v)
            if cell.kind in ("list", "arr"):
                c = cell.data
        if c.op in ("tuple", "list"):
            xs = list(c.args)
            if star is None:
                if len(xs) == n:
                    return xs
                self.record("BadUnpack", st, node, n=n, got=len(xs))
                raise Dead()
            tail = n - star - 1
            mid = xs[star:len(xs) - tail]
            return xs[:star] + [self.alloc_list(st, mid, node)] + (xs[len(xs) - tail:] if tail else [])
        c = self.D(st, v)
        return [t.elem(c, C(k)) if k != star else self.unk("starred unpack", node) for k in range(n)]

    def setname(self, name, v, st):
        fid = self.fid
        if self.cur and name in self.nonlocals(self.cur.node):
            f = self.cur.parent
            while f is not None:
                if f in st.frames and name in st.frames[f]:
                    st.frames[f][name] = v
                    return
                f = st.frames.get(f, {}).get("<parent>")
        st.frames[fid][name] = v

    def nonlocals(self, node):
        r = getattr(node, "_nonlocals", None)
        if r is None:
            r = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Nonlocal):
                    r.update(n.names)
            node._nonlocals = r
        return r

    def setattr(self, st, b, name, v, node):
        if b.op == "obj":
            c = self.cell(st, b)
            if c is not None and c.kind == "arr" and c.tag:
                self.record("Mutate", st, node, ref=b, tag=c.tag, how="attribute " + name, sels=None, value=v, old=c.data, new=None)
            if c is not None and c.kind == "inst":
                if c.cls and c.cls.startswith("hpelm"):
                    self.record("SetField", st, node, obj=b, cls=c.cls, name=name, value=self.snapshot(st, v), raw=v, tag=c.tag)
                    self.setfield(st, b, name, v)
                else:
                    self.lib.ext_setattr(st, b, name, v, node)
                return
        if b.op == "nattrs":
            self.lib.node_setattr(st, b, name, v, node)
            return
        if b.op == "ite":
            self.setattr_ite(st, b, name, v, node)
            return
        self.record("SetAttr", st, node, obj=self.D(st, b), name=name, value=self.D(st, v))
        self.gap("attribute store on " + b.op, node)

    def setattr_ite(self, st, b, name, v, node):
        for x, cond in ((b.args[1], b.args[0]), (b.args[2], not_(b.args[0]))):
            if x.op == "obj" and self.cell(st, x).kind == "inst":
                old = self.field(st, x, name)
                self.setfield(st, x, name, v if old is None else ite(cond, v, old))

    def mutate(self, st, ref, fn, node, how, sels=None, value=None):
        """in-place change of an array reference; fn: old content -> new content"""
        if ref.op == "obj":
            c = self.cell(st, ref)
            if c.kind == "arr":
                new = self.lib.keepdt(c.data, fn(c.data))
                self.record("Mutate", st, node, ref=ref, tag=c.tag, how=how, sels=sels, value=value, old=c.data, new=new)
                st.heap[ref.args[0]] = c.with_(new)
                return
        if ref.op == "view":
            how2 = ref.args[1]
            base = ref.args[0]

            def f2(b):
                old = self.apply_view(b, how2)
                new = fn(old)
                if how2[0] == "sels":
                    return self.store_term(b, how2[1], new)
                if how2[0] == "T":
                    return t.transpose(new)
                if how2[0] == "same":
                    return new
                if how2[0] == "col" and new.op == "col":
                    return new.args[0]
                return mk("unk", "mutated view", b, new)
            self.mutate(st, base, f2, node, how + " through view", sels, value)
            return
        if ref.op == "ite":
            c = ref.args[0]
            self.mutate(st, ref.args[1], lambda o: ite(c, fn(o), o), node, how, sels, value)
            self.mutate(st, ref.args[2], lambda o: ite(c, o, fn(o)), node, how, sels, value)
            return
        if ref.op == "node":
            self.lib.node_store(st, ref, (FULL,), fn(self.lib.node_content(st, ref)), node)
            return
        self.gap("in-place change of " + ref.op, node)

    def store_term(self, A, sels, v):
        sels = tuple(sels)
        if A.op == "dev":
            return mk("dev", self.store_term(A.args[0], sels, v.args[0] if v.op == "dev" else v))
        sh = t.shape(A)
        if sels == (("diag",),):
            d = t.sub(v, mk("diagof", A)) if False else None
            old = mk("diagv", A)
            delta = t.sub(v, old)
            if not t.occurs(old, delta) and (t.is_scalar(delta) or t.ndim(delta) == 1) and sh:
                return t.add(A, t.mul(delta, mk("eye", sh[0])))
            if A.op == "zeros" and t.is_scalar(v):
                return t.mul(v, mk("eye", A.args[0].args[0])) if A.args[0].op == "tuple" else mk("store", A, sels, v)
            return mk("store", A, sels, v)
        norm = []
        for k, s in enumerate(sels):
            if s[0] == "slice":
                lo, hi, stp = s[1], s[2], s[3]
                n = sh[k] if sh is not None and k < len(sh) else None
                if stp is not NONE and t.isnum(stp) and t.numval(stp) < 0:
                    if n is None:
                        return mk("unk", "store", A, v)
                    norm.append(t.backwards(lo, hi, stp, n))
                    continue
                lo = ZERO if lo is NONE else lo
                stp = ONE if stp is NONE else stp
                if hi is not NONE and n is not None and t.isnum(hi) and t.numval(hi) < 0:
                    hi = t.add(n, hi)
                if lo is ZERO and stp is ONE and (hi is NONE or hi is n):
                    s = FULL
                else:
                    s = ("slice", lo, hi, stp)
            norm.append(s)
        while norm and norm[-1] == FULL:
            norm.pop()
        sels = tuple(norm)
        if not sels:
            dv, dA = t.shape(v), sh
            if dA is not None and dv == dA:
                return v
            if v is ZERO:
                return mk("zeros", mk("tuple", *dA)) if dA is not None else mk("store", A, (), v)
            return mk("store", A, (), v)
        if A.op == "list" and len(sels) == 1 and sels[0][0] == "int" and t.isnum(sels[0][1]):
            i = int(t.numval(sels[0][1]))
            xs = list(A.args)
            if -len(xs) <= i < len(xs):
                xs[i] = v
                return mk("list", *xs)
        old = t.sel(A, sels)
        if sh is not None and A.op != "zeros":
            d = t.sub(v, old)
            if v is not old and old.op != "poly" and not t.occurs(old, d) and not old is ZERO:
                return t.add(A, mk("store", mk("zeros", mk("tuple", *sh)), sels, d))
        if A.op == "store" and A.args[1] == sels:
            A = A.args[0]
        return mk("store", A, sels, v)

    def setitem(self, st, b, idx, v, node, lval=None):
        v0 = v
        if b.op == "obj":
            c = self.cell(st, b)
            if c.kind == "arr":
                sels = self.lib.to_sels(st, idx, c.data)
                val = self.D(st, v)
                if sels is None:
                    f = self.lib.whole_store(st, idx, val, c.data)
                    if f is not None:
                        self.record("Store", st, node, ref=b, tag=c.tag, sels=None, value=val)
                        self.mutate(st, b, f, node, "item store", None, val)
                        return
                    self.mutate(st, b, lambda o: mk("unk", "store", o, val, self.its()), node, "item store", idx, val)
                    self.gap("index form", node)
                    return
                self.record("Store", st, node, ref=b, tag=c.tag, sels=sels, value=val)
                self.mutate(st, b, lambda o: self.store_term(o, sels, val), node, "item store", sels, val)
                return
            if c.kind == "list":
                if c.tag:
                    self.record("Mutate", st, node, ref=b, tag=c.tag, how="item store", sels=None, value=v, old=c.data, new=None)
                i = self.D(st, idx)
                if c.data.op == "list" and t.isnum(i) and -len(c.data.args) <= int(t.numval(i)) < len(c.data.args):
                    xs = list(c.data.args)
                    xs[int(t.numval(i))] = v
                    st.heap[b.args[0]] = c.with_(mk("list", *xs))
                else:
                    st.heap[b.args[0]] = c.with_(mk("store", self.snapshot(st, c.data), (("int", i),), self.snapshot(st, v)))
                return
            if c.kind == "dict":
                k = self.D(st, idx)
                if c.tag:
                    self.record("Mutate", st, node, ref=b, tag=c.tag, how="item store", sels=None, value=v, old=None, new=None)
                pairs = [(a, x) for a, x in c.data if a is not k]
                pos = [a for a, _ in c.data].index(k) if k in [a for a, _ in c.data] else len(pairs)
                pairs.insert(pos, (k, v))
                st.heap[b.args[0]] = c.with_(tuple(pairs))
                return
            if c.kind == "inst" and c.cls and c.cls.startswith("hpelm"):
                m = self.prog.method(c.cls, "__setitem__")
                if m:
                    self.call_repo(st, m, [b, idx, v], {}, node)
                    return
        if b.op == "view":
            sels = self.lib.to_sels(st, idx, self.D(st, b))
            val = self.D(st, v)
            self.record("Store", st, node, ref=b, tag=self.tagof(st, b), sels=sels, value=val)
            if sels is None:
                self.mutate(st, b, lambda o: mk("unk", "store", o, val, self.its()), node, "item store")
            else:
                self.mutate(st, b, lambda o: self.store_term(o, sels, val), node, "item store", sels, val)
            return
        if b.op == "node":
            content = self.lib.node_content(st, b)
            sels = self.lib.to_sels(st, idx, content)
            self.lib.node_store(st, b, sels, self.D(st, v), node)
            return
        if b.op == "ite":
            if all(x.op in ("obj", "view", "node") for x in b.args[1:]):
                c = b.args[0]
                s1, s2 = st.clone(), st.clone()
                s1.path += (c,)
                s2.path += (not_(c),)
                self.setitem(s1, b.args[1], idx, v, node)
                self.setitem(s2, b.args[2], idx, v, node)
                m = self.merge(c, s1, s2)
                m.path = st.path
                st.take(m)
                return
        # value semantics: rebind the variable
        cur = self.D(st, b)
        sels = self.lib.to_sels(st, idx, cur)
        val = self.D(st, v)
        self.record("Store", st, node, ref=b, tag=None, sels=sels, value=val)
        if lval is not None and isinstance(lval, (ast.Name, ast.Attribute)):
            new = self.store_term(cur, sels, val) if sels is not None else mk("unk", "store", cur, val, self.its())
            self.assign(lval, new, st)
        else:
            self.gap("item store on " + b.op, node)

    def tagof(self, st, v):
        if v.op == "obj":
            c = self.cell(st, v)
            return c.tag if c else None
        if v.op == "view":
            return self.tagof(st, v.args[0])
        if v.op == "ite":
            return self.tagof(st, v.args[1]) or self.tagof(st, v.args[2])
        if v.op == "tuple":
            for a in v.args:
                x = self.tagof(st, a)
                if x:
                    return x
        return None

    def s_AugAssign(self, s, st):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, st, tg)
            new = self.aug(st, cur, s, st_rebind=lambda v: self.setname(tg.id, self.bind(st, v, s), st))
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st)
            cur = self.getattr(st, b, tg.attr, tg)
            self.aug(st, cur, s, st_rebind=lambda v: self.setattr(st, b, tg.attr, self.bind(st, v, s), tg),
                     inplace=lambda: self.setattr_quiet(st, b, tg.attr, cur))
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)
            i = self.ev_index(tg.slice, st)
            cur = self.getitem(st, b, i, tg)
            if cur.op == "view":
                cur = self.D(st, cur)
            self.aug(st, cur, s, st_rebind=lambda v: self.setitem(st, b, i, v, tg, tg.value))
        return Out(st)

    def setattr_quiet(self, st, b, name, v):
        pass

    def aug(self, st, cur, s, st_rebind, inplace=None):
        val = self.ev(s.value, st)
        if cur.op == "obj":
            c = self.cell(st, cur)
            if c.kind == "arr":
                v = self.D(st, val)
                self.mutate(st, cur, lambda o: self.lib.binop(st, s.op, o, v, s), s, "augmented assignment", None, v)
                return
            if c.kind == "list" and isinstance(s.op, ast.Add):
                self.lib.list_extend(st, cur, val, s)
                return
            if c.kind == "set" and isinstance(s.op, (ast.BitOr,)):
                pass
        if cur.op in ("view",):
            v = self.D(st, val)
            self.mutate(st, cur, lambda o: self.lib.binop(st, s.op, o, v, s), s, "augmented assignment", None, v)
            return
        if cur.op == "ite" and any(x.op == "obj" for x in cur.args[1:]) and all(
                x.op in ("obj", "view") and (x.op != "obj" or self.cell(st, x).kind == "arr") for x in cur.args[1:]):
            v = self.D(st, val)
            self.mutate(st, cur, lambda o: self.lib.binop(st, s.op, o, v, s), s, "augmented assignment", None, v)
            return
        st_rebind(self.lib.binop_v(st, s.op, cur, val, s))

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        c = s.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "iter" and len(c.args) == 2 and not c.keywords \
                and not s.orelse and isinstance(c.args[1], ast.Constant) and isinstance(c.args[0], (ast.Name, ast.Attribute)):
            return self.s_While(self.asked_until(s, c), st)
        itv = self.ev(s.iter, st)
        return self.for_loop(s, st, itv, lambda v, x: self.assign(s.target, v, x), lambda x: self.block(s.body, x), s.orelse)

    def asked_until(self, s, c):
        """for x in iter(f, end): ...   is   while True: x = f(); if x == end: break; ..."""
        loop = self.__dict__.setdefault("rewritten", {}).get(s)
        if loop is None:
            new, end = "it'%d" % s.lineno, c.args[1]
            op = ast.Is() if end.value is None else ast.Eq()
            call = ast.Assign(targets=[ast.Name(id=new, ctx=ast.Store())], value=ast.Call(func=c.args[0], args=[], keywords=[]))
            leave = ast.If(test=ast.Compare(left=ast.Name(id=new, ctx=ast.Load()), ops=[op], comparators=[end]), body=[ast.Break()], orelse=[])
            bind = ast.Assign(targets=[s.target], value=ast.Name(id=new, ctx=ast.Load()))
            loop = ast.While(test=ast.Constant(value=True), body=[call, leave, bind] + s.body, orelse=[])
            for y in (call, leave, bind, loop):
                ast.copy_location(y, s)
                for z in ast.walk(y):
                    if not hasattr(z, "lineno"):
                        ast.copy_location(z, s)
            self.rewritten[s] = loop
        return loop

    def for_loop(self, node, st, itv, bindf, bodyf, orelse=()):
        if itv.op == "gen":
            out = Out()

            def handler(val, s2):
                bindf(val, s2)
                o = bodyf(s2)
                out.rets += o.rets
                f = self.join_states([o.fall] + o.conts, s2)
                if o.brks:
                    self.gap("break in generator loop", node)
                    f = self.join_states([f] + o.brks, s2)
                if f is None:
                    raise Dead()
                s2.take(f)
            self.run_gen(itv, st, handler)
            out.fall = st
            return out
        items = self.lib.concrete_items(st, itv)
        if items is not None and len(items) <= 64:
            return self.unroll(node, st, items, bindf, bodyf, orelse)
        n, get = self.lib.symbolic_iter(st, itv, node)
        return self.sym_loop(node, st, n, lambda i, x: bindf(get(i, x), x), bodyf, orelse)

    def join_states(self, ss, base):
        ss = [x for x in ss if x is not None]
        if not ss:
            return None
        cur = ss[-1]
        n = len(base.path) if base is not None else 0
        for x in reversed(ss[:-1]):
            c = and_(*x.path[n:])
            cur = self.merge(c, x, cur)
            cur.path = base.path if base is not None else cur.path
        if len(ss) == 1 and base is not None:
            pass
        return cur

    def unroll(self, node, st, items, bindf, bodyf, orelse):
        out = Out()
        cur = st
        base_path = st.path
        ctx0 = self.ctx
        brk = []
        for k, v in enumerate(items):
            self.ctx = ctx0 + (("u", self.nid(node), k),)
            p0 = cur.path
            bindf(v, cur)
            try:
                o = bodyf(cur)
            except Dead:
                o = Out(None)
            out.rets += o.rets
            brk += o.brks
            states = ([o.fall] if o.fall is not None else []) + o.conts
            if not states:
                cur = None
                break
            if len(states) == 1:
                cur = states[0]
            else:
                b = State()
                b.path = p0
                cur = self.join_states(states, b)
        self.ctx = ctx0
        if cur is not None and orelse:
            o = self.block(orelse, cur)
            out.absorb(o)
            cur = o.fall
        if brk:
            b = State()
            b.path = base_path
            cur = self.join_states(brk + ([cur] if cur is not None else []), b)
        elif cur is not None and len(cur.path) > len(base_path) and not out.rets:
            cur.path = base_path
        out.fall = cur
        return out

    def locs_diff(self, a, b):
        """locations of a whose value differs in b"""
        out = []
        for fid, f in a.frames.items():
            g = b.frames.get(fid)
            if g is None:
                continue
            for k, v in g.items():
                if k in f:
                    if f[k] is not v:
                        out.append(("v", fid, k))
                else:
                    out.append(("n", fid, k))
        for k, c in a.heap.items():
            d = b.heap.get(k)
            if d is None or d is c:
                continue
            if c.kind == "inst":
                for f in set(c.data) | set(d.data):
                    if c.data.get(f) is not d.data.get(f):
                        out.append(("f", k, f))
            elif c.data is not d.data:
                if c.kind == "dict" and len(c.data) == len(d.data) and all(x[0] is y[0] and x[0].op == "const" for x, y in zip(c.data, d.data)):
                    out.extend(("d", k, x[0]) for x, y in zip(c.data, d.data) if x[1] is not y[1])
                    continue
                out.append(("c", k))
        return out

    def getloc(self, st, l):
        if l[0] in ("v", "n"):
            return st.frames.get(l[1], {}).get(l[2])
        c = st.heap.get(l[1])
        if c is None:
            return None
        if l[0] == "f":
            return c.data.get(l[2])
        if l[0] == "d":
            return dict(c.data).get(l[2])
        if c.kind == "dict":
            return mk("dictv", c.data)
        if c.kind == "set":
            return mk("setv", c.data)
        return c.data

    def setloc(self, st, l, v):
        if v is None:
            return
        if l[0] in ("v", "n"):
            if l[1] in st.frames:
                st.frames[l[1]][l[2]] = v
            return
        c = st.heap[l[1]]
        if l[0] == "f":
            d = dict(c.data)
            d[l[2]] = v
            st.heap[l[1]] = c.with_(d)
        elif l[0] == "d":
            st.heap[l[1]] = c.with_(tuple((a, v if a is l[2] else x) for a, x in c.data))
        elif c.kind == "dict":
            st.heap[l[1]] = c.with_(v.args[0] if v.op == "dictv" else ((mk("unk", "keys", v), mk("unk", "dict item", v)),))
        elif c.kind == "set":
            st.heap[l[1]] = c.with_(v.args[0] if v.op == "setv" else (mk("unk", "keys", v),))
        else:
            st.heap[l[1]] = c.with_(v)

    def mu(self, lid, l, init):
        name = "mu!%d!%s" % (lid, self.locname(l))
        at = {}
        if init is not None:
            s = t.shape(init)
            if s is not None:
                at["shape"] = s
            k = t.kind(init)
            if k in ("int", "num", "arr", "str"):
                at["kind"] = "int" if t.isint(init) and k != "arr" else ("arr" if k == "arr" else k)
            if t.isint(init) and s == ():
                at["kind"] = "int"
            if t.islist(init):
                at["kind"] = "list"
            if at.get("kind") == "num" and not t.isint(init):
                at["kind"] = "num"
        t.ATTR[name] = at
        return mk("sym", name)

    def locname(self, l):
        if l[0] in ("v", "n"):
            return "%s.%s" % (self._id(l[1]), l[2])
        if l[0] == "f":
            return "%s.%s" % (self._id(l[1]), l[2])
        if l[0] == "d":
            return "%s[%s]" % (self._id(l[1]), l[2].args[1])
        return str(self._id(l[1]))

    def _id(self, k):
        return self.loopids.setdefault(("k", k), len(self.loopids))

    def sym_loop(self, node, st, n, bindf, bodyf, orelse=(), cond=None):
        """n: trip count term, or None (unknown / while)"""
        lid = self.loopids.setdefault((self.ctx, self.nid(node)), len(self.loopids))
        it = mk("it", "i%d" % lid)
        s0 = st
        known = set(s0.heap)
        rec0, self.rec = self.rec, False
        ctx0 = self.ctx
        changed = {}
        newnames = []
        always_break = False

        def run(sstart, nn):
            s = sstart.clone()
            self.loops.append((it, nn, lid))
            self.ctx = ctx0 + (("l", self.nid(node)),)
            try:
                c = None
                if cond is not None:
                    c = cond(s)
                    if c is FALSE:
                        return s, None, Out(), c
                    if c is not TRUE:
                        self.record("While", s, node, cond=c)
                        s.learn(c)
                try:
                    bindf(it, s)
                    o = bodyf(s)
                except Dead:
                    o = Out(None)
            finally:
                self.loops.pop()
                self.ctx = ctx0
            ss = ([o.fall] if o.fall is not None else []) + o.conts
            b = State()
            b.path = sstart.path
            after = self.join_states(ss, b) if len(ss) > 1 else (ss[0] if ss else None)
            return s, after, o, c

        N = n if n is not None else mk("trip", lid, self.its())

        own = set()

        def setstate(s, l, v):
            """a variable bound to different lists in the course of the loop: an object of its own holds the current one"""
            o = self.getloc(s0, l) if l[0] == "v" else None
            if o is not None and o.op == "obj" and o.args[0] in s0.heap and s0.heap[o.args[0]].kind == "list" and v.op != "opq":
                key = ("loop", ctx0, self.nid(node), l[1], l[2])
                if sum(v is o for f in s0.frames.values() for v in f.values()) > 1 or \
                        any(isinstance(d, T) and d is not o and t.occurs(o, d) for f in s0.frames.values() for d in f.values()):
                    self.gap("list bound to several variables", node)
                s.heap[key] = Cell("list", v)
                own.add(key)
                v = mk("obj", key)
            self.setloc(s, l, v)
        # discovery
        hit0, self.undef_hit = self.undef_hit, set()
        attrs = {}
        for rnd in range(6):
            s = s0.clone()
            for l, init in changed.items():
                setstate(s, l, self.mu(lid, l, attrs.get(l, init)))
            sb, after, o, c = run(s, N)
            if after is None:
                break
            diff = [l for l in self.locs_diff(s, after) if not (l[0] == "c" and l[1] in own)]
            add_ = False
            for l in diff:
                if l[0] == "n":
                    v = self.getloc(after, l)
                    if l[2] in self.undef_hit or v is not None and t.occurs(mk("undef", l[2]), v) and self.read_outside(node, l[2]):
                        changed[l] = mk("undef", l[2])
                        v = self.getloc(after, l)
                        attrs[l] = self.snapshot(after, v, known)
                        if l in newnames:
                            newnames.remove(l)
                        add_ = True
                    elif l not in newnames:
                        newnames.append(l)
                    continue
                if l not in changed:
                    init = self.getloc(s0, l)
                    init = self.snapshot(s0, init) if init is not None and l[0] != "c" else init
                    changed[l] = init
                    add_ = True
            if not add_:
                break
        self.undef_hit |= hit0
        self.rec = rec0
        if after is None:
            # the body never completes an iteration (break / return / raise on every path)
            self.rec = rec0
            sb, after, o, c = run(s0.clone(), N)
            out = Out()
            out.rets += o.rets
            skip = s0.clone()
            sure = n is not None and t.positive(N) or n is None and cond is not None and cond(s0.clone()) is TRUE
            if o.brks:
                b = State()
                b.path = s0.path
                bs = self.join_states(o.brks, b) if len(o.brks) > 1 else o.brks[0]
                self.substate(bs, {it: ZERO})
                if n is None or t.positive(N):
                    out.fall = bs
                else:
                    g = t.pos(N)
                    f = self.merge(g, bs, skip)
                    f.path = s0.path
                    out.fall = f
            else:
                out.fall = skip if not sure else None
                if n is not None and out.rets:
                    skip.path = s0.path
            return out
        # solve the recurrences
        post = {l: self.snapshot(after, self.getloc(after, l), known) for l in changed}
        start, end, opaque = self.solve(lid, it, N, changed, post, s0)
        once = False                # a while loop whose condition holds at first
        if cond is not None and n is None:
            # trip count of a while loop from its condition
            sc = s0.clone()
            for l in changed:
                if l in start:
                    self.setloc(sc, l, start[l])
                else:
                    self.setloc(sc, l, self.mu(lid, l, changed[l]))
            self.rec = False
            self.loops.append((it, N, lid))
            cc = cond(sc)
            once = cond(s0.clone()) is TRUE
            self.loops.pop()
            self.rec = rec0
            n2 = self.trip_from_cond(cc, it)
            if n2 is None and not o.brks and not any(y.op in ("opq", "mu") or y is N or y.op == "sym" and y.args[0].startswith("mu!") for y in t.subterms(cc)):
                n2 = t.close_binder("Least", it, (cc,))
            if n2 is not None and not o.brks:
                start = {l: t.subst(v, {N: n2}) for l, v in start.items()}
                end = {l: t.subst(v, {N: n2}) for l, v in end.items()}
                N = n2
        # final pass
        s = s0.clone()
        for l in changed:
            if l in start:
                setstate(s, l, start[l])
            else:
                self.setloc(s, l, mk("opq", "mu", self.locname(l), lid, self.its() + (it,), changed[l] if changed[l] is not None else NONE))
        # a loop left early: the first iteration on which it is
        early = None
        ext = N
        if o.brks or o.rets:
            self.rec = False
            s_ = s.clone()
            try:
                sb, after, o_, c_ = run(s_, N)
            finally:
                self.rec = rec0
            outs = o_.brks + [rs for _, rs in o_.rets]
            leave = or_(*[and_(*x.path[len(s_.path):]) for x in outs]) if outs else FALSE
            stay = t.pos(t.sub(n, it)) if n is not None else c_ if cond is not None else TRUE
            live = and_(stay, not_(leave))
            if outs and stay is not FALSE and not any(y.op in ("opq", "mu", "unk", "undef", "garbage", "qget", "rand") or y is N and n is None or
                                                      y.op == "sym" and y.args[0].startswith("mu!") for y in t.subterms(live)):
                M = self.trip_from_cond(live, it) if n is None else None
                if M is None:
                    M = t.close_binder("Least", it, (live,))
                broke = t.pos(t.sub(n, M)) if n is not None else t.subst(stay, {it: M})
                early = M, broke
                pure = all(x.heap.get(k) is v for x in outs for k, v in s_.heap.items() if k in known)
                if n is None:
                    start = {l: t.subst(v, {N: M}) for l, v in start.items()}
                    end = {l: t.subst(v, {N: M}) for l, v in end.items()}
                    for l in changed:
                        if l in start:
                            setstate(s, l, start[l])
                    N = M
                ext = M if pure else t.add(M, ite(broke, ONE, ZERO))
        sb, after, o, c = run(s, ext)
        out = Out()
        def leaving(x):
            """the state of a loop left early, as the code behind the loop sees it"""
            r = s0.clone()
            for l in list(changed) + [y for y in self.locs_diff(s, x) if y not in changed]:
                v = self.getloc(x, l)
                if v is not None:
                    v = t.subst(self.snapshot(x, v, known), {it: early[0]})
                    if l in changed:
                        setstate(r, l, v)
                    else:
                        self.setloc_any(r, l, v)
            for f, d in x.frames.items():
                for nm, v in d.items():
                    if f in r.frames and nm not in r.frames[f]:
                        r.frames[f][nm] = t.subst(self.snapshot(x, v, known), {it: early[0]})
            for k, v in x.heap.items():
                if k not in r.heap:
                    r.heap[k] = v
            r.path = s0.path + tuple(t.subst(q, {it: early[0]}) for q in x.path[len(s.path):])
            return r

        if o.rets:
            for v, rs in o.rets:
                if early is not None:
                    r = leaving(rs)
                    r.path = r.path[:len(s0.path)] + (and_(early[1], *r.path[len(s0.path):]),)
                    out.rets.append((t.subst(self.snapshot(rs, v, known), {it: early[0]}), r))
                else:
                    out.rets.append((v, rs))
            if early is None and not getattr(self, "_allow_loop_ret", False):
                self.gap("return inside a loop", node)
        res = s0.clone()
        res.heap.update({k: v for k, v in (after or s).heap.items() if k not in known})
        brk_end = {}
        gate = None
        if o.brks and early is not None:
            b = State()
            b.path = s0.path
            xs = [leaving(x) for x in o.brks]
            gate = and_(early[1], or_(*[and_(*x.path[len(s0.path):]) for x in xs])) if o.rets else early[1]
            gate = gate, self.join_states(xs, b) if len(xs) > 1 else xs[0]
        if o.brks and early is None:
            b = State()
            b.path = s.path
            bs = self.join_states(o.brks, b) if len(o.brks) > 1 else o.brks[0]
            if cond is None and n is None:
                pass
            last = mk("lastit", lid, self.its())
            for l in list(changed) + [x for x in self.locs_diff(s, bs) if x not in changed]:
                v = self.getloc(bs, l)
                if v is None:
                    continue
                v = self.snapshot(bs, v, known)
                if n is None and cond is None:
                    self.setloc_any(res, l, t.subst(v, {it: last}))
                elif l in changed:
                    base = end.get(l)
                    self.setloc_any(res, l, mk("opq", "brk", self.locname(l), lid, self.its(), base if base is not None else NONE))
                else:
                    v0 = self.getloc(s0, l)
                    self.setloc_any(res, l, mk("opq", "brk", self.locname(l), lid, self.its(), v))
            for k, v in bs.heap.items():
                if k not in known and k not in res.heap:
                    res.heap[k] = v
            if n is None and cond is None:
                for l in newnames:
                    v = self.getloc(bs, l)
                    if v is not None:
                        self.setloc_any(res, l, t.subst(self.snapshot(bs, v, known), {it: last}))
        else:
            if n is None and cond is None and gate is None:
                # never left, or only by return
                out.fall = None
                return out
            for l in changed:
                if l in end:
                    setstate(res, l, end[l])
                else:
                    self.setloc(res, l, mk("opq", "end", self.locname(l), lid, self.its(), changed[l] if changed[l] is not None else NONE))
        for l in newnames:
            v = self.getloc(after, l) if after is not None else None
            if v is not None and self.getloc(res, l) is None:
                v = t.subst(self.snapshot(after, v, known), {it: t.sub(N, ONE)})
                self.setloc_any(res, l, v if once or t.positive(N) or l[2].startswith("<") else ite(t.pos(N), v, mk("undef", l[2])))
        if early is not None and o.rets:
            if not o.brks:
                res.path = s0.path + (not_(early[1]),)
        out.fall = res
        if orelse:
            o2 = self.block(orelse, res)
            out.absorb(o2)
            out.fall = o2.fall
        if gate is not None:
            g, bs = gate
            if out.fall is None or g is TRUE:
                out.fall = bs
                bs.path = s0.path if g is TRUE else s0.path + (g,)
            else:
                f = self.merge(g, bs, out.fall)
                f.path = s0.path
                if o.rets:
                    f.path = s0.path + (or_(not_(early[1]), g),)
                out.fall = f
        return out

    def read_outside(self, loop, name):
        """whether the running function may read a variable behind a loop before it is bound again"""
        fn = self.cur.node if self.cur is not None else None
        if fn is None or not isinstance(loop, (ast.For, ast.While)):
            return fn is None
        if fn not in self.outreads:
            self.outreads[fn] = live.Live(fn)
        lv = self.outreads[fn]
        return loop not in lv.after or name in lv.after[loop] or name in lv.always

    def setloc_any(self, st, l, v):
        if l[0] in ("v", "n"):
            if l[1] in st.frames:
                st.frames[l[1]][l[2]] = v
        elif l[1] in st.heap:
            self.setloc(st, l, v)

    def substate(self, st, m):
        for f in st.frames.values():
            for k in list(f):
                if isinstance(f[k], T):
                    f[k] = t.subst(f[k], m)
        for k, c in list(st.heap.items()):
            if c.kind in ("arr", "list"):
                d = t.subst(c.data, m)
                if d is not c.data:
                    st.heap[k] = c.with_(d)
            elif c.kind == "inst":
                d = {f: t.subst(v, m) if isinstance(v, T) else v for f, v in c.data.items()}
                if any(d[f] is not v for f, v in c.data.items()):
                    st.heap[k] = c.with_(d)

    def trip_from_cond(self, c, it):
        if c is TRUE or c is FALSE:
            return None
        parts = c.args if c.op == "and" else (c,)
        if len(parts) != 1:
            return None
        neg = False
        if c.op == "not" and c.args[0].op == "pos":
            d = c.args[0].args[0]
            d = t.sub(ONE, d) if t.isint(d) or True else None     # not(d>0) <=> 1-d>0 on integers
        elif c.op == "pos":
            d = c.args[0]
        else:
            return None
        p = t.to_poly(d)
        k, rest = None, {}
        for m, co in p.items():
            inv = [a for a, e in m if t.occurs(it, a)]
            if not inv:
                rest[m] = co
            elif (it, 1) in m and len(inv) == 1:
                q = tuple(x for x in m if x[0] is not it)
                k = t.add(k if k is not None else ZERO, t.from_poly({q: co}))
            else:
                return None
        if k is None:
            return None
        step = t.neg(k)
        if not t.positive(step):
            return None
        d0 = t.from_poly(rest)
        # iterate while d0 - step*it > 0  ->  ceil(d0/step)
        return t.maximum(ZERO, t.ceildiv(d0, step))

    def solve(self, lid, it, N, changed, post, s0):
        mus = {l: self.mu(lid, l, changed[l]) for l in changed}
        start, end = {}, {}
        todo = set(changed)
        sub_ = {}
        progress = True

        def fin(l, s_it):
            start[l] = s_it
            end[l] = t.subst(s_it, {it: N})
            sub_[mus[l]] = s_it
            todo.discard(l)
        while todo and progress:
            progress = False
            for l in sorted(todo, key=repr):
                p = post[l]
                if p is None:
                    continue
                p = t.subst(p, sub_) if sub_ else p
                m = mus[l]
                init = changed[l]
                if init is None:
                    init = mk("undef", self.locname(l))
                if p is m:
                    fin(l, init)
                    progress = True
                    break
                others = [x for k2, x in mus.items() if k2 in todo and k2 != l and t.occurs(x, p)]
                if others:
                    continue
                r = self.recur(p, m, init, it, N)
                if r is not None:
                    if isinstance(r, tuple):
                        start[l], end[l] = r
                        sub_[m] = r[0]
                        todo.discard(l)
                    else:
                        fin(l, r)
                    progress = True
                    break
        if todo and not (self.loops and False):
            self.system(it, N, todo, mus, post, changed, sub_, fin)
        return start, end, todo

    def system(self, it, N, todo, mus, post, changed, sub_, fin):
        """recurrences without a closed form are kept as recurrences"""
        ps, ini = {}, {}
        for l in sorted(todo, key=repr):
            p, i = post[l], changed[l]
            if p is None or p.op in ("dictv", "setv") or (i is not None and i.op in ("dictv", "setv")):
                continue
            p = t.subst(p, sub_) if sub_ else p
            if sum(1 for _ in t.subterms(p)) > 4000:
                continue
            ps[l], ini[l] = p, i if i is not None else mk("undef", self.locname(l))
        while True:
            bad = [l for l in ps if any(t.occurs(mus[k], ps[l]) for k in todo if k not in ps)]
            if not bad:
                break
            for l in bad:
                del ps[l]
        if not ps:
            return
        order = sorted(ps, key=repr)
        m = {}
        for c, l in enumerate(order):
            s = t.shape(ini[l])
            s2 = t.shape(ps[l])
            at = t.ATTR.get(mus[l].args[0], {})
            k = at.get("kind") or ""
            if s is None or s2 is None or len(s) != len(s2):
                s = None
            m[mus[l]] = mk("st", it, c, None if s is None else mk("tuple", *s), k)
        inits = mk("tuple", *[ini[l] for l in order])
        bodies = mk("tuple", *[t.subst(ps[l], m) for l in order])
        def at(n, c):
            j = t.fresh_it()
            return t.close_binder("Rec", j, (n, c, inits, t.subst(bodies, {it: j})))

        for c, l in enumerate(order):
            b = ps[l]
            if b.op == "concat" and len(b.args) == 2 and b.args[0] is mus[l] and b.args[1].op == "list" and len(b.args[1].args) == 1 and \
                    not t.occurs(mus[l], b.args[1]):
                # a list that grows by one item per iteration
                j = t.fresh_it()
                v = t.subst(t.subst(b.args[1].args[0], {it: j}), {mus[q]: at(j, n) for n, q in enumerate(order)})
                items = t.close_binder("Build", j, (it, v))
                fin(l, items if ini[l].op == "list" and not ini[l].args else t.concat(ini[l], items) if hasattr(t, "concat") else mk("concat", ini[l], items))
                continue
            fin(l, at(it, c))

    def recur(self, p, m, init, it, N):
        """closed form at iteration 'it' of x0=init, x_{k+1}=p(x_k,k)"""
        if not t.occurs(m, p):
            if not t.occurs(it, p):
                if p is init:
                    return init
                s = ite(t.eq(it, ZERO), init, p)
                return s, (p if t.positive(N) else ite(t.eq(N, ZERO), init, p))
            prev = t.subst(p, {it: t.sub(it, ONE)})
            s = ite(t.eq(it, ZERO), init, prev)
            return s, (t.subst(p, {it: t.sub(N, ONE)}) if t.positive(N) else ite(t.eq(N, ZERO), init, t.subst(p, {it: t.sub(N, ONE)})))
        # lists
        ap = self.appended(p, m)
        if ap is not None:
            kind, x = ap
            j = t.fresh_it()
            if kind == "append":
                tail = lambda n: t.close_binder("Build", j, (n, t.subst(x, {it: j})))
            else:
                c, x = x
                tail = lambda n: t.close_binder("Filter", j, (n, t.subst(c, {it: j}), t.subst(x, {it: j})))
            f = lambda n: tail(n) if init.op == "list" and not init.args else mk("concat", init, tail(n))
            return f(it), f(N)
        if p.op in ("tuple",) or init.op in ("list", "tuple"):
            return None
        # guarded from the first iteration on: x' = (i > 0 ? p' : x)
        if p.op == "ite" and (p.args[2] is m or p.args[1] is m):
            c, b = (p.args[0], p.args[1]) if p.args[2] is m else (not_(p.args[0]), p.args[2])
            q = mk("sym", "shift!%s" % it.args[0])
            t.ATTR[q.args[0]] = {"kind": "int", "nonneg": True, "shape": ()}
            c1 = t.subst(c, {it: t.add(q, ONE)})
            if t.subst(c, {it: ZERO}) is FALSE and c1 is TRUE and not t.occurs(m, c):
                g = self.recur(t.subst(t.subst(b, {it: t.add(q, ONE)}), {q: it}), m, init, it, t.sub(N, ONE))
                if g is not None:
                    gs, ge = g if isinstance(g, tuple) else (g, t.subst(g, {it: t.sub(N, ONE)}))
                    s = ite(t.eq(it, ZERO), init, t.subst(gs, {it: t.sub(it, ONE)}))
                    return s, (ge if t.positive(N) else ite(t.eq(N, ZERO), init, ge))
        # None-initialised accumulators
        nn = t.eq(NONE, m)
        if init is NONE and t.occurs(nn, p):
            p1 = t.subst(p, {nn: FALSE})
            p0 = t.subst(p, {nn: TRUE})
            if not t.occurs(m, p0):
                if p1 is m and t.notnone(p0):       # set once, then kept
                    v = t.subst(p0, {it: ZERO})
                    return ite(t.eq(it, ZERO), NONE, v), ite(t.eq(N, ZERO), NONE, v)
                d = t.sub(p1, m)
                if not t.occurs(m, d) and not t.occurs(it, t.sub(p0, d)):
                    A = t.sub(p0, d)
                    j = t.fresh_it()
                    f = lambda n: t.add(A, t.mk_sum(n, j, t.subst(d, {it: j})))
                    return ite(t.eq(it, ZERO), NONE, f(it)), ite(t.eq(N, ZERO), NONE, f(N))
            return None
        if t.occurs(nn, p) and t.notnone(init):
            p = t.subst(p, {nn: FALSE})
        # restarted at the first iteration: x' = (i == 0 ? A : x) + d
        z = t.eq(it, ZERO)
        g = t.pos(it)
        if t.occurs(g, p):
            p0, p1 = t.subst(p, {g: FALSE}), t.subst(p, {g: TRUE})
            p0 = t.subst(p0, {it: ZERO})
            if not t.occurs(m, p0):
                d = t.sub(p1, m)
                if not t.occurs(m, d):
                    A = t.sub(p0, t.subst(d, {it: ZERO}))
                    j = t.fresh_it()
                    f = lambda n: t.add(A, t.mk_sum(n, j, t.subst(d, {it: j})))
                    return ite(z, init, f(it)), (f(N) if t.positive(N) else ite(t.eq(N, ZERO), init, f(N)))
        # casts of accumulators
        # additive
        d = t.sub(p, m)
        if not t.occurs(m, d):
            if not t.occurs(it, d):
                return t.add(init, t.mul(it, d))
            j = t.fresh_it()
            dj = t.subst(d, {it: j})
            r = self.scatter_sum(d, it, N)
            if r is not None:
                return t.add(init, t.mk_sum(it, j, dj)), t.add(init, r)
            return t.add(init, t.mk_sum(it, j, dj))
        # independent stores
        if p.op == "ite" and (p.args[1] is m or p.args[2] is m) and not t.occurs(m, p.args[0]):
            c, x, y = p.args
            if x is m:
                c, x, y = not_(c), y, x
            if x.op == "store" and x.args[0] is m and any(q[0] == "int" and q[1] is it for q in x.args[1]) and not self.occ_sels(m, x.args[1]):
                # every iteration has its own element, so an untouched one is the initial one
                p = mk("store", m, x.args[1], ite(c, x.args[2], t.sel(init, x.args[1])))
        if p.op == "store" and p.args[0] is m and t.occurs(m, p.args[2]) and len(p.args[1]) == 1 and \
                p.args[1][0][0] == "int" and p.args[1][0][1] is it:
            # every iteration reads its own element only, which is the initial one
            p = mk("store", m, p.args[1], t.subst(p.args[2], {t.elem(m, it): t.elem(init, it)}))
        if p.op == "Scatter" and p.args[0] is m and p.args[1] is t.length(init):
            j = t.fresh_it()
            _, (b_, n_, idx_, val_) = t.open_binder(p, j)
            if idx_.op == "sels" and len(idx_.args[0]) == 1 and idx_.args[0][0][0] == "int" and idx_.args[0][0][1] is j:
                p = t.close_binder("Build" if init.op == "Build" else "Vec", j, (n_, val_))
        if p.op in ("Build", "Vec") and t.length(init) is p.args[0] and not t.occurs(m, p.args[0]):
            # every element accumulates on its own
            j = t.fresh_it()
            _, (n_, body) = t.open_binder(p, j)
            mj = t.elem(m, j)
            if t.occurs(mj, body):
                d = t.sub(body, mj)
                if not t.occurs(m, d):
                    e0 = t.elem(init, j)
                    q = t.fresh_it()
                    f = lambda n: t.close_binder(p.op, j, (n_, t.add(e0, t.mk_sum(n, q, t.subst(d, {it: q})))))
                    return f(it), f(N)
        if p.op == "store" and p.args[0] is m and not t.occurs(m, mk("tuple", p.args[2])) and not self.occ_sels(m, p.args[1]):
            sels, val = p.args[1], p.args[2]
            j = t.fresh_it()
            r = self.vec_of_store(init, sels, val, it, N)
            st_ = mk("ScatterP", init, it, self.sel_terms(sels, val))     # state part-way through
            if r is not None:
                return st_, r
            return t.close_binder("Scatter", j, (init, it, t.subst(self.pack(sels), {it: j}), t.subst(val, {it: j}))), \
                t.close_binder("Scatter", j, (init, N, t.subst(self.pack(sels), {it: j}), t.subst(val, {it: j})))
        return None

    def sel_terms(self, sels, val):
        return mk("tuple", self.pack(sels), val)

    def pack(self, sels):
        return mk("sels", tuple(sels))

    def occ_sels(self, m, sels):
        return t.occurs(m, self.pack(sels))

    def vec_of_store(self, init, sels, val, it, N):
        """init[it] = val for it < N with N == len(init)"""
        if init.op == "Build":
            if len(sels) == 1 and sels[0][0] == "int" and sels[0][1] is it and t.length(init) is N:
                return t.close_binder("Build", it, (N, val))
            return None
        sh = t.shape(init)
        if len(sels) == 1 and sels[0][0] == "int" and sels[0][1] is it and sh and sh[0] is N:
            return t.close_binder("Vec", it, (N, val))
        return None

    def scatter_sum(self, d, it, N):
        """sum over it of store(zeros, it, v(it)) = Vec"""
        p = t.to_poly(d)
        res = ZERO
        for m, c in p.items():
            sc, mat = [], None
            for a, e in m:
                if a.op == "store" and e == 1 and a.args[0].op == "zeros":
                    if mat is not None:
                        return None
                    mat = a
                elif t.is_scalar(a):
                    sc.append((a, e))
                else:
                    return None
            if mat is None:
                return None
            sh = t.shape(mat)
            sels, val = mat.args[1], mat.args[2]
            val = t.mul(val, t.from_poly({tuple(sc): c}))
            if len(sh) == 1 and len(sels) == 1 and sels[0][0] == "int" and sels[0][1] is it and sh[0] is N:
                res = t.add(res, t.close_binder("Vec", it, (N, val)))
            elif len(sh) == 2 and len(sels) == 1 and sels[0][0] == "int" and sels[0][1] is it and sh[0] is N:
                res = t.add(res, t.close_binder("Vec", it, (N, val)))
            elif len(sh) == 2 and len(sels) == 2 and sels[1][0] == "int" and sels[1][1] is it and sh[1] is N and \
                    sels[0][0] == "int" and not t.occurs(it, sels[0][1]):
                row = t.close_binder("Vec", it, (N, val))
                res = t.add(res, mk("store", mat.args[0], (sels[0],), row))
            elif len(sh) == 2 and len(sels) == 2 and sels[0][0] == "int" and sels[0][1] is it and sh[0] is N and \
                    sels[1][0] == "int" and not t.occurs(it, sels[1][1]):
                cl = t.close_binder("Vec", it, (N, val))
                res = t.add(res, mk("store", mat.args[0], (FULL, sels[1]), cl))
            elif len(sh) == 2 and len(sels) == 2 and sels[0] == FULL and sels[1][0] == "int" and sels[1][1] is it and sh[1] is N:
                res = t.add(res, t.transpose(t.close_binder("Vec", it, (N, val))))
            else:
                return None
        return res

    def appended(self, p, m):
        if p.op == "concat" and p.args[0] is m and len(p.args) == 2 and p.args[1].op == "list" and len(p.args[1].args) == 1 \
                and not t.occurs(m, p.args[1]):
            return "append", p.args[1].args[0]
        if p.op == "ite":
            c, a, b = p.args
            if b is m:
                r = self.appended(a, m)
                if r and r[0] == "append" and not t.occurs(m, c):
                    return "cond", (c, r[1])
            if a is m:
                r = self.appended(b, m)
                if r and r[0] == "append" and not t.occurs(m, c):
                    return "cond", (not_(c), r[1])
        return None

    def s_While(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value:
            return self.sym_loop(s, st, None, lambda i, x: None, lambda x: self.block(s.body, x), s.orelse)
        # constant-controlled loops are unrolled a few times
        out = Out()
        cur = st
        ctx0 = self.ctx
        c = self.cond(s.test, cur.clone())
        if c is FALSE:
            return Out(cur) if not s.orelse else self.block(s.orelse, cur)
        o = self.sym_loop(s, cur, None, lambda i, x: None, lambda x: self.block(s.body, x), s.orelse,
                          cond=lambda x: self.cond(s.test, x))
        return o

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expression " + type(e).__name__, e)
        return m(e, st)

    def cond(self, e, st):
        """truth value of an expression under the known facts"""
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.ev(e, st)
        return self.truth(st, v)

    def boolop(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = []
        cur = st
        for k, x in enumerate(e.values):
            if acc:
                s2 = cur.clone()
                for c in acc:
                    s2.learn(c, isand)
                    s2.path = s2.path + (c if isand else not_(c),)
                keyb = (len(self.events), len(self.notes))
                try:
                    c = self.cond(x, s2)
                except Dead:
                    c = FALSE
                # effects of the right operand (rare) are kept when it surely ran
                if s2.heap is not cur.heap:
                    f2 = State()
                    f2 = s2
                    cc = and_(*acc) if isand else and_(*[not_(a) for a in acc])
                    p0, fa, as_ = cur.path, cur.facts, cur.asserts
                    m = self.merge(cc, s2, cur)
                    m.path, m.facts, m.asserts = p0, fa, as_
                    st.take(m)
                    cur = st
            else:
                c = self.cond(x, cur)
            if isand and c is FALSE:
                return FALSE
            if not isand and c is TRUE:
                return TRUE
            acc.append(c)
        return and_(*acc) if isand else or_(*acc)

    def truth(self, st, v):
        if v.op == "const":
            k, x = v.args
            if k == "bool":
                return v
            return C(bool(x))
        if v.op == "obj":
            c = self.cell(st, v)
            if c.kind == "list":
                n = t.length(c.data)
                return t.pos(n)
            if c.kind == "dict":
                return C(len(c.data) > 0)
            if c.kind == "set":
                return C(len(c.data) > 0)
            if c.kind == "inst":
                return TRUE
            v = c.data
        if v.op == "view":
            v = self.D(st, v)
        if v.op in ("node", "fn", "bound", "cls", "ext", "mod", "dev"):
            if v is INF:
                return TRUE
            return TRUE
        if v.op in ("tuple", "list"):
            return C(len(v.args) > 0)
        if t.isbool(v):
            r = t.subst(v, st.facts) if st.facts else v
            return r
        if v.op == "ite":
            c = v.args[0]
            return ite(c, self.truth(st, v.args[1]), self.truth(st, v.args[2]))
        if t.numericish(v) or t.is_scalar(v):
            r = not_(t.eq(v, ZERO))
            return t.subst(r, st.facts) if st.facts else r
        r = mk("truth", v)
        return t.subst(r, st.facts) if st.facts else r

    def e_Constant(self, e, st):
        return C(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def lookup(self, name, st, node):
        f = self.fid
        seen = 0
        first = True
        while f is not None and seen < 20:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                v = fr[name]
                if isinstance(v, T) and self.hasundef(v):
                    v = self.defined(v, st, name, node)
                    if v is None:
                        break
                return v
            f = fr.get("<parent>") if fr is not None else None
            seen += 1
        m = self.cur.module if self.cur else None
        if m is not None:
            r = self.prog.lookup(m.name, name)
            if r is not None:
                return self.resolved(r, st, name)
        import builtins
        if hasattr(builtins, name):
            return mk("ext", "builtins." + name) if name not in ("None", "True", "False") else C(getattr(builtins, name))
        self.undef_hit.add(name)
        self.record("UndefinedName", st, node, name=name)
        return self.unk("name " + name, node)

    def hasundef(self, v):
        while v.op == "ite":
            if self.hasundef(v.args[1]):
                return True
            v = v.args[2]
        return v.op == "undef"

    def strip(self, v):
        if v.op == "ite":
            a, b = self.strip(v.args[1]), self.strip(v.args[2])
            return b if a is None else a if b is None else ite(v.args[0], a, b)
        return None if v.op == "undef" else v

    def defined(self, v, st, name, node):
        """value of a variable that is assigned on some paths only"""
        self.undef_hit.add(name)
        m = dict(st.facts)
        v = t.subst(v, m) if m else v
        for a in st.asserts:
            if self.hasundef(v):
                v = t.subst(v, dict(t.facts_of(a, True)))
        if not self.hasundef(v):
            return v
        w = self.strip(v)
        if w is not None:
            self.record("MaybeUndef", st, node, name=name, value=v)
        return w

    def resolved(self, r, st, name):
        if r is None:
            return mk("unk", "import " + name)
        if r[0] == "fn":
            return self.fnref(r[1], r[2])
        if r[0] == "cls":
            return mk("cls", r[1].name + "." + r[2].name)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            if r[1] == "numpy.inf":
                return INF
            return mk("ext", r[1])
        if r[0] == "expr":
            return self.module_value(r[1], r[2], name)

    def fnref(self, module, node):
        key = ("g", module.name, node.name, self.nid(node))
        if key not in self.closures:
            qual = self.prog.fninfo.get(node, (module, module.name + "." + node.name, None))
            self.closures[key] = Closure(node, module, None, None, qual[1], None, None)
        return mk("fn", key)

    def module_value(self, module, expr, name):
        key = (module.name, id(expr))
        if key in self.mglobals:
            return self.mglobals[key]
        self.mglobals[key] = mk("unk", "module value " + name)
        st = State()
        fid = ("M", module.name)
        st.frames[fid] = {}
        saved = self.fid, self.cur, self.rec, self.loops
        self.fid, self.rec, self.loops = fid, False, []
        self.cur = Closure(module.tree, module, None, None, module.name)
        self.cur.node.args = None
        try:
            v = self.ev(expr, st)
            v = self.snapshot(st, v)
            if v.op == "obj":      # dict / set constants
                c = st.heap[v.args[0]]
                if c.kind == "dict":
                    v = mk("dictv", tuple((a, self.snapshot(st, b)) for a, b in c.data))
                elif c.kind == "set":
                    v = mk("setv", c.data)
        except (Dead, Budget):
            v = mk("unk", "module value " + name)
        finally:
            self.fid, self.cur, self.rec, self.loops = saved
        self.mglobals[key] = v
        return v

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                its = self.lib.concrete_items(st, v)
                if its is None:
                    out.append(self.unk("starred", x))
                else:
                    out += its
            else:
                out.append(self.ev(x, st))
        return mk("tuple", *out)

    def e_List(self, e, st):
        v = self.e_Tuple(e, st)
        return self.alloc_list(st, [self.bind(st, a, e, extra=("el", k)) for k, a in enumerate(v.args)], e)

    def e_Set(self, e, st):
        return self.newref(st, Cell("set", tuple(dict.fromkeys(self.ev(x, st) for x in e.elts))), e)

    def e_Dict(self, e, st):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st)
                if d.op == "obj" and self.cell(st, d).kind == "dict":
                    for a, b in self.cell(st, d).data:
                        pairs = [p for p in pairs if p[0] is not a] + [(a, b)]
                else:
                    self.gap("dict unpacking", e)
                continue
            a, b = self.D(st, self.ev(k, st)), self.bind(st, self.ev(v, st), v)
            pairs = [p for p in pairs if p[0] is not a] + [(a, b)]
        return self.alloc_dict(st, pairs, e)

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.ev(x.value, st)
                if x.format_spec is None and x.conversion == -1 and (t.kind(v) == "str"):
                    parts.append(v)
                else:
                    parts.append(mk("fmt", self.D(st, v)))
        return self.lib.strcat(parts)

    def e_FormattedValue(self, e, st):
        return mk("fmt", self.D(st, self.ev(e.value, st)))

    def e_NamedExpr(self, e, st):
        v = self.bind(st, self.ev(e.value, st), e)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return self.mkclosure(e, st, (self.cur.qual if self.cur else "") + ".<lambda>")

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.clone(), st.clone()
        s1.path += (c,)
        s2.path += (not_(c),)
        s1.learn(c)
        s2.learn(c, False)
        try:
            a = self.ev(e.body, s1)
        except Dead:
            a = None
        try:
            b = self.ev(e.orelse, s2)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        if a is None or b is None:
            x = s1 if b is None else s2
            x.path = st.path
            st.take(x)
            return a if b is None else b
        m = self.merge(c, s1, s2)
        m.path, m.facts, m.asserts = st.path, st.facts, st.asserts
        st.take(m)
        if a.op not in ("obj", "view") and b.op in ("obj", "view"):
            b = self.D(st, b)
        if b.op not in ("obj", "view") and a.op in ("obj", "view"):
            a = self.D(st, a)
        return ite(c, a, b)

    def e_BoolOp(self, e, st):
        # value semantics when operands are not booleans
        vals = []
        s2 = st
        isand = isinstance(e.op, ast.And)
        res = None
        conds = []
        cur = st
        for k, x in enumerate(e.values):
            if conds:
                cur = cur.clone()
                cur.learn(conds[-1], isand)
            v = self.ev(x, cur)
            c = self.truth(cur, v)
            conds.append(c)
            vals.append(v)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                break
        r = vals[-1]
        for v, c in reversed(list(zip(vals[:-1], conds[:-1]))):
            if t.isbool(v) and t.isbool(r):
                r = and_(c, r) if isand else or_(c, r)
            elif isand:
                r = ite(c, r, v)
            else:
                r = ite(c, v, r)
        return r

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.D(st, self.ev(e.operand, st))
        if isinstance(e.op, ast.USub):
            if v is INF:
                return mk("ext", "-inf")
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return not_(v)
        return self.unk("unary", e)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.lib.binop_v(st, e.op, a, b, e)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            res.append(self.lib.compare(st, op, left, right, e))
            left = right
        v = and_(*res) if len(res) > 1 else res[0]
        if st.facts and t.isbool(v) and not t.isconst(v):
            v = t.subst(v, st.facts)
        return v

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(st, b, e.attr, e)

    def getattr(self, st, b, name, node):
        if b.op == "obj":
            c = self.cell(st, b)
            if c.kind == "inst":
                if name in c.data:
                    return c.data[name]
                if c.cls and c.cls.startswith("hpelm"):
                    return self.class_attr(st, b, c.cls, name, node)
                return self.lib.ext_getattr(st, b, c, name, node)
            return self.lib.builtin_attr(st, b, name, node)
        if b.op == "super":
            return self.class_attr(st, b.args[1], self.cell(st, b.args[1]).cls, name, node, after=b.args[0])
        if b.op == "cls":
            m = self.prog.method(b.args[0], name)
            if m is None:
                return mk("extm", b, name)
            if isinstance(m[1], ast.FunctionDef):
                deco = self.decos(m[1])
                if "classmethod" in deco:
                    return mk("bound", self.methodref(m), b)
                return self.methodref(m)
            return self.module_value(m[0], m[1], name)
        if b.op == "mod":
            r = self.prog.lookup(b.args[0], name)
            if r is None and b.args[0] + "." + name in self.prog.modules:
                return mk("mod", b.args[0] + "." + name)
            if r is None:
                self.record("UndefinedName", st, node, name=b.args[0] + "." + name)
            return self.resolved(r, st, name)
        if b.op == "ext":
            import front
            d = front.canon(b.args[0] + "." + name)
            if d in ("numpy.inf", "numpy.Inf", "numpy.Infinity", "math.inf"):
                return INF
            if d in ("numpy.newaxis",):
                return NONE
            return mk("ext", d)
        if b.op == "ite":
            return self.either(st, b, lambda v: self.getattr(st, v, name, node))
        return self.lib.builtin_attr(st, b, name, node)

    def either(self, st, b, f):
        """f over the branches of a conditional value; a branch that cannot complete is left to the other one"""
        out = []
        for v in b.args[1:]:
            try:
                out.append(f(v))
            except Dead:
                out.append(None)
        x, y = out
        if x is None and y is None:
            raise Dead()
        if x is None or y is None:
            st.learn(not_(b.args[0]) if x is None else b.args[0])
            return y if x is None else x
        return ite(b.args[0], x, y)

    def decos(self, fn):
        out = []
        for d in fn.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?")
        return out

    def methodref(self, m):
        key = ("m", m[2], m[1].name, self.nid(m[1]))
        if key not in self.closures:
            self.closures[key] = Closure(m[1], m[0], None, m[2], m[2] + "." + m[1].name, None, None)
        return mk("fn", key)

    def class_attr(self, st, obj, cls, name, node, after=None):
        if name == "__class__":
            return mk("cls", cls)
        m = self.prog.method(cls, name, after)
        if m is None:
            if after is not None and name == "__init__":
                return mk("ext", "builtins.noop")
            dyn = self.prog.method(cls, "__getattr__")
            self.record("MissingAttr", st, node, cls=cls, name=name)
            return self.unk("attribute %s of %s" % (name, cls), node)
        if isinstance(m[1], (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = self.decos(m[1])
            f = self.methodref(m)
            if "staticmethod" in d:
                return f
            if "classmethod" in d:
                return mk("bound", f, mk("cls", cls))
            if "property" in d:
                return self.call(st, f, [obj], {}, node)
            return mk("bound", f, obj)
        return self.module_value(m[0], m[1], name)

    def ev_index(self, s, st):
        """index expression -> value (slices as 'slice' terms)"""
        if isinstance(s, ast.Slice):
            g = lambda x: self.D(st, self.ev(x, st)) if x is not None else NONE
            return mk("slice", g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return mk("itup", *[self.ev_index(x, st) for x in s.elts])
        return self.ev(s, st)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.getitem(st, b, i, e)

    def getitem(self, st, b, idx, node):
        return self.lib.getitem(st, b, idx, node)

    # ---- comprehensions: desugared to loops
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        l = self.comp(e, st, "list")
        c = self.cell(st, l).data
        if c.op == "list":
            return self.newref(st, Cell("set", tuple(dict.fromkeys(c.args))), e)
        return mk("setof", c)

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        acc = "<acc%d>" % self.nid(e)
        fid = self.fid
        saved_names = {}
        if kind == "dict":
            st.frames[fid][acc] = self.alloc_dict(st, [], e)
        else:
            st.frames[fid][acc] = self.alloc_list(st, [], e)
        targets = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        for n in targets:
            if n in st.frames[fid]:
                saved_names[n] = st.frames[fid][n]

        def inner(k, s2):
            if k == len(e.generators):
                if kind == "dict":
                    a, b = self.D(s2, self.ev(e.key, s2)), self.ev(e.value, s2)
                    self.setitem(s2, s2.frames[fid][acc], a, self.bind(s2, b, e.value), e)
                else:
                    v = self.bind(s2, self.ev(e.elt, s2), e.elt)
                    self.lib.list_append(s2, s2.frames[fid][acc], v, e)
                return Out(s2)
            g = e.generators[k]
            itv = self.ev(g.iter, s2)

            def body(s3):
                c = and_(*[self.cond(x, s3) for x in g.ifs]) if g.ifs else TRUE
                if c is FALSE:
                    return Out(s3)
                if c is TRUE:
                    return inner(k + 1, s3)
                return self.branch(c, s3, lambda a: inner(k + 1, a), lambda b: Out(b))
            return self.for_loop(g, s2, itv, lambda v, x: self.assign(g.target, v, x), body)
        o = inner(0, st)
        if o.fall is None:
            raise Dead()
        if o.fall is not st:
            st.take(o.fall)
        r = st.frames[fid].pop(acc)
        for n in targets:
            st.frames[fid].pop(n, None)
            if n in saved_names:
                st.frames[fid][n] = saved_names[n]
        return r

    # ---- generators
    def run_gen(self, g, st, handler):
        key, fref, args = g.args[0], g.args[1], g.args[2]
        cl = self.closures[fref.args[0]]
        caller = (self.fid, self.cur, self.ctx, len(self.stack))

        def h(val, s2):
            inner = (self.fid, self.cur, self.ctx, self.yh, self.stack)
            self.fid, self.cur = caller[0], caller[1]
            self.yh = self.yh[:-1]
            try:
                handler(val, s2)
            finally:
                self.fid, self.cur, self.ctx, self.yh, self.stack = inner
        self.yh = self.yh + [h]
        try:
            self.invoke(st, fref, cl, list(args[0]), dict(args[1]), g.args[3], generator=True)
        finally:
            self.yh = self.yh[:-1]

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        if not self.yh:
            return self.unk("yield", e)
        self.yh[-1](v, st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        h = self.yh[-1]

        def body(x):
            return Out(x)

        def bind(val, x):
            h(val, x)
        o = self.for_loop(e, st, v, bind, body)
        if o.fall is None:
            raise Dead()
        st.take(o.fall)
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ---- calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e, st)
        f = self.ev(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                its = self.lib.concrete_items(st, v)
                if its is None:
                    args.append(self.unk("star args", a))
                else:
                    args += its
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "obj" and self.cell(st, v).kind == "dict":
                    for a, b in self.cell(st, v).data:
                        if t.isstr(a):
                            kw[a.args[1]] = b
                elif v.op == "dictv":
                    for a, b in v.args[0]:
                        kw[a.args[1]] = b
                else:
                    self.gap("** arguments", e)
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw, e)

    def make_super(self, e, st):
        if e.args:
            c = self.ev(e.args[0], st)
            o = self.ev(e.args[1], st)
            return mk("super", c.args[0], o)
        o = st.frames[self.fid].get("self")
        if o is None:
            names = [a.arg for a in self.cur.node.args.args]
            o = st.frames[self.fid].get(names[0]) if names else None
        return mk("super", self.cur.cls, o)

    def call(self, st, f, args, kw, node):
        if f.op == "ite":
            c = f.args[0]
            s1, s2 = st.clone(), st.clone()
            s1.path += (c,)
            s2.path += (not_(c),)
            s1.learn(c)
            s2.learn(c, False)
            try:
                a = self.call(s1, f.args[1], args, kw, node)
            except Dead:
                a = None
            try:
                b = self.call(s2, f.args[2], args, kw, node)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            if a is None or b is None:
                x = s1 if b is None else s2
                x.path = st.path
                st.take(x)
                return a if b is None else b
            m = self.merge(c, s1, s2)
            m.path, m.facts, m.asserts = st.path, st.facts, st.asserts
            st.take(m)
            return ite(c, a, b)
        if f.op == "bound":
            fn, me = f.args
            if fn.op == "fn":
                cl = self.closures[fn.args[0]]
                if me.op == "obj":
                    con = self.contract(st, cl, me)
                    if con is not None:
                        return con(st, me, args, kw, node)
            return self.call(st, fn, [me] + list(args), kw, node)
        if f.op == "partial":
            k2 = dict(f.args[2])
            k2.update(kw)
            return self.call(st, f.args[0], list(f.args[1]) + list(args), k2, node)
        if f.op == "fn":
            cl = self.closures[f.args[0]]
            h = self.hooks.get(cl.qual)
            if h is not None:
                return h(self, st, args, kw, node)
            if args and cl.cls and args[0].op == "obj":
                con = self.contract(st, cl, args[0])
                if con is not None:
                    return con(st, args[0], list(args[1:]), kw, node)
            if self.is_generator(cl.node):
                return mk("gen", (self.ctx, self.nid(node)), f, (tuple(args), tuple(sorted(kw.items()))), node)
            return self.invoke(st, f, cl, args, kw, node)
        if f.op == "cls":
            return self.instantiate(st, f.args[0], args, kw, node)
        if f.op in ("ext",):
            return self.lib.call_ext(st, f.args[0], args, kw, node)
        if f.op == "extm":
            return self.lib.call_method(st, f.args[0], f.args[1], args, kw, node)
        if f.op == "obj":
            c = self.cell(st, f)
            if c.kind == "inst" and c.cls and c.cls.startswith("hpelm"):
                m = self.prog.method(c.cls, "__call__")
                if m:
                    return self.call_repo(st, m, [f] + list(args), kw, node)
            return self.lib.call_method(st, f, "__call__", args, kw, node)
        if f.op == "sym" and t.ATTR.get(f.args[0], {}).get("kind") == "ufunc":
            return mk("ufapp", f, *[self.D(st, a) for a in args])
        self.record("Call", st, node, name="?", f=f, args=tuple(args), kw=dict(kw))
        return mk("call", "?", f, tuple(self.D(st, a) for a in args), tuple(sorted((k, self.D(st, v)) for k, v in kw.items())), self.key(node), self.its())

    def contract(self, st, cl, me):
        if not self.abstract_solver or not cl.cls:
            return None
        c = self.cell(st, me)
        if c is None or c.kind != "inst" or not c.cls or BASE_SOLVER not in self.prog.mro(c.cls):
            return None
        return self.lib.solver_contract(cl.node.name, cl)

    def is_generator(self, node):
        r = getattr(node, "_isgen", None)
        if r is None:
            r = False
            if not isinstance(node, ast.Lambda):
                stack = list(node.body)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        r = True
                        break
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    stack.extend(ast.iter_child_nodes(x))
            node._isgen = r
        return r

    def call_repo(self, st, m, args, kw, node):
        f = self.methodref(m)
        return self.call(st, f, args, kw, node)

    def instantiate(self, st, qual, args, kw, node):
        ref = self.alloc_inst(st, qual, {}, node, extra="new")
        m = self.prog.method(qual, "__init__")
        self.record("New", st, node, cls=qual, args=tuple(self.snapshot(st, a) for a in args), kw={k: self.snapshot(st, v) for k, v in kw.items()}, obj=ref)
        if m is not None:
            self.invoke(st, self.methodref(m), self.closures[self.methodref(m).args[0]], [ref] + list(args), kw, node)
        if self.abstract_solver and BASE_SOLVER in self.prog.mro(qual):
            self.lib.init_solver(st, ref)
        return ref

    def bind_args(self, st, cl, args, kw, node):
        a = cl.node.args
        defaults, kwd = cl.defaults, cl.kwdefaults
        if defaults is None:        # module-level function or method: defaults evaluated in module scope
            defaults = tuple(self.module_value(cl.module, d, "default") for d in a.defaults)
            kwd = tuple(self.module_value(cl.module, d, "default") if d is not None else None for d in a.kw_defaults)
        pos = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        kw = dict(kw)
        bad = None
        for n, v in zip(pos, args):
            fr[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                bad = "too many positional arguments (%d for %d)" % (len(args), len(pos))
        if a.vararg is not None:
            fr[a.vararg.arg] = mk("tuple", *args[len(pos):])
        for n in list(kw):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in fr:
                    bad = "argument %s given twice" % n
                fr[n] = kw.pop(n)
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            fr.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, kwd):
            if d is not None:
                fr.setdefault(x.arg, d)
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc_dict(st, [(C(k), v) for k, v in kw.items()], node, extra="kwargs")
        elif kw:
            bad = "unexpected argument %s" % sorted(kw)[0]
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in fr]
        if missing:
            bad = "missing argument %s" % missing[0]
        if bad:
            self.record("BadCall", st, node, qual=cl.qual, why=bad)
            raise Dead()
        return fr

    def invoke(self, st, f, cl, args, kw, node, generator=False):
        if len(self.stack) > 40 or sum(1 for s in self.stack if s == cl.qual) >= 3:
            return self.unk("recursion in " + cl.qual, node)
        saved_cell = self.cur, self.fid, self.ctx
        ctx = self.ctx + (("c", self.nid(node)),)
        fr = self.bind_args(st, cl, list(args), kw, node)
        fid = ("F", ctx, cl.qual)
        n = 0
        while fid in st.frames:
            n += 1
            fid = ("F", ctx, cl.qual, n)
        fr["<parent>"] = cl.parent
        st.frames[fid] = fr
        path0 = st.path
        self.record("Enter", st, node, qual=cl.qual, args={k: v for k, v in fr.items() if isinstance(v, T)})
        self.stack.append(cl.qual)
        self.cur, self.fid, self.ctx = cl, fid, ctx
        base, self.base = self.base, len(self.loops)
        try:
            if isinstance(cl.node, ast.Lambda):
                v = self.ev(cl.node.body, st)
                ends = [(v, st)]
            else:
                for h in [self.hooks.get("enter:" + cl.qual)]:
                    if h:
                        h(self, st, fr)
                o = self.block(cl.node.body, st)
                ends = list(o.rets)
                if o.fall is not None:
                    ends.append((NONE, o.fall))
        finally:
            self.cur, self.fid, self.ctx = saved_cell
            self.base = base
            self.stack.pop()
        if not ends:
            raise Dead()
        val, cur = ends[-1]
        np0 = len(path0)
        for v, s in reversed(ends[:-1]):
            c = and_(*s.path[np0:])
            c2 = and_(*cur.path[np0:])
            if v is not val and (v.op in ("obj", "view") or val.op in ("obj", "view")) and v.op != val.op:
                v = self.D(s, v) if v.op in ("obj", "view") and self.isarr(s, v) else v
                val = self.D(cur, val) if val.op in ("obj", "view") and self.isarr(cur, val) else val
            cur = self.merge(c, s, cur)
            cur.path = path0
            val = ite(c, v, val)
        cur.path = path0
        if not self.captured(fid, cur):
            cur.frames.pop(fid, None)
        if cur is not st:
            st.take(cur)
        self.record("Exit", st, node, qual=cl.qual, value=val)
        return val

    def isarr(self, st, v):
        if v.op == "view":
            return True
        c = self.cell(st, v)
        return c is not None and c.kind == "arr"

    def captured(self, fid, st):
        return any(c.parent == fid for c in self.closures.values())

    # ------------------------------------------------------------------ driver helpers
    def driver(self, st):
        self.fid = ("F", "driver")
        st.frames.setdefault(self.fid, {})
        self.cur = None

    def param(self, st, name, shape=None, tag=True, **attr):
        """a caller's array"""
        s = sym(name, kind="arr", shape=shape, **attr)
        k = ("param", name)
        st.heap[k] = Cell("arr", s, "param:" + name if tag else None)
        return mk("obj", k)
