"""Transfer functions of the library calls (numpy, scipy, PyTables, multiprocessing, fasteners, pycuda, builtins)."""
import ast
from fractions import Fraction
import terms as t
import dtypes
from terms import T, C, mk, NONE, TRUE, FALSE, ZERO, ONE, INF, ite, and_, or_, not_, sym, FULL

UNARY = {"exp": "exp", "tanh": "tanh", "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf", "log": "log", "log10": "log10",
         "log2": "log2", "sign": "sign", "rint": "rint", "sin": "sin", "cos": "cos", "round": "rint", "expm1": "expm1", "log1p": "log1p"}
FLOATS = ("float32", "float64", "double", "single", "float_", "float16", "longdouble", "half")
SMALL = ("int8", "uint8", "int16", "uint16")
INTS = ("int8", "int16", "int32", "int64", "intp", "uint8", "uint16", "uint32", "uint64", "int_", "intc", "long")
# values decided by the environment of the process (besides time.* and numpy.random.*, which have models of their own)
SOURCES = ("os.environ", "os.getenv", "os.getpid", "os.getppid", "os.getlogin", "os.urandom", "os.times", "os.cpu_count", "os.getcwd", "os.getloadavg",
           "time.", "datetime.", "random.", "secrets.", "uuid.", "socket.", "getpass.", "multiprocessing.cpu_count", "platform.node", "resource.", "builtins.hash")
SHAPED = ("zeros", "ones", "empty")


def num(v):
    return int(t.numval(v)) if t.isnum(v) and t.numval(v).denominator == 1 else None


def ext(name):
    return mk("ext", name)


class Lib(object):
    def __init__(self, I):
        self.I = I
        self.setrev = self.setused = False      # order in which elements of sets are listed
        self.dt = False              # keep dtype conversions (precision analysis)
        self.filesyms = {}           # path term -> (content term)
        self.existing = set()        # paths of files known to exist
        self.dkinds = {}             # name of a data symbol or path of a file -> kind of its numbers (default: numeric)
        self.unknown = set()
        self.mayalias = True        # conversions that may or may not copy: True = they alias, False = they copy

    # ------------------------------------------------------------------ operators
    def binop(self, st, op, a, b, node):
        """content level"""
        n = type(op).__name__
        if a.op == "dev" or b.op == "dev":
            x = a.args[0] if a.op == "dev" else a
            y = b.args[0] if b.op == "dev" else b
            return mk("dev", self.binop(st, op, x, y, node))
        if n == "Add":
            return t.add(a, b)
        if n == "Sub":
            return t.sub(a, b)
        if n == "Mult":
            return t.mul(a, b)
        if n == "Div":
            return t.div(a, b)
        if n == "FloorDiv":
            return t.floordiv(a, b)
        if n == "Mod":
            return t.mod(a, b)
        if n == "Pow":
            if t.isnum(b):
                return t.power(a, t.numval(b))
            return mk("powv", a, b)
        if n == "MatMult":
            return t.mm(a, b)
        if n == "BitAnd":
            return self.land(a, b)
        if n == "BitOr":
            return self.lor(a, b)
        if n == "BitXor":
            return not_(t.eq(a, b)) if t.isbool(a) else mk("xor", a, b)
        if n in ("LShift", "RShift"):
            if t.isnum(a) and t.isnum(b):
                return C(num(a) << num(b) if n == "LShift" else num(a) >> num(b))
            return mk(n.lower(), a, b)
        return self.I.unk("operator " + n, node)

    def land(self, a, b):
        if t.is_scalar(a) and t.is_scalar(b) and t.isbool(a) and t.isbool(b):
            return and_(a, b)
        return t.mul(self.boolarr(a), self.boolarr(b))

    def boolarr(self, a):
        return a if t.isbool(a) or (a.op == "poly") else not_(t.eq(a, ZERO))

    def lor(self, a, b):
        if t.is_scalar(a) and t.is_scalar(b) and t.isbool(a) and t.isbool(b):
            return or_(a, b)
        a, b = self.boolarr(a), self.boolarr(b)
        return t.sub(t.add(a, b), t.mul(a, b))

    def seqterm(self, st, v):
        """list content of a list value (or None)"""
        if v.op == "obj":
            c = self.I.cell(st, v)
            if c.kind == "list":
                return c.data
            return None
        if v.op in ("list", "concat", "Build", "Filter"):
            return v
        return None

    def binop_v(self, st, op, a, b, node):
        I = self.I
        n = type(op).__name__
        la, lb = self.seqterm(st, a), self.seqterm(st, b)
        if n == "Add" and la is not None and lb is not None:
            return I.alloc_list(st, self.concat(la, lb), node)
        if n == "Add" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        if n == "Add" and "tuple" in (a.op, b.op) and "ite" in (a.op, b.op):
            x, f = (b, lambda y: self.binop_v(st, op, a, y, node)) if b.op == "ite" else (a, lambda y: self.binop_v(st, op, y, b, node))
            leaves, todo = [], [x]
            while todo:
                y = todo.pop()
                todo += y.args[1:] if y.op == "ite" else ()
                leaves += [y] if y.op != "ite" else []
            if all(y is NONE or y.op == "tuple" for y in leaves):  # None + tuple has no value
                go = lambda y: ite(y.args[0], go(y.args[1]), go(y.args[2])) if y.op == "ite" else mk("undef", "TypeError") if y is NONE else f(y)
                return go(x)
        if n == "Mult" and (la is not None or lb is not None):
            l, k = (la, b) if la is not None else (lb, a)
            k = I.D(st, k)
            if l.op == "list" and num(k) is not None and 0 <= num(k) <= 64:
                return I.alloc_list(st, list(l.args) * num(k), node)
            if l.op == "list" and len(l.args) == 1:
                it = t.fresh_it()
                return I.alloc_list(st, t.close_binder("Build", it, (k, l.args[0])), node)
            return I.alloc_list(st, mk("repeat", l, k), node)
        if n == "Mult" and a.op == "tuple" and num(b) is not None:
            return mk("tuple", *(a.args * num(b)))
        ka, kb = t.kind(a), t.kind(b)
        if n == "Add" and (ka == "str" or kb == "str"):
            return self.strcat([a, b])
        if n == "Mod" and ka == "str":
            bb = self.I.D(st, b)
            if t.isstr(a) and t.isstr(bb) and a.args[1].replace("%%", "").count("%") == 1 and "%s" in a.args[1]:
                return C(a.args[1] % bb.args[1])
            if t.isstr(a):
                import names
                want = names.fmt_args(a.args[1])
                got = len(bb.args) if bb.op == "tuple" else 1 if bb is NONE or t.kind(bb) in ("str", "int", "num", "real", "bool") or t.isnum(bb) else None
                if want is not None and got is not None and want != got:
                    I.record("BadCall", st, node, qual="%", why="%d values for the %d places of %r" % (got, want, a.args[1]))
            return mk("fmt", a, self.fmtval(st, b))
        if n == "Mult" and (ka == "str" or kb == "str"):
            return mk("fmt", "repeat", a, b)
        if a.op == "obj" and I.cell(st, a).kind == "set" or (b.op == "obj" and I.cell(st, b).kind == "set"):
            return self.setop(st, {"BitAnd": "intersection", "BitOr": "union", "Sub": "difference", "BitXor": "symmetric_difference"}.get(n, n), a, b, node)
        A, B = I.D(st, a), I.D(st, b)
        for x in (A, B):
            if x is NONE:
                raise self.dead(st, node, "arithmetic on None")
        return self.binop(st, op, A, B, node)

    def dead(self, st, node, why):
        from interp import Dead
        self.I.record("TypeErr", st, node, why=why)
        return Dead()

    def fmtval(self, st, v):
        return mk("any", 0)

    def concat(self, a, b):
        parts = []
        for x in (a, b):
            for y in (x.args if x.op == "concat" else (x,)):
                if y.op == "list" and parts and parts[-1].op == "list":
                    parts[-1] = mk("list", *(parts[-1].args + y.args))
                elif y.op == "list" and not y.args and len(parts) > 0:
                    pass
                else:
                    parts.append(y)
        parts = [p for p in parts if not (p.op == "list" and not p.args)] or [mk("list")]
        return parts[0] if len(parts) == 1 else mk("concat", *parts)

    def strcat(self, parts):
        out = []
        for p in parts:
            for q in (p.args if p.op == "strcat" else (p,)):
                if t.isstr(q) and out and t.isstr(out[-1]):
                    out[-1] = C(out[-1].args[1] + q.args[1])
                elif t.isstr(q) and q.args[1] == "":
                    pass
                else:
                    out.append(q)
        if not out:
            return C("")
        return out[0] if len(out) == 1 else mk("strcat", *out)

    def setop(self, st, name, a, b, node):
        xa, xb = self.concrete_items(st, a), self.concrete_items(st, b)
        if xa is None or xb is None:
            return mk("call", "set." + name, (self.I.D(st, a), self.I.D(st, b)), (), self.I.key(node), self.I.its())
        xa = [self.I.D(st, x) for x in xa]
        xb = [self.I.D(st, x) for x in xb]

        def inn(x, ys):
            return or_(*[t.eq(x, y) for y in ys]) if ys else FALSE
        if all(self.isconst(x) for x in xa + xb):
            if name == "intersection":
                r = [x for x in xa if x in xb]
            elif name == "union":
                r = list(dict.fromkeys(xa + xb))
            elif name == "difference":
                r = [x for x in xa if x not in xb]
            else:
                r = [x for x in xa if x not in xb] + [x for x in xb if x not in xa]
            from interp import Cell
            return self.I.newref(st, Cell("set", tuple(dict.fromkeys(r))), node)
        if name == "intersection":
            return mk("symset", tuple((x, inn(x, xb)) for x in xa))
        return mk("call", "set." + name, tuple(xa), tuple(xb))

    def isconst(self, x):
        return x.op in ("const", "ext", "cls") or (x.op == "tuple" and all(self.isconst(y) for y in x.args))

    def compare(self, st, op, l, r, node):
        I = self.I
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            v = self.is_(st, l, r)
            return v if n == "Is" else not_(v)
        if n in ("In", "NotIn"):
            v = self.in_(st, l, r, node)
            return v if n == "In" else not_(v)
        a, b = I.D(st, l), I.D(st, r)
        if a.op == "dev":
            a = a.args[0]
        if b.op == "dev":
            b = b.args[0]
        if l.op == "obj" and I.cell(st, l).kind in ("inst", "dict", "set") and l is r:
            return TRUE if n in ("Eq", "LtE", "GtE") else FALSE
        if n in ("Eq", "NotEq"):
            v = self.eqv(st, a, b)
            return v if n == "Eq" else not_(v)
        if t.isstr(a) and t.isstr(b):
            x, y = a.args[1], b.args[1]
            return C({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n])
        if a is NONE or b is NONE:
            raise self.dead(st, node, "ordering None")
        if n == "Lt":
            return t.lt(a, b)
        if n == "LtE":
            return t.le(a, b)
        if n == "Gt":
            return t.lt(b, a)
        if n == "GtE":
            return t.le(b, a)
        return I.unk("compare", node)

    def eqv(self, st, a, b):
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[self.eqv(st, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "list" and b.op == "list":
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[self.eqv(st, x, y) for x, y in zip(a.args, b.args)]) if a.args else TRUE
        d1, d2 = self.dtcanon(a), self.dtcanon(b)
        if d1 is not None and d2 is not None:
            return C(d1 == d2)
        if a.op in ("shapeof",) and b.op == "tuple":
            return and_(t.eq(mk("ndim", a.args[0]), C(len(b.args))), *[t.eq(mk("dim", a.args[0], k), y) for k, y in enumerate(b.args)])
        if b.op in ("shapeof",) and a.op == "tuple":
            return self.eqv(st, b, a)
        return t.eq(a, b)

    def dtcanon(self, v):
        if v.op == "dtypeobj":
            return self.dtcanon(v.args[0])
        if v.op == "ext":
            n = v.args[0].split(".")[-1]
            if n in ("double", "float_", "float") and v.args[0].split(".")[0] in ("numpy", "builtins"):
                return "float64"
            if n == "single":
                return "float32"
            if n in FLOATS + INTS + ("int", "bool", "bool_", "object_"):
                return n
        return None

    def is_(self, st, l, r):
        if l is r:
            return TRUE
        for a, b in ((l, r), (r, l)):
            if a is NONE:
                if b.op == "obj" or b.op in ("view", "tuple", "list", "fn", "bound", "node", "ext", "cls"):
                    return FALSE
                return t.eq(NONE, b)
            if a is TRUE or a is FALSE:
                if t.isbool(b):
                    return b if a is TRUE else not_(b)
                if b.op == "obj":
                    return FALSE
                return t.eq(a, b)
        if l.op == "ite":
            return ite(l.args[0], self.is_(st, l.args[1], r), self.is_(st, l.args[2], r))
        if r.op == "ite":
            return self.is_(st, r, l)
        if l.op in ("ext", "cls", "obj") and r.op in ("ext", "cls", "obj"):
            return C(l is r)
        if l.op == "obj" or r.op == "obj":
            return FALSE
        return t.eq(l, r)

    def in_(self, st, l, r, node):
        I = self.I
        l = I.D(st, l)
        if t.isstr(r):
            return C(l.args[1] in r.args[1]) if t.isstr(l) else mk("in", l, r)
        its = self.concrete_items(st, r)
        if its is not None:
            if r.op == "obj" and I.cell(st, r).kind == "dict":
                its = [k for k, v in I.cell(st, r).data if v.op != "missing"]
                mays = [and_(not_(t.eq(v.args[0] if False else NONE, NONE)), FALSE) for k, v in ()]
            return or_(*[self.eqv(st, l, I.D(st, x)) for x in its]) if its else FALSE
        if r.op == "symset":
            return or_(*[and_(c, t.eq(l, x)) for x, c in r.args[0]])
        rr = I.D(st, r)
        if t.isstr(l) and rr.op == "ite":
            return ite(rr.args[0], self.in_(st, l, rr.args[1], node), self.in_(st, l, rr.args[2], node))
        return mk("in", l, rr)

    # ------------------------------------------------------------------ indexing
    def to_sels(self, st, idx, content):
        """index value -> selectors, or None"""
        I = self.I
        items = idx.args if idx.op in ("itup", "tuple") else (idx,)
        out = []
        nd = t.ndim(content)
        arrs = 0
        for k, x in enumerate(items):
            v = I.D(st, x) if x.op != "slice" else x
            if v.op == "dev":
                v = v.args[0]
            if v.op == "slice":
                out.append(("slice", v.args[0], v.args[1], v.args[2]))
            elif v is NONE:
                return None
            elif t.isconst(v) and v.args[0] == "ellipsis":
                if nd is None:
                    if k == 0 and len(items) == 1:
                        out.append(FULL)
                        continue
                    return None
                out += [FULL] * (nd - (len(items) - 1))
            elif v.op == "ix":
                return tuple(("idx", a) for a in v.args)
            elif v.op == "diagidx":
                return (("diag",),)
            elif v.op == "pair":
                return None
            elif t.isbool(v) and not t.is_scalar(v) or (v.op == "poly" and t.ndim(v) and all(t.isbool(a) for m, _ in v.args[0] for a, _e in m)):
                if (t.ndim(v) or 1) != 1:
                    return None
                out.append(("idx", mk("nz", v, ZERO)))
                arrs += 1
            elif v.op in ("list", "Build", "concat", "Filter", "arange", "nz", "store") or t.islist(v) or (t.ndim(v) or 0) >= 1:
                if (t.ndim(v) or 1) > 1:
                    return None
                out.append(("idx", v))
                arrs += 1
            elif v.op == "range":
                out.append(("idx", v))
                arrs += 1
            elif v.op in ("unk", "opq") or (t.shape(v) is None and not t.is_scalar(v) and self.I_isarr(v)):
                out.append(("idx", v))
                arrs += 1
            else:
                out.append(("int", v))
        if arrs > 1:
            return None
        if any(s[0] == "slice" and s[1] is NONE and s[2] is NONE and s[3] is NONE for s in out):
            out = [FULL if s[0] == "slice" and s[1] is NONE and s[2] is NONE and s[3] is NONE else s for s in out]
        return tuple(out)

    def whole_store(self, st, idx, val, content):
        """A[mask] = scalar for a mask of the shape of A; A[rows, columns] = v"""
        vs = [self.I.D(st, x) for x in (idx.args if idx.op in ("itup", "tuple") else (idx,))]
        if len(vs) == 1 and t.ndim(vs[0]) == 2 and t.ndim(content) == 2 and t.is_scalar(val):
            return lambda o: mk("where3", self.boolarr(vs[0]), val, o)
        if len(vs) == 2 and all(t.ndim(v) == 1 and not t.isbool(v) for v in vs) and (t.is_scalar(val) or t.ndim(val) == 1):
            return lambda o: mk("ptstore", o, val, *vs)
        return None

    def I_isarr(self, v):
        from interp import arrayish
        return arrayish(v) or v.op in ("rank", "call", "elem")

    def getitem(self, st, b, idx, node):
        I = self.I
        if b.op == "ite":
            return I.either(st, b, lambda v: self.getitem(st, v, idx, node))
        if b.op == "obj":
            c = I.cell(st, b)
            if c.kind == "dict":
                return self.dict_get(st, b, I.D(st, idx), node)
            if c.kind == "list":
                return self.list_get(st, b, c.data, idx, node)
            if c.kind == "inst":
                if c.cls and c.cls.startswith("hpelm"):
                    m = I.prog.method(c.cls, "__getitem__")
                    if m:
                        return I.call_repo(st, m, [b, idx], {}, node)
                return I.unk("item of " + str(c.cls), node)
        if b.op == "dictv":
            k = I.D(st, idx)
            for a, v in b.args[0]:
                if a is k:
                    return v
            if all(self.isconst(a) for a, v in b.args[0]) and not self.isconst(k):
                r = I.unk("dict item", node)
                for a, v in reversed(b.args[0]):
                    r = ite(t.eq(k, a), v, r) if r.op != "unk" else v
                return r
            return I.unk("dict item", node)
        if b.op in ("list", "concat", "Build", "Filter", "tuple", "zip", "enumerate", "range", "split", "nz2", "reversed"):
            if b.op == "tuple" and idx.op == "slice" and all(x is NONE or num(x) is not None for x in idx.args):
                q = [None if x is NONE else num(x) for x in idx.args]
                return mk("tuple", *b.args[slice(*q)])
            return self.list_get(st, b, b, idx, node)
        if b.op == "shapeof":
            k = I.D(st, idx)
            if num(k) is not None:
                n = num(k)
                return mk("dim", b.args[0], n)
            return I.unk("shape item", node)
        if t.kind(b) == "str":
            if t.isstr(b) and idx.op == "slice" and all(x is NONE or num(x) is not None for x in idx.args):
                q = [None if x is NONE else num(x) for x in idx.args]
                return C(b.args[1][slice(*q)])
            return mk("strsel", b, idx)
        if b.op == "node":
            I.record("NodeRead", st, node, node=b, idx=idx, path=self.node_path(st, b), open=self.node_open(st, b))
            content = self.node_content(st, b)
            return self.arr_get(st, None, content, idx, node)
        if b.op == "fld" or b.op == "sym" and t.ATTR.get(b.args[0], {}).get("kind") == "dict":
            return mk("fld", b, t.show(I.D(st, idx)))
        if b is NONE:
            raise self.dead(st, node, "subscript of None")
        content = I.D(st, b)
        if content is NONE:
            raise self.dead(st, node, "subscript of None")
        return self.arr_get(st, b if b.op in ("obj", "view") else None, content, idx, node)

    def arr_get(self, st, ref, content, idx, node):
        I = self.I
        if content.op == "dev":
            r = self.arr_get(st, None, content.args[0], idx, node)
            return mk("dev", r)
        if content.op in ("list", "concat", "Build", "tuple"):
            return self.list_get(st, content, content, idx, node)
        items = idx.args if idx.op in ("itup", "tuple") else (idx,)
        # new axes
        if any(x is NONE for x in items):
            rest = [x for x in items if x is not NONE]
            pos = [k for k, x in enumerate(items) if x is NONE]
            base = content
            if not all(self.fullslice(x) for x in rest):
                base = I.D(st, self.arr_get(st, ref, content, mk("itup", *rest), node))
                ref = None
            nd = t.ndim(base)
            if len(pos) == 1:
                if nd == 1 and (pos[0] >= 1) and len(items) >= 2 or (nd is None and pos[0] == 1 and len(items) == 2):
                    return mk("view", ref, ("col",)) if ref is not None else t.col(base)
                if nd == 1 and pos[0] == 0:
                    return mk("view", ref, ("row",)) if ref is not None else mk("row", base)
                if nd is None and pos[0] == 0:
                    return mk("row", base)
                if nd == 2 and pos[0] == 0:
                    return mk("stack1", base)
                if nd == 0:
                    return mk("stack1", base)
            return I.unk("new axis", node)
        sels = self.to_sels(st, idx, content)
        if sels is None:
            vs = [I.D(st, x) for x in items]
            if content.op == "ext" and content.args[0] in ("numpy.c_", "numpy.r_"):
                if all(v.op != "slice" for v in vs) and not any(t.isstr(v) for v in vs):
                    f = self.x_numpy_column_stack if content.args[0] == "numpy.c_" else self.x_numpy_concatenate
                    vs = [mk("list", v) if t.is_scalar(v) else v for v in vs]
                    return f(st, [mk("tuple", *vs)], {}, node)
            elif len(vs) == 2 and all(v.op != "slice" for v in vs):
                return mk("ptsel", content, *vs)
            if len(vs) == 1 and (t.ndim(vs[0]) or 0) == 2:
                if t.isbool(vs[0]) or vs[0].op == "poly":
                    return mk("masksel", content, vs[0])
                return mk("takend", content, vs[0])
            return I.unk("index form", node)
        if sels == (("diag",),):
            return mk("diagv", content)
        if ref is not None and all(s[0] in ("full", "slice", "int") for s in sels):
            nd = t.ndim(content)
            if nd is not None and sum(1 for s in sels if s[0] == "int") >= nd:
                return t.sel(content, sels)
            if nd is None and any(s[0] == "int" for s in sels):
                return t.sel(content, sels)
            return mk("view", ref, ("sels", sels))
        return t.sel(content, sels)

    def fullslice(self, x):
        return x.op == "slice" and all(a is NONE for a in x.args) or (t.isconst(x) and x.args[0] == "ellipsis")

    def dict_get(self, st, b, k, node, default=None):
        I = self.I
        pairs = I.cell(st, b).data
        for a, v in pairs:
            if a is k:
                if v.op == "missing":
                    continue
                if v.op == "ite" and any(x.op == "missing" for x in v.args[1:]):
                    v = v.args[2] if v.args[1].op == "missing" else v.args[1]
                return v
        if self.isconst(k) and all(self.isconst(a) for a, _ in pairs):
            if default is not None:
                return default
            I.record("KeyErr", st, node, key=k)
            from interp import Dead
            raise Dead()
        if pairs and all(self.isconst(a) for a, _ in pairs):
            r = pairs[-1][1]
            for a, v in reversed(pairs[:-1]):
                r = ite(t.eq(k, a), v, r)
            return r if default is None else ite(or_(*[t.eq(k, a) for a, _ in pairs]), r, default)
        return I.unk("dict item", node)

    def list_get(self, st, b, data, idx, node):
        I = self.I
        if idx.op == "slice":
            if data.op in ("list", "tuple") and all(x is NONE or num(x) is not None for x in idx.args):
                q = [None if x is NONE else num(x) for x in idx.args]
                r = data.args[slice(*q)]
                return mk("tuple", *r) if data.op == "tuple" else I.alloc_list(st, list(r), node)
            if data.op == "range":
                data = self.range_build(data)
            r = t.sel(data, (("slice",) + idx.args,))
            return I.alloc_list(st, r, node) if data.op != "nz2" else r
        i = I.D(st, idx)
        if data.op in ("list", "tuple") and num(i) is not None:
            if -len(data.args) <= num(i) < len(data.args):
                return data.args[num(i)]
            raise self.dead(st, node, "list index")
        if data.op in ("list", "tuple") and 0 < len(data.args) <= 16 and not num(i) and t.isint(i):
            r = data.args[-1]
            for k in range(len(data.args) - 2, -1, -1):
                r = ite(t.eq(i, C(k)), data.args[k], r)
            return r
        if num(i) is not None and num(i) < 0:
            n = t.length(data)
            i = t.add(n, i)
            if data.op == "concat" and data.args[-1].op == "list" and num(I.D(st, idx)) >= -len(data.args[-1].args):
                return data.args[-1].args[num(I.D(st, idx))]
        return t.elem(data, i)

    def range_build(self, r):
        a, b, s = r.args
        it = t.fresh_it()
        n = self.range_len(a, b, s)
        return t.close_binder("Build", it, (n, t.add(a, t.mul(s, it))))

    def range_len(self, a, b, s):
        if s is ONE:
            d = t.sub(b, a)
            return d if t.nonneg(d) else t.maximum(ZERO, d)
        if t.isnum(s) and t.numval(s) < 0:
            d = t.sub(a, b)
            s = t.neg(s)
        else:
            d = t.sub(b, a)
        n = t.ceildiv(d, s)
        return n if t.nonneg(d) else t.maximum(ZERO, n)

    def delitem(self, st, b, idx, node):
        I = self.I
        if b.op == "obj":
            c = I.cell(st, b)
            if c.kind == "dict":
                k = I.D(st, idx)
                st.heap[b.args[0]] = c.with_(tuple((a, v) for a, v in c.data if a is not k))
                return
            if c.kind == "list":
                if idx.op == "slice":
                    lo, hi, s = idx.args
                    d = c.data
                    if d.op == "list" and all(x is NONE or num(x) is not None for x in idx.args):
                        xs = list(d.args)
                        del xs[slice(*[None if x is NONE else num(x) for x in idx.args])]
                        st.heap[b.args[0]] = c.with_(mk("list", *xs))
                        return
                    st.heap[b.args[0]] = c.with_(mk("delslice", d, mk("tuple", lo, hi, s)))
                    return
                i = I.D(st, idx)
                if c.data.op == "list" and num(i) is not None:
                    xs = list(c.data.args)
                    del xs[num(i)]
                    st.heap[b.args[0]] = c.with_(mk("list", *xs))
                else:
                    st.heap[b.args[0]] = c.with_(mk("dellist", c.data, i))
                I.record("ListOp", st, node, how="del", ref=b, item=i, old=c.data)
                return
        I.gap("delete item", node)

    def list_append(self, st, l, v, node):
        I = self.I
        c = I.cell(st, l)
        I.record("ListOp", st, node, how="append", ref=l, item=I.snapshot(st, v), old=c.data)
        st.heap[l.args[0]] = c.with_(self.concat(c.data, mk("list", v)))

    def list_extend(self, st, l, v, node):
        I = self.I
        its = self.concrete_items(st, v)
        c = I.cell(st, l)
        if its is not None:
            st.heap[l.args[0]] = c.with_(self.concat(c.data, mk("list", *its)))
        else:
            s = self.seqterm(st, v)
            st.heap[l.args[0]] = c.with_(self.concat(c.data, s if s is not None else mk("listof", I.D(st, v))))

    # ------------------------------------------------------------------ iteration
    def setorder(self, items):
        """the elements of a set in one of its orders"""
        if len(items) > 1:
            self.setused = True
        return list(items)[::-1] if self.setrev else list(items)

    def concrete_items(self, st, v):
        I = self.I
        if v.op == "obj":
            c = I.cell(st, v)
            if c.kind == "list" and c.data.op == "list":
                return list(c.data.args)
            if c.kind == "dict":
                return None if any(k.op == "unk" for k, _ in c.data) else [k for k, _ in c.data]
            if c.kind == "set":
                return None if any(k.op == "unk" for k in c.data) else self.setorder(c.data)
            if c.kind == "arr" and c.data.op == "list":
                return list(c.data.args)
            return None
        if v.op in ("tuple", "list"):
            return list(v.args)
        if v.op == "setv":
            return self.setorder(v.args[0])
        if v.op == "dictv":
            return [k for k, _ in v.args[0]]
        if v.op == "range":
            a, b, s = v.args
            if all(num(x) is not None for x in (a, b, s)) and num(s) != 0:
                r = range(num(a), num(b), num(s))
                return [C(k) for k in r] if len(r) <= 64 else None
            if s is ONE and num(t.sub(b, a)) is not None and num(t.sub(b, a)) <= 64:
                return [t.add(a, C(k)) for k in range(max(0, num(t.sub(b, a))))]
            return None
        if v.op == "zip":
            xs = [self.concrete_items(st, x) for x in v.args]
            if all(x is not None for x in xs):
                return [mk("tuple", *z) for z in zip(*xs)]
            if any(x is not None for x in xs):
                n = min(len(x) for x in xs if x is not None)
                if n <= 8 and all(x is not None or self.I_isarr(self.I.D(st, y)) is False for x, y in zip(xs, v.args)):
                    pass
            return None
        if v.op == "enumerate":
            xs = self.concrete_items(st, v.args[0])
            if xs is None or num(v.args[1]) is None:
                return None
            return [mk("tuple", C(num(v.args[1]) + k), x) for k, x in enumerate(xs)]
        if v.op == "reversed":
            xs = self.concrete_items(st, v.args[0])
            return None if xs is None else list(reversed(xs))
        if v.op == "mapv":
            xs = self.concrete_items(st, v.args[1])
            if xs is None:
                return None
            return [self.I.call(st, v.args[0], [x], {}, v.args[2] if len(v.args) > 2 else ast.Pass()) for x in xs]
        if v.op == "view":
            d = I.D(st, v)
            return list(d.args) if d.op == "list" else None
        if v.op == "const" and v.args[0] == "str":
            return [C(ch) for ch in v.args[1]]
        if v.op == "itemsv":
            return list(v.args)
        if v.op == "arange" and num(v.args[0]) is not None and num(v.args[0]) <= 64:
            return [C(k) for k in range(num(v.args[0]))]
        return None

    def symbolic_iter(self, st, v, node):
        I = self.I
        if v.op == "zip":
            subs = [self.symbolic_iter(st, x, node) for x in v.args]
            ns = []
            for s in subs:
                if s[0] is not None and s[0] not in ns:
                    ns.append(s[0])
            n = ns[0] if len(ns) == 1 else (t.minimum(*ns) if ns else None)
            return n, lambda i, x: mk("tuple", *[s[1](i, x) for s in subs])
        if v.op == "enumerate":
            n, g = self.symbolic_iter(st, v.args[0], node)
            return n, lambda i, x: mk("tuple", t.add(i, v.args[1]), g(i, x))
        if v.op == "reversed":
            n, g = self.symbolic_iter(st, v.args[0], node)
            return n, lambda i, x: g(t.sub(t.sub(n, ONE), i), x)
        if v.op == "range":
            a, b, s = v.args
            return self.range_len(a, b, s), lambda i, x: t.add(a, t.mul(s, i))
        if v.op == "countv":
            return None, lambda i, x: t.add(v.args[0], t.mul(v.args[1], i))
        if v.op == "iterfn":
            return None, lambda i, x: I.call(x, v.args[0], [], {}, node)
        if v.op == "csvrow":
            return self.ncols(v), lambda i, x: mk("csvcell", v, i)
        if v.op == "csvrows":
            return mk("nlines", v.args[0], v.args[1]), lambda i, x: mk("csvrow", v.args[0], t.add(v.args[1], i))
        if v.op == "textfile":
            return mk("nlines", v.args[0], ZERO), lambda i, x: mk("line", v.args[0], i)
        if v.op in ("obj", "view"):
            c = I.cell(st, v) if v.op == "obj" else None
            if c is not None and c.kind == "inst":
                if c.cls == "ext:File":
                    pos = c.data.get("pos", ZERO)
                    p = c.data["path"]


                    def line(i, x):
                        I.setfield(x, v, "pos", t.add(t.add(pos, i), ONE))
                        return mk("line", p, t.add(pos, i))
                    return mk("nlines", p, pos), line
                if c.cls == "ext:csv":
                    f = c.data["file"]
                    fc = I.cell(st, f)
                    p, pos = fc.data["path"], fc.data.get("pos", ZERO)
                    dl = c.data["delim"]

                    def row(i, x):
                        I.setfield(x, f, "pos", t.add(t.add(pos, i), ONE))
                        return mk("csvrow", p, t.add(pos, i), dl)
                    return mk("nlines", p, pos), row
            d = I.D(st, v)
            base = v

            def get(i, x, base=base):
                cur = I.D(x, base)
                if t.ndim(cur) is not None and t.ndim(cur) > 1 and base.op in ("obj", "view"):
                    return mk("view", base, ("sels", (("int", i),)))
                return t.elem(cur, i)
            return t.length(d), get
        if v.op == "node":
            content = self.node_content(st, v)
            I.record("NodeRead", st, node, node=v, idx=mk("slice", NONE, NONE, NONE), path=self.node_path(st, v), open=self.node_open(st, v), by="rows")
            return t.length(content), lambda i, x: t.elem(content, i)
        if v.op == "split":
            return v.args[1], lambda i, x: t.elem(v, i)
        if v.op == "mapv":
            n, g = self.symbolic_iter(st, v.args[1], node)
            return n, lambda i, x: I.call(x, v.args[0], [g(i, x)], {}, node)
        if v.op in ("neuronsv", "sym", "fld", "elem", "call", "addn", "prunedn"):
            return t.length(v), lambda i, x: mk("elem", v, i) if t.kind(v) != "arr" else t.elem(v, i)
        if v.op == "symset":
            I.gap("iteration over symbolic set", node)
            return mk("trip", 0, I.its()), lambda i, x: mk("elem", v, i)
        if v.op == "unk":
            return mk("len", v), lambda i, x: mk("unk", "item", v, i)
        return t.length(v), lambda i, x: t.elem(v, i)

    # ------------------------------------------------------------------ context managers
    def ctx_enter_exit(self, st, v, node):
        I = self.I
        if v.op == "obj" and I.cell(st, v).kind == "inst":
            c = I.cell(st, v)
            if c.cls in ("ext:H5File", "ext:File"):
                return v, lambda s: self.close_file(s, v, node, quiet=c.cls == "ext:File")
            if c.cls == "ext:Lock":
                self.acquire(st, v, node, "with")
                return v, lambda s: self.release(s, v, node)
            if c.cls and c.cls.startswith("hpelm"):
                m = I.prog.method(c.cls, "__enter__")
                ent = I.call_repo(st, m, [v], {}, node) if m else v
                mx = I.prog.method(c.cls, "__exit__")
                return ent, lambda s: I.call_repo(s, mx, [v, NONE, NONE, NONE], {}, node) if mx else None
            if c.cls == "ext:closing":
                x = c.data["thing"]
                return x, lambda s: self.call_method(s, x, "close", [], {}, node)
            if c.cls == "ext:nullcontext":
                return c.data["thing"], lambda s: None
        if v.op == "call":
            return v, lambda s: None
        I.gap("context manager", node)
        return v, lambda s: None

    def acquire(self, st, v, node, how="call"):
        p = self.I.field(st, v, "path")
        self.I.record("Acquire", st, node, path=p, how=how)
        st.locks = st.locks + (p,)

    def release(self, st, v, node):
        p = self.I.field(st, v, "path")
        self.I.record("Release", st, node, path=p, openfiles=self.open_files(st))
        l = list(st.locks)
        if p in l:
            l.reverse()
            l.remove(p)
            l.reverse()
        st.locks = tuple(l)

    # ------------------------------------------------------------------ attributes
    def ext_getattr(self, st, b, c, name, node):
        if c.cls == "ext:H5File":
            if name == "root":
                return mk("h5root", b)
            if name in ("filename", "mode", "isopen"):
                return {"filename": c.data["path"], "mode": c.data["mode"], "isopen": c.data["open"]}[name]
        if c.cls == "ext:Process" and name in ("daemon",):
            return c.data.get("daemon", FALSE)
        if c.cls == "ext:Filters" or c.cls == "ext:Atom":
            return mk("call", c.cls + "." + name, tuple(v for _, v in sorted(c.data.items())), ())
        return mk("extm", b, name)

    def ext_setattr(self, st, b, name, v, node):
        I = self.I
        c = I.cell(st, b)
        I.setfield(st, b, name, v)

    def node_setattr(self, st, b, name, v, node):
        I = self.I
        I.record("AttrWrite", st, node, path=self.node_path(st, b.args[0]), name=name, value=I.D(st, v), open=self.node_open(st, b.args[0]))
        k = ("file", self.node_path(st, b.args[0]))
        self.file_cell(st, self.node_path(st, b.args[0]))
        c = st.heap[k]
        d = dict(c.data)
        d["attr:" + name] = I.snapshot(st, v)
        st.heap[k] = c.with_(d)

    DTY = {"T", "shape", "dtype", "size", "ndim", "astype", "copy", "sum", "mean", "argmax"}

    def builtin_attr(self, st, b, name, node):
        I = self.I
        if b is NONE:
            if name.startswith("__"):
                return mk("extm", b, name)
            raise self.dead(st, node, "attribute %s of None" % name)
        if b.op == "obj" and I.cell(st, b).kind in ("list", "dict", "set"):
            return mk("extm", b, name)
        if b.op == "h5root":
            if name.startswith("_"):
                return mk("extm", b, name)
            return mk("node", b.args[0])
        if b.op == "node":
            if name == "shape":
                s = t.shape(self.node_content(st, b))
                return mk("tuple", *s) if s is not None else mk("shapeof", self.node_content(st, b))
            if name == "attrs":
                return mk("nattrs", b)
            if name == "dtype":
                return mk("dtypeobj", mk("fdtype", self.node_path(st, b)))
            if name == "chunkshape":
                return mk("tuple", sym("chunk0:" + t.show(self.node_path(st, b)), kind="int", pos=True), sym("chunk1", kind="int", pos=True))
            if name == "nrows":
                return t.rows(self.node_content(st, b))
            if name == "ndim":
                return C(t.ndim(self.node_content(st, b)) or 2)
            if name == "size":
                s = t.shape(self.node_content(st, b))
                return t.mul(s[0], s[1])
            return mk("extm", b, name)
        if b.op == "nattrs":
            if name.startswith("_"):
                return mk("extm", b, name)
            return self.node_getattr(st, b.args[0], name)
        if b.op == "gnode":
            return mk("extm", b, name)
        if b.op == "dtypeobj" or b.op == "ext" and self.dtcanon(b):
            if name in ("type",):
                return b.args[0] if b.op == "dtypeobj" else b
            if name == "kind":
                x = b.args[0] if b.op == "dtypeobj" else b
                for y in t.subterms(x) if self.dkinds else ():
                    k = y.args[0] if y.op == "sym" else y.args[1] if t.isstr(y) else None
                    if k in self.dkinds:
                        return C(self.dkinds[k])
                return mk("dkind", x)
            if name in ("eps", "itemsize", "name", "char", "str"):
                return mk("call", "dtype." + name, (b,), ())
            return mk("extm", b, name)
        if b.op in ("finfo", "iinfo"):
            return sym("%s:%s" % (name, t.show(b.args[0])), kind="num", pos=name in ("eps", "tiny", "max"))
        if t.kind(b) == "str" or b.op in ("tuple", "fn", "bound", "cls", "range", "zip"):
            if name == "__name__":
                return mk("any", 1)
            return mk("extm", b, name)
        content = I.D(st, b)
        dev = content.op == "dev"
        x = content.args[0] if dev else content
        if name == "T":
            if b.op in ("obj", "view"):
                return mk("view", b, ("T",)) if not dev else mk("dev", t.transpose(x))
            return t.transpose(x)
        if name == "shape":
            s = t.shape(x)
            return mk("tuple", *s) if s is not None else mk("shapeof", x)
        if name == "dtype":
            return mk("dtypeobj", mk("adtype", x))
        if name == "size":
            s = t.shape(x)
            if s is None:
                return t.length(x) if t.ndim(x) == 1 else mk("nelem", x)
            return t.size_of(s, NONE)
        if name == "ndim":
            n = t.ndim(x)
            return C(n) if n is not None else mk("ndim", x)
        if name == "flat":
            return mk("ravel", x) if t.ndim(x) != 1 else x
        if name in ("real",):
            return b
        if name in ("_block", "gpudata", "ptr", "_grid"):
            return mk("devattr", b, name)
        if b.op == "obj" or b.op == "view" or I_arr(b):
            return mk("extm", b, name)
        if b.op == "unk":
            return mk("extm", b, name)
        return mk("extm", b, name)

    def node_getattr(self, st, node, name):
        p = self.node_path(st, node)
        c = self.file_cell(st, p)
        v = c.data.get("attr:" + name)
        if v is None:
            v = sym("attr:%s:%s" % (name, t.show(p)))
        return v

    # ------------------------------------------------------------------ HDF5 files
    def file_cell(self, st, p):
        from interp import Cell
        k = ("file", p)
        if k not in st.heap:
            st.heap[k] = Cell("inst", {"content": self.default_content(p)}, None, "file")
        return st.heap[k]

    def default_content(self, p):
        if p in self.filesyms:
            return self.filesyms[p]
        n = t.show(p)
        r = sym("file:" + n, kind="arr", shape=(sym("rows:" + n, kind="int", pos=True), sym("cols:" + n, kind="int", pos=True)))
        self.filesyms[p] = r
        return r

    def node_path(self, st, node):
        if node.op == "node" and node.args[0].op == "obj":
            return self.I.field(st, node.args[0], "path")
        return node

    def node_open(self, st, node):
        if node.op == "node" and node.args[0].op == "obj":
            return self.I.field(st, node.args[0], "open")
        return TRUE

    def node_content(self, st, node):
        if node.args[0].op != "obj":
            return node.args[0]
        return self.file_cell(st, self.node_path(st, node)).data["content"]

    def node_store(self, st, node, sels, val, at):
        I = self.I
        p = self.node_path(st, node)
        c = self.file_cell(st, p)
        old = c.data["content"]
        if val.op == "dev":
            val = val.args[0]
        new = I.store_term(old, sels, val) if sels is not None else mk("unk", "file store", old, val)
        I.record("Store", st, at, ref=node, tag="file", sels=sels, value=val, path=p, open=self.node_open(st, node), old=old, new=new)
        d = dict(c.data)
        d["content"] = new
        st.heap[("file", p)] = c.with_(d)

    def open_files(self, st):
        out = []
        for k, c in st.heap.items():
            if c.kind == "inst" and c.cls == "ext:H5File" and c.data.get("open") is not FALSE:
                out.append((k, c.data["path"], c.data["mode"], c.data.get("open")))
        return tuple(out)

    def open_file(self, st, args, kw, node):
        I = self.I
        p = I.D(st, args[0] if args else kw.get("filename", NONE))
        mode = I.D(st, args[1] if len(args) > 1 else kw.get("mode", C("r")))
        ref = I.alloc_inst(st, "ext:H5File", {"path": p, "mode": mode, "open": TRUE}, node)
        I.record("Open", st, node, path=p, mode=mode, ref=ref)
        if mode is C("w"):
            from interp import Cell
            st.heap[("file", p)] = Cell("inst", {"content": mk("emptyfile", p)}, None, "file")
        elif mode.op == "const":
            self.file_cell(st, p)
        return ref

    def close_file(self, st, v, node, quiet=False):
        I = self.I
        I.record("Close", st, node, path=I.field(st, v, "path"), ref=v, was=I.field(st, v, "open"))
        I.setfield(st, v, "open", FALSE)

    # ------------------------------------------------------------------ calls
    def call_ext(self, st, d, args, kw, node):
        import front
        d = front.canon(d)
        h = getattr(self, "x_" + d.replace(".", "_"), None)
        if h is not None:
            return h(st, args, kw, node)
        mod, _, name = d.rpartition(".")
        I = self.I
        if d.startswith("numpy.") or d.startswith("pycuda.cumath") or d.startswith("scipy."):
            r = self.numpy(st, d, name, args, kw, node)
            if r is not None:
                return r
        if d.startswith(SOURCES):
            I.record("Source", st, node, name=d)
            return mk("call", d, tuple(self.plain(st, a) for a in args), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items())), I.key(node), I.its())
        self.unknown.add(d)
        A = tuple(self.plain(st, a) for a in args)
        K = tuple(sorted((k, self.plain(st, v)) for k, v in kw.items()))
        pure = d.split(".")[0] in ("numpy", "scipy", "math", "operator")
        if d.startswith("numpy.random") or d.startswith("random."):
            pure = False
        I.record("Call", st, node, name=d, args=A, kw=dict(K), raw=tuple(args))
        if d.startswith("builtins."):
            nm = d[9:]
            if nm in ("print", "input"):
                return NONE
            if nm[:1].isupper():      # exception constructors
                return mk("call", d, A, K)
        if pure:
            if any(v.op == "out" for v in ()):
                pass
            if "out" in kw:
                I.gap("out= of " + d, node)
            return mk("call", d, A, K)
        return mk("call", d, A, K, I.key(node), I.its())

    def plain(self, st, v):
        I = self.I
        if v.op == "obj":
            c = I.cell(st, v)
            if c is None:
                return v
            if c.kind == "arr":
                return c.data
            if c.kind == "list":
                return I.snapshot(st, c.data) if c.data.op in ("list", "concat", "Build") else c.data
            return v
        return I.D(st, v)

    def A(self, st, args, kw, names, content=True):
        """named arguments; content of arrays"""
        out = {}
        for n, a in zip(names, args):
            out[n] = a
        for k, v in kw.items():
            out[k] = v
        if content:
            return {k: self.und(self.I.D(st, v)) for k, v in out.items()}
        return out

    def und(self, v):
        return v.args[0] if v.op in ("dev", "b2i") else v

    def seq(self, st, v):
        """items of a list/tuple of arrays (contents) or None"""
        its = self.concrete_items(st, v)
        return None if its is None else [self.und(self.I.D(st, x)) for x in its]

    def castto(self, x, dt):
        """x converted to dtype dt"""
        c = self.dtcanon(dt) if dt is not None and isinstance(dt, T) else None
        if dt is None or dt is NONE:
            return x
        if t.isstr(dt):
            s = dt.args[1]
            c = "float64" if s in ("float", "float64", "double", "d", "f8") else "float32" if s in ("float32", "single", "f", "f4") else \
                "int" if s.startswith(("int", "i", "uint")) else "bool" if s == "bool" else None
            dt = ext("numpy." + c) if c and c.startswith("float") else dt
        if c == "float" or (dt.op == "ext" and dt.args[0] == "builtins.float"):
            c, dt = "float64", ext("numpy.float64")
        if c in SMALL and not t.isbool(x):
            return mk("cast", x, ext("numpy." + c))
        if c in ("int",) + INTS or (dt.op == "ext" and dt.args[0] == "builtins.int"):
            if t.isint(x) or self.intvals(x):
                return mk("cast", x, ext("int")) if self.dt else mk("b2i", x) if t.isbool(x) and not t.is_scalar(x) else x
            return mk("cast", x, ext("int"))
        if c in ("bool", "bool_"):
            return x if t.isbool(x) else not_(t.eq(x, ZERO))
        if self.dt:
            return mk("cast", x, dt)
        if c == "float16":
            return mk("cast", x, dt)
        return x

    def intvals(self, x):
        if x.op in ("arange", "nz", "argmax", "list", "range", "argmin", "argsort", "shuffled") or t.isbool(x):
            if x.op == "list":
                return all(t.isint(a) for a in x.args)
            return True
        return False

    def arr(self, st, v):
        """array content of anything array-like"""
        I = self.I
        its = self.concrete_items(st, v) if v.op in ("obj", "tuple", "list", "range") else None
        if its is not None:
            xs = [self.und(I.D(st, x)) for x in its]
            return mk("list", *[self.arr(st, x) if x.op in ("list", "tuple", "obj") else x for x in xs])
        d = self.und(I.D(st, v))
        if d.op == "range":
            a, b, s = d.args
            if a is ZERO and s is ONE:
                return mk("arange", b)
            return self.range_build(d)
        if d.op == "node":
            I.record("NodeRead", st, ast.Pass(), node=d, idx=mk("slice", NONE, NONE, NONE), path=self.node_path(st, d), open=self.node_open(st, d), by="whole")
            return self.node_content(st, d)
        if d.op == "Build" and t.is_scalar(d.args[2]):
            j, (n, body) = t.open_binder(d)
            return t.close_binder("Vec", j, (n, body))
        if d.op == "listof" and (t.kind(d.args[0]) == "arr" or (t.ndim(d.args[0]) or 0) >= 1):
            return d.args[0]
        return d

    def axis(self, v):
        if v is None or v is NONE:
            return NONE
        return v

    def outto(self, st, kw, val, node, how):
        o = kw.get("out")
        if o is not None and o is not NONE:
            if o.op == "tuple":
                o = o.args[0]
            cur = self.I.D(st, o)
            v = mk("dev", val) if cur.op == "dev" else val
            self.I.mutate(st, o, lambda old: v, node, how + " out=")
            return o
        return None

    def numpy(self, st, d, name, args, kw, node):
        I = self.I
        D = lambda v: self.und(I.D(st, v))
        anydev = any(I.D(st, a).op == "dev" for a in args if a.op in ("obj", "view", "dev"))
        if name in UNARY and len(args) >= 1:
            x = self.arr(st, args[0])
            r = mk(UNARY[name], x)
            if name == "isnan" and not t.contains(x, lambda y: True):
                r = FALSE
            if d.startswith("pycuda"):
                if self.outto(st, kw, r, node, name) is not None:
                    return kw["out"]
                if len(args) > 1:
                    return self.outto(st, {"out": args[1]}, r, node, name)
                return mk("dev", r)
            if self.outto(st, kw, r, node, name) is not None:
                return kw["out"]
            if len(args) == 2 and args[1].op in ("obj", "view"):
                return self.outto(st, {"out": args[1]}, r, node, name)
            return r
        B = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "floor_divide": ast.FloorDiv,
             "power": ast.Pow, "float_power": ast.Pow, "mod": ast.Mod, "remainder": ast.Mod, "bitwise_and": ast.BitAnd, "bitwise_or": ast.BitOr}
        if name in B:
            r = self.binop(st, B[name](), self.arr(st, args[0]), self.arr(st, args[1]), node)
            if len(args) > 2:
                kw = dict(kw, out=args[2])
            if self.outto(st, kw, r, node, name) is not None:
                return kw["out"]
            return r
        CMP = {"equal": ast.Eq, "not_equal": ast.NotEq, "less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE}
        if name in CMP:
            return self.compare(st, CMP[name](), self.arr(st, args[0]), self.arr(st, args[1]), node)
        if name == "logical_and":
            return self.land(self.arr(st, args[0]), self.arr(st, args[1]))
        if name == "logical_or":
            return self.lor(self.arr(st, args[0]), self.arr(st, args[1]))
        if name == "logical_not":
            return not_(self.boolarr(self.arr(st, args[0])))
        if name == "logical_xor":
            return not_(t.eq(self.boolarr(self.arr(st, args[0])), self.boolarr(self.arr(st, args[1]))))
        if name in ("negative",):
            return t.neg(self.arr(st, args[0]))
        if name in ("positive",):
            return self.arr(st, args[0])
        if name in ("abs", "absolute", "fabs"):
            r = mk("abs", self.arr(st, args[0]))
            return self.outto(st, kw, r, node, name) or r
        if name == "sqrt":
            r = t.power(self.arr(st, args[0]), Fraction(1, 2))
            return self.outto(st, kw, r, node, name) or r
        if name == "square":
            return t.power(self.arr(st, args[0]), 2)
        if name == "reciprocal":
            return t.div(ONE, self.arr(st, args[0]))
        if name in ("ceil", "floor", "trunc", "fix"):
            x = self.arr(st, args[0])
            if t.is_scalar(x):
                return t.ceil(x) if name == "ceil" else t.floor_(x)
            return mk("f" + name, x)
        if name in ("maximum", "fmax", "minimum", "fmin"):
            x, y = self.arr(st, args[0]), self.arr(st, args[1])
            if t.is_scalar(x) and t.is_scalar(y):
                return t.maximum(x, y) if "max" in name else t.minimum(x, y)
            if "max" in name:
                return mk("emax", *sorted((x, y), key=lambda q: q.id))
            return mk("emin", *sorted((x, y), key=lambda q: q.id))
        if name in ("dot", "matmul") and d.startswith("numpy"):
            r = t.mm(self.arr(st, args[0]), self.arr(st, args[1]))
            if len(args) > 2:
                kw = dict(kw, out=args[2])
            return self.outto(st, kw, r, node, name) or r
        if name in ("vdot", "inner"):
            a, b = self.arr(st, args[0]), self.arr(st, args[1])
            if t.ndim(a) == 1 and t.ndim(b) == 1:
                return t.mm(a, b)
            return mk("call", d, (a, b), ())
        if name in ("float64", "float32", "double", "single", "float16") and d.startswith("numpy"):
            return self.castto(self.arr(st, args[0]), ext(d)) if args else ZERO
        if name in INTS and d.startswith("numpy"):
            return self.x_builtins_int(st, args, kw, node)
        if name in ("bool_",):
            return I.truth(st, args[0])
        return None

    # ---- reductions
    def reduce_(self, st, kind_, x, ax, node, keep=False):
        if x.op == "list" and ax is NONE and kind_ in ("sum", "max", "min") and all(t.is_scalar(a) for a in x.args) and x.args:
            if kind_ == "sum":
                r = ZERO
                for a in x.args:
                    r = t.add(r, a)
                return r
            return t.maximum(*x.args) if kind_ == "max" else t.minimum(*x.args)
        n = t.ndim(x)
        if t.isnum(ax) and t.numval(ax) < 0 and n is not None:
            ax = t.add(C(n), ax)
        if n == 1 and ax is ZERO:
            ax = NONE
        if ax.op == "tuple":
            return mk("call", "reduce." + kind_, (x, ax), ())
        if kind_ == "sum":
            r = t.sum_(x, ax)
        elif kind_ == "mean":
            r = t.mean(x, ax)
        else:
            if kind_ in ("all", "any") and t.is_scalar(x):
                return x
            if kind_ in ("max", "min") and t.is_scalar(x):
                return x
            if kind_ in ("any", "all"):
                b = self.boolarr(x)
                if ax is NONE:
                    return t.pos(t.sum_(b, NONE)) if kind_ == "any" else not_(t.pos(t.sum_(t.sub(ONE, b), NONE)))
                kind_ += "ax"
                x = b
            r = mk(kind_, x, ax)
        if keep:
            if n == 2 and ax is ONE:
                return t.col(r)
            if n == 2 and ax is ZERO:
                return mk("row", r)
        return r

    def red(self, kind_):
        def h(st, args, kw, node):
            a = self.A(st, args[1:], kw, ["axis", "dtype", "out"])
            x = self.arr(st, args[0] if args else kw["a"])
            r = self.reduce_(st, kind_, x, self.axis(a.get("axis")), node, a.get("keepdims") is TRUE)
            return self.outto(st, kw, r, node, kind_) or r
        return h

    def __getattr__(self, name):
        if name.startswith("x_numpy_"):
            n = name[8:]
            R = {"sum": "sum", "mean": "mean", "average": "mean", "max": "max", "amax": "max", "min": "min", "amin": "min", "argmax": "argmax",
                 "argmin": "argmin", "std": "std", "var": "var", "all": "all", "any": "any", "prod": "prod", "cumsum": "cumsum", "median": "median"}
            if n in R:
                return self.red(R[n])
        raise AttributeError(name)

    def x_numpy_average(self, st, args, kw, node):
        a = self.A(st, args, kw, ["a", "axis", "weights"])
        if a.get("weights", NONE) is NONE:
            return self.reduce_(st, "mean", self.arr(st, args[0]), self.axis(a.get("axis")), node)
        x, w = self.arr(st, args[0]), a["weights"]
        if t.ndim(x) == 1:
            return t.div(t.sum_(t.mul(x, w), NONE), t.sum_(w, NONE))
        return mk("call", "numpy.average", (x, w, a.get("axis", NONE)), ())

    def x_numpy_count_nonzero(self, st, args, kw, node):
        x = self.arr(st, args[0])
        ax = kw.get("axis", args[1] if len(args) > 1 else NONE)
        return self.reduce_(st, "sum", self.boolarr(x), ax, node)

    def x_numpy_trace(self, st, args, kw, node):
        return t.sum_(mk("diagv", self.arr(st, args[0])), NONE)

    # ---- constructors
    def mkshape(self, st, v):
        its = self.concrete_items(st, v)
        if its is not None:
            return mk("tuple", *[self.I.D(st, x) for x in its])
        v = self.I.D(st, v)
        if v.op == "shapeof":
            return v
        return mk("tuple", v)

    def mkshaped(self, st, kind_, args, kw, node):
        a = self.A(st, args, kw, ["shape", "dtype"], content=False)
        sh = self.mkshape(st, a["shape"])
        if sh.op == "tuple" and NONE in sh.args:
            raise self.dead(st, node, "a dimension that is None")
        r = mk("zeros" if kind_ == "zeros" else kind_, sh) if sh.op == "tuple" else mk("call", "numpy." + kind_, (sh,), ())
        if kind_ == "empty":
            r = mk("zeros", sh)      # contents are arbitrary; used as zeros, uses of unset entries are flagged by the store analysis
        return self.withdt(r, a.get("dtype"))

    def keepdt(self, old, new):
        """an array changed in place keeps its element type"""
        if old is not new and old.op == "cast" and old.args[1].op == "ext" and old.args[1].args[0].rpartition(".")[2] in SMALL and not (new.op == "cast" and new.args[1] is old.args[1]):
            return mk("cast", new, old.args[1])
        if not self.dt or old is new:
            return new
        if old.op == "dev" and new.op == "dev":
            return mk("dev", self.keepdt(old.args[0], new.args[0]))
        inf = dtypes.Infer(self)
        a, b = inf(old), inf(new)
        if a != b and len(a) == 1 and a <= {"float32", "float64"}:
            return mk("cast", new, ext("numpy." + min(a)))
        return new

    def withdt(self, r, dtv):
        if self.dt:
            return mk("cast", r, dtv if dtv is not None and dtv is not NONE else ext("numpy.float64"))
        c = self.dtcanon(dtv) if dtv is not None else None
        return mk("cast", r, ext("numpy." + c)) if c in SMALL else r

    def x_numpy_zeros(self, st, args, kw, node):
        return self.mkshaped(st, "zeros", args, kw, node)

    def x_numpy_empty(self, st, args, kw, node):
        return self.mkshaped(st, "empty", args, kw, node)

    def x_numpy_ones(self, st, args, kw, node):
        return self.mkshaped(st, "ones", args, kw, node)

    def x_numpy_full(self, st, args, kw, node):
        a = self.A(st, args, kw, ["shape", "fill", "dtype"], content=False)
        sh = self.mkshape(st, a["shape"])
        v = self.I.D(st, a.get("fill", a.get("fill_value", ZERO)))
        if v is ZERO:
            return self.withdt(mk("zeros", sh), a.get("dtype"))
        return self.withdt(t.mul(mk("ones", sh), v), a.get("dtype"))

    def like(self, kind_):
        def h(st, args, kw, node):
            x = self.arr(st, args[0])
            s = t.shape(x)
            r = mk(kind_, mk("tuple", *s)) if s is not None else t.mul(ZERO if kind_ == "zeros" else ONE, x)
            return self.withdt(r, kw.get("dtype", mk("adtype", x)))
        return h

    def x_numpy_zeros_like(self, st, args, kw, node):
        return self.like("zeros")(st, args, kw, node)

    def x_numpy_empty_like(self, st, args, kw, node):
        return self.like("zeros")(st, args, kw, node)

    def x_numpy_ones_like(self, st, args, kw, node):
        return self.like("ones")(st, args, kw, node)

    def x_numpy_full_like(self, st, args, kw, node):
        return t.mul(self.like("ones")(st, args, kw, node), self.I.D(st, args[1]))

    def x_numpy_eye(self, st, args, kw, node):
        a = self.A(st, args, kw, ["N", "M", "k", "dtype"])
        n, m = a["N"], a.get("M", NONE)
        if m is NONE:
            m = n
        r = mk("eye", n) if n is m else mk("eyer", n, m)
        return self.withdt(r, a.get("dtype"))

    def x_numpy_identity(self, st, args, kw, node):
        a = self.A(st, args, kw, ["N", "dtype"])
        return self.withdt(mk("eye", a["N"]), a.get("dtype"))

    def x_numpy_arange(self, st, args, kw, node):
        a = [self.I.D(st, x) for x in args]
        if len(a) == 1:
            return mk("arange", a[0])
        lo, hi, s = a[0], a[1], (a[2] if len(a) > 2 else ONE)
        if lo is ZERO and s is ONE:
            return mk("arange", hi)
        its = self.concrete_items(st, mk("range", lo, hi, s))
        if its is not None:
            return mk("list", *its)
        it = t.fresh_it()
        return t.close_binder("Vec", it, (self.range_len(lo, hi, s), t.add(lo, t.mul(s, it))))

    def x_numpy_array(self, st, args, kw, node):
        I = self.I
        a = self.A(st, args, kw, ["object", "dtype"], content=False)
        src = a["object"]
        x = self.arr(st, src)
        dt = a.get("dtype")
        r = self.castto(x, dt) if dt is not None else x
        if kw.get("copy") is FALSE and src.op in ("obj", "view") and not self.copies(st, src, dt):
            return mk("view", src, ("same",))
        if r.op == "ite" or t.is_scalar(r) or True:
            return I.alloc_arr(st, r, node, extra="np.array") if self.arrish(r) else r
        return r

    def arrish(self, r):
        from interp import arrayish
        return arrayish(r) or r.op in ("list", "Build", "concat", "sym", "elem", "fld", "ite", "unk", "opq", "call", "poly", "Filter", "qget")

    def x_numpy_asarray(self, st, args, kw, node):
        src = args[0]
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        if src.op in ("obj", "view") and (src.op == "view" or self.I.cell(st, src).kind == "arr"):
            if dt is not None and self.castto(self.I.D(st, src), dt) is not self.I.D(st, src):
                return self.castto(self.I.D(st, src), dt)     # conversion may or may not copy
            if self.copies(st, src, dt):
                return self.I.alloc_arr(st, self.I.D(st, src), node, extra="asarray")
            return mk("view", src, ("same",))
        return self.x_numpy_array(st, args, kw, node)

    def copies(self, st, src, dt):
        """the worst case of a conversion that may or may not copy: depends on what the rule looks for"""
        if self.mayalias or dt is None:
            return False
        r = self.I.rootref(src) if hasattr(self.I, "rootref") else src
        while r.op == "view":
            r = r.args[0]
        tag = str(self.I.cell(st, r).tag) if r.op == "obj" else ""
        return tag.startswith("param") or tag == "param"

    x_numpy_asanyarray = x_numpy_asarray
    def x_numpy_ascontiguousarray(self, st, args, kw, node):
        if args[0].op in ("obj", "view") and self.copies(st, args[0], True):
            return self.I.alloc_arr(st, self.I.D(st, args[0]), node, extra="asarray")
        return self.x_numpy_asarray(st, args, kw, node)

    x_numpy_asfortranarray = x_numpy_ascontiguousarray
    x_numpy_require = x_numpy_ascontiguousarray
    x_numpy_asarray_chkfinite = x_numpy_asarray

    def x_numpy_atleast_2d(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if t.ndim(x) == 2:
            return args[0]
        if t.ndim(x) == 1:
            return mk("row", x)
        return mk("call", "numpy.atleast_2d", (x,), ())

    def x_numpy_atleast_1d(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if (t.ndim(x) or 0) >= 1:
            return args[0]
        return mk("list", x) if t.is_scalar(x) else mk("call", "numpy.atleast_1d", (x,), ())

    def x_numpy_copy(self, st, args, kw, node):
        return self.I.alloc_arr(st, self.arr(st, args[0]), node, extra="np.copy")

    def x_numpy_fromiter(self, st, args, kw, node):
        a = self.A(st, args, kw, ["it", "dtype"])
        v = args[0] if args else kw["iterable"]
        d = self.I.D(st, v)
        if d.op in ("csvrow",):
            p = d.args[0]
            ncols = sym("ncols:" + t.show(p), kind="int", pos=True)
            r = mk("numrow", d, ncols)
            return self.withdt(r, a.get("dtype"))
        return self.castto(self.arr(st, v), a.get("dtype"))

    # ---- structure
    def x_numpy_hstack(self, st, args, kw, node):
        xs = self.seq(st, args[0])
        if xs is None:
            return mk("hcat", self.I.snapshot(st, self.I.D(st, args[0])))
        if not xs:
            raise self.dead(st, node, "need at least one array to join")
        return self.hstack(xs)

    def hstack(self, xs):
        if len(xs) == 1:
            return xs[0]
        flat = []
        for x in xs:
            flat += list(x.args) if x.op == "hstack" else [x]
        if all(x.op == "list" for x in flat):
            return mk("list", *[a for x in flat for a in x.args])
        flat = [x for x in flat if not (x.op == "list" and not x.args)] or flat[:1]
        return flat[0] if len(flat) == 1 else mk("hstack", *flat)

    def vstack(self, xs):
        return xs[0] if len(xs) == 1 and t.ndim(xs[0]) == 2 else mk("vstack", *xs)

    def x_numpy_concatenate(self, st, args, kw, node):
        ax = self.I.D(st, kw.get("axis", args[1] if len(args) > 1 else ZERO))
        xs = self.seq(st, args[0])
        if xs is None:
            return mk("hcat" if ax is ONE else "cat", self.I.snapshot(st, self.I.D(st, args[0])))
        if not xs:
            raise self.dead(st, node, "need at least one array to join")
        if ax is ONE or num(ax) == -1 or all(t.ndim(x) == 1 or x.op in ("list", "Build", "arange", "nz") for x in xs):
            return self.hstack(xs)
        return self.vstack(xs)

    x_numpy_concat = x_numpy_concatenate

    def x_numpy_vstack(self, st, args, kw, node):
        xs = self.seq(st, args[0])
        if xs is None:
            q = self.I.snapshot(st, self.I.D(st, args[0]))
            if q.op in ("Build", "Vec"):
                nd = t.ndim(t.open_binder(q)[1][1])
                if nd == 1:
                    return self.x_numpy_array(st, [args[0]], {}, node)
                if nd == 2:
                    return mk("cat", q)
            return mk("vcat", q)
        if not xs:
            raise self.dead(st, node, "need at least one array to join")
        return self.vstack(xs)

    x_numpy_row_stack = x_numpy_vstack

    def x_numpy_column_stack(self, st, args, kw, node):
        xs = self.seq(st, args[0])
        if xs is None:
            return mk("hcat", self.I.snapshot(st, self.I.D(st, args[0])))
        return self.hstack([t.col(x) if t.ndim(x) == 1 else x for x in xs])

    def x_numpy_append(self, st, args, kw, node):
        x, y = self.arr(st, args[0]), self.arr(st, args[1])
        if "axis" in kw or len(args) > 2:
            return mk("call", "numpy.append", (x, y), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items())))
        if t.is_scalar(y) or t.ndim(y) in (0, None) and y.op not in ("list", "tuple", "hstack"):
            y = mk("list", y)
        r = self.hstack([x, y])
        self.I.record("ArrAppend", st, node, old=x, item=y)
        return r

    def x_numpy_argsort(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if len(args) == 1 and t.ndim(x) == 1 and not set(kw) - {"kind"} and (not kw or t.isstr(kw["kind"]) and kw["kind"].args[0] in ("stable", "mergesort")):
            return mk("argsort", x, TRUE if kw else FALSE)
        return self.I.unk("numpy.argsort", node)

    def x_numpy_delete(self, st, args, kw, node):
        a = self.A(st, args, kw, ["arr", "obj", "axis"])
        self.I.record("ArrDelete", st, node, old=a["arr"], item=a["obj"], axis=a.get("axis", NONE))
        return mk("delete", a["arr"], a["obj"], a.get("axis", NONE))

    def x_numpy_array_split(self, st, args, kw, node):
        a = self.A(st, args, kw, ["ary", "n", "axis"])
        n = a.get("n", a.get("indices_or_sections"))
        ax = a.get("axis", ZERO)
        x = self.arr(st, args[0] if args else kw["ary"])
        if ax is ZERO and t.is_scalar(n):
            return mk("split", x, n)
        return mk("call", "numpy.array_split", (x, n, ax), ())

    def x_numpy_transpose(self, st, args, kw, node):
        if args[0].op in ("obj", "view") and len(args) == 1:
            return mk("view", args[0], ("T",))
        return t.transpose(self.arr(st, args[0]))

    def x_numpy_reshape(self, st, args, kw, node):
        return self.reshape(st, args[0], args[1:] if len(args) > 1 else [kw.get("newshape", kw.get("shape"))], node)

    def reshape(self, st, v, shp, node):
        x = self.und(self.I.D(st, v))
        if x.op == "Build":
            x = self.arr(st, x)
        if len(shp) == 1:
            its = self.concrete_items(st, shp[0])
            shp = its if its is not None else shp
        shp = [self.I.D(st, s) for s in shp]
        ref = v if v.op in ("obj", "view") else None
        n = t.ndim(x)
        m1 = C(-1)
        how = None
        if len(shp) == 2 and shp[1] is ONE and (shp[0] is m1 or (n is not None and n >= 1 and shp[0] is t.shape(x)[0])):
            if n == 1:
                how = ("col",)
            elif n == 2 and t.shape(x)[1] is ONE:
                how = ("same",)
        elif len(shp) == 2 and shp[0] is ONE and shp[1] is m1 and n == 1:
            how = ("row",)
        elif len(shp) == 1 and shp[0] is m1:
            if n == 1:
                how = ("same",)
            elif x.op == "col":
                return x.args[0]
            else:
                how = ("ravel",)
        elif n == len(shp) and all(a is b for a, b in zip(t.shape(x), shp)):
            how = ("same",)
        if how is None:
            return mk("reshaped", x, mk("tuple", *shp))
        return mk("view", ref, how) if ref is not None else self.I.apply_view(x, how)

    def x_numpy_ravel(self, st, args, kw, node):
        return self.reshape(st, args[0], [C(-1)], node)

    def x_numpy_squeeze(self, st, args, kw, node):
        return mk("squeeze", self.arr(st, args[0]))

    def x_numpy_expand_dims(self, st, args, kw, node):
        x = self.arr(st, args[0])
        ax = self.I.D(st, kw.get("axis", args[1] if len(args) > 1 else ZERO))
        if t.ndim(x) == 1:
            return t.col(x) if num(ax) in (1, -1) else mk("row", x)
        return mk("stack1", x)

    def x_numpy_where(self, st, args, kw, node):
        c = self.arr(st, args[0])
        if len(args) == 1:
            return mk("nz2", c)
        a, b = self.arr(st, args[1]), self.arr(st, args[2])
        if t.is_scalar(c):
            return ite(c, a, b)
        return mk("where3", c, a, b)

    def x_numpy_nonzero(self, st, args, kw, node):
        return mk("nz2", self.boolarr(self.arr(st, args[0])))

    def x_numpy_flatnonzero(self, st, args, kw, node):
        return mk("nz", self.boolarr(self.arr(st, args[0])), ZERO)

    def x_numpy_ix_(self, st, args, kw, node):
        return mk("ix", *[self.arr(st, a) for a in args])

    def x_numpy_take(self, st, args, kw, node):
        a = self.A(st, args, kw, ["a", "indices", "axis"])
        x, i = self.arr(st, args[0]), a["indices"]
        i = self.arr(st, kw.get("indices", args[1] if len(args) > 1 else NONE))
        ax = a.get("axis", NONE)
        return self.take(x, i, ax)

    def take(self, x, i, ax):
        s = ("int", i) if t.is_scalar(i) else ("idx", i)
        if ax is NONE and t.ndim(x) == 1:
            ax = ZERO
        if num(ax) == -1:
            ax = C((t.ndim(x) or 2) - 1)
        if ax is ZERO:
            return t.sel(x, (s,))
        if ax is ONE:
            return t.sel(x, (FULL, s))
        return mk("call", "numpy.take", (x, i, ax), ())

    def x_numpy_compress(self, st, args, kw, node):
        c, x = self.arr(st, args[0]), self.arr(st, args[1])
        return self.take(x, mk("nz", c, ZERO), kw.get("axis", args[2] if len(args) > 2 else NONE))

    def x_numpy_diag(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if t.ndim(x) == 1:
            if x.op == "diagv":         # the diagonal part of a matrix
                y = x.args[0]
                return t.sub(t.sub(y, t.tri("su", y)), t.tri("sl", y))
            return t.mul(x, mk("eye", t.shape(x)[0]))
        return mk("diagv", x)

    def x_numpy_diagonal(self, st, args, kw, node):
        return mk("diagv", self.arr(st, args[0]))

    def x_numpy_diag_indices_from(self, st, args, kw, node):
        return mk("diagidx", t.rows(self.arr(st, args[0])))

    def x_numpy_diag_indices(self, st, args, kw, node):
        return mk("diagidx", self.I.D(st, args[0]))

    def x_numpy_add_at(self, st, args, kw, node):
        idx = self.I.D(st, args[1])
        vs = [self.I.D(st, x) for x in (idx.args if idx.op in ("tuple", "itup") else (idx,))]
        v = self.arr(st, args[2])
        if any(t.ndim(x) != 1 or t.isbool(x) for x in vs) or args[0].op not in ("obj", "view"):
            self.I.gap("in-place change of numpy.add.at", node)
            self.I.mutate(st, args[0], lambda o: mk("unk", "add.at", o), node, "add.at")
            return NONE
        self.I.mutate(st, args[0], lambda o: mk("addat", o, v, *vs), node, "add.at")
        return NONE

    def x_numpy_bincount(self, st, args, kw, node):
        a = self.A(st, args, kw, ["x", "weights", "minlength"])
        return mk("bincount", a["x"], a.get("weights", NONE), a.get("minlength", ZERO))

    def x_numpy_clip(self, st, args, kw, node):
        a = self.A(st, args, kw, ["a", "a_min", "a_max", "out"])
        r = a["a"]
        lo, hi = a.get("a_min", a.get("min", NONE)), a.get("a_max", a.get("max", NONE))
        if "out" in kw or any(x.op == "ite" for x in (lo, hi)):
            return self.I.unk("numpy.clip", node)
        if lo is not NONE:
            r = self.numpy(st, "numpy.maximum", "maximum", [r, lo], {}, node)
        return self.numpy(st, "numpy.minimum", "minimum", [r, hi], {}, node) if hi is not NONE else r

    def x_numpy_fill_diagonal(self, st, args, kw, node):
        v = self.I.D(st, args[1] if len(args) > 1 else kw["val"])
        self.I.mutate(st, args[0], lambda o: self.I.store_term(o, (("diag",),), v), node, "fill_diagonal")
        return NONE

    def x_numpy_copyto(self, st, args, kw, node):
        v = self.arr(st, args[1])
        self.I.mutate(st, args[0], lambda o: v, node, "copyto")
        return NONE

    def x_numpy_triu(self, st, args, kw, node):
        a = self.A(st, args, kw, ["m", "k"])
        return t.triu(self.arr(st, args[0]), num(a.get("k", ZERO)))

    def x_numpy_tril(self, st, args, kw, node):
        a = self.A(st, args, kw, ["m", "k"])
        return t.tril(self.arr(st, args[0]), num(a.get("k", ZERO)))

    def x_numpy_outer(self, st, args, kw, node):
        return t.mm(t.col(self.arr(st, args[0])), mk("row", self.arr(st, args[1])))

    def x_numpy_einsum(self, st, args, kw, node):
        s = self.I.D(st, args[0])
        xs = [self.arr(st, a) for a in args[1:]]
        if t.isstr(s):
            q = s.args[1].replace(" ", "")
            if len(xs) == 2:
                if q in ("ij,ji->i",):
                    return t.sum_(t.mul(xs[0], t.transpose(xs[1])), ONE)
                if q in ("ij,ij->i",):
                    return t.sum_(t.mul(xs[0], xs[1]), ONE)
                if q == "ij,jk->ik":
                    return t.mm(*xs)
                if q == "ji,jk->ik":
                    return t.mm(t.transpose(xs[0]), xs[1])
            if q == "ii->i" and len(xs) == 1:
                return mk("diagv", xs[0])
            if q == "ij,jk,ik->i" and len(xs) == 3:
                return t.sum_(t.mul(t.mm(xs[0], xs[1]), xs[2]), ONE)
        return mk("einsum", s, *xs)

    def x_numpy_unique(self, st, args, kw, node):
        return mk("unique", self.arr(st, args[0]))

    def x_numpy_sort(self, st, args, kw, node):
        return mk("sorted", self.arr(st, args[0]))

    def x_numpy_ndim(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if x.op == "list":
            return ONE
        n = t.ndim(x)
        return C(n) if n is not None else mk("ndim", x)

    def x_numpy_shape(self, st, args, kw, node):
        x = self.arr(st, args[0])
        s = t.shape(x)
        return mk("tuple", *s) if s is not None else mk("shapeof", x)

    def x_numpy_size(self, st, args, kw, node):
        x = self.arr(st, args[0])
        s = t.shape(x)
        return t.size_of(s, NONE) if s is not None else t.length(x) if t.ndim(x) == 1 else mk("nelem", x)

    def x_numpy_isscalar(self, st, args, kw, node):
        x = self.I.D(st, args[0])
        if t.is_scalar(x):
            return TRUE
        return FALSE if (t.ndim(x) or 0) > 0 or args[0].op == "obj" else mk("isscalar", x)

    def x_numpy_dtype(self, st, args, kw, node):
        return mk("dtypeobj", self.I.D(st, args[0]))

    def x_numpy_finfo(self, st, args, kw, node):
        return mk("finfo", self.I.D(st, args[0]))

    def x_numpy_iinfo(self, st, args, kw, node):
        return mk("iinfo", self.I.D(st, args[0]))

    def x_numpy_load(self, st, args, kw, node):
        p = self.I.D(st, args[0])
        self.I.record("Load", st, node, path=p, how="npy")
        if p in self.filesyms:
            return self.filesyms[p]
        return sym("npy:" + t.show(p), kind="arr", shape=(sym("nrows:" + t.show(p), kind="int", pos=True), sym("ncols:" + t.show(p), kind="int", pos=True)))

    def x_numpy_loadtxt(self, st, args, kw, node):
        a = self.A(st, args, kw, ["fname", "dtype", "comments", "delimiter", "converters", "skiprows"])
        p = a["fname"]
        skip = a.get("skiprows", ZERO)
        ncols = sym("ncols:" + t.show(p), kind="int", pos=True)
        it = t.fresh_it()
        n = mk("nlines", p, skip)
        extra = tuple(sorted(k for k in kw if k not in ("fname", "dtype", "delimiter", "skiprows", "ndmin")))
        r = t.close_binder("Vec", it, (n, mk("numrow", mk("csvrow", p, t.add(skip, it), a.get("delimiter", NONE)), ncols)))
        if extra:
            return mk("call", "numpy.loadtxt", (r,), extra)
        if a.get("ndmin", ZERO) is not t.C(2):        # a file with a single row gives a vector
            r = ite(t.eq(n, ONE), mk("numrow", mk("csvrow", p, skip, a.get("delimiter", NONE)), ncols), r)
        return self.withdt(r, a.get("dtype"))

    x_numpy_genfromtxt = None

    # ---- linear algebra
    def x_numpy_linalg_norm(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if len(args) == 1 and set(kw) == {"axis"} and t.ndim(x) == 2:
            return t.power(t.sum_(t.power(x, 2), self.axis(kw["axis"])), Fraction(1, 2))
        self.I.gap("numpy.linalg.norm", node)
        return mk("call", "numpy.linalg.norm", tuple(self.I.snapshot(st, self.I.D(st, a)) for a in args), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items())))

    def x_numpy_linalg_pinv(self, st, args, kw, node):
        if self.I.D(st, args[0]) is NONE:
            raise self.dead(st, node, "inverse of None")
        cut = self.cutoff(st, args[1:2], kw, ("rcond", "rtol", "cond", "atol"))
        return mk("inv", self.arr(st, args[0])) if cut is None else mk("invcut", self.arr(st, args[0]), cut)

    def cutoff(self, st, args, kw, names):
        """a cut-off for small singular values that is not at the level of rounding errors"""
        for v in list(args) + [kw[k] for k in names if k in kw]:
            v = self.I.D(st, v)
            if t.isnum(v) and t.numval(v) > 1e-9:
                return v
        return None

    x_numpy_linalg_inv = x_numpy_linalg_pinv
    x_scipy_linalg_inv = x_numpy_linalg_pinv
    x_scipy_linalg_pinv = x_numpy_linalg_pinv
    x_scipy_linalg_pinvh = x_numpy_linalg_pinv

    def x_numpy_linalg_solve(self, st, args, kw, node):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        if kw.get("assume_a") is not None or kw.get("sym_pos") is not None:
            low = kw.get("lower", FALSE)
            a = t.symL(a) if low is TRUE else t.symU(a)
        return t.mm(mk("inv", a), b)

    x_scipy_linalg_solve = x_numpy_linalg_solve

    def x_numpy_linalg_lstsq(self, st, args, kw, node):
        a, b = self.arr(st, args[0]), self.arr(st, args[1])
        cut = self.cutoff(st, args[2:3], kw, ("rcond", "cond"))
        return mk("tuple", t.mm(mk("inv", a) if cut is None else mk("invcut", a, cut), b), mk("lsres", ONE, a, b), mk("lsres", C(2), a, b), mk("lsres", C(3), a, b))

    x_scipy_linalg_lstsq = x_numpy_linalg_lstsq

    def x_scipy_linalg_cho_factor(self, st, args, kw, node):
        a = self.arr(st, args[0])
        low = kw.get("lower", args[1] if len(args) > 1 else FALSE)
        return mk("chofac", t.symL(a) if low is TRUE else t.symU(a))

    def x_scipy_linalg_cho_solve(self, st, args, kw, node):
        c = self.I.D(st, args[0])
        if c.op == "chofac":
            return t.mm(mk("inv", c.args[0]), self.arr(st, args[1]))
        return self.I.unk("cho_solve", node)

    def x_scipy_linalg_lu_factor(self, st, args, kw, node):
        return mk("tuple", mk("lu", self.arr(st, args[0])), mk("piv", self.arr(st, args[0])))

    def x_scipy_linalg_lu_solve(self, st, args, kw, node):
        c = self.I.D(st, args[0])
        if c.op == "tuple" and c.args[0].op == "lu":
            return t.mm(mk("inv", c.args[0].args[0]), self.arr(st, args[1]))
        return self.I.unk("lu_solve", node)

    def routine(self, st, node, name, r, args):
        """a BLAS/LAPACK routine computes in the precision its name stands for"""
        if not self.dt:
            return r
        ty = {"s": "float32", "d": "float64"}.get(name[:1].lower())
        self.I.record("Routine", st, node, name=name, type=ty, args=args)
        return mk("cast", r, ext("numpy." + ty)) if ty and r is not None else r

    def lapack_posv(self, st, args, kw, node, fname="posv"):
        a = self.A(st, args, kw, ["a", "b", "lower", "overwrite_a", "overwrite_b"])
        low = a.get("lower", ZERO)
        A_, b = a["a"], a["b"]
        low = low is TRUE or num(low) == 1
        full = t.symL(A_) if low else t.symU(A_)
        for k, nm in (("overwrite_a", "a"), ("overwrite_b", "b")):
            if a.get(k) in (TRUE, ONE):
                src = self.A(st, args, kw, ["a", "b"], content=False)[nm]
                if src.op in ("obj", "view"):
                    self.I.mutate(st, src, lambda o: mk("garbage", o), node, "posv " + k)
        info = sym("info%d" % self.I.loopids.setdefault(("info", self.I.ctx, self.I.nid(node)), len(self.I.loopids)), kind="int")
        self.I.record("Posv", st, node, a=A_, b=b, info=info)
        # the solution is only valid when info == 0
        sol = self.routine(st, node, fname, t.mm(mk("inv", full), b), (A_, b))
        ok = not_(t.pos(info))
        return mk("tuple", mk("chol", full), ite(ok, sol, mk("garbage", sol)), info)

    def x_scipy_linalg_lapack_dposv(self, st, args, kw, node):
        return self.lapack_posv(st, args, kw, node, "dposv")

    def x_scipy_linalg_lapack_sposv(self, st, args, kw, node):
        return self.lapack_posv(st, args, kw, node, "sposv")

    def blas_syrk(self, st, args, kw, node, fname="syrk"):
        a = self.A(st, args, kw, ["alpha", "a", "beta", "c", "trans", "lower", "overwrite_c"])
        M = a["a"]
        tr = a.get("trans", ZERO)
        if num(tr):
            P = t.mm(t.transpose(M), M)
        else:
            P = t.mm(M, t.transpose(M))
        P = t.mul(a["alpha"], P)
        low = a.get("lower", ZERO)
        which = "sl" if num(low) in (0,) and low is not TRUE else "su"
        if "c" not in a:
            r = t.sub(P, t.tri(which, P))
        else:
            c = a["c"]
            full = t.add(t.mul(a.get("beta", ZERO), c), P)
            r = t.add(t.sub(full, t.tri(which, full)), t.tri(which, c))
        if a.get("overwrite_c") in (TRUE, ONE) and "c" in a:
            src = self.A(st, args, kw, ["alpha", "a", "beta", "c"], content=False)["c"]
            if src.op in ("obj", "view"):
                # a C-ordered argument is copied: the content of c is undefined afterwards
                self.I.mutate(st, src, lambda o: mk("unk", "overwritten", o), node, "syrk overwrite_c")
        return self.routine(st, node, fname, r, (M,) + ((a["c"],) if "c" in a else ()))

    def x_scipy_linalg_blas_dsyrk(self, st, args, kw, node):
        return self.blas_syrk(st, args, kw, node, "dsyrk")

    def x_scipy_linalg_blas_ssyrk(self, st, args, kw, node):
        return self.blas_syrk(st, args, kw, node, "ssyrk")

    def blas_gemm(self, st, args, kw, node, fname="gemm"):
        a = self.A(st, args, kw, ["alpha", "a", "b", "beta", "c", "trans_a", "trans_b"])
        x = t.transpose(a["a"]) if num(a.get("trans_a", ZERO)) else a["a"]
        y = t.transpose(a["b"]) if num(a.get("trans_b", ZERO)) else a["b"]
        r = t.mul(a["alpha"], t.mm(x, y))
        r = t.add(r, t.mul(a.get("beta", ZERO), a["c"])) if "c" in a else r
        return self.routine(st, node, fname, r, (a["a"], a["b"]) + ((a["c"],) if "c" in a else ()))

    def x_scipy_linalg_blas_dgemm(self, st, args, kw, node):
        return self.blas_gemm(st, args, kw, node, "dgemm")

    def x_scipy_linalg_blas_sgemm(self, st, args, kw, node):
        return self.blas_gemm(st, args, kw, node, "sgemm")

    def x_scipy_spatial_distance_cdist(self, st, args, kw, node):
        a = self.A(st, args, kw, ["XA", "XB", "metric"])
        m = a.get("metric", C("euclidean"))
        if m is C("sqeuclidean"):
            return t.power(mk("cdist", a["XA"], a["XB"], C("euclidean")), 2)
        if t.isstr(m):
            al = {"manhattan": "cityblock", "l1": "cityblock", "cheb": "chebyshev", "chebychev": "chebyshev", "cb": "cityblock",
                  "cblock": "cityblock", "ch": "chebyshev", "eu": "euclidean", "euclid": "euclidean"}
            m = C(al.get(m.args[1], m.args[1]))
        extra = tuple(sorted((k, v) for k, v in a.items() if k not in ("XA", "XB", "metric")))
        return mk("cdist", a["XA"], a["XB"], m, *[v for _, v in extra])

    def x_scipy_special_expit(self, st, args, kw, node):
        x = self.arr(st, args[0])
        r = t.div(ONE, t.add(ONE, mk("exp", t.neg(x))))
        return self.outto(st, kw, r, node, "expit") or r

    # ---- random
    def rnd(self, st, name, shape, args, node):
        I = self.I
        A_ = tuple(self.plain(st, a) for a in args)
        I.record("Random", st, node, name=name, args=A_)
        return mk("rand", mk("tuple", *shape) if shape is not None else NONE, name, A_, I.key(node), I.its())

    def x_numpy_random_randn(self, st, args, kw, node):
        return self.rnd(st, "randn", [self.I.D(st, a) for a in args], [], node)

    def x_numpy_random_rand(self, st, args, kw, node):
        return self.rnd(st, "rand", [self.I.D(st, a) for a in args], [], node)

    def x_numpy_random_shuffle(self, st, args, kw, node):
        I = self.I
        I.record("Random", st, node, name="shuffle", args=())
        if args[0].op in ("obj", "view"):
            if I.cell(st, args[0]) is not None and args[0].op == "obj" and I.cell(st, args[0]).kind == "list":
                c = I.cell(st, args[0])
                st.heap[args[0].args[0]] = c.with_(mk("shuffled", c.data, I.key(node), I.its()))
            else:
                I.mutate(st, args[0], lambda o: mk("shuffled", o, I.key(node), I.its()), node, "shuffle")
        return NONE

    def x_numpy_random_permutation(self, st, args, kw, node):
        x = self.arr(st, args[0])
        self.I.record("Random", st, node, name="permutation", args=())
        if t.is_scalar(x):
            x = mk("arange", x)
        return mk("shuffled", x, self.I.key(node), self.I.its())

    def rsize(self, st, args, kw, pos):
        v = kw.get("size", args[pos] if len(args) > pos else None)
        if v is None or v is NONE:
            return []
        s = self.mkshape(st, v)
        return list(s.args)

    def x_numpy_random_choice(self, st, args, kw, node):
        return self.rnd(st, "choice", self.rsize(st, args, kw, 1), args[:1], node)

    def x_numpy_random_normal(self, st, args, kw, node):
        return self.rnd(st, "normal", self.rsize(st, args, kw, 2), args[:2], node)

    def x_numpy_random_uniform(self, st, args, kw, node):
        return self.rnd(st, "uniform", self.rsize(st, args, kw, 2), args[:2], node)

    def x_numpy_random_randint(self, st, args, kw, node):
        return self.rnd(st, "randint", self.rsize(st, args, kw, 2), args[:2], node)

    # ---- tables
    def x_tables_open_file(self, st, args, kw, node):
        return self.open_file(st, args, kw, node)

    x_tables_openFile = x_tables_open_file

    def x_tables_Filters(self, st, args, kw, node):
        return mk("call", "tables.Filters", tuple(self.plain(st, a) for a in args), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items())))

    def x_tables_Atom_from_dtype(self, st, args, kw, node):
        a = self.A(st, args, kw, ["dtype", "dflt"])
        d = a["dtype"]
        if d.op == "dtypeobj":
            d = d.args[0]
        return mk("atom", d, a.get("dflt", NONE))

    def x_fasteners_InterProcessLock(self, st, args, kw, node):
        p = self.I.D(st, args[0] if args else kw["path"])
        return self.I.alloc_inst(st, "ext:Lock", {"path": p}, node)

    def local_lock(self, st, args, kw, node):
        """a lock that does not exclude independent processes"""
        return self.I.alloc_inst(st, "ext:Lock", {"path": mk("call", "local lock", (), (), self.I.key(node), ())}, node)

    x_threading_Lock = x_threading_RLock = x_multiprocessing_Lock = x_multiprocessing_RLock = x_threading_Semaphore = local_lock

    # ---- os
    def x_os_path_isfile(self, st, args, kw, node):
        p = self.I.D(st, args[0])
        self.I.record("Exists", st, node, path=p)
        k = ("file", p)
        if p in self.existing:
            return TRUE
        if k in st.heap and st.heap[k].data.get("created") is TRUE:
            return TRUE
        return mk("exists", p)

    x_os_path_exists = x_os_path_isfile

    def x_os_path_join(self, st, args, kw, node):
        xs = [self.I.D(st, a) for a in args]
        out = []
        for k, x in enumerate(xs):
            if k:
                out.append(C("/"))
            out.append(x)
        return self.strcat(out)

    def x_os_fspath(self, st, args, kw, node):
        return self.I.D(st, args[0])

    # ---- multiprocessing
    def x_multiprocessing_Queue(self, st, args, kw, node):
        n = self.I.D(st, args[0] if args else kw.get("maxsize", ZERO))
        r = self.I.alloc_inst(st, "ext:Queue", {"size": n, "nget": ZERO, "nput": ZERO}, node)
        self.I.record("QNew", st, node, q=r, size=n)
        return r

    x_multiprocessing_JoinableQueue = x_multiprocessing_Queue
    x_multiprocessing_SimpleQueue = x_multiprocessing_Queue

    def x_multiprocessing_Process(self, st, args, kw, node):
        a = self.A(st, args, kw, ["group", "target", "name", "args", "kwargs"], content=False)
        tgt = a.get("target", NONE)
        pa = a.get("args", mk("tuple"))
        its = self.concrete_items(st, pa)
        if its is not None:
            pa = mk("tuple", *its)
        r = self.I.alloc_inst(st, "ext:Process", {"target": tgt, "args": pa, "daemon": a.get("daemon", FALSE),
                                                  "kwargs": a.get("kwargs", NONE)}, node)
        self.I.record("ProcNew", st, node, proc=r, target=tgt, args=pa)
        return r

    def x_multiprocessing_get_context(self, st, args, kw, node):
        return mk("ext", "multiprocessing")

    # ---- pickle
    def x_pickle_dump(self, st, args, kw, node):
        I = self.I
        f = args[1]
        p = I.field(st, f, "path") if f.op == "obj" else f
        from interp import Cell
        st.heap[("pfile", p)] = Cell("arr", I.snapshot(st, self.deepsnap(st, args[0])), None)
        I.record("Pickle", st, node, path=p, value=self.deepsnap(st, args[0]))
        return NONE

    def deepsnap(self, st, v):
        I = self.I
        if v.op == "obj":
            c = I.cell(st, v)
            if c.kind == "dict":
                return mk("dictv", tuple((a, self.deepsnap(st, b)) for a, b in c.data))
            if c.kind == "list" and c.data.op == "list":
                return mk("list", *[self.deepsnap(st, a) for a in c.data.args])
            if c.kind == "inst":
                return mk("instv", c.cls, tuple((k, self.deepsnap(st, x)) for k, x in sorted(c.data.items())))
            return I.snapshot(st, v)
        if v.op in ("tuple", "list"):
            return mk(v.op, *[self.deepsnap(st, a) for a in v.args])
        if v.op == "ite":
            return ite(v.args[0], self.deepsnap(st, v.args[1]), self.deepsnap(st, v.args[2]))
        return I.snapshot(st, v)

    def x_pickle_dumps(self, st, args, kw, node):
        return mk("pickled", self.deepsnap(st, args[0]))

    def x_pickle_load(self, st, args, kw, node):
        I = self.I
        f = args[0]
        p = I.field(st, f, "path") if f.op == "obj" else f
        c = st.heap.get(("pfile", p))
        I.record("Unpickle", st, node, path=p)
        return self.unpickled(st, c.data if c else mk("call", "pickle.load", (p,), ()), node)

    def x_pickle_loads(self, st, args, kw, node):
        v = self.I.D(st, args[0])
        if v.op == "pickled":
            return self.unpickled(st, v.args[0], node)
        return mk("call", "pickle.loads", (v,), ())

    def unpickled(self, st, v, node, k=()):
        I = self.I
        if v.op == "dictv":
            return I.alloc_dict(st, [(a, self.unpickled(st, b, node, k + (i,))) for i, (a, b) in enumerate(v.args[0])], node, extra=("up",) + k)
        if v.op == "list":
            return I.alloc_list(st, [self.unpickled(st, b, node, k + (i,)) for i, b in enumerate(v.args)], node, extra=("up",) + k)
        if v.op == "tuple":
            return mk("tuple", *[self.unpickled(st, b, node, k + (i,)) for i, b in enumerate(v.args)])
        if v.op == "instv":
            return I.alloc_inst(st, v.args[0], {a: self.unpickled(st, b, node, k + (a,)) for a, b in v.args[1]}, node, extra=("up",) + k)
        return v

    # ---- csv / text
    def x_builtins_open(self, st, args, kw, node):
        I = self.I
        p = I.D(st, args[0] if args else kw["file"])
        mode = I.D(st, args[1] if len(args) > 1 else kw.get("mode", C("r")))
        r = I.alloc_inst(st, "ext:File", {"path": p, "mode": mode, "open": TRUE, "pos": ZERO}, node)
        I.record("Open", st, node, path=p, mode=mode, ref=r, text=True)
        return r

    x_io_open = x_builtins_open
    x_codecs_open = x_builtins_open

    def x_csv_reader(self, st, args, kw, node):
        I = self.I
        dl = I.D(st, kw.get("delimiter", C(",")))
        if args[0].op == "obj" and I.cell(st, args[0]).cls == "ext:File":
            return I.alloc_inst(st, "ext:csv", {"file": args[0], "delim": dl}, node)
        return I.unk("csv reader", node)

    # ---- misc library
    def x_time_time(self, st, args, kw, node):
        I = self.I
        I.record("Clock", st, node)
        return mk("call", "time.time", (), (), I.key(node), I.its())

    x_time_perf_counter = x_time_time
    x_time_monotonic = x_time_time

    def x_functools_partial(self, st, args, kw, node):
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))

    def x_contextlib_closing(self, st, args, kw, node):
        return self.I.alloc_inst(st, "ext:closing", {"thing": args[0]}, node)

    def x_contextlib_contextmanager(self, st, args, kw, node):
        return args[0]

    def x_copy_copy(self, st, args, kw, node):
        return self.copyv(st, args[0], node)

    def x_copy_deepcopy(self, st, args, kw, node):
        return self.unpickled(st, self.deepsnap(st, args[0]), node, ("dc",))

    def copyv(self, st, v, node):
        from interp import Cell
        if v.op == "obj":
            c = self.I.cell(st, v)
            return self.I.newref(st, Cell(c.kind, c.data, None, c.cls), node)
        return self.I.D(st, v)

    def x_itertools_count(self, st, args, kw, node):
        a = self.A(st, args, kw, ["start", "step"])
        return mk("countv", a.get("start", ZERO), a.get("step", ONE))

    def x_itertools_chain(self, st, args, kw, node):
        r = mk("list")
        for a in args:
            its = self.concrete_items(st, a)
            s = mk("list", *its) if its is not None else self.seqterm(st, a)
            if s is None:
                s = mk("listof", self.I.D(st, a))
            r = self.concat(r, s)
        return r

    def x_itertools_product(self, st, args, kw, node):
        xs = [self.concrete_items(st, a) for a in args]
        if all(x is not None for x in xs):
            import itertools
            return mk("tuple", *[mk("tuple", *z) for z in itertools.product(*xs)])
        return self.I.unk("itertools.product", node)

    def x_math_ceil(self, st, args, kw, node):
        return t.ceil(self.I.D(st, args[0]))

    def x_math_floor(self, st, args, kw, node):
        return t.floor_(self.I.D(st, args[0]))

    def x_math_sqrt(self, st, args, kw, node):
        return t.power(self.I.D(st, args[0]), Fraction(1, 2))

    def x_math_isnan(self, st, args, kw, node):
        return mk("isnan", self.I.D(st, args[0]))

    def x_six_iteritems(self, st, args, kw, node):
        return self.call_method(st, args[0], "items", [], {}, node)

    # ---- builtins
    def x_builtins_noop(self, st, args, kw, node):
        return NONE

    def x_builtins_len(self, st, args, kw, node):
        I = self.I
        v = args[0]
        if v.op == "obj":
            c = I.cell(st, v)
            if c.kind in ("dict", "set"):
                ks = [x[0] for x in c.data] if c.kind == "dict" else list(c.data)
                if len(ks) > 1 and not all(self.isconst(x) for x in ks) or any(x.op == "unk" for x in ks):
                    return I.unk("number of items", node)
                return C(len(c.data))
            if c.kind == "inst":
                if c.cls and c.cls.startswith("hpelm"):
                    m = I.prog.method(c.cls, "__len__")
                    if m:
                        return I.call_repo(st, m, [v], {}, node)
                return mk("call", "len", (v,), ())
            return t.length(c.data)
        if v.op == "node":
            return t.length(self.node_content(st, v))
        if v.op in ("setv", "dictv"):
            return C(len(v.args[0]))
        if v.op == "symset":
            r = ZERO
            for x, c in v.args[0]:
                r = t.add(r, ite(c, ONE, ZERO))
            return r
        if v.op == "range":
            return self.range_len(*v.args)
        d = I.D(st, v)
        if d.op == "shapeof":
            return mk("ndim", d.args[0])
        if d.op == "csvrow":
            return self.ncols(d)
        if d is NONE:
            raise self.dead(st, node, "len of None")
        return t.length(self.und(d))

    def x_builtins_range(self, st, args, kw, node):
        a = [self.I.D(st, x) for x in args]
        if any(x is NONE or t.isstr(x) for x in a):
            raise self.dead(st, node, "range of something that is not an integer")
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        if len(a) == 2:
            return mk("range", a[0], a[1], ONE)
        return mk("range", *a[:3])

    def x_builtins_enumerate(self, st, args, kw, node):
        return mk("enumerate", args[0], self.I.D(st, kw.get("start", args[1] if len(args) > 1 else ZERO)))

    def x_builtins_zip(self, st, args, kw, node):
        return mk("zip", *args)

    def x_builtins_reversed(self, st, args, kw, node):
        return mk("reversed", args[0])

    def x_builtins_iter(self, st, args, kw, node):
        if len(args) == 2:
            return mk("iterfn2", args[0], args[1])
        return args[0]

    def x_builtins_next(self, st, args, kw, node):
        I = self.I
        v = args[0]
        if v.op == "obj" and I.cell(st, v).cls == "ext:csv":
            f = I.field(st, v, "file")
            pos, p = I.field(st, f, "pos"), I.field(st, f, "path")
            I.setfield(st, f, "pos", t.add(pos, ONE))
            return mk("csvrow", p, pos, I.field(st, v, "delim"))
        if v.op == "obj" and I.cell(st, v).cls == "ext:File":
            return self.call_method(st, v, "readline", [], {}, node)
        its = self.concrete_items(st, v)
        if its:
            return its[0]
        s = self.seqterm(st, v)
        if s is not None and s.op in ("Build", "concat"):
            return t.elem(s, ZERO)
        if s is not None and s.op == "Filter":
            return mk("firstof", s)
        return I.unk("next()", node)

    def x_builtins_map(self, st, args, kw, node):
        its = self.concrete_items(st, args[1])
        if its is not None and len(args) == 2:
            return mk("tuple", *[self.I.call(st, args[0], [x], {}, node) for x in its])
        return mk("mapv", args[0], args[1])

    def x_builtins_filter(self, st, args, kw, node):
        return self.I.unk("filter", node)

    def tolist(self, st, v, node):
        I = self.I
        its = self.concrete_items(st, v)
        if its is not None:
            return mk("list", *its)
        if v.op == "obj" and I.cell(st, v).kind == "list":
            return I.cell(st, v).data
        if v.op in ("Build", "concat", "Filter"):
            return v
        d = I.D(st, v)
        if d.op == "range":
            return self.range_build(d)
        if d.op in ("zip", "enumerate", "reversed", "mapv"):
            n, g = self.symbolic_iter(st, v, node)
            it = t.fresh_it()
            return t.close_binder("Build", it, (n, g(it, st)))
        if d.op == "split":
            return d
        if d.op == "nz2":
            return mk("list", mk("nz", d.args[0], ZERO), mk("nz", d.args[0], ONE))
        return mk("listof", d)

    def x_builtins_list(self, st, args, kw, node):
        if not args:
            return self.I.alloc_list(st, [], node)
        if args[0].op == "gen":
            return self.drain(st, args[0], node)
        return self.I.alloc_list(st, self.tolist(st, args[0], node), node)

    def drain(self, st, g, node):
        I = self.I
        acc = I.alloc_list(st, [], node, extra="drain")
        holder = {}

        def handler(val, s2):
            self.list_append(s2, acc, I.bind(s2, val, node), node)
        I.run_gen(g, st, handler)
        return acc

    def x_builtins_tuple(self, st, args, kw, node):
        if not args:
            return mk("tuple")
        its = self.concrete_items(st, args[0])
        if its is not None:
            return mk("tuple", *its)
        return self.tolist(st, args[0], node)

    def x_builtins_set(self, st, args, kw, node):
        from interp import Cell
        if not args:
            return self.I.newref(st, Cell("set", ()), node)
        its = self.concrete_items(st, args[0])
        if its is not None:
            its = [self.I.D(st, x) for x in its]
            if all(self.isconst(x) for x in its):
                return self.I.newref(st, Cell("set", tuple(dict.fromkeys(its))), node)
            return mk("symset", tuple((x, TRUE) for x in its))
        return mk("setof", self.I.D(st, args[0]))

    x_builtins_frozenset = x_builtins_set

    def x_builtins_dict(self, st, args, kw, node):
        pairs = [(C(k), v) for k, v in kw.items()]
        if args:
            if args[0].op == "obj" and self.I.cell(st, args[0]).kind == "dict":
                pairs = [p for p in self.I.cell(st, args[0]).data if p[0] not in [q[0] for q in pairs]] + pairs
            else:
                its = self.concrete_items(st, args[0])
                if its is None or not all(x.op == "tuple" for x in its):
                    return self.I.unk("dict()", node)
                pairs = [(self.I.D(st, x.args[0]), x.args[1]) for x in its] + pairs
        return self.I.alloc_dict(st, pairs, node)

    def keyed(self, st, seq, f, node):
        """(items of a sequence, their keys)"""
        I = self.I
        d = I.D(st, seq)
        if d.op == "range":
            n, g = self.symbolic_iter(st, seq, node)
            it = t.fresh_it()
            d = t.close_binder("Build", it, (n, I.D(st, g(it, st))))
        if not (t.islist(d) or d.op in ("arange", "Build") or t.ndim(d) == 1):
            return None, None
        n, it = t.length(d), t.fresh_it()
        if n is None:
            return None, None
        s2, n0 = st.clone(), len(I.events)
        k = I.D(s2, I.call(s2, f, [t.elem(d, it)], {}, node))
        if not t.is_scalar(k) or t.occurs_any(("unk", "opq"), k) or s2.heap != st.heap or any(e.kind not in ("Enter", "Exit", "Call") for e in I.events[n0:]):
            return None, None
        return d, t.close_binder("Build", it, (n, k))

    def minmax(self, st, args, kw, node, ismax):
        I = self.I
        if "key" in kw:
            its = self.concrete_items(st, args[0]) if len(args) == 1 else list(args)
            if its:
                ks = [I.D(st, I.call(st, kw["key"], [x], {}, node)) for x in its]
                if all(t.is_scalar(k) for k in ks):
                    r, rk = its[0], ks[0]
                    for x, k in zip(its[1:], ks[1:]):
                        c = t.pos(t.sub(k, rk) if ismax else t.sub(rk, k))
                        r, rk = ite(c, x, r), ite(c, k, rk)
                    return r
            elif its is None:
                src, ks = self.keyed(st, args[0], kw["key"], node)
                if src is not None:
                    return t.elem(src, mk("argmax" if ismax else "argmin", ks, NONE))
            return I.unk("min/max with key", node)
        xs = args
        if len(args) == 1:
            its = self.concrete_items(st, args[0])
            if its is None:
                x = self.arr(st, args[0])
                return mk("max" if ismax else "min", x, NONE)
            xs = its
        xs = [I.D(st, x) for x in xs]
        if any(x.op in ("const",) and x is NONE for x in xs):
            raise self.dead(st, node, "min of None")
        return t.maximum(*xs) if ismax else t.minimum(*xs)

    def x_builtins_min(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, False)

    def x_builtins_max(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, True)

    def x_builtins_sum(self, st, args, kw, node):
        I = self.I
        its = self.concrete_items(st, args[0])
        start = I.D(st, kw.get("start", args[1] if len(args) > 1 else ZERO))
        if its is not None:
            r = start
            for x in its:
                r = t.add(r, I.D(st, x))
            return r
        n, g = self.symbolic_iter(st, args[0], node)
        d = I.D(st, args[0])
        if d.op == "Build":
            it, (n, body) = t.open_binder(d)
            return t.add(start, t.mk_sum(n, it, body))
        return t.add(start, t.sum_(d, NONE))

    def x_builtins_abs(self, st, args, kw, node):
        x = self.arr(st, args[0])
        if t.nonneg(x):
            return x
        return mk("abs", x)

    def x_builtins_int(self, st, args, kw, node):
        if not args:
            return ZERO
        x = self.und(self.I.D(st, args[0]))
        if t.isint(x) or x is INF:
            return x
        if x.op == "call" and x.args[0] == "int":
            return x
        if x.op == "elem" or x.op == "sel" and self.intvals(x.args[0]):
            return x
        if x.op in ("ceil", "floor", "floordiv", "argmax"):
            return x
        if t.isnum(x):
            return C(int(t.numval(x)))
        if x.op == "ite":
            return ite(x.args[0], self.x_builtins_int(st, [x.args[1]], {}, node), self.x_builtins_int(st, [x.args[2]], {}, node))
        r = mk("int", x)
        return r

    def ncols(self, row):
        return sym("ncols:" + t.show(row.args[0]), kind="int", pos=True)

    def x_builtins_float(self, st, args, kw, node):
        v = self.I.D(st, args[0]) if args else ZERO
        if v.op == "csvcell":
            return t.elem(mk("numrow", v.args[0], self.ncols(v.args[0])), v.args[1])
        return self.I.D(st, args[0]) if args else ZERO

    def x_builtins_bool(self, st, args, kw, node):
        return self.I.truth(st, args[0]) if args else FALSE

    def x_builtins_str(self, st, args, kw, node):
        v = self.I.D(st, args[0]) if args else C("")
        return v if t.kind(v) == "str" else mk("fmt", v)

    x_builtins_repr = x_builtins_str
    x_builtins_format = x_builtins_str

    def x_builtins_print(self, st, args, kw, node):
        self.I.record("Print", st, node, args=tuple(self.plain(st, a) for a in args))
        return NONE

    def x_builtins_round(self, st, args, kw, node):
        x = self.I.D(st, args[0])
        return x if t.isint(x) else mk("rint", x)

    def x_builtins_divmod(self, st, args, kw, node):
        a, b = self.I.D(st, args[0]), self.I.D(st, args[1])
        return mk("tuple", t.floordiv(a, b), t.mod(a, b))

    def x_builtins_pow(self, st, args, kw, node):
        return self.binop(st, ast.Pow(), self.I.D(st, args[0]), self.I.D(st, args[1]), node)

    def x_builtins_sorted(self, st, args, kw, node):
        its = self.concrete_items(st, args[0])
        if its is not None:
            xs = [self.I.D(st, x) for x in its]
            rev = kw.get("reverse") is TRUE
            if kw.get("key", NONE) is not NONE:
                ks = [self.I.D(st, self.I.call(st, kw["key"], [x], {}, node)) for x in its]
                if all(t.isnum(k) for k in ks) or all(t.isstr(k) for k in ks):
                    order = sorted(range(len(its)), key=lambda i: t.numval(ks[i]) if t.isnum(ks[i]) else ks[i].args[1], reverse=rev)
                    return self.I.alloc_list(st, [its[i] for i in order], node)
            if "key" not in kw and all(t.isnum(x) for x in xs):
                xs = sorted(xs, key=t.numval, reverse=rev)
                return self.I.alloc_list(st, xs, node)
            if "key" not in kw and all(t.isstr(x) for x in xs):
                return self.I.alloc_list(st, sorted(xs, key=lambda x: x.args[1], reverse=rev), node)
        if set(kw) == {"key"}:
            src, ks = self.keyed(st, args[0], kw["key"], node)
            if src is not None:
                return self.I.alloc_list(st, mk("listof", t.sel(src, (("idx", mk("argsort", ks, TRUE)),))), node)
        if kw:
            return self.I.alloc_list(st, mk("sorted", self.I.D(st, args[0]), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items()))), node)
        x = self.I.D(st, args[0])
        return self.I.alloc_list(st, mk("sorted", x if t.islist(x) else mk("listof", x)), node)

    def x_builtins_any(self, st, args, kw, node):
        its = self.concrete_items(st, args[0])
        if its is not None:
            return or_(*[self.I.truth(st, x) for x in its]) if its else FALSE
        return mk("any_", self.I.D(st, args[0]))

    def x_builtins_all(self, st, args, kw, node):
        its = self.concrete_items(st, args[0])
        if its is not None:
            return and_(*[self.I.truth(st, x) for x in its]) if its else TRUE
        return mk("all_", self.I.D(st, args[0]))

    def x_builtins_hasattr(self, st, args, kw, node):
        I = self.I
        v, n = args[0], I.D(st, args[1])
        if v.op == "obj" and I.cell(st, v).kind == "inst" and t.isstr(n):
            c = I.cell(st, v)
            return C(n.args[1] in c.data or (c.cls and c.cls.startswith("hpelm") and I.prog.method(c.cls, n.args[1]) is not None))
        if v.op == "obj" and t.isstr(n):
            import types
            k = I.cell(st, v).kind
            py = {"list": list, "dict": dict, "set": set}.get(k)
            if py is not None:
                return C(hasattr(py, n.args[1]))
        return mk("hasattr", I.D(st, v), n)

    def x_builtins_getattr(self, st, args, kw, node):
        I = self.I
        v, n = args[0], I.D(st, args[1])
        if t.isstr(n):
            if len(args) > 2 and v.op == "obj" and I.cell(st, v).kind == "inst":
                c = I.cell(st, v)
                if n.args[1] not in c.data and not (c.cls and c.cls.startswith("hpelm") and I.prog.method(c.cls, n.args[1])):
                    return args[2]
            return I.getattr(st, v, n.args[1], node)
        return I.unk("getattr", node)

    def x_builtins_setattr(self, st, args, kw, node):
        n = self.I.D(st, args[1])
        if t.isstr(n):
            self.I.setattr(st, args[0], n.args[1], args[2], node)
        return NONE

    def x_builtins_callable(self, st, args, kw, node):
        return C(args[0].op in ("fn", "bound", "cls", "ext", "partial", "extm"))

    def x_builtins_id(self, st, args, kw, node):
        return mk("call", "builtins.id", (args[0],), ())

    def x_builtins_type(self, st, args, kw, node):
        v = args[0]
        if v is NONE:
            return ext("NoneType")
        if v.op == "obj":
            c = self.I.cell(st, v)
            if c.kind == "inst" and c.cls.startswith("hpelm"):
                return mk("cls", c.cls)
        return mk("typeof", self.typename(st, v) or self.I.D(st, v))

    def typename(self, st, v):
        """set of type names of a value, or None"""
        I = self.I
        if v.op == "obj":
            c = I.cell(st, v)
            if c.kind == "arr":
                return ("numpy.ndarray",)
            if c.kind in ("list", "dict", "set"):
                return ("builtins." + c.kind,)
            if c.cls and c.cls.startswith("hpelm"):
                return tuple(I.prog.mro(c.cls))
            return (c.cls,)
        if v.op == "view":
            return ("numpy.ndarray",)
        if v is NONE:
            return ("NoneType",)
        if v.op == "tuple":
            return ("builtins.tuple",)
        if v.op in ("list", "Build", "concat"):
            return ("builtins.list",)
        if v.op == "node":
            return ("tables.Node", "tables.CArray", "tables.Array", "tables.Leaf")
        if v.op == "gnode":
            return ("tables.Group", "tables.Node")
        if v.op == "ext":
            if v is INF:
                return ("builtins.float",)
            if v.args[0].startswith("numpy.") and v.args[0].split(".")[-1] in ("tanh", "sin", "exp", "cos"):
                return ("numpy.ufunc",)
            return ("builtins.type",)
        if v.op in ("fn", "bound"):
            return ("types.FunctionType",)
        if v.op == "const":
            if t.isnum(v):
                return ("builtins.int",) if t.numval(v).denominator == 1 else ("builtins.float",)
            return {"str": ("builtins.str",), "bool": ("builtins.bool", "builtins.int"), "bytes": ("builtins.bytes",)}.get(v.args[0])
        if v.op == "dictv":
            return ("builtins.dict",)
        if v.op == "dev":
            return ("pycuda.gpuarray.GPUArray",)
        if v.op == "sym":
            k = t.ATTR.get(v.args[0], {}).get("kind")
            return {"arr": ("numpy.ndarray",), "int": ("builtins.int",), "str": ("builtins.str",), "ufunc": ("numpy.ufunc",), "num": ("builtins.float",)}.get(k)
        if v.op in ("strcat", "fmt"):
            return ("builtins.str",)
        if t.isint(v) and v.op not in ("ite",):
            return ("builtins.int",)
        k = t.kind(v)
        if k == "arr" or (t.ndim(v) or 0) > 0:
            return ("numpy.ndarray",)
        return None

    def x_builtins_isinstance(self, st, args, kw, node):
        I = self.I
        v, ty = args
        if v.op == "ite":
            return ite(v.args[0], self.x_builtins_isinstance(st, [v.args[1], ty], kw, node), self.x_builtins_isinstance(st, [v.args[2], ty], kw, node))
        tys = list(ty.args) if ty.op == "tuple" else [ty]
        out = []
        names = self.typename(st, v)
        res = FALSE
        for q in tys:
            if q.op == "tuple":
                tys += list(q.args)
                continue
            qn = q.args[0] if q.op in ("ext", "cls") else None
            if q.op == "typeof" and q.args[0] is NONE:
                qn = "NoneType"
            if names is None or qn is None:
                res = or_(res, mk("isinstance", I.D(st, v), q))
                continue
            al = {"six.string_types": ("builtins.str",), "six.integer_types": ("builtins.int",), "six.text_type": ("builtins.str",),
                  "numbers.Integral": ("builtins.int",), "numbers.Number": ("builtins.int", "builtins.float"), "numbers.Real": ("builtins.int", "builtins.float"),
                  "types.NoneType": ("NoneType",), "six.class_types": ("builtins.type",), "numpy.integer": (), "numpy.floating": (),
                  "builtins.basestring": ("builtins.str",), "tables.array.Array": ("tables.Array",), "tables.leaf.Leaf": ("tables.Leaf",),
                  "tables.node.Node": ("tables.Node",), "tables.group.Group": ("tables.Group",)}.get(qn, (qn,))
            if any(a in names for a in al) or qn == "builtins.object":
                return TRUE
        return res

    def x_builtins_issubclass(self, st, args, kw, node):
        return mk("call", "issubclass", tuple(self.plain(st, a) for a in args), ())

    def x_builtins_slice(self, st, args, kw, node):
        a = [self.I.D(st, x) for x in args]
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        return mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)

    def x_builtins_vars(self, st, args, kw, node):
        return self.I.unk("vars", node)

    # ---- pycuda / skcuda
    def x_pycuda_compiler_SourceModule(self, st, args, kw, node):
        return mk("cumod", self.I.D(st, args[0]))

    def launch(self, st, kernel, args, node):
        """an elementwise kernel, read from its source"""
        ptrs = [a.args[0] for a in args if isinstance(a, T) and a.op == "devattr" and a.args[1] == "gpudata"]
        f = None
        if t.isstr(kernel.args[0]) and t.isstr(kernel.args[1]) and len(ptrs) == 1:
            f = elementwise(kernel.args[0].args[1], kernel.args[1].args[1])
        for b in ptrs:
            def new(o):
                x = o.args[0] if o.op == "dev" else o
                r = f(x) if f is not None else self.I.unk("GPU kernel", node)
                return mk("dev", r)
            self.I.mutate(st, b, new, node, "kernel")
        if f is None:
            self.I.gap("GPU kernel not understood", node)
        return NONE

    def x_pycuda_gpuarray_to_gpu(self, st, args, kw, node):
        x = self.arr(st, args[0])
        return self.I.alloc_arr(st, mk("dev", x), node, extra="to_gpu")

    x_pycuda_gpuarray_to_gpu_async = x_pycuda_gpuarray_to_gpu

    def devnew(self, st, x, node):
        return self.I.alloc_arr(st, mk("dev", x), node, extra="dev")

    def x_pycuda_gpuarray_empty(self, st, args, kw, node):
        return self.devnew(st, self.mkshaped(st, "zeros", args, kw, node), node)

    x_pycuda_gpuarray_zeros = x_pycuda_gpuarray_empty
    x_skcuda_misc_zeros = x_pycuda_gpuarray_empty

    def x_skcuda_misc_ones(self, st, args, kw, node):
        return self.devnew(st, self.mkshaped(st, "ones", args, kw, node), node)

    def x_skcuda_linalg_eye(self, st, args, kw, node):
        a = self.A(st, args, kw, ["N", "dtype"])
        return self.devnew(st, self.withdt(mk("eye", a["N"]), a.get("dtype")), node)

    def trans_(self, x, f):
        f = f.args[1] if f is not None and t.isstr(f) else "N"
        return t.transpose(x) if f.upper() in ("T", "C") else x

    def x_skcuda_linalg_dot(self, st, args, kw, node):
        a = self.A(st, args, kw, ["x", "y", "transa", "transb", "handle", "out"])
        r = t.mm(self.trans_(a["x"], a.get("transa")), self.trans_(a["y"], a.get("transb")))
        self.routine(st, node, "gemm", None, (a["x"], a["y"]))
        o = self.outto(st, kw, r, node, "dot")
        return o or self.devnew(st, r, node)

    def x_skcuda_linalg_add_dot(self, st, args, kw, node):
        a = self.A(st, args, kw, ["a", "b", "c", "transa", "transb", "alpha", "beta", "handle"])
        raw = self.A(st, args, kw, ["a", "b", "c"], content=False)
        al, be = a.get("alpha", ONE), a.get("beta", ONE)
        P = t.mul(al, t.mm(self.trans_(a["a"], a.get("transa")), self.trans_(a["b"], a.get("transb"))))
        r = t.add(P, t.mul(be, a["c"]))
        self.routine(st, node, "gemm", None, (a["a"], a["b"], a["c"]))
        self.I.mutate(st, raw["c"], lambda o: mk("dev", r), node, "add_dot")
        return raw["c"]

    def vecop(self, op):
        def h(st, args, kw, node):
            a = self.A(st, args, kw, ["x", "v", "axis", "out"])
            ax = a.get("axis", NONE)
            v = a["v"]
            if t.ndim(v) == 1:
                v = t.col(v) if ax is ZERO else v
            r = t.add(a["x"], v) if op == "add" else t.mul(a["x"], v) if op == "mul" else t.div(a["x"], v)
            raw = self.A(st, args, kw, ["x", "v", "axis", "out"], content=False)
            o = self.outto(st, raw, r, node, op + "_matvec")
            return o or self.devnew(st, r, node)
        return h

    def x_skcuda_misc_add_matvec(self, st, args, kw, node):
        return self.vecop("add")(st, args, kw, node)

    def x_skcuda_misc_mult_matvec(self, st, args, kw, node):
        return self.vecop("mul")(st, args, kw, node)

    def x_skcuda_misc_div_matvec(self, st, args, kw, node):
        return self.vecop("div")(st, args, kw, node)

    def x_skcuda_linalg_init(self, st, args, kw, node):
        return NONE

    x_skcuda_misc_init = x_skcuda_linalg_init

    def x_skcuda_cublas_cublasCreate(self, st, args, kw, node):
        return mk("call", "cublasHandle", (), ())

    def syrk_gpu(self, st, args, kw, node, fname="syrk"):
        """cublasXsyrk on row-major arrays: column-major view of a row-major matrix is its transpose"""
        I = self.I
        names = ["handle", "uplo", "trans", "n", "k", "alpha", "A", "lda", "beta", "C", "ldc"]
        a = self.A(st, args, kw, names, content=False)
        A_, Cc = a["A"], a["C"]
        if A_.op == "devattr" and Cc.op == "devattr":
            xa, xc = self.und(I.D(st, A_.args[0])), self.und(I.D(st, Cc.args[0]))
            acm = t.transpose(xa)          # column-major reading
            tr = I.D(st, a["trans"])
            tr = tr.args[1].upper() if t.isstr(tr) else "N"
            P = t.mm(acm, t.transpose(acm)) if tr == "N" else t.mm(t.transpose(acm), acm)
            ccm = t.transpose(xc)
            full = t.add(t.mul(I.D(st, a["beta"]), ccm), t.mul(I.D(st, a["alpha"]), P))
            low = I.D(st, a["uplo"])
            which = "su" if t.isstr(low) and low.args[1].upper() == "L" else "sl"
            new = t.add(t.sub(full, t.tri(which, full)), t.tri(which, ccm))
            new = t.transpose(new)
            ok = I.D(st, a["n"]) is t.shape(xc)[0] if t.shape(xc) else True
            I.record("Syrk", st, node, n=I.D(st, a["n"]), k=I.D(st, a["k"]), lda=I.D(st, a["lda"]), ldc=I.D(st, a["ldc"]), a=xa, c=xc)
            if self.dt:
                self.routine(st, node, fname, None, (xa, xc))
            I.mutate(st, Cc.args[0], lambda o: mk("dev", new), node, "cublas syrk")
            return NONE
        return I.unk("cublas syrk", node)

    def x_skcuda_cublas_cublasSsyrk(self, st, args, kw, node):
        return self.syrk_gpu(st, args, kw, node, "Ssyrk")

    def x_skcuda_cublas_cublasDsyrk(self, st, args, kw, node):
        return self.syrk_gpu(st, args, kw, node, "Dsyrk")

    # ------------------------------------------------------------------ methods
    def call_method(self, st, recv, name, args, kw, node):
        I = self.I
        if recv.op == "obj":
            c = I.cell(st, recv)
            if c.kind == "list":
                return self.m_list(st, recv, c, name, args, kw, node)
            if c.kind == "dict":
                return self.m_dict(st, recv, c, name, args, kw, node)
            if c.kind == "set":
                return self.m_set(st, recv, c, name, args, kw, node)
            if c.kind == "inst":
                return self.m_inst(st, recv, c, name, args, kw, node)
        if recv.op == "node" or recv.op in ("gnode", "h5root"):
            return self.m_node(st, recv, name, args, kw, node)
        if recv.op == "nattrs":
            nm = I.D(st, args[0]) if args else NONE
            if name in ("__getattr__", "__getitem__") and t.isstr(nm):
                return self.node_getattr(st, recv.args[0], nm.args[1])
            if name == "__setattr__" and t.isstr(nm):
                self.node_setattr(st, recv, nm.args[1], args[1], node)
                return NONE
            return I.unk("node attribute method " + name, node)
        if recv.op == "symset" or recv.op == "setof":
            if name in ("intersection", "union", "difference"):
                if recv.op == "symset" and name == "intersection":
                    its = self.concrete_items(st, args[0])
                    if its is not None:
                        its = [I.D(st, x) for x in its]
                        return mk("symset", tuple((x, and_(c, or_(*[t.eq(x, y) for y in its]))) for x, c in recv.args[0]))
            if name == "isdisjoint" and recv.op == "symset":
                its = self.concrete_items(st, args[0])
                if its is not None:
                    return not_(or_(*[and_(c, or_(*[t.eq(x, I.D(st, y)) for y in its])) for x, c in recv.args[0]]))
            return I.unk("set method", node)
        if recv.op == "tuple":
            if name == "index" or name == "count":
                return self.m_list(st, recv, None, name, args, kw, node)
        if t.kind(recv) == "str" or recv.op == "strsel":
            return self.m_str(st, recv, name, args, kw, node)
        if recv.op == "dictv":
            if name == "get":
                k = I.D(st, args[0])
                for a, v in recv.args[0]:
                    if a is k:
                        return v
                return args[1] if len(args) > 1 else NONE
            if name == "keys":
                return mk("tuple", *[a for a, _ in recv.args[0]])
            if name == "items":
                return mk("tuple", *[mk("tuple", a, b) for a, b in recv.args[0]])
            if name == "values":
                return mk("tuple", *[b for a, b in recv.args[0]])
        if recv.op == "ext" and name:
            return self.call_ext(st, recv.args[0] + "." + name, args, kw, node)
        if recv.op == "cls":
            return I.unk("class method " + name, node)
        if recv.op == "cumod" and name == "get_function":
            return mk("cukernel", recv.args[0], I.D(st, args[0]))
        if recv.op == "cukernel":
            if name in ("prepared_call", "prepared_async_call"):
                return self.launch(st, recv, args, node)
            return NONE
        if recv.op in ("unk", "call", "devattr", "dtypeobj") or recv.op == "extm":
            I.record("Call", st, node, name="." + name, args=(I.D(st, recv),) + tuple(self.plain(st, a) for a in args), kw={}, raw=tuple(args))
            return mk("call", "." + name, (I.D(st, recv),) + tuple(self.plain(st, a) for a in args), ())
        return self.m_arr(st, recv, name, args, kw, node)

    def m_arr(self, st, recv, name, args, kw, node):
        I = self.I
        content = I.D(st, recv)
        dev = content.op == "dev"
        x = self.und(content)
        if name == "get" and dev:
            return I.alloc_arr(st, x, node, extra="get")
        if name == "astype":
            dt = args[0] if args else kw.get("dtype")
            if kw.get("copy") is FALSE and recv.op in ("obj", "view"):
                y = self.castto(x, I.D(st, dt))
                if y is x and not self.copies(st, recv, dt):
                    return mk("view", recv, ("same",))
                if y is not x:
                    return y
            y = self.castto(x, I.D(st, dt))
            return I.alloc_arr(st, y, node, extra="astype") if self.arrish(y) or (t.ndim(y) or 0) > 0 else y
        if name == "copy":
            return I.alloc_arr(st, content, node, extra="copy")
        R = {"sum": "sum", "mean": "mean", "max": "max", "min": "min", "argmax": "argmax", "argmin": "argmin", "std": "std", "var": "var",
             "all": "all", "any": "any", "prod": "prod", "cumsum": "cumsum"}
        if name in R:
            a = self.A(st, args, kw, ["axis", "dtype", "out"])
            return self.reduce_(st, R[name], x, self.axis(a.get("axis")), node, a.get("keepdims") is TRUE)
        if name == "dot":
            return t.mm(x, self.arr(st, args[0]))
        if name in ("reshape",):
            return self.reshape(st, recv, args, node)
        if name in ("ravel", "flatten"):
            if name == "flatten":
                return I.D(st, self.reshape(st, x, [C(-1)], node))
            return self.reshape(st, recv, [C(-1)], node)
        if name == "take":
            a = self.A(st, args, kw, ["indices", "axis"])
            return self.take(x, self.arr(st, args[0]), a.get("axis", NONE))
        if name == "transpose":
            return mk("view", recv, ("T",)) if recv.op in ("obj", "view") else t.transpose(x)
        if name == "tolist":
            return I.alloc_list(st, self.tolist(st, x, node), node)
        if name == "nonzero":
            return mk("nz2", self.boolarr(x))
        if name == "fill":
            v = I.D(st, args[0])
            I.mutate(st, recv, lambda o: mk("zeros", mk("tuple", *t.shape(o))) if v is ZERO and t.shape(o) is not None else (t.mul(mk("ones", mk("tuple", *t.shape(o))), v) if t.shape(o) is not None else mk("unk", "fill", o)), node, "fill")
            return NONE
        if name in ("sort", "partition", "resize", "put", "itemset", "setflags", "byteswap"):
            if name == "setflags":
                return NONE
            I.mutate(st, recv, lambda o: mk("sorted", o) if name == "sort" else mk("unk", name, o), node, name)
            return NONE
        if name == "item":
            if not args:
                return x
            return t.sel(x, tuple(("int", I.D(st, a)) for a in args))
        if name == "squeeze":
            return mk("squeeze", x)
        if name == "diagonal":
            return mk("diagv", x)
        if name == "view":
            return mk("view", recv, ("same",)) if recv.op in ("obj", "view") else recv
        if name == "lower" or name == "upper" or name == "strip":
            return self.m_str(st, recv, name, args, kw, node)
        if name in ("index", "count") and x.op in ("listof",):
            return mk("call", "." + name, (x, I.D(st, args[0])), ())
        if name in ("append", "remove", "extend", "insert", "pop"):
            I.gap("list method on " + x.op, node)
        if name in ("keys", "items", "values", "get") and x.op in ("sym", "fld", "elem"):
            return mk("call", "." + name, (x,) + tuple(self.plain(st, a) for a in args), ())
        if name in ("conj", "conjugate"):
            return x
        if name == "round":
            return mk("rint", x)
        if name == "repeat" or name == "searchsorted" or name == "argsort" or name == "trace" or name == "clip" or name == "compress":
            if name == "trace":
                return t.sum_(mk("diagv", x), NONE)
            if name == "argsort":
                return mk("argsort", x)
            return mk("call", "." + name, (x,) + tuple(self.plain(st, a) for a in args), tuple(sorted((k, self.plain(st, v)) for k, v in kw.items())))
        I.record("Call", st, node, name="." + name, args=(x,) + tuple(self.plain(st, a) for a in args), kw={k: self.plain(st, v) for k, v in kw.items()}, raw=tuple(args))
        self.unknown.add("." + name)
        return mk("call", "." + name, (x,) + tuple(self.plain(st, a) for a in args), (), I.key(node), I.its())

    def m_list(self, st, recv, c, name, args, kw, node):
        I = self.I
        data = c.data if c is not None else recv
        put = lambda d: st.heap.__setitem__(recv.args[0], c.with_(d))
        if c is not None and c.tag and name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear"):
            I.record("Mutate", st, node, ref=recv, tag=c.tag, how="list." + name, sels=None, value=None, old=data, new=None)
        if name == "append":
            self.list_append(st, recv, I.bind(st, args[0], node, extra="app"), node)
            return NONE
        if name == "extend":
            self.list_extend(st, recv, args[0], node)
            return NONE
        if name == "index":
            x = I.D(st, args[0])
            if data.op in ("list", "tuple"):
                xs = [I.D(st, a) for a in data.args]
                conds = [self.eqv(st, a, x) for a in xs]
                for k, q in enumerate(conds):
                    if q is TRUE:
                        conds = conds[:k + 1]
                        break
                conds = [(k, q) for k, q in enumerate(conds) if q is not FALSE]
                if not conds:
                    raise self.dead(st, node, "not in list")
                r = C(conds[-1][0])
                for k, q in reversed(conds[:-1]):
                    r = ite(q, C(k), r)
                return r
            return mk("indexof", I.snapshot(st, data), x)
        if name == "pop":
            i = I.D(st, args[0]) if args else C(-1)
            if data.op == "list" and num(i) is not None:
                xs = list(data.args)
                if not xs or not -len(xs) <= num(i) < len(xs):
                    raise self.dead(st, node, "pop from empty list")
                v = xs.pop(num(i))
                put(mk("list", *xs))
                I.record("ListOp", st, node, how="pop", ref=recv, item=v, old=data)
                return v
            if data.op == "concat" and data.args[-1].op == "list" and data.args[-1].args and num(i) == -1:
                xs = data.args[-1].args
                rest = data.args[:-1] + ((mk("list", *xs[:-1]),) if len(xs) > 1 else ())
                put(rest[0] if len(rest) == 1 else mk("concat", *rest))
                return xs[-1]
            v = t.elem(I.snapshot(st, data), i if num(i) is None or num(i) >= 0 else t.add(t.length(data), i))
            put(mk("dellist", I.snapshot(st, data), i))
            I.record("ListOp", st, node, how="pop", ref=recv, item=v, idx=i, old=data)
            return v
        if name == "remove":
            x = I.D(st, args[0])
            I.record("ListOp", st, node, how="remove", ref=recv, item=x, old=data)
            if data.op == "list":
                for k, a in enumerate(data.args):
                    if I.D(st, a) is x:
                        put(mk("list", *(data.args[:k] + data.args[k + 1:])))
                        return NONE
            put(mk("removed", I.snapshot(st, data), x))
            return NONE
        if name == "insert":
            i = I.D(st, args[0])
            if data.op == "list" and num(i) is not None:
                xs = list(data.args)
                xs.insert(num(i), args[1])
                put(mk("list", *xs))
            elif i is ZERO:
                put(self.concat(mk("list", args[1]), data))
            else:
                put(mk("inserted", I.snapshot(st, data), i, I.D(st, args[1])))
            return NONE
        if name == "sort" and set(kw) <= {"key", "reverse"} and self.concrete_items(st, recv) is not None:
            r = self.I.D(st, self.x_builtins_sorted(st, [recv], kw, node))
            if r.op == "list":
                put(r)
                return NONE
        if name in ("sort", "reverse"):
            if data.op == "list" and name == "reverse":
                put(mk("list", *reversed(data.args)))
            else:
                put(mk("sorted" if name == "sort" else "reversedl", I.snapshot(st, data)))
            return NONE
        if name == "clear":
            put(mk("list"))
            return NONE
        if name == "copy":
            return I.alloc_list(st, data, node)
        if name == "count":
            if data.op in ("list", "tuple"):
                r = ZERO
                for a in data.args:
                    r = t.add(r, ite(self.eqv(st, I.D(st, a), I.D(st, args[0])), ONE, ZERO))
                return r
        if name == "__len__":
            return t.length(data)
        return I.unk("list method " + name, node)

    def m_dict(self, st, recv, c, name, args, kw, node):
        I = self.I
        if name in ("keys", "values", "items") and any(a.op == "unk" for a, _ in c.data):
            return I.unk("dict contents", node)
        if name == "keys":
            return mk("tuple", *[a for a, v in c.data if v.op != "missing"])
        if name == "values":
            return mk("tuple", *[v for _, v in c.data])
        if name == "items":
            return mk("tuple", *[mk("tuple", a, v) for a, v in c.data])
        if name == "get":
            return self.dict_get(st, recv, I.D(st, args[0]), node, args[1] if len(args) > 1 else kw.get("default", NONE))
        if name == "pop":
            k = I.D(st, args[0])
            v = self.dict_get(st, recv, k, node, args[1] if len(args) > 1 else None)
            st.heap[recv.args[0]] = c.with_(tuple((a, x) for a, x in c.data if a is not k))
            return v
        if name == "setdefault":
            k = I.D(st, args[0])
            for a, v in c.data:
                if a is k:
                    return v
            v = args[1] if len(args) > 1 else NONE
            st.heap[recv.args[0]] = c.with_(c.data + ((k, v),))
            return v
        if name == "update":
            pairs = [(C(k), v) for k, v in kw.items()]
            if args and args[0].op == "obj" and I.cell(st, args[0]).kind == "dict":
                pairs = list(I.cell(st, args[0]).data) + pairs
            elif args:
                return I.unk("dict.update", node)
            for k, v in pairs:
                I.setitem(st, recv, k, v, node)
            return NONE
        if name == "copy":
            return I.alloc_dict(st, c.data, node)
        if name == "__contains__":
            return self.in_(st, args[0], recv, node)
        if name == "clear":
            st.heap[recv.args[0]] = c.with_(())
            return NONE
        return I.unk("dict method " + name, node)

    def m_set(self, st, recv, c, name, args, kw, node):
        I = self.I
        if name in ("intersection", "union", "difference"):
            if not args:
                return recv
            r = self.setop(st, name, recv, args[0], node)
            if name == "intersection" and r.op == "call":
                pass
            return r
        if name == "isdisjoint":
            its = self.concrete_items(st, args[0])
            if its is not None:
                return not_(or_(*[t.eq(I.D(st, x), y) for x in its for y in c.data])) if its and c.data else TRUE
        if name == "issubset":
            its = self.concrete_items(st, args[0])
            if its is not None:
                return and_(*[or_(*[t.eq(I.D(st, x), y) for x in its]) for y in c.data]) if c.data else TRUE
        if name == "add":
            x = I.D(st, args[0])
            st.heap[recv.args[0]] = c.with_(tuple(dict.fromkeys(c.data + (x,))))
            return NONE
        if name in ("discard", "remove"):
            x = I.D(st, args[0])
            st.heap[recv.args[0]] = c.with_(tuple(y for y in c.data if y is not x))
            return NONE
        if name == "copy":
            from interp import Cell
            return I.newref(st, Cell("set", c.data), node)
        return I.unk("set method " + name, node)

    def m_str(self, st, recv, name, args, kw, node):
        a = [self.I.D(st, x) for x in args]
        if t.isstr(recv) and all(self.isconst(x) for x in a) and name in ("upper", "lower", "replace", "strip", "startswith", "endswith",
                                                                          "split", "title", "find", "count", "capitalize", "isdigit", "swapcase"):
            def py(x):
                if x.op == "tuple":
                    return tuple(py(y) for y in x.args)
                if t.isnum(x):
                    return num(x)
                return x.args[1]
            r = getattr(recv.args[1], name)(*[py(x) for x in a])
            if isinstance(r, list):
                return self.I.alloc_list(st, [C(x) for x in r], node)
            return C(r)
        if name == "join":
            its = self.concrete_items(st, args[0])
            if its is not None:
                out = []
                for k, x in enumerate(its):
                    if k:
                        out.append(recv)
                    out.append(self.I.D(st, x))
                return self.strcat(out)
        if name == "format":
            return mk("fmt", recv)
        if recv.op == "ite":
            return ite(recv.args[0], self.m_str(st, recv.args[1], name, args, kw, node), self.m_str(st, recv.args[2], name, args, kw, node))
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return mk("truth", mk("strm", name, recv, *a))
        return mk("strm", name, recv, *a)

    def m_node(self, st, recv, name, args, kw, node):
        I = self.I
        if recv.op == "node":
            if name in ("flush", "_f_close", "close"):
                I.record("Flush", st, node, path=self.node_path(st, recv), open=self.node_open(st, recv))
                return NONE
            if name == "append":
                v = I.D(st, args[0])
                p = self.node_path(st, recv)
                c = self.file_cell(st, p)
                old = c.data["content"]
                d = dict(c.data)
                if v.op == "list" and all(t.ndim(x) == 1 for x in v.args):
                    v = v.args[0] if len(v.args) == 1 else v
                    v = mk("row", v)
                ol = old if old.op in ("list", "concat", "Build", "sym") else mk("listof", old)
                d["content"] = self.concat(ol, mk("list", v.args[0]) if v.op == "row" else mk("listof", v))
                st.heap[("file", p)] = c.with_(d)
                I.record("Append", st, node, path=p, value=v, open=self.node_open(st, recv))
                return NONE
            if name == "read":
                a = self.A(st, args, kw, ["start", "stop", "step"])
                return self.getitem(st, recv, mk("slice", a.get("start", NONE), a.get("stop", NONE), a.get("step", NONE)), node)
            if name in ("_f_getattr", "get_attr"):
                nm = I.D(st, args[0])
                return self.node_getattr(st, recv, nm.args[1])
            if name in ("_f_setattr", "set_attr"):
                self.node_setattr(st, mk("nattrs", recv), I.D(st, args[0]).args[1], args[1], node)
                return NONE
            if name == "iterrows":
                return recv
            # array methods of a node do not exist (C23)
            I.record("MissingAttr", st, node, cls="tables.CArray", name=name)
            return I.unk("node method " + name, node)
        if recv.op == "h5root":
            return I.unk("group method", node)
        return I.unk("group method " + name, node)

    def m_inst(self, st, recv, c, name, args, kw, node):
        I = self.I
        cls = c.cls
        if cls == "ext:H5File":
            if name == "close":
                self.close_file(st, recv, node)
                return NONE
            if name == "flush":
                I.record("Flush", st, node, path=c.data["path"], open=c.data["open"])
                return NONE
            if name in ("walk_nodes", "iter_nodes", "list_nodes", "walkNodes"):
                a = self.A(st, args, kw, ["where", "classname"])
                nd = mk("node", recv)
                I.record("Walk", st, node, ref=recv, open=c.data["open"])
                leaf = name != "walk_nodes" or a.get("classname", NONE) is not NONE
                return mk("tuple", nd) if leaf else mk("tuple", mk("gnode", recv), nd)
            if name in ("get_node", "getNode"):
                return mk("node", recv)
            if name in ("create_carray", "create_array", "createCArray"):
                a = self.A(st, args, kw, ["where", "name", "atom", "shape", "title", "filters"])
                if name == "create_array":
                    a = self.A(st, args, kw, ["where", "name", "obj", "title", "byteorder", "createparents", "atom", "shape"])
                at = a.get("atom")
                shp = a.get("shape")
                obj = a.get("obj")
                raw = self.A(st, args, kw, ["where", "name", "atom", "shape"], content=False)
                if obj is not None:
                    content = obj
                else:
                    s = self.mkshape(st, raw["shape"])
                    content = mk("zeros", s)
                self.create(st, recv, content, at, node)
                return mk("node", recv)
            if name in ("create_earray",):
                a = self.A(st, args, kw, ["where", "name", "atom", "shape", "title", "filters"])
                obj = a.get("obj")
                self.create(st, recv, obj if obj is not None else mk("list"), a.get("atom"), node)
                s = a.get("shape")
                if s is not None and s.op == "tuple":
                    c2 = st.heap[("file", c.data["path"])]
                    d = dict(c2.data)
                    d["eshape"] = s
                    st.heap[("file", c.data["path"])] = c2.with_(d)
                return mk("node", recv)
            if name in ("__enter__",):
                return recv
            if name in ("__exit__",):
                self.close_file(st, recv, node)
                return NONE
            return I.unk("HDF5 file method " + name, node)
        if cls == "ext:Lock":
            if name in ("acquire", "__enter__"):
                self.acquire(st, recv, node)
                return TRUE
            if name in ("release", "__exit__"):
                self.release(st, recv, node)
                return NONE
        if cls == "ext:Queue":
            if name in ("put", "put_nowait"):
                n = c.data["nput"]
                I.record("Put", st, node, q=recv, value=I.snapshot(st, args[0]), idx=n, how=name, args=tuple(I.D(st, a) for a in args[1:]), kw=dict(kw), raw=args[0])
                I.setfield(st, recv, "nput", t.add(n, ONE))
                return NONE
            if name in ("get", "get_nowait"):
                n = c.data["nget"]
                n = t.subst(n, st.facts) if st.facts else n
                I.record("Get", st, node, q=recv, idx=n, how=name, args=tuple(I.D(st, a) for a in args), kw=dict(kw))
                I.setfield(st, recv, "nget", t.add(n, ONE))
                h = I.hooks.get("qget")
                if h:
                    r = h(I, st, recv, n, node)
                    if r is not None:
                        return r
                return mk("qget", recv, n)
            I.record("Call", st, node, name="Queue." + name, args=(), kw={}, raw=())
            if name in ("close", "join_thread", "cancel_join_thread"):
                return NONE
            return mk("call", "Queue." + name, (recv,), (), I.key(node), I.its())
        if cls == "ext:Process":
            if name in ("start", "join", "terminate", "kill", "close"):
                I.record("Proc", st, node, how=name, proc=recv, args=tuple(I.D(st, a) for a in args), kw=dict(kw))
                return NONE
            return mk("call", "Process." + name, (recv,), (), I.key(node), I.its())
        if cls == "ext:File":
            if name in ("close", "flush", "__exit__"):
                if name != "flush":
                    self.close_file(st, recv, node)
                return NONE
            if name in ("readline", "__next__"):
                pos = c.data.get("pos", ZERO)
                I.setfield(st, recv, "pos", t.add(pos, ONE))
                return mk("line", c.data["path"], pos)
            if name == "write":
                I.record("Write", st, node, path=c.data["path"], value=I.D(st, args[0]))
                from interp import Cell
                v = I.D(st, args[0])
                if v.op == "pickled":
                    st.heap[("pfile", c.data["path"])] = Cell("arr", v.args[0], None)
                return NONE
            if name == "read":
                x = st.heap.get(("pfile", c.data["path"]))
                return mk("pickled", x.data) if x is not None else mk("call", "file.read", (c.data["path"],), ())
            if name == "__enter__":
                return recv
        if cls == "ext:csv" and name == "__next__":
            return self.x_builtins_next(st, [recv], {}, node)
        I.record("Call", st, node, name="%s.%s" % (cls, name), args=tuple(self.plain(st, a) for a in args), kw={}, raw=tuple(args))
        return mk("call", "%s.%s" % (cls, name), (recv,) + tuple(self.plain(st, a) for a in args), (), I.key(node), I.its())

    def create(self, st, h5, content, atom, node):
        from interp import Cell
        p = self.I.field(st, h5, "path")
        dt = atom.args[0] if atom is not None and atom.op == "atom" else NONE
        dflt = atom.args[1] if atom is not None and atom.op == "atom" else NONE
        if content.op == "zeros" and dflt is not ZERO and dflt is not NONE:
            content = t.mul(mk("ones", content.args[0]), dflt)
        d = {"content": content, "created": TRUE, "dtype": dt}
        st.heap[("file", p)] = Cell("inst", d, None, "file")
        self.I.record("Create", st, node, path=p, content=content, dtype=dt, open=self.I.field(st, h5, "open"))

    # ------------------------------------------------------------------ abstract solver
    SOLVER = ("add_neurons", "reset", "_project", "_predict", "add_batch", "solve", "solve_corr", "_prune",
              "get_B", "set_B", "get_corr", "set_corr", "get_neurons", "fix_affinity")

    def init_solver(self, st, ref):
        I = self.I
        I.setfield(st, ref, "neurons", sym("noneurons", kind="seq", empty=True))
        I.setfield(st, ref, "L", ZERO)

    def solver_contract(self, name, cl):
        if name not in self.SOLVER:
            return None
        I = self.I

        def run(st, me, args, kw, node):
            fr = I.bind_args(st, cl, [me] + list(args), kw, node)
            pos = [a.arg for a in cl.node.args.args]
            a = [fr[p] for p in pos[1:]]
            ev = I.record("Solver", st, node, method=name, obj=me, args=tuple(I.snapshot(st, x) for x in a), raw=tuple(a),
                          HH=I.D(st, I.field(st, me, "HH") or NONE), HT=I.D(st, I.field(st, me, "HT") or NONE), B=I.D(st, I.field(st, me, "B") or NONE),
                          neurons=I.field(st, me, "neurons"))
            r = getattr(self, "c_" + name)(st, me, a, node)
            if ev is not None:
                ev.result = I.D(st, r)
            return r
        return run

    def nn(self, neurons):
        if neurons.op == "sym" and t.ATTR.get(neurons.args[0], {}).get("empty"):
            return ZERO
        if neurons.op == "sym" and "L" in t.ATTR.get(neurons.args[0], {}):
            return t.ATTR[neurons.args[0]]["L"]
        return mk("nnodes", neurons)

    def c_add_neurons(self, st, me, a, node):
        I = self.I
        nr = I.field(st, me, "neurons")
        new = mk("addn", nr, *[I.D(st, x) for x in a])
        I.setfield(st, me, "neurons", new)
        I.setfield(st, me, "L", self.nn(new))
        for f in ("HH", "HT", "B"):
            I.setfield(st, me, f, NONE)
        return NONE

    def c_reset(self, st, me, a, node):
        I = self.I
        I.setfield(st, me, "L", self.nn(I.field(st, me, "neurons")))
        I.setfield(st, me, "HH", NONE)
        I.setfield(st, me, "HT", NONE)
        return NONE

    def proj(self, st, me, X):
        I = self.I
        X = self.und(I.D(st, X))
        return mk("proj", I.field(st, me, "neurons"), X, I.field(st, me, "L"))

    def c__project(self, st, me, a, node):
        return self.proj(st, me, a[0])

    def c__predict(self, st, me, a, node):
        I = self.I
        B = I.field(st, me, "B")
        Bd = I.D(st, B)
        c = not_(t.eq(NONE, Bd)) if Bd is not NONE else FALSE
        I.record("Assert", st, node, cond=c)
        if c is FALSE:
            from interp import Dead
            raise Dead()
        return t.mm(self.proj(st, me, a[0]), Bd)

    def c_add_batch(self, st, me, a, node):
        I = self.I
        X, Tt = self.und(I.D(st, a[0])), self.und(I.D(st, a[1]))
        w = I.D(st, a[2]) if len(a) > 2 else NONE
        H = self.proj(st, me, X)
        L, c, norm = I.field(st, me, "L"), I.field(st, me, "outputs"), I.D(st, I.field(st, me, "norm"))

        def weighted(w):
            if w is NONE:
                return H, Tt
            s = t.col(t.power(w, Fraction(1, 2)))
            return t.mul(H, s), t.mul(Tt, s)
        if w.op == "ite":
            p, q = weighted(w.args[1]), weighted(w.args[2])
            h, tt = ite(w.args[0], p[0], q[0]), ite(w.args[0], p[1], q[1])
        else:
            h, tt = weighted(w)
        HH, HT = I.D(st, I.field(st, me, "HH")), I.D(st, I.field(st, me, "HT"))
        none = t.eq(NONE, HH) if HH is not NONE else TRUE
        dH, dT = t.mm(t.transpose(h), h), t.mm(t.transpose(h), tt)
        if none is TRUE:
            nH, nT = t.add(t.mul(norm, mk("eye", L)), dH), dT
        elif none is FALSE:
            nH, nT = t.add(HH, dH), t.add(HT, dT)
        else:
            nH = t.add(ite(none, t.mul(norm, mk("eye", L)), HH), dH)
            nT = t.add(ite(none, ZERO, HT), dT)
        self.setm(st, me, "HH", nH, node)
        self.setm(st, me, "HT", nT, node)
        return NONE

    def setm(self, st, me, f, v, node):
        """the matrices live in cells owned by the solver"""
        self.I.setfield(st, me, f, self.I.alloc_arr(st, v, node, tag="solver:" + f, extra="solver." + f))

    def solve_term(self, HH, HT):
        return mk("Solve", HH, HT)

    def c_solve(self, st, me, a, node):
        I = self.I
        HH, HT = I.D(st, I.field(st, me, "HH")), I.D(st, I.field(st, me, "HT"))
        self.setm(st, me, "B", self.solve_term(HH, HT), node)
        return NONE

    def c_solve_corr(self, st, me, a, node):
        I = self.I
        return self.solve_term(self.und(I.D(st, a[0])), self.und(I.D(st, a[1])))

    def c__prune(self, st, me, a, node):
        I = self.I
        idx = a[0]
        its = self.concrete_items(st, idx)
        i = mk("list", *[I.D(st, x) for x in its]) if its is not None else I.D(st, idx)
        new = mk("prunedn", I.field(st, me, "neurons"), i)
        I.setfield(st, me, "neurons", new)
        I.setfield(st, me, "L", t.length(i))
        for f in ("HH", "HT", "B"):
            I.setfield(st, me, f, NONE)
        return NONE

    def c_get_B(self, st, me, a, node):
        return self.I.field(st, me, "B")

    def c_set_B(self, st, me, a, node):
        I = self.I
        B = I.D(st, a[0])
        if B is NONE:
            raise self.dead(st, node, "set_B(None)")
        self.setm(st, me, "B", self.und(B), node)
        return NONE

    def c_get_corr(self, st, me, a, node):
        I = self.I
        HH, HT = I.field(st, me, "HH"), I.field(st, me, "HT")
        return mk("tuple", HH, HT)

    def c_set_corr(self, st, me, a, node):
        I = self.I
        self.setm(st, me, "HH", self.und(I.D(st, a[0])), node)
        self.setm(st, me, "HT", self.und(I.D(st, a[1])), node)
        return NONE

    def c_get_neurons(self, st, me, a, node):
        return self.I.field(st, me, "neurons")

    def c_fix_affinity(self, st, me, a, node):
        return NONE


def I_arr(v):
    from interp import arrayish
    return arrayish(v)


# ---------------------------------------------------------------- GPU kernels
def elementwise(src, name):
    """x -> new x of a kernel 'a[i] = expression of a[i]' with one pointer parameter, else None"""
    import ast
    import re
    src = re.sub(r"//[^\n]*", "", src)
    m = re.search(r"\b%s\s*\(([^)]*)\)\s*\{(.*)\}" % re.escape(name), src, re.S)
    if not m:
        return None
    ps = re.findall(r"\*\s*(\w+)", m.group(1))
    st = re.findall(r"(\w+)\s*\[\s*(\w+)\s*\]\s*=([^;]*);", m.group(2))
    if len(ps) != 1 or len(st) != 1 or st[0][0] != ps[0]:
        return None
    a, i, ex = st[0]
    d = re.search(r"\b%s\s*=([^;]*);" % re.escape(i), m.group(2))
    if not d or sorted(re.findall(r"[\w.]+", d.group(1))) != ["blockDim.x", "blockIdx.x", "threadIdx.x"]:
        return None
    ex = re.sub(r"\b%s\s*\[\s*%s\s*\]" % (re.escape(a), re.escape(i)), "_x_", ex).strip()
    try:
        tree = ast.parse(re.sub(r"(\d)f\b", r"\1", ex), mode="eval").body
    except SyntaxError:
        return None

    def go(n, x):
        if isinstance(n, ast.BinOp):
            l, r = go(n.left, x), go(n.right, x)
            if l is None or r is None:
                return None
            op = type(n.op).__name__
            return {"Add": t.add, "Sub": t.sub, "Mult": t.mul, "Div": t.div}.get(op, lambda p, q: None)(l, r)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = go(n.operand, x)
            return None if v is None else t.neg(v)
        if isinstance(n, ast.Constant):
            return C(n.value)
        if isinstance(n, ast.Name):
            return x if n.id == "_x_" else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1:
            v = go(n.args[0], x)
            g = n.func.id.rstrip("f") if n.func.id.endswith("f") else n.func.id
            if v is None or g not in ("exp", "tanh"):
                return None
            return mk(g, v)
        return None
    return (lambda x: go(tree, x)) if go(tree, C(1)) is not None else None
