"""Drivers: build abstract models of the package's classes and evaluate their public operations over the domain."""
import ast
import front
import interp
import terms as t
from terms import T, C, mk, NONE, TRUE, FALSE, ZERO, ONE, INF, sym

ELM = "hpelm.elm.ELM"
HPELM = "hpelm.hp_elm.HPELM"
N = sym("N", kind="int", pos=True)
NI = sym("inputs", kind="int", pos=True)
NO = sym("outputs", kind="int", pos=True)
BATCH = sym("batch", kind="int", pos=True)
L = sym("L", kind="int", pos=True)
NORM = sym("norm", kind="num", pos=True, shape=())
NEURONS = sym("neurons", kind="seq", L=L)
F64, F32 = mk("ext", "numpy.float64"), mk("ext", "numpy.float32")

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = front.Program()
    return _prog


class Refused(Exception):
    """the driven call cannot complete normally"""


class World(object):
    def __init__(self, real=False, dt=False, hooks=None, files=None):
        self.I = interp.Interp(program(), abstract_solver=not real, hooks=hooks)
        self.lib = self.I.lib
        self.lib.dt = dt
        self.st = interp.State()
        self.I.driver(self.st)
        self.n = 0
        self.modelkw = {}
        if files:
            for p, c in files.items():
                self.lib.filesyms[C(p) if isinstance(p, str) else p] = c

    def node(self):
        n = ast.Name(id="driver")
        self.n += 1
        n.lineno = n.col_offset = self.n
        return n

    def val(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, (list,)):
            return self.I.alloc_list(self.st, [self.val(x) for x in v], self.node())
        if isinstance(v, tuple):
            return mk("tuple", *[self.val(x) for x in v])
        return C(v)

    def make(self, cls, *args, **kw):
        try:
            return self.I.instantiate(self.st, cls, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.node())
        except interp.Dead:
            raise Refused(cls)

    def model(self, cls=ELM, batch=BATCH, neurons=True, B=False, data=False, norm=NORM, inputs=NI, outputs=NO, **kw):
        kw = dict(self.modelkw, **kw)
        m = self.make(cls, inputs, outputs, batch=batch, norm=norm, **kw)
        nn = self.field(m, "nnet")
        if neurons and self.I.abstract_solver:
            self.I.setfield(self.st, nn, "neurons", NEURONS)
            self.I.setfield(self.st, nn, "L", L)
        if B:
            self.setmat(nn, "B", "B0", (L, outputs))
        if data:
            self.setmat(nn, "HH", "HH0", (L, L), sym=True)
            self.setmat(nn, "HT", "HT0", (L, outputs))
        self.mark()
        return m

    def mark(self):
        self.ev0 = len(self.I.events)

    @property
    def events(self):
        return self.I.events[getattr(self, "ev0", 0):]

    def setmat(self, nn, f, name, shape, **attr):
        k = ("solver", nn.args[0], f)
        self.st.heap[k] = interp.Cell("arr", sym(name, kind="arr", shape=shape, **attr), "solver:" + f)
        self.I.setfield(self.st, nn, f, mk("obj", k))

    def param(self, name, *shape, **attr):
        return self.I.param(self.st, name, tuple(shape), **attr)

    def value(self, name, term):
        """a caller's array with the given content"""
        k = ("param", name)
        self.st.heap[k] = interp.Cell("arr", term, "param:" + name)
        return mk("obj", k)

    def field(self, ref, name):
        return self.I.field(self.st, ref, name)

    def D(self, v):
        return self.I.D(self.st, v)

    def content(self, ref, name):
        v = self.field(ref, name)
        return None if v is None else self.D(v)

    def call(self, obj, name, *args, **kw):
        n = self.node()
        try:
            if isinstance(obj, str):
                f = self.function(obj + "." + name if name else obj)
            else:
                f = self.I.getattr(self.st, obj, name, n)
            return self.I.call(self.st, f, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, n)
        except interp.Dead:
            raise Refused(name)

    def function(self, qual):
        mod, _, name = qual.rpartition(".")
        P = program()
        return self.I.resolved(P.lookup(mod, name), self.st, name)

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]
