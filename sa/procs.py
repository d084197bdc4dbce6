"""Stepping the communication skeleton of cooperating processes.

The events of the client and of every helper process (abstract evaluation of the function each was started with) form one program
per process whose only interactions are blocking puts and gets on queues with one producer and one consumer, and start/join.  Such
networks (Kahn) are confluent: whether they complete, and every value exchanged, does not depend on the schedule.  So one maximal
execution of the skeleton decides all schedules, for one interpretation of the sizes."""
import ri
import terms as t
from terms import T, NONE, TRUE, FALSE, mk
from mss import slots, SLOT

CAP = 64


class Unsure(Exception):
    pass


class Wrong(Exception):
    pass


class Leave(Exception):
    def __init__(self, depth):
        self.depth = depth


OPS = ("Put", "Get", "Proc", "Solver", "Store", "Break", "Return", "While", "Close", "Flush")


class Process(object):
    def __init__(self, name, events, key=None):
        self.name, self.key = name, key
        self.events = [e for e in events if e.kind in OPS]
        self.done = False
        self.at = None              # event it is blocked at
        self.gen = None


class Net(object):
    def __init__(self, env, cp, interest=None):
        self.env, self.cp = env, cp
        self.client = Process("caller", cp.client)
        self.helpers = {}
        for h in cp.helpers:
            p = Process("%s %d" % (h["target"].rsplit(".", 1)[-1], len(self.helpers)), h["events"], h["proc"])
            p.dead = h["dead"]
            self.helpers[h["proc"]] = p
        self.logs = env.queues = {}
        self.got = {}
        self.size = {}
        for e in cp.w.I.events:
            if e.kind == "QNew":
                self.logs[e.q] = []
                self.got[e.q] = 0
                self.size[e.q] = e.size
        self.users = {}             # queue -> (producers, consumers)
        env.noexc = True            # executions in which no exception is raised
        self.started, self.joined = [], set()
        self.trace = []             # (process, event, evaluated value)
        self.interest = interest or {}

    # ---------------------------------------------------------------- one process
    def val(self, x, loops):
        return self.env.val(slots(x, loops))

    def run(self, p):
        try:
            for y in self.block(p, p.events, 0, []):
                yield y
        except Leave:
            pass

    def bind(self, idx):
        for d in list(self.env.bv):
            if isinstance(d, int) and d >= SLOT:
                self.env.bv.pop(d)
        for d, k in enumerate(idx):
            self.env.bv[SLOT + d] = k

    def block(self, p, evs, d, idx):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) <= d:
                for y in self.step(p, e, idx):
                    yield y
                i += 1
                continue
            j = i
            while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d][0] is e.loops[d][0]:
                j += 1
            n = e.loops[d][1]
            self.bind(idx)
            n = None if n.op in ("trip", "Least") else self.env.n(slots(n, e.loops[:d]))
            k = 0
            while n is None or k < n:
                if k > CAP:
                    raise Unsure("more than %d iterations" % CAP)
                try:
                    for y in self.block(p, evs[i:j], d + 1, idx + [k]):
                        yield y
                except Leave as l:
                    if l.depth < d:
                        raise
                    break
                k += 1
            i = j

    def step(self, p, e, idx):
        loops = e.loops
        self.bind(idx)
        if not all(self.env.b(slots(c, loops)) for c in e.conds):
            return
        if e.kind == "Break":
            raise Leave(len(loops) - 1)
        if e.kind == "Return":
            if len(loops) > e.base:
                raise Leave(e.base)
            return
        if e.kind == "While":
            if not self.env.b(slots(e.cond, loops)):
                raise Leave(len(loops) - 1)
            return
        if e.kind in ("Put", "Get"):
            if e.how.endswith("_nowait") or e.args or e.kw:
                raise Unsure("non-blocking queue operation")
            us = self.users.setdefault(e.q, (set(), set()))
            us[e.kind == "Get"].add(p.name)
            if len(us[1]) > 1:
                raise Wrong("which of %s receives an item depends on the schedule" % " and ".join(sorted(us[1])))
            if len(us[0]) > 1:
                raise Unsure("several producers")
        if e.kind == "Put":
            v = self.val(e.value, loops)
            n = self.env.n(self.size[e.q])
            while 0 < n <= len(self.logs[e.q]) - self.got[e.q]:
                p.at = e
                yield "full"
            self.logs[e.q].append(v)
            p.at = None
            yield "put"
        elif e.kind == "Get":
            while len(self.logs[e.q]) <= self.got[e.q]:
                p.at = e
                yield "empty"
            self.bind(idx)
            k = self.env.n(slots(e.idx, loops))
            if k != self.got[e.q]:
                raise Unsure("index of the received item")
            self.got[e.q] += 1
            p.at = None
            yield "got"
        elif e.kind == "Proc":
            if e.how == "start":
                h = self.helpers.get(e.proc)
                if h is None:
                    raise Unsure("helper process is not known")
                if h.gen is not None:
                    raise Wrong("%s is started twice" % h.name)
                h.gen = self.run(h)
                self.started.append(h)
                yield "start"
            elif e.how == "join":
                if e.args or e.kw:
                    raise Wrong("%s is waited for with a timeout, so it may still be at work when the call returns" % self.helpers[e.proc].name)
                h = self.helpers.get(e.proc)
                if h is None or h.gen is None:
                    raise Unsure("join of a process that was not started")
                while not self.finished(h):
                    p.at = e
                    yield "join"
                p.at = None
                self.joined.add(h.name)
                yield "joined"
            elif e.how in ("terminate", "kill"):
                h = self.helpers.get(e.proc)
                if h is not None and not self.finished(h):
                    raise Wrong("%s is stopped while it may still be at work" % h.name)
                raise Wrong("%s may be stopped before it has finished" % (h.name if h else "a helper")) if h is not None and h.name not in self.joined else Unsure("terminate")
        elif e.kind in self.interest:
            xs = self.interest[e.kind](e)
            if xs is not None:
                self.trace.append((p, e, [self.val(x, loops) if isinstance(x, T) else x for x in xs]))

    def finished(self, h):
        """ended, and everything it sent has been received (its feeder thread keeps it alive until then)"""
        if not h.done:
            return False
        return all(self.got[q] == len(self.logs[q]) for q, (ps, cs) in self.users.items() if h.name in ps)

    # ---------------------------------------------------------------- all processes
    def execute(self):
        """None, or the reason why the call does not complete properly"""
        self.client.gen = self.run(self.client)
        live = [self.client]
        while not self.client.done:
            moved = False
            for p in [self.client] + self.started:
                while not p.done:
                    try:
                        y = next(p.gen)
                    except StopIteration:
                        p.done = True
                        moved = True
                        break
                    if y in ("full", "empty", "join"):
                        break
                    moved = True
                    if p is self.client and y == "start":
                        break
            if not moved:
                return self.stuck()
        for h in self.started:
            if h.name not in self.joined:
                return (self.client, h.events[-1] if h.events else None, "the call returns without having waited for %s" % h.name)
        for q, log in self.logs.items():
            if self.got[q] != len(log):
                e = next(e for e in self.client.events + [x for h in self.helpers.values() for x in h.events] if e.kind == "Put" and e.q is q)
                return (self.client, e, "%d of %d items are never consumed" % (len(log) - self.got[q], len(log)))
        return None

    def stuck(self):
        ps = [self.client] + self.started
        txt = []
        for p in ps:
            if p.done:
                if not self.finished(p):
                    txt.append("%s cannot end: its results are not consumed" % p.name)
                continue
            e = p.at
            txt.append("%s waits at line %s for %s" % (p.name, e.where[1], {"Put": "space in a queue", "Get": "an item", "Proc": "a process to end"}[e.kind]))
        c = self.client
        return (c, c.at, "deadlock: " + "; ".join(txt))
