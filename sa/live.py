"""Live variables of a function (structured backward analysis of its syntax tree)."""
import ast


def uses(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))} if node is not None else set()


def stores(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Live(object):
    def __init__(self, fn):
        self.after = {}             # loop statement -> names live behind it
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.always |= uses(x)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        if isinstance(fn, ast.Lambda):
            return
        self.block(fn.body, set(), set(), set())

    def block(self, body, out, brk, cont):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.If):
            return uses(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.after.setdefault(s, set()).update(out)
            done = self.block(s.orelse, out, brk, cont)
            head = set(done)
            while True:
                b = self.block(s.body, head, out, head)
                new = head | ((b - stores(s.target)) | uses(s.target) if not isinstance(s, ast.While) else b | uses(s.test))
                if new == head:
                    break
                head = new
            return head | uses(s.iter) if not isinstance(s, ast.While) else head | uses(s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, out, brk, cont) | set()
            for i in reversed(s.items):
                r = (r - (stores(i.optional_vars) if i.optional_vars is not None else set())) | uses(i.context_expr)
                r |= uses(i.optional_vars)
            return r
        if isinstance(s, (ast.Return, ast.Raise)):
            return uses(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try), getattr(ast, "Match", ast.Try))):
            for b in ast.walk(s):           # whatever the block reads, whatever is read behind it
                if isinstance(b, (ast.For, ast.AsyncFor, ast.While)):
                    self.after.setdefault(b, set()).update(out | uses(s) | brk | cont)
            return out | uses(s) | brk | cont
        if isinstance(s, ast.AugAssign):
            return out | uses(s) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            return (out - set().union(*[stores(x) for x in ts])) | uses(s)
        return out | uses(s)
