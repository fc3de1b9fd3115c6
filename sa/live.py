"""Backward liveness of local names over the structured syntax tree."""
import ast


def uses(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


class Live:
    def __init__(self, fn):
        self.after, self.head = {}, {}
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp,
                                              ast.SetComp, ast.DictComp)):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    self.always |= uses(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.blk(fn.body, frozenset(), frozenset(), frozenset())

    def blk(self, stmts, out, brk, cont):
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), frozenset()) | out
            out = self.st(s, out, brk, cont)
        return out

    def st(self, s, out, brk, cont):
        t = type(s)
        if t is ast.Assign or (t is ast.AnnAssign and s.value is not None):
            kill = set()
            us = uses(s.value)
            for tg in (s.targets if t is ast.Assign else [s.target]):
                for x in ast.walk(tg):
                    if isinstance(x, ast.Name):
                        if isinstance(x.ctx, ast.Store):
                            kill.add(x.id)
                        else:
                            us.add(x.id)
            return frozenset((out - kill) | us)
        if t is ast.AugAssign:
            us = uses(s)
            if isinstance(s.target, ast.Name):
                us.add(s.target.id)
            return out | us
        if t is ast.If:
            return frozenset(uses(s.test)) | self.blk(s.body, out, brk, cont) | self.blk(s.orelse, out, brk, cont)
        if t in (ast.While, ast.For):
            us = frozenset(uses(s.test if t is ast.While else s.iter))
            tgt = frozenset(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)) if t is ast.For \
                else frozenset()
            els = self.blk(s.orelse, out, brk, cont)
            head = els | (us if t is ast.While else frozenset())
            while True:
                body = self.blk(s.body, head, out, head)
                new = head | (body - tgt)
                if new == head:
                    break
                head = new
            # a loop target keeps its last value for uses after the loop
            self.head[id(s)] = head
            return head | us
        if t is ast.Break:
            return brk
        if t is ast.Continue:
            return cont
        if t is ast.Return or t is ast.Raise:
            return frozenset(uses(s))
        if t is ast.Try:
            fin = self.blk(s.finalbody, out, brk, cont)
            extra = frozenset().union(*[uses(x) for x in s.finalbody]) if s.finalbody else frozenset()
            hs = frozenset()
            for h in s.handlers:
                hs |= self.blk(h.body, fin | extra, brk | extra, cont | extra)
            els = self.blk(s.orelse, fin | extra, brk | extra, cont | extra)
            allu = frozenset().union(*[uses(x) for x in s.body])
            res = self.blk(s.body, els | hs | fin | extra | allu, brk | extra, cont | extra)
            for b in s.body:
                for x in ast.walk(b):
                    if id(x) in self.after:
                        self.after[id(x)] |= hs | fin | extra
            return res | hs
        if t is ast.With:
            us = frozenset().union(*[uses(i.context_expr) for i in s.items])
            return us | self.blk(s.body, out, brk, cont)
        if t is ast.FunctionDef:
            return frozenset(out | uses(s))
        return frozenset(out | uses(s))
