"""Evaluating abstract summaries on small concrete structures.

Terms over this/arguments are evaluated to Python values:
  expressions, formulas and variables  Atom(kind tag, rank)
  objects                              Obj(cls, fields, ident)
  maps                                 tuple of (key, value), sorted by key
  sets                                 sorted tuple
"""
import math

from engine import show, canon
from model import Opaque
from program import coll_kind, strip_type, template_args
from sym import EXPR, FORM, VAR, VARS


class Bad(Exception):
    """The summary does something it must not do on this structure."""


class Obj:
    def __init__(self, cls, fields, ident=None, kind=None, rank=None, h=None):
        self.cls, self.fields, self.ident, self.kind, self.rank, self.h = cls, fields, ident, kind, rank, h

    def content(self):
        return (self.kind, self.rank)

    def __repr__(self):
        if self.fields:
            return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % kv for kv in sorted(self.fields.items())))
        return '%s#%s(%s,%s)' % (self.cls.split('::')[-1], self.ident, self.kind, self.rank)


M64 = (1 << 64) - 1


def hsh(x):
    if isinstance(x, float) and x == 0:
        x = 0.0
    if isinstance(x, bool) or isinstance(x, int):
        return int(x) & M64
    return (hash((repr(x), 'h')) * 0x9E3779B97F4A7C15 + 12345) & M64


class CEval:
    def __init__(self, env, varset='vars_', unknown=None):
        self.env = env
        self.varset = varset
        self.unknown = unknown

    def ev(self, t):
        k = t[0]
        if k in ('int', 'flt', 'bool', 'str'):
            return t[1]
        if k == 'void':
            return None
        if k == 'sym':
            if t[1] in self.env:
                return self.env[t[1]]
            raise Opaque('symbol ' + t[1])
        if k == 'fld':
            b = self.ev(t[1])
            if isinstance(b, Obj) and t[2] in b.fields:
                return b.fields[t[2]]
            if isinstance(b, tuple) and t[2] == self.varset:
                return b
            if isinstance(b, tuple) and len(b) == 2 and t[2] in ('first', 'second'):
                return b[t[2] == 'second']
            raise Opaque('field ' + show(t))
        if k == 'elem':
            b = self.ev(t[1])
            if not isinstance(b, tuple) or t[2] >= len(b):
                raise Opaque('element ' + show(t))
            x = b[t[2]]
            if len(t) > 3:
                return x[0] if t[3] == 'k' else x[1]
            return x
        if k == 'inst':
            if t[1] == VARS:
                for a, b in t[3]:
                    return self.ev(b)
                if t[2] is None:
                    return ()
                return self.ev(t[2])
            raise Opaque('object ' + show(t)[:100])
        if k == 'coll':
            if t[3] is not None:
                raise Opaque('rest of a collection')
            if t[1] == 'vec' and not t[2]:
                return 0
            xs = [self.ev(x) if not (isinstance(x, tuple) and x and isinstance(x[0], tuple)) else tuple(self.ev(y) for y in x) for x in t[2]]
            if t[1] == 'set':
                return tuple(sorted(set(xs)))
            return tuple(xs)
        if k == 'kv':
            b = self.ev(t[1])
            s = {(x[0] if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], str) else x): x for x in b}
            for key, x in t[2]:
                kk = self.ev(key)
                if x is None:
                    s.pop(kk, None)
                else:
                    s[kk] = (kk, self.ev(x)) if isinstance(x, tuple) and x != key and x != ('bool', True) else kk
            return tuple(s[q] for q in sorted(s))
        if k == 'kind':
            b = self.ev(t[1])
            if isinstance(b, Obj):
                return b.kind
            raise Opaque('kind')
        if k == 'enum':
            return t[3]
        if k == 'not':
            return not self.ev(t[1])
        if k == 'cmp':
            a, b = self.ev(t[2]), self.ev(t[3])
            return self.cmp(t[1], a, b)
        if k == 'eq':
            a, b = self.ev(t[1]), self.ev(t[2])
            if isinstance(a, Obj):
                if a.kind != b.kind:
                    raise Bad('compares the contents of nodes of different kinds')
                return a.content() == b.content()
            return a == b
        if k == 'nonnull':
            return True
        if k == 'cast':
            return self.ev(t[-1])
        if k == 'op':
            return self.op(t)
        if k == 'app':
            return self.app(t)
        raise Opaque('term ' + show(t)[:100])

    def cmp(self, op, a, b):
        if isinstance(a, Obj):
            return {'==': a.ident == b.ident, '!=': a.ident != b.ident}[op]
        if isinstance(a, str) != isinstance(b, str) or type(a) is tuple and type(b) is not tuple:
            raise Opaque('comparison')
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def op(self, t):
        op = t[1]
        a = self.ev(t[2])
        if len(t) == 3:
            return {'neg': lambda: -a, '~': lambda: ~a & M64}[op]()
        b = self.ev(t[3])
        try:
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, 'i/': lambda: int(a / b), '^': lambda: a ^ b, '&': lambda: a & b,
                 '|': lambda: a | b, '<<': lambda: a << b, '>>': lambda: a >> b, '%': lambda: int(math.fmod(a, b))}[op]()
        except (KeyError, TypeError, ZeroDivisionError):
            raise Opaque('operator ' + op)
        if isinstance(r, int) and not isinstance(r, bool) and (r < 0 or r > M64) and op in ('+', '*', '<<', '-'):
            if op != '-':
                r &= M64
        return r

    def app(self, t):
        n = t[1]
        x = [self.ev(a) for a in t[2:]]
        if n == 'less':
            if isinstance(x[0], Obj):
                if x[0].kind != x[1].kind:
                    raise Bad('orders the contents of nodes of different kinds')
                return x[0].rank < x[1].rank
            return x[0] < x[1]
        if n == 'hash':
            if isinstance(x[0], Obj):
                return x[0].h
            return hsh(x[0])
        if n == 'V.id':
            if isinstance(x[0], Obj):
                return list(x[0].fields.values())[0] if len(x[0].fields) == 1 else x[0].fields['id_']
            return x[0][1]
        if n == 'V.dummy':
            return x[0][1] == 0
        if n == 'contains':
            return any(y == x[1] or (isinstance(y, tuple) and len(y) == 2 and not isinstance(y[0], str) and y[0] == x[1]) for y in x[0])
        if n == 'size':
            return len(x[0])
        if n == 'm.isnan':
            return x[0] != x[0]
        if n == 'm.nextafter':
            return math.nextafter(x[0], x[1])
        if n == 'vars':
            return ()
        if n in ('min', 'max'):
            return {'min': min, 'max': max}[n](x)
        raise Opaque('operation ' + n)

    def holds(self, p):
        """Do the conditions of the path hold here?"""
        for t, n in p.shapes.items():
            v = self.ev(t)
            if not isinstance(v, tuple) or len(v) != n:
                return False
        for (t, en), ks in p.kinds.items():
            pass
        for c, truth in p.facts:
            if bool(self.ev(c)) != truth:
                return False
        return True


class Summary:
    """A function as the list of its abstract paths, applied to concrete structures."""

    def __init__(self, paths, varset='vars_'):
        self.paths = paths
        self.varset = varset
        self.hit = set()

    def __call__(self, env):
        ce = CEval(env, self.varset)
        why = None
        for i, p in enumerate(self.paths):
            try:
                if not ce.holds(p):
                    continue
            except Opaque as e:
                why = why or e
                continue
            self.hit.add(i)
            k = p.outcome[0]
            if k == 'ret':
                return p, ce.ev(canon(p.outcome[1]))
            if k == 'unsupported':
                raise Opaque(p.outcome[1])
            raise Bad('ends in %s' % (p.outcome[1],))
        raise why or Opaque('no path applies')
