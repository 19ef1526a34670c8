"""Random interpretation of terms (Gulwani & Necula, POPL 2004): a term over the symbolic
vocabulary is a function of its leaves; two terms that must be equal are compared at
randomly chosen interpretations of the leaves that satisfy the facts of the path."""
import math
import random
import zlib

from engine import is_coll, is_lit, lit, canon, LV, show
from sym import (DS, EXPR, FORM, VAR, VARS, ENV, KIND_CLASS_E, KIND_CLASS_F, RELKIND, UNARY, BINARY, EKIND, FKIND)
from program import strip_type, coll_kind, template_args


class Skip(Exception):
    """The specification is undefined at this interpretation."""


class Reject(Exception):
    """This interpretation contradicts the facts of the path."""


class Opaque(Exception):
    """A term the interpretation does not understand."""


POOL = [0.0, 1.0, -1.0, 2.0, 3.0, 0.5, -2.0, -0.5, 1.5, 4.0, -3.0, 0.25, 6.0, -4.0]
POSPOOL = [1.0, 2.0, 3.0, 0.5, 1.5, 4.0, 0.25, 6.0]
UNIT = [0.0, 0.5, -0.5, 0.25, -0.25, 1.0]


def inside(u, t):
    """u occurs in t."""
    if u == t:
        return True
    return isinstance(t, tuple) and any(inside(u, x) for x in t if isinstance(x, tuple))


INTPOOL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, -1, -2, -3]
UINTPOOL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11]


class Dual:
    __slots__ = ('v', 'd')

    def __init__(self, v, d=0.0):
        self.v = v
        self.d = d


def val(x):
    return x.v if isinstance(x, Dual) else x


def fin(x):
    if isinstance(x, complex) or x != x or x in (math.inf, -math.inf) or abs(x) > 1e80:
        raise Skip()
    return x


def d_(x):
    return x if isinstance(x, Dual) else Dual(x, 0.0)


def add(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = d_(a), d_(b)
        return Dual(fin(a.v + b.v), fin(a.d + b.d))
    return fin(a + b)


def neg(a):
    if isinstance(a, Dual):
        return Dual(-a.v, -a.d)
    return -a


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = d_(a), d_(b)
        return Dual(fin(a.v * b.v), fin(a.v * b.d + a.d * b.v))
    return fin(a * b)


def div(a, b):
    if val(b) == 0:
        raise Skip()
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = d_(a), d_(b)
        return Dual(fin(a.v / b.v), fin((a.d * b.v - a.v * b.d) / (b.v * b.v)))
    return fin(a / b)


def rpow(x, y):
    try:
        if x == 0 and y < 0:
            raise Skip()
        r = math.pow(x, y)
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Skip()
    return fin(r)


def powr(a, b):
    x, y = val(a), val(b)
    v = rpow(x, y)
    if not (isinstance(a, Dual) or isinstance(b, Dual)):
        return v
    a, b = d_(a), d_(b)
    r = 0.0
    if a.d != 0:
        if not (y == 0):
            r += y * rpow(x, y - 1) * a.d
    if b.d != 0:
        if x <= 0:
            raise Skip()
        r += v * math.log(x) * b.d
    return Dual(v, fin(r))


_D1 = {
    'log': lambda x: 1 / x, 'exp': lambda x: math.exp(x), 'sqrt': lambda x: 0.5 / math.sqrt(x), 'sin': math.cos,
    'cos': lambda x: -math.sin(x), 'tan': lambda x: 1 / math.cos(x) ** 2, 'asin': lambda x: 1 / math.sqrt(1 - x * x),
    'acos': lambda x: -1 / math.sqrt(1 - x * x), 'atan': lambda x: 1 / (1 + x * x), 'sinh': math.cosh, 'cosh': math.sinh,
    'tanh': lambda x: 1 / math.cosh(x) ** 2, 'abs': lambda x: 1.0 if x > 0 else -1.0,
}


def fun1(name, a):
    x = val(a)
    try:
        v = abs(x) if name == 'abs' else getattr(math, name)(x)
    except (ValueError, OverflowError):
        raise Skip()
    v = fin(v)
    if isinstance(a, Dual):
        if a.d == 0:
            return Dual(v, 0.0)
        if name == 'abs' and x == 0:
            raise Skip()
        try:
            return Dual(v, fin(_D1[name](x) * a.d))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip()
    return v


def fun2(name, a, b):
    if name == 'pow':
        return powr(a, b)
    x, y = val(a), val(b)
    dual = isinstance(a, Dual) or isinstance(b, Dual)
    if name == 'atan2':
        if x == 0 and y == 0:
            raise Skip()
        v = math.atan2(x, y)
        if dual:
            a, b = d_(a), d_(b)
            return Dual(v, fin((y * a.d - x * b.d) / (x * x + y * y)))
        return v
    if name in ('min', 'max'):
        if dual and x == y and (d_(a).d != d_(b).d):
            raise Skip()
        r = a if (x <= y) == (name == 'min') else b
        return r
    raise Opaque(name)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a, b = val(a), val(b)
    if isinstance(a, (frozenset, tuple, str)) or isinstance(b, (frozenset, tuple, str)):
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (a != a and b != b)


class Ctx:
    """An interpretation of variables: a base plus overrides."""
    __slots__ = ('base', 'ov', 'ovb', 'dv')

    def __init__(self, base='0', ov=None, ovb=None, dv=None):
        self.base, self.ov, self.ovb, self.dv = base, ov or {}, ovb or {}, dv

    def with_(self, ov=None, ovb=None):
        o = dict(self.ov)
        o.update(ov or {})
        b = dict(self.ovb)
        b.update(ovb or {})
        return Ctx(self.base, o, b, self.dv)


class Model:
    def __init__(self, path, interp, roles, seed, cfg=None):
        self.rng = random.Random(seed)
        self.path = path
        self.I = interp
        self.types = interp.types
        self.roles = roles
        self.memo = {}
        self.touched = set()
        self.kindsof = {}
        self.use = {}
        self.small = self.rng.random() < 0.5
        self.pos = self.rng.random() < 0.3
        self.classes = {}
        self.shapes = dict(path.shapes)
        self.ext = {}
        self.alias = {}
        self.alias_ops = ()
        self.ready = False
        self.build()
        self.ready = True
        self.trace = []
        self.depth = 0
        self.big = False

    # -- facts -----------------------------------------------------------------
    def build(self):
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x
        for a, b in self.path.facts:
            if a[0] == 'eq' and b:
                ra, rb = find(a[1]), find(a[2])
                if ra != rb:
                    parent[ra] = rb
                parent.setdefault(a[1], find(a[1]))
                parent.setdefault(a[2], find(a[2]))
        groups = {}
        for x in parent:
            groups.setdefault(find(x), set()).add(x)
        single = {}
        for (t, en), ks in self.path.kinds.items():
            self.kindsof[t] = ks
            if len(ks) == 1:
                single[t] = next(iter(ks))

        def rank(t):
            if t[0] == 'new' or (t[0] == 'app' and t[1] in ('E.c', 'E.var', 'F.true', 'F.false', 'F.var')):
                return 0
            if t in single:
                return 1
            if t[0] == 'app' and t[1][:2] in ('E.', 'F.'):
                return 2
            return 3
        self.repmap = {}
        self.kindpick = None    # chooses a kind the path leaves open
        self.groups = []
        for g in groups.values():
            outer = {t for t in g if any(u != t and inside(u, t) for u in g)}
            r = min(g, key=lambda t: (4 if t in outer else rank(t), len(repr(t)), repr(t)))
            ks = None
            for t in g:
                if t in self.kindsof:
                    ks = self.kindsof[t] if ks is None else ks & self.kindsof[t]
            if ks is not None:
                if not ks:
                    raise Reject()
                self.kindsof[r] = ks
            for t in g:
                self.repmap[t] = r
            self.groups.append((r, [t for t in g if t != r]))
        self.idsubst = []
        for a, b in self.path.facts:
            if a[0] == 'eq' and b:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if y[0] == 'app' and y[1] in ('E.subst', 'F.subst') and y[2] == x:
                        for m in y[3:5]:
                            excl = ()
                            if m[0] == 'kv':
                                excl, m = tuple(k for k, v in m[2]), m[1]
                            self.idsubst.append((x, m, excl))
        self.litcons = {}
        for a, b in self.path.facts:
            if a[0] == 'cmp' and is_lit(a[3]):
                self.litcons.setdefault(self.rep(a[2]), []).append((a[1], lit(a[3]), b))
            elif a[0] not in ('eq', 'cmp'):
                self.memo[('B', self.rep(a))] = b

    def rep(self, t):
        t = canon(t)
        t = self.repmap.get(t, t)
        if t[0] == 'app' and t[1] == 'at' and len(t) == 4 and self.ready and t[3][0] != 'varid' and self.types.get(t[3]) == VAR:
            n = ('app', 'at', t[2], ('varid', self.V(t[3])))
            self.types.setdefault(n, self.types.get(t))
            return self.repmap.get(n, n)
        return t

    def kind(self, t):
        k = self.I.cfg.known_kind(self.I, t)
        if k:
            return k
        if t[0] == 'inst' and t[2] is not None:
            return self.kind(self.rep(t[2]))
        ks = self.kindsof.get(t)
        if ks is not None and len(ks) == 1:
            return next(iter(ks))
        if ks is None:
            ty = self.types.get(t, '')
            if isinstance(ty, str) and ty.startswith(DS):
                c = ty[len(DS):].rstrip(' *')
                for k, v in list(KIND_CLASS_E.items()) + list(KIND_CLASS_F.items()):
                    if v == c:
                        return k
        return None

    def lits_ok(self, t, x):
        for op, l, truth in self.litcons.get(t, ()):
            r = {'<': x < l, '<=': x <= l, '==': x == l, '!=': x != l, '>': x > l, '>=': x >= l}[op]
            if r != truth:
                return False
        return True

    def sample_num(self, t, pool=None, nonzero=False, integral=False):
        cons = self.litcons.get(t)
        pool = pool or (POSPOOL if self.pos else (POOL[:6] if self.small else POOL))
        ext = list(pool)
        if cons:
            for op, l, truth in cons:
                if math.isfinite(l):
                    ext += [l, l + 1, l - 1, l + 0.5, l - 0.5]
                else:
                    ext += [l]
        c = [x for x in ext if self.lits_ok(t, x) and not (nonzero and x == 0) and not (integral and x != int(x))]
        if not c and cons:
            c = [x for x in POOL if self.lits_ok(t, x) and not (nonzero and x == 0) and not (integral and x != int(x))]
        if not c:
            raise Reject()
        x = self.rng.choice(c)
        if abs(x) > 1e6:
            self.big = True
        return x

    # -- components of cells -----------------------------------------------------
    def comp_(self, t, kind, role):
        """Term of component `role` of the cell t of the given kind."""
        cls = KIND_CLASS_E.get(kind) if kind in KIND_CLASS_E and not self.isformula(t) else KIND_CLASS_F.get(kind)
        if t[0] == 'app' and t[1] in ('E.c', 'E.var', 'F.var'):
            return t[2]
        if t[0] == 'new':
            i = self.roles.arg.get((cls, role, len(t) - 2))
            if i is None:
                if kind in ('And', 'Or') and len(t) == 4:
                    return ('coll', 'set', (t[2], t[3]), None)
                raise Opaque('component %s of %s' % (role, cls))
            return t[2 + i]
        f = self.roles.field.get((cls, role))
        if t[0] == 'inst':
            for a, b in t[3]:
                if a == f:
                    return b
            return self.comp_(self.rep(t[2]), kind, role) if t[2] is not None else ('fld', t, f)
        return ('fld', t, f)

    def isformula(self, t):
        ty = self.types.get(t, '')
        if ty:
            return 'Formula' in ty.split('<')[0]
        if t[0] == 'new':
            return 'Formula' in t[1]
        return t[0] == 'app' and t[1].startswith('F.')

    # -- numbers ---------------------------------------------------------------
    def num(self, t, c=None):
        if isinstance(t, LV):
            raise Opaque('location')
        k = t[0]
        if k in ('int', 'flt'):
            return t[1]
        if k == 'bool':
            return 1 if t[1] else 0
        if k == 'chr':
            return t[1]
        if k == 'enum':
            return t[3]
        t = self.rep(t)
        k = t[0]
        if k == 'op':
            op = t[1]
            if len(t) == 3:
                if op == 'neg':
                    return neg(self.num(t[2], c))
                raise Opaque(op)
            a, b = self.num(t[2], c), self.num(t[3], c)
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return mul(a, b)
            if op == '/':
                return div(a, b)
            if op == 'i/':
                if b == 0:
                    raise Skip()
                return int(a / b)
            if op == '%':
                if b == 0:
                    raise Skip()
                return int(math.fmod(a, b))
            if op == '|' and isinstance(a, (int, bool)):
                return int(a) | int(b)
            raise Opaque(op)
        if k in ('cmp', 'eq', 'not'):
            return 1 if self.B(t, c) else 0
        if k == 'app':
            n = t[1]
            if n == 'E.eval':
                if self.kind(self.rep(t[2])) == 'Constant':
                    return val(self.E(t[2], Ctx()))
                return self.E(t[2], self.env_ctx(t[3], c))
            if n.startswith('m.'):
                return self.mathfun(n[2:], [self.num(x, c) for x in t[2:]])
            if n in ('min', 'max'):
                a, b = self.num(t[2], c), self.num(t[3], c)
                return a if (val(a) <= val(b)) == (n == 'min') else b
            if n == 'at':
                r = self.env_lookup(t[2], t[3], c)
                if r is not None:
                    return r
            if n == 'trunc':
                return int(val(self.num(t[2], c)))
            if n == 'hash':
                return self.hashof(t)
            if n == 'size':
                return len(self.C(t[2]))
            if n in self.ext:
                return self.ext[n](self, t, c)
            if n == 'use_count':
                return self.leaf(t, lambda: self.sample_num(t, pool=[1, 2, 3], integral=True))
        if k == 'fld':
            b = self.rep(t[1])
            if b != t[1]:
                t = ('fld', b, t[2])
            kd = self.kind(b)
            if b[0] == 'new' or (b[0] == 'app' and b[1] in ('E.c',)):
                v = self.newfld(b, t[2])
                if v is not None and v != t:
                    return self.num(v, c)
            if kd == 'Constant' and t[2] == self.roles.field.get(('ExpressionConstant', 'v')):
                if b[0] == 'app':
                    x = self.E(b, c or Ctx())
                    if not self.lits_ok(t, val(x)):
                        raise Reject()
                    return x
                return self.leaf(t, lambda: self.sample_num(t))
            if kd == 'RealConstant':
                lbf, ubf = self.roles.field[('ExpressionRealConstant', 'lb')], self.roles.field[('ExpressionRealConstant', 'ub')]
                lb = self.leaf(('fld', b, lbf), lambda: self.sample_num(('fld', b, lbf)))
                if t[2] == lbf:
                    return lb
                if t[2] == ubf:
                    return self.leaf(t, lambda: lb)
            if kd == 'Mul' and t[2] == self.roles.field[('ExpressionMul', 'c')]:
                return self.leaf(t, lambda: self.sample_num(t, nonzero=True))
        if k == 'elem' and len(t) > 3 and t[3] == 'v':
            own = self.rep(t[1])
            if own != t[1]:
                t = ('elem', own) + t[2:]
            return self.leaf(t, lambda: self.sample_num(t, nonzero=(own[0] == 'fld' and self.kind(self.rep(own[1])) == 'Add')))
        if k == 'cast':
            return self.num(t[-1], c)
        ty = self.types.get(t, '')
        if ty == 'bool':
            return 1 if self.B(t, c) else 0
        if k in ('sym', 'fld', 'elem', 'app', 'uninit'):
            if ty in ('int', 'unsigned int', 'unsigned long', 'long', 'short', 'unsigned char', 'long long'):
                return self.leaf(t, lambda: self.sample_num(t, pool=UINTPOOL if ty.startswith('unsigned') else INTPOOL, integral=True))
            if ty in ('double', 'float', ''):
                if k == 'app' and ty == '' and t[1].startswith('E.'):
                    return self.E(t, c or Ctx())
                return self.leaf(t, lambda: self.sample_num(t))
            if ty == EXPR:
                return self.E(t, c or Ctx())
        raise Opaque('number %s : %s' % (show(t), ty))

    def newfld(self, b, name):
        for (cls, role), f in self.roles.field.items():
            if f == name:
                kd = self.kind(b)
                if kd and (KIND_CLASS_E.get(kd) == cls or KIND_CLASS_F.get(kd) == cls):
                    try:
                        return self.comp_(b, kd, role)
                    except Opaque:
                        return None
        return None

    def mathfun(self, n, a):
        x = val(a[0])
        if n == 'isnan':
            return x != x
        if n == 'isfinite':
            return math.isfinite(x)
        if n == 'isinf':
            return math.isinf(x)
        if n in ('fabs', 'abs'):
            return fun1('abs', a[0])
        if n == 'floor':
            return float(math.floor(x)) if math.isfinite(x) else x
        if n == 'ceil':
            return float(math.ceil(x)) if math.isfinite(x) else x
        if n == 'trunc':
            return float(math.trunc(x)) if math.isfinite(x) else x
        if n == 'frac':
            return math.modf(x)[0]
        if n == 'pow':
            return powr(a[0], a[1])
        if n == 'atan2':
            return fun2('atan2', a[0], a[1])
        if n == 'nextafter':
            return math.nextafter(x, val(a[1]))
        if n == 'fmod':
            return math.fmod(x, val(a[1]))
        if n == 'signbit':
            return math.copysign(1, x) < 0
        return fun1(n, a[0])

    def leaf(self, t, f):
        k = ('L', t)
        if k not in self.memo:
            self.memo[k] = f()
        return self.memo[k]

    def hashof(self, t):
        return self.leaf(t, lambda: self.rng.randrange(1 << 30))

    # -- variables ---------------------------------------------------------------
    def V(self, t):
        if t[0] == 'varid':
            return t[1]
        t = self.rep(t)
        if t[0] == 'app' and t[1] == 'V.fresh':
            return self.leaf(t, lambda: 100 + len(self.memo))
        if t[0] == 'app' and t[1] == 'dummy_variable':
            return -1
        if t[0] == 'fld':
            b = self.rep(t[1])
            if b[0] in ('new', 'app'):
                v = self.newfld(b, t[2])
                if v is not None and v != t:
                    return self.V(v)
            t = ('fld', b, t[2])
        if t[0] == 'elem':
            own = self.rep(t[1])
            if own[0] == 'fld' and self.types.get(self.rep(own[1])) in (VARS, ENV):
                own = self.rep(own[1])
            used = self.use.setdefault(own, set())
            key = ('L', ('elem', own) + t[2:])
            if key not in self.memo:
                c = [v for v in range(4) if v not in used]
                if not c:
                    c = [10 + len(used)]
                v = self.rng.choice(c)
                used.add(v)
                self.memo[key] = v
            return self.memo[key]
        if t[0] in ('sym', 'fld', 'app'):
            return self.leaf(t, lambda: self.rng.randrange(4))
        raise Opaque('variable ' + show(t))

    def vtype(self, t):
        """Type of a variable, as far as the facts say."""
        V = self.V(t)
        r = None
        for (x, en), ks in self.path.kinds.items():
            if x[0] == 'app' and x[1] == 'V.type' and self.V(x[2]) == V:
                r = ks if r is None else r & ks
        if r is not None:
            if not r:
                raise Reject()
            return 'CONTINUOUS' if 'CONTINUOUS' in r else sorted(r)[0]
        return self.memo.get(('vtype', V), 'CONTINUOUS')

    def vtypeV(self, V):
        """Type of a variable, chosen at random unless the facts say it."""
        for (x, en), ks in self.path.kinds.items():
            if x[0] == 'app' and x[1] == 'V.type' and self.V(x[2]) == V:
                return self.vtype(x[2])
        k = ('vtype', V)
        if k not in self.memo:
            self.memo[k] = 'BOOLEAN' if self.rng.random() < 0.35 else 'CONTINUOUS'
        return self.memo[k]

    def val(self, V, c):
        if V in c.ov:
            return c.ov[V]
        x = self.memo.get(('val', c.base, V))
        if x is None:
            if isinstance(c.base, tuple) and not (c.base[0] == 'env' and self.env_has(c.base[1], V)):
                raise Skip()
            x = self.rng.choice(POSPOOL if self.pos else POOL)
            self.memo[('val', c.base, V)] = x
        if c.dv is not None:
            return Dual(x, 1.0 if c.dv == V else 0.0)
        return x

    def bval(self, V, c):
        if V in c.ovb:
            return c.ovb[V]
        if isinstance(c.base, tuple) and c.base[0] in ('env', 'closed'):
            return val(self.val(V, c)) != 0
        k = ('bval', c.base, V)
        if k not in self.memo:
            self.memo[k] = self.rng.random() < 0.5
        return self.memo[k]

    def env_has(self, env, V):
        for sh, n in self.shapes.items():
            if sh == env or (sh[0] == 'fld' and sh[1] == env):
                return any(self.V(('elem', sh, i, 'k')) == V for i in range(n))
        k = ('has', env, V)
        if k not in self.memo:
            self.memo[k] = self.rng.random() < 0.8
        return self.memo[k]

    def env_root(self, t):
        t = self.rep(t)
        if t[0] == 'inst' and t[1] == ENV:
            for a, b in t[3]:
                return self.env_root(b)
        if t[0] == 'fld' and self.types.get(self.rep(t[1])) == ENV:
            return self.env_root(t[1])
        return t

    def env_ctx(self, env, c=None):
        t = self.env_root(env)
        ov = {}
        if t[0] == 'kv':
            for key, pr in t[2]:
                if pr is not None:
                    ov[self.V(key)] = self.num(pr[2] if pr[0] == 'pair' else ('fld', pr, 'second'))
            t = self.env_root(t[1])
        if is_coll(t):
            if t[3] is None:
                m = {}
                for pr in t[2]:
                    m.setdefault(self.V(pr[1]), self.num(pr[2]))
                return Ctx(('closed',), m, None, c.dv if c else None)
            t = t[3]
        t = self.env_root(t)
        for sh, n in self.shapes.items():
            if sh == t or (sh[0] == 'fld' and sh[1] == t):
                for i in range(n):
                    k = self.V(('elem', sh, i, 'k'))
                    if k in ov and not any(self.V(x) == k for x in self.kvkeys(env)):
                        raise Reject()
                    ov.setdefault(k, self.num(('elem', sh, i, 'v')))
                return Ctx(('closed',), ov, None, c.dv if c else None)
        return Ctx(('env', t), ov, None, c.dv if c else None)

    def kvkeys(self, env):
        t = self.env_root(env)
        return [k for k, pr in t[2]] if t[0] == 'kv' else []

    def env_lookup(self, m, key, c):
        t = self.env_root(m)
        ty = self.types.get(t, '')
        if not (ty == ENV or ty.startswith('std::unordered_map<' + VAR + ', double')):
            return None
        return self.val(self.V(key), self.env_ctx(t, None))

    # -- sets of variables ---------------------------------------------------------
    UNIVERSE = (0, 1, 2, 3)

    def universe(self):
        u = set(self.UNIVERSE)
        for k, v in self.memo.items():
            if k[0] == 'L' and isinstance(v, int) and not isinstance(v, bool) and self.types.get(k[1]) == VAR:
                u.add(v)
        return u

    def S(self, t):
        """Set of variables denoted by t."""
        t0 = t
        if isinstance(t, tuple) and t[0] == 'coll':
            return frozenset(self.V(x) for x in t[2])
        t = self.rep(t)
        if t[0] == 'inst' and t[1] == VARS:
            for a, b in t[3]:
                return self.S(b)
            return frozenset() if t[2] is None else self.S(t[2])
        if t[0] == 'kv':
            s = set(self.S(t[1]))
            for key, x in t[2]:
                if x is None:
                    s.discard(self.V(key))
                else:
                    s.add(self.V(key))
            return frozenset(s)
        if t[0] == 'fld' and (self.types.get(self.rep(t[1])) == VARS or (self.types.get(t[1]) == VARS)):
            inner = self.rep(t[1])
            if t in self.shapes:
                s = frozenset(self.V(('elem', t, i)) for i in range(self.shapes[t]))
                return s
            return self.S(inner)
        if t[0] == 'app' and t[1] == 'vars':
            s = self.vars(t[2])
            sh = ('fld', t, self.setfield())
            if sh in self.shapes:
                s2 = frozenset(self.V(('elem', sh, i)) for i in range(self.shapes[sh]))
                if s2 != s:
                    raise Reject()
            return s
        if t[0] == 'app' and t[1] == 'S.op':
            a, b = self.S(t[3]), self.S(t[4])
            return {'+': a | b, '-': a - b, '&': a & b}[t[2]]
        if t[0] == 'fld':
            b = self.rep(t[1])
            v = self.newfld(b, t[2]) if b[0] == 'new' else None
            if v is not None:
                return self.S(v)
        sh = ('fld', t, self.setfield())
        for s_ in (sh, t):
            if s_ in self.shapes:
                return frozenset(self.V(('elem', s_, i)) for i in range(self.shapes[s_]))
        ty = self.types.get(t, '')
        if ty == VARS or ty.startswith('std::set<' + VAR) or t[0] in ('sym', 'fld', 'app'):
            return frozenset(v for v in sorted(self.universe()) if self.member(t, v))
        raise Opaque('variables ' + show(t))

    def setfield(self):
        return getattr(self.roles, 'varset_field', 'vars_')

    def member(self, t, V):
        k = ('in', t, V)
        if k not in self.memo:
            self.memo[k] = self.rng.random() < 0.6
        return self.memo[k]

    def vars(self, t):
        """Free variables of an expression or formula."""
        t = self.rep(t)
        k = ('vars', t)
        if k in self.memo:
            return self.memo[k]
        r = self.vars_(t)
        return r

    def use_alias(self, ops):
        """Applications of ops denote the same value as their argument; when the
        application has a known kind, the argument is read through it."""
        self.alias_ops = ops
        for (t, en), ks in self.path.kinds.items():
            if len(ks) == 1 and t[0] == 'app' and t[1] in ops and t in self.fld_bases():
                self.alias[self.rep(t[2])] = (t, next(iter(ks)))

    def vars_(self, t):
        if t in self.alias:
            a, kd = self.alias[t]
            cls = KIND_CLASS_F if self.isformula(a) else KIND_CLASS_E
            if kd in ('And', 'Or'):
                r = frozenset()
                for x in self.C(self.comp_(a, kd, 's')):
                    r |= self.vars(x)
                return r
        if t[0] == 'app' and t[1] in self.alias_ops:
            return self.vars(t[2])
        if t[0] == 'app':
            n = t[1]
            if n in ('E.c', 'F.true', 'F.false'):
                return frozenset()
            if n in ('E.var', 'F.var'):
                return frozenset([self.V(t[2])])
            if n in ('F.all', 'F.any'):
                r = frozenset()
                for x in self.C(t[2]):
                    r |= self.vars(x)
                return r
            if n == 'F.forall':
                return self.vars(t[3]) - self.S(t[2])
            if n in ('F.vareq', 'F.varneq'):
                return frozenset([self.V(t[2]), self.V(t[3])])
            if n == 'E.uninterpreted_function':
                return self.S(t[3])
            if n in ('E.addmap', 'E.mulmap'):
                r = frozenset()
                for k, v in self.Mp(t[3]):
                    r |= self.vars(k)
                    if n == 'E.mulmap':
                        r |= self.vars(v)
                return r
            if n in ('E.subst', 'F.subst'):
                es, fs = self.sub_terms(t[3]), self.sub_terms(t[4])
                r = frozenset()
                for v in self.vars(t[2]):
                    if v in es:
                        r |= self.vars(es[v])
                    elif v in fs:
                        r |= self.vars(fs[v])
                    else:
                        r |= {v}
                return r
            if n in ('E.expand',):
                return self.vars(t[2])
            if n.startswith(('E.', 'F.')) and n not in ('E.diff', 'E.partial', 'E.eval', 'F.eval'):
                r = frozenset()
                for x in t[2:]:
                    if isinstance(x, tuple) and x[0] != 'str' and (self.types.get(x) in (EXPR, FORM) or x[0] in ('new',) or (x[0] == 'app' and x[1][:2] in ('E.', 'F.'))):
                        r |= self.vars(x)
                return r
        kd = self.kind(t)
        if kd:
            if self.isformula(t):
                if kd in ('True', 'False'):
                    return frozenset()
                if kd == 'Var':
                    return frozenset([self.V(self.comp_(t, kd, 'var'))])
                if kd in RELKIND:
                    return self.vars(self.comp_(t, kd, 'a')) | self.vars(self.comp_(t, kd, 'b'))
                if kd in ('And', 'Or'):
                    r = frozenset()
                    for x in self.C(self.comp_(t, kd, 's')):
                        r |= self.vars(x)
                    return r
                if kd == 'Not':
                    return self.vars(self.comp_(t, kd, 'f'))
                if kd == 'Forall':
                    return self.vars(self.comp_(t, kd, 'f')) - self.S(self.comp_(t, kd, 'vars'))
            else:
                if kd in ('Constant', 'RealConstant', 'NaN'):
                    return frozenset()
                if kd == 'Var':
                    return frozenset([self.V(self.comp_(t, kd, 'var'))])
                if kd in ('Add', 'Mul'):
                    r = frozenset()
                    for k_, v_ in self.Mp(self.comp_(t, kd, 'm')):
                        r |= self.vars(k_)
                        if kd == 'Mul':
                            r |= self.vars(v_)
                    return r
                if kd == 'IfThenElse':
                    return self.vars(self.comp_(t, kd, 'f')) | self.vars(self.comp_(t, kd, 'a')) | self.vars(self.comp_(t, kd, 'b'))
                if kd == 'UninterpretedFunction' and ('ExpressionUninterpretedFunction', 'variables') in self.roles.field:
                    return self.S(self.comp_(t, kd, 'variables'))
                if kd in UNARY.values():
                    return self.vars(self.comp_(t, kd, 'a'))
                if kd in BINARY.values() or kd == 'Div':
                    return self.vars(self.comp_(t, kd, 'a')) | self.vars(self.comp_(t, kd, 'b'))
        sh = ('fld', ('app', 'vars', t), self.setfield())
        if sh in self.shapes:
            return frozenset(self.V(('elem', sh, i)) for i in range(self.shapes[sh]))
        return frozenset(v for v in sorted(self.universe()) if self.member(('vars', t), v))

    # -- collections ---------------------------------------------------------------
    def C(self, t):
        """Element terms of a collection."""
        if is_coll(t):
            return list(t[2])
        t = self.rep(t)
        if is_coll(t):
            return list(t[2])
        if t[0] == 'inst' and len(t[3]) == 1:
            return self.C(t[3][0][1])
        if t[0] == 'fld':
            b = self.rep(t[1])
            v = self.newfld(b, t[2]) if b[0] == 'new' else None
            if v is not None:
                return self.C(v)
            t = ('fld', b, t[2])
        if t[0] in ('sym', 'fld', 'app', 'elem'):
            n = self.shapes.get(t)
            if n is None:
                n = self.leaf(('n', t), lambda: self.rng.choice([1, 2]))
            out = []
            ty = self.types.get(t, '')
            a = template_args(ty)
            for i in range(n):
                e = ('elem', t, i)
                if a:
                    self.types.setdefault(e, strip_type(a[0]))
                out.append(e)
            return out
        raise Opaque('collection ' + show(t))

    def Mp(self, t):
        """(key, value) terms of a map."""
        if not is_coll(t):
            t = self.rep(t)
        if is_coll(t):
            return [(p[1], p[2]) if p[0] == 'pair' else (('fld', p, 'first'), ('fld', p, 'second')) for p in t[2]]
        if t[0] == 'fld':
            b = self.rep(t[1])
            v = self.newfld(b, t[2]) if b[0] == 'new' else None
            if v is not None:
                return self.Mp(v)
            t = ('fld', b, t[2])
        if t[0] in ('sym', 'fld', 'app', 'elem'):
            n = self.shapes.get(t)
            if n is None:
                n = self.leaf(('n', t), lambda: self.rng.choice([1, 2]))
            ty = self.types.get(t, '')
            a = template_args(ty)
            out = []
            for i in range(n):
                k, v = ('elem', t, i, 'k'), ('elem', t, i, 'v')
                if len(a) > 1:
                    self.types.setdefault(k, strip_type(a[0]))
                    self.types.setdefault(v, strip_type(a[1]))
                out.append((k, v))
            return out
        raise Opaque('map ' + show(t))

    # -- substitutions ---------------------------------------------------------------
    def sub_terms(self, t):
        """Variable -> term, of a substitution (None-valued entries for opaque ones)."""
        t = self.rep(t) if not is_coll(t) else t
        if is_coll(t) and t[3] is None:
            out = {}
            for p in t[2]:
                out.setdefault(self.V(p[1]), p[2])
            return out
        out = {}
        upd = {}
        if t[0] == 'kv':
            for key, pr in t[2]:
                upd[self.V(key)] = None if pr is None else pr[2]
            t = self.rep(t[1])
        if is_coll(t):
            for p in t[2]:
                out.setdefault(self.V(p[1]), p[2])
        elif t in self.shapes:
            for k, v in self.Mp(t):
                out.setdefault(self.V(k), v)
        else:
            ta = template_args(self.types.get(t, ''))
            vty = strip_type(ta[1]) if len(ta) > 1 else EXPR
            for V in sorted(self.universe()):
                if (self.vtypeV(V) == 'BOOLEAN') != (vty == FORM):
                    continue
                if self.member(('dom', t), V):
                    x = ('app', 'at', t, ('varid', V))
                    self.types.setdefault(x, vty)
                    if self.unchanged(t, V):
                        x = ('app', 'F.var' if vty == FORM else 'E.var', ('varid', V))
                    out[V] = x
        for V, x in upd.items():
            if x is None:
                out.pop(V, None)
            else:
                out[V] = x
        return out

    def unchanged(self, t, V):
        """A term is structurally equal to its substitution only if every variable
        of it is replaced by itself."""
        for x, base, excl in self.idsubst:
            if base == t and V in self.vars(x) and not any(self.V(k) == V for k in excl):
                return True
        return False

    def subst_ctx(self, es, fs, c):
        ov, ovb = {}, {}
        for V, x in self.sub_terms(es).items():
            ov[V] = self.E(x, c)
        for V, x in self.sub_terms(fs).items():
            if V in ov:
                pass
            ovb[V] = self.F(x, c)
        r = c.with_(ov, ovb)
        return r

    # -- expressions -----------------------------------------------------------------
    def E(self, t, c):
        if isinstance(t, LV):
            raise Opaque('location')
        if t[0] in ('flt', 'int'):
            return float(t[1])
        t = self.rep(t)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Opaque('depth')
        try:
            return self.E_(t, c)
        finally:
            self.depth -= 1

    def E_(self, t, c):
        if t[0] == 'app':
            n = t[1]
            if n == 'E.c':
                x = self.num(t[2], c)
                if x != x:
                    raise Skip()
                return x
            if n == 'E.var':
                return self.val(self.V(t[2]), c)
            if n == 'E.+':
                return add(self.E(t[2], c), self.E(t[3], c))
            if n == 'E.-':
                return sub(self.E(t[2], c), self.E(t[3], c))
            if n == 'E.*':
                return mul(self.E(t[2], c), self.E(t[3], c))
            if n == 'E./':
                return div(self.E(t[2], c), self.E(t[3], c))
            if n == 'E.neg':
                return neg(self.E(t[2], c))
            f = n[2:]
            if n.startswith('E.') and f in UNARY:
                return fun1(f, self.E(t[2], c))
            if n.startswith('E.') and f in BINARY:
                return fun2(f, self.E(t[2], c), self.E(t[3], c))
            if n == 'E.if_then_else':
                return self.E(t[3], c) if self.F(t[2], c) else self.E(t[4], c)
            if n == 'E.expand':
                return self.E(t[2], c)
            if n == 'E.subst':
                return self.E(t[2], self.subst_ctx(t[3], t[4], c))
            if n == 'E.diff':
                if c.dv is not None:
                    raise Opaque('second derivative')
                if any(isinstance(x, Dual) for x in c.ov.values()):
                    raise Opaque('derivative under substitution')
                x = self.E(t[2], Ctx(c.base, c.ov, c.ovb, self.V(t[3])))
                return x.d if isinstance(x, Dual) else 0.0
            if n == 'E.real_constant':
                lb, ub = self.num(t[2], c), self.num(t[3], c)
                return lb if self.B(t[4], c) else ub
            if n == 'E.Sum':
                r = 0.0
                for x in self.C(t[2]):
                    r = add(r, self.E(x, c))
                return r
            if n == 'E.Prod':
                r = 1.0
                for x in self.C(t[2]):
                    r = mul(r, self.E(x, c))
                return r
            if n in ('E.addmap', 'E.mulmap'):
                r = self.num(t[2], c)
                for k, v in self.Mp(t[3]):
                    r = add(r, mul(self.num(v, c), self.E(k, c))) if n == 'E.addmap' else mul(r, powr(self.E(k, c), self.E(v, c)))
                return r
            if n == 'E.uninterpreted_function':
                return self.uf(t[2], self.S(t[3]), c)
            if n == 'E.ret':
                return self.E(t[2], c)
            if n == 'E.partial':
                env = self.env_root(t[3])
                ec = self.env_ctx(env)
                ov = dict(ec.ov)
                for V in self.vars(t[2]):
                    if V not in ov and self.env_in(env, V):
                        ov[V] = self.val(V, Ctx(ec.base))
                return self.E(t[2], c.with_(ov))
        if t[0] == 'app' and t[1] in self.ext:
            return self.ext[t[1]](self, t, c)
        kd = self.kind(t)
        if kd and (t[0] != 'app' or kd == 'NaN'):
            return self.cellE(t, kd, c)
        if t[0] in ('sym', 'fld', 'elem', 'app'):
            if t[0] == 'fld':
                b = self.rep(t[1])
                v = self.newfld(b, t[2]) if b[0] == 'new' else None
                if v is not None and v != t:
                    return self.E(v, c)
                if b != t[1]:
                    t2 = ('fld', b, t[2])
                    self.types.setdefault(t2, self.types.get(t, EXPR))
                    return self.E(t2, c)
            ty = self.types.get(t, EXPR)
            if ty in ('double', 'int'):
                return self.num(t, c)
            if t[0] == 'app' and t[1] not in ('at', 'visit', 'atomE') and not t[1].startswith('x.'):
                raise Opaque('expression ' + show(t))
            return self.leafE(t, c)
        raise Opaque('expression ' + show(t))

    def env_in(self, env, V):
        if is_coll(env):
            return V in [self.V(p[1]) for p in env[2]]
        if env[0] == 'kv':
            for key, pr in env[2]:
                if self.V(key) == V:
                    return pr is not None
            env = env[1]
        return self.env_has(self.env_root(env), V)

    def uf(self, name, vs, c):
        key = ('uf', self.rep(name) if name[0] != 'str' else name, tuple((V, val(self.val(V, c))) for V in sorted(vs)))
        if c.dv is not None and c.dv in vs:
            raise Opaque('derivative of an uninterpreted function')
        return self.leaf(key, lambda: self.rng.choice(POOL))

    def overrides(self, vs, c):
        """What the context changes of the base values of the variables vs."""
        if isinstance(c.base, tuple):
            return tuple((V, val(c.ov[V])) for V in sorted(vs) if V in c.ov), tuple((V, c.ovb[V]) for V in sorted(vs) if V in c.ovb)
        b = Ctx(c.base)
        return (tuple((V, val(c.ov[V])) for V in sorted(vs) if V in c.ov and val(c.ov[V]) != self.val(V, b)),
                tuple((V, c.ovb[V]) for V in sorted(vs) if V in c.ovb and c.ovb[V] != self.bval(V, b)))

    def leafE(self, t, c):
        ks = self.kindsof.get(t)
        vs = self.vars(t)
        ovk, ovb = self.overrides(vs, c)
        if isinstance(c.base, tuple):
            for V in vs:
                if V not in c.ov and not (c.base[0] == 'env' and self.env_has(c.base[1], V)):
                    raise Skip()
        if isinstance(c.base, tuple):
            self.touched.add(t)
        key = ('E', t, c.base if vs else '0', ovk, ovb)
        if key not in self.memo:
            self.memo[key] = self.rng.choice(self.leafpool(t))
        x = self.memo[key]
        if c.dv is not None:
            if c.dv not in vs:
                return Dual(x, 0.0)
            dk = ('D', key, c.dv)
            if dk not in self.memo:
                self.memo[dk] = self.rng.choice(POOL)
            return Dual(x, self.memo[dk])
        return x

    def leafpool(self, t):
        if self.pos:
            return POSPOOL
        return POOL[:6] if self.small else POOL

    def cellE(self, t, kd, c):
        g = lambda r: self.comp_(t, kd, r)
        if kd == 'Constant':
            return self.num(g('v'), c)
        if kd == 'NaN':
            raise Skip()
        if kd == 'RealConstant':
            if t[0] == 'new':
                lb, ub = self.num(t[2], c), self.num(t[3], c)
                if len(t) > 4 and lb != ub:
                    return lb if self.B(t[4], c) else ub
                return lb
            return self.num(g('lb'), c)
        if kd == 'Var':
            return self.val(self.V(g('var')), c)
        if kd == 'Add':
            r = self.num(g('c'), c)
            for k, v in self.Mp(g('m')):
                r = add(r, mul(self.num(v, c), self.E(k, c)))
            return r
        if kd == 'Mul':
            r = self.num(g('c'), c)
            for k, v in self.Mp(g('m')):
                r = mul(r, powr(self.E(k, c), self.E(v, c)))
            return r
        if kd == 'Div':
            return div(self.E(g('a'), c), self.E(g('b'), c))
        for f, k in UNARY.items():
            if k == kd:
                return fun1(f, self.E(g('a'), c))
        for f, k in BINARY.items():
            if k == kd:
                return fun2(f, self.E(g('a'), c), self.E(g('b'), c))
        if kd == 'IfThenElse':
            return self.E(g('a'), c) if self.F(g('f'), c) else self.E(g('b'), c)
        if kd == 'UninterpretedFunction':
            if t[0] == 'new' and len(t) == 4:
                return self.uf(t[2], self.S(t[3]), c)
            return self.uf(g('name'), self.vars(t), c)
        raise Opaque('kind ' + kd)

    # -- formulas --------------------------------------------------------------------
    def F(self, t, c):
        if isinstance(t, LV):
            raise Opaque('location')
        t = self.rep(t)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Opaque('depth')
        try:
            return self.F_(t, c)
        finally:
            self.depth -= 1

    def rel(self, op, a, b):
        a, b = val(a), val(b)
        eq = same(a, b)
        return {'==': eq, '!=': not eq, '<': a < b and not eq, '>': a > b and not eq, '<=': a <= b or eq, '>=': a >= b or eq}[op]

    def F_(self, t, c):
        if t[0] == 'app':
            n = t[1]
            if n == 'F.true':
                return True
            if n == 'F.false':
                return False
            if n == 'F.var':
                return self.bval(self.V(t[2]), c)
            if n == 'F.&&':
                a, b = self.F(t[2], c), self.F(t[3], c)
                return a and b
            if n == 'F.||':
                a, b = self.F(t[2], c), self.F(t[3], c)
                return a or b
            if n == 'F.!':
                return not self.F(t[2], c)
            if n == 'F.all':
                return all([self.F(x, c) for x in self.C(t[2])])
            if n == 'F.any':
                return any([self.F(x, c) for x in self.C(t[2])])
            if n == 'F.iff':
                return self.F(t[2], c) == self.F(t[3], c)
            if n == 'F.xor':
                return self.F(t[2], c) != self.F(t[3], c)
            if n in ('F.==', 'F.!=', 'F.<', 'F.<=', 'F.>', 'F.>='):
                return self.rel(n[2:], self.E(t[2], c), self.E(t[3], c))
            if n == 'F.forall':
                return self.forall(t[2], t[3], c)
            if n == 'F.subst':
                return self.F(t[2], self.subst_ctx(t[3], t[4], c))
            if n in ('F.vareq', 'F.varneq'):
                bt = [self.vtype(x) == 'BOOLEAN' for x in t[2:4]]
                if bt[0] != bt[1]:
                    raise Skip()
                if bt[0]:
                    r = self.bval(self.V(t[2]), c) == self.bval(self.V(t[3]), c)
                    return r if n == 'F.vareq' else not r
                r = self.rel('==', self.val(self.V(t[2]), c), self.val(self.V(t[3]), c))
                return r if n == 'F.vareq' else not r
            if n == 'F.ret':
                return self.F(t[2], c)
        if t[0] == 'bool':
            return t[1]
        if t in self.alias:
            return self.cellF(self.alias[t][0], self.alias[t][1], c)
        if t[0] == 'app' and t[1] in self.ext:
            return self.ext[t[1]](self, t, c)
        kd = self.kind(t)
        if kd and t[0] != 'app':
            return self.cellF(t, kd, c)
        if t[0] in ('sym', 'fld', 'elem', 'app'):
            if t[0] == 'fld':
                b = self.rep(t[1])
                v = self.newfld(b, t[2]) if b[0] == 'new' else None
                if v is not None and v != t:
                    return self.F(v, c)
                if b != t[1]:
                    t2 = ('fld', b, t[2])
                    self.types.setdefault(t2, self.types.get(t, FORM))
                    return self.F(t2, c)
            if t[0] == 'app' and t[1] not in ('at', 'visit', 'atomF') and not t[1].startswith('x.'):
                raise Opaque('formula ' + show(t))
            return self.leafF(t, c)
        raise Opaque('formula ' + show(t))

    def leafF(self, t, c):
        vs = self.vars(t)
        ov, ovb = self.overrides(vs, c)
        if isinstance(c.base, tuple):
            for V in vs:
                if V not in c.ov and not (c.base[0] == 'env' and self.env_has(c.base[1], V)):
                    raise Skip()
        key = ('F', t, c.base if vs else '0', ov, ovb)
        if key not in self.memo:
            self.memo[key] = self.rng.random() < 0.5
        return self.memo[key]

    def forall(self, vs, f, c):
        vs = sorted(self.S(vs))
        doms = [(0.0, 1.0)] * len(vs)
        import itertools
        for pt in itertools.product(*doms):
            if not self.F(f, c.with_(dict(zip(vs, pt)), {v: bool(x) for v, x in zip(vs, pt)})):
                return False
        return True

    def cellF(self, t, kd, c):
        g = lambda r: self.comp_(t, kd, r)
        if kd == 'True':
            return True
        if kd == 'False':
            return False
        if kd == 'Var':
            return self.bval(self.V(g('var')), c)
        if kd in RELKIND:
            return self.rel(RELKIND[kd], self.E(g('a'), c), self.E(g('b'), c))
        if kd == 'And':
            return all([self.F(x, c) for x in self.C(g('s'))])
        if kd == 'Or':
            return any([self.F(x, c) for x in self.C(g('s'))])
        if kd == 'Not':
            return not self.F(g('f'), c)
        if kd == 'Forall':
            return self.forall(g('vars'), g('f'), c)
        raise Opaque('kind ' + kd)

    # -- conditions --------------------------------------------------------------------
    def B(self, t, c=None):
        c = c or Ctx()
        k = t[0]
        if k == 'bool':
            return t[1]
        if k in ('int', 'flt'):
            return bool(t[1])
        if k == 'not':
            return not self.B(t[1], c)
        if k == 'cmp':
            a, b = t[2], t[3]
            if b[0] == 'enum':
                if a[0] == 'kind':
                    e = self.rep(a[1])
                    kd = self.kind(e)
                    name = b[1].split('::')[-1]
                    if kd is None and self.kindpick is not None:
                        kd = self.kindpick(e)
                    if kd is not None:
                        r = kd == name
                    else:
                        ks = self.kindsof.get(e)
                        if ks is not None and name not in ks:
                            r = False
                        else:
                            r = False   # an arbitrary other kind
                            if name in ('Constant',) and e[0] == 'app':
                                raise Reject()
                    return r if t[1] == '==' else not r
                x = self.leaf(('enum', self.rep(a)), lambda: None)
                return self.memo.get(('B', t), False)
            if b[0] == 'null' or a[0] == 'null':
                return self.memo.get(('B', t), False)
            x, y = val(self.num(a, c)), val(self.num(b, c))
            return {'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y, '>': x > y, '>=': x >= y}[t[1]]
        if k == 'eq':
            a, b = self.rep(t[1]), self.rep(t[2])
            if a == b:
                return True
            ty = self.types.get(a) or self.types.get(b) or ''
            if ty == VAR:
                return self.V(a) == self.V(b)
            if ty == VARS:
                return self.S(a) == self.S(b)
            if ty in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'double', 'bool', 'std::size_t'):
                return val(self.num(a, c)) == val(self.num(b, c))
            return False
        if k == 'op' and t[1] in ('&', '&&', '|', '||', '^'):
            x, y = self.B(t[2], c), self.B(t[3], c)
            return (x and y) if t[1][0] == '&' else (x or y) if t[1][0] == '|' else x != y
        if k == 'app':
            n = t[1]
            if n == 'F.eval':
                return self.F(t[2], self.env_ctx(t[3], c))
            if n.startswith('m.'):
                return bool(self.mathfun(n[2:], [self.num(x, c) for x in t[2:]]))
            if n in self.ext:
                return self.ext[n](self, t, c)
            if n == 'contains':
                r = self.contains(t[2], t[3])
                if r is not None:
                    return r
            if n in ('include_ite', 'is_polynomial'):
                t = ('app', n, self.rep(t[2]))
        kk = ('B', self.rep(t))
        if kk not in self.memo:
            self.memo[kk] = self.rng.random() < 0.5
        return self.memo[kk]

    def contains(self, s, key):
        s = self.rep(s)
        ty = self.types.get(s, '')
        kty = self.types.get(key, '')
        if ty.startswith('std::unordered_map<' + VAR + ', double') or ty == ENV:
            r = self.env_root(s)
            if r[0] == 'kv' or is_coll(r):
                return self.env_in(r, self.V(key))
            return self.env_has(r, self.V(key))
        if ty == VARS or ty.startswith('std::set<' + VAR):
            return self.V(key) in self.S(s)
        if ty.startswith('std::unordered_map<' + VAR):
            return self.V(key) in self.sub_terms(s)
        return None

    def at_map(self, m, key):
        return None

    # -- whole interpretation -------------------------------------------------------------
    def fld_bases(self):
        p = self.path
        r = getattr(p, 'fld_bases_', None)
        if r is None:
            r = set()
            seen = set()

            def go(x):
                if isinstance(x, dict):
                    for k, v in x.items():
                        go(k)
                        go(v)
                    return
                if isinstance(x, (list,)):
                    for y in x:
                        go(y)
                    return
                if not isinstance(x, tuple) or id(x) in seen:
                    return
                seen.add(id(x))
                if len(x) == 3 and x[0] == 'fld' and isinstance(x[1], tuple):
                    r.add(canon(x[1]))
                for y in x:
                    go(y)
            go([p.facts, p.shapes, list(p.outcome), p.events, getattr(p, 'final', {})])
            p.fld_bases_ = r
        return r

    def check_facts(self):
        c = Ctx()
        for sh, n in self.shapes.items():
            if sh[0] == 'fld' and sh[2] == self.setfield() and self.types.get(sh[1], VARS) == VARS:
                if len(self.S(sh[1])) != n:
                    raise Reject()
        # a computed term of known kind whose components are used has the value of the cell
        for (t, en), ks in self.path.kinds.items():
            if len(ks) != 1 or t[0] != 'app':
                continue
            kd = next(iter(ks))
            if en == FKIND and kd in ('True', 'False'):
                try:
                    if self.F(t, c) != (kd == 'True'):
                        raise Reject()
                except Skip:
                    raise Reject()
                continue
            if t not in self.fld_bases():
                continue
            if kd in ('Constant', 'NaN'):
                continue
            try:
                if en == FKIND:
                    ok = self.F(t, c) == self.cellF(t, kd, c)
                elif en == EKIND:
                    ok = same(self.E(t, c), self.cellE(t, kd, c))
                else:
                    continue
            except Skip:
                raise Reject()
            if not ok:
                raise Reject()
        for a, b in self.path.facts:
            if a[0] == 'eq':
                if b:
                    continue
                if self.B(a, c) != b:
                    raise Reject()
                continue
            if a[0] == 'cmp' and a[2][0] == 'kind' and a[3][0] == 'enum':
                continue
            try:
                r = self.B(a, c)
            except Skip:
                raise Reject()
            if r != b:
                raise Reject()
        for r, others in self.groups:
            ty = self.types.get(r) or ''
            for o in others:
                if o[0] == 'app' or o in self.kindsof or o[0] == 'new':
                    saved = self.repmap
                    try:
                        if ty == EXPR:
                            x = self.E(r, c)
                            self.repmap = {k: v for k, v in saved.items() if k != o}
                            y = self.E(o, c)
                            if not same(x, y):
                                raise Reject()
                        elif ty == FORM:
                            x = self.F(r, c)
                            self.repmap = {k: v for k, v in saved.items() if k != o}
                            if x != self.F(o, c):
                                raise Reject()
                    except Skip:
                        raise Reject()
                    finally:
                        self.repmap = saved


def seed_of(path, i):
    return (zlib.crc32(repr(path.facts).encode()) + 7919 * i) & 0xffffffff
