"""Interval terms: how ibex::Interval is summarised, and the value of such a term at an interpretation."""
import math

import model as M
from engine import DECLINE, LV, VOID, canon, is_lit, lit, FALSE, TRUE
from model import Opaque, Skip
from program import strip_type

IV = 'ibex::Interval'
INF = float('inf')
ALL = (-INF, INF)


def settle(I, x):
    x = I.settle(x)
    if isinstance(x, LV):
        x = I.settle(I.get(x))
    return canon(x)


def iv(I, name, *a):
    t = ('app', 'iv.' + name) + a
    I.types[t] = IV
    return t


NUMERIC = {'lb', 'ub', 'mid', 'rad', 'diam', 'mig', 'mag'}
BOOLEAN = {'is_empty', 'is_degenerated', 'is_unbounded', 'is_bisectable', 'is_subset', 'is_superset', 'is_strict_subset', 'is_strict_superset',
           'is_interior_subset', 'is_disjoint', 'intersects', 'contains', 'interior_contains'}
FUN = {'sqr', 'sqrt', 'pow', 'exp', 'log', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'cosh', 'sinh', 'tanh', 'abs', 'max', 'min', 'sign',
       'floor', 'ceil', 'integer'}
OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '&': 'meet', '|': 'hull'}


def lift(I, x, ty):
    """A number where an interval is expected."""
    v = settle(I, x)
    if ty in ('double', 'int', 'float'):
        return iv(I, 'pt', v)
    return v


def prim(I, ref):
    q = ref['q']
    if not q.startswith('ibex::'):
        return None
    short = q.split('::')[-1]
    op = ref.get('op')
    pts = [strip_type(t) for t in ref['pt']]
    ret = strip_type(ref['ret'])
    own = ref.get('cls') == IV
    if ref['fid'].startswith(IV + '::(ctor)'):
        def ctor(I, n, ref, obj, args):
            if not args:
                return iv(I, 'new', ('flt', -INF), ('flt', INF))
            if len(args) == 1 and pts[0] == IV:
                return settle(I, args[0])
            a = [settle(I, x) for x in args]
            return iv(I, 'new', a[0], a[1]) if len(a) == 2 else iv(I, 'pt', a[0])
        return ctor
    if own and op in ('+=', '-=', '*=', '/=', '&=', '|='):
        def assign(I, n, ref, obj, args):
            I.set(obj, iv(I, OPS[op[0]], settle(I, obj), lift(I, args[0], pts[0])))
            return obj
        return assign
    if own and op == '=':
        def store(I, n, ref, obj, args):
            I.set(obj, lift(I, args[0], pts[0]))
            return obj
        return store
    if own and short == 'set_empty':
        def set_empty(I, n, ref, obj, args):
            I.set(obj, iv(I, 'empty'))
            return VOID
        return set_empty
    if own and short in NUMERIC | BOOLEAN:
        def query(I, n, ref, obj, args):
            t = ('app', 'iv.' + short, settle(I, obj)) + tuple(lift(I, x, 'no') for x in args)
            I.types[t] = 'double' if short in NUMERIC else 'bool'
            return t
        return query
    if own and short == 'bisect':
        def bisect(I, n, ref, obj, args):
            r = settle(I, args[0]) if args else ('flt', 0.5)
            x = settle(I, obj)
            return ('pair', iv(I, 'left', x, r), iv(I, 'right', x, r))
        return bisect
    if (own or any(t == IV for t in pts)) and op in ('==', '!='):
        def eq(I, n, ref, obj, args):
            a = ([obj] if obj is not None else []) + list(args)
            t = ('app', 'iv.eq', settle(I, a[0]), settle(I, a[1]))
            I.types[t] = 'bool'
            return t if op == '==' else ('not', t)
        return eq
    if ret == IV and op in OPS:
        def arith(I, n, ref, obj, args):
            a = ([obj] if obj is not None else []) + list(args)
            tys = ([IV] if obj is not None else []) + pts
            a = [lift(I, x, t) for x, t in zip(a, tys)]
            return iv(I, OPS[op], *a) if len(a) == 2 else iv(I, 'neg', *a)
        return arith
    if ret == IV and short in FUN and not ref.get('cls'):
        def fun(I, n, ref, obj, args):
            return iv(I, short, *[lift(I, x, t) for x, t in zip(args, pts)])
        return fun
    return None


# -- values ------------------------------------------------------------------
def mk(lo, hi):
    if lo != lo or hi != hi:
        return ALL
    return (lo, hi) if lo <= hi else None


def mulc(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def mul(x, y):
    c = [mulc(a, b) for a in x for b in y]
    return (min(c), max(c))


def div(x, y):
    if y == (0, 0):
        return None
    if y[0] < 0 < y[1]:
        return ALL
    if y[0] == 0:
        inv = (1 / y[1], INF)
    elif y[1] == 0:
        inv = (-INF, 1 / y[0])
    else:
        inv = (1 / y[1], 1 / y[0])
    if y[0] != 0 and y[1] != 0:
        c = [a / b for a in x for b in y]
        c = [v for v in c if v == v]
        return (min(c), max(c))
    return mul(x, inv)


def safe(f, *a):
    try:
        return f(*a)
    except OverflowError:
        return INF
    except (ValueError, ZeroDivisionError):
        raise Skip()


def mono(f, lo=-INF, hi=INF):
    def g(x):
        a, b = max(x[0], lo), min(x[1], hi)
        return mk(safe(f, a), safe(f, b)) if a <= b else None
    return g


def wave(f, top):
    """sin and cos: top is where the maximum 1 is reached."""
    def g(x):
        if x[1] - x[0] >= 2 * math.pi or math.isinf(x[0]) or math.isinf(x[1]):
            return (-1.0, 1.0)
        c = [f(x[0]), f(x[1])]
        for at, v in ((top, 1.0), (top + math.pi, -1.0)):
            k = math.ceil((x[0] - at) / (2 * math.pi))
            if at + 2 * math.pi * k <= x[1]:
                c.append(v)
        return (min(c), max(c))
    return g


def tan(x):
    if math.isinf(x[0]) or math.isinf(x[1]) or math.floor(x[0] / math.pi + 0.5) != math.floor(x[1] / math.pi + 0.5):
        return ALL
    return (math.tan(x[0]), math.tan(x[1]))


def even(f):
    def g(x):
        a, b = abs(x[0]), abs(x[1])
        lo = 0.0 if x[0] <= 0 <= x[1] else min(a, b)
        return (safe(f, lo), safe(f, max(a, b)))
    return g


def ipow(x, n):
    if n == 0:
        return (1.0, 1.0)
    if n < 0:
        d = ipow(x, -n)
        return div((1.0, 1.0), d)
    f = lambda v: safe(lambda: float(v) ** n) if not math.isinf(v) else (v if n % 2 else INF)
    return even(f)(x) if n % 2 == 0 else (f(x[0]), f(x[1]))


def rpow(x, y):
    if y[0] == y[1] and y[0] == int(y[0]):
        return ipow(x, int(y[0]))
    if x[0] < 0:
        return ALL if y[0] != y[1] else None if x[1] < 0 else rpow((0.0, x[1]), y)
    if x[0] == 0 and y[0] <= 0:
        return (0.0, INF)
    c = [safe(lambda: a ** b) for a in x for b in y]
    return (min(c), max(c))


def atan2(y, x):
    if x[0] <= 0 and y[0] <= 0 <= y[1]:
        return (-math.pi, math.pi)
    c = [math.atan2(a, b) for a in y for b in x]
    if y[0] <= 0 <= y[1]:
        c.append(0.0)
    return (min(c), max(c))


UN = {'sqr': lambda x: ipow(x, 2), 'sqrt': mono(math.sqrt, 0.0), 'exp': mono(lambda v: 0.0 if v == -INF else math.exp(v)),
      'log': mono(lambda v: -INF if v <= 0 else math.log(v), 0.0), 'sin': wave(math.sin, math.pi / 2), 'cos': wave(math.cos, 0.0), 'tan': tan,
      'asin': mono(math.asin, -1.0, 1.0), 'atan': mono(math.atan), 'sinh': mono(math.sinh), 'tanh': mono(math.tanh), 'cosh': even(math.cosh), 'abs': even(abs),
      'neg': lambda x: (-x[1], -x[0]), 'floor': mono(math.floor), 'ceil': mono(math.ceil),
      'integer': lambda x: mk(math.ceil(x[0]) if not math.isinf(x[0]) else x[0], math.floor(x[1]) if not math.isinf(x[1]) else x[1]),
      'sign': lambda x: (-1.0 if x[0] < 0 else 0.0 if x[0] == 0 else 1.0, 1.0 if x[1] > 0 else 0.0 if x[1] == 0 else -1.0)}


def acos(x):
    r = UN['asin'](x)
    return r and (math.pi / 2 - r[1], math.pi / 2 - r[0])


UN['acos'] = acos
BIN = {'add': lambda x, y: mk(x[0] + y[0], x[1] + y[1]), 'sub': lambda x, y: mk(x[0] - y[1], x[1] - y[0]), 'mul': mul, 'div': div,
       'max': lambda x, y: (max(x[0], y[0]), max(x[1], y[1])), 'min': lambda x, y: (min(x[0], y[0]), min(x[1], y[1])),
       'pow': rpow, 'atan2': atan2, 'meet': lambda x, y: mk(max(x[0], y[0]), min(x[1], y[1]))}

STATIC = {'ALL_REALS': ALL, 'EMPTY_SET': None, 'ZERO': (0.0, 0.0), 'ONE': (1.0, 1.0), 'NEG_REALS': (-INF, 0.0), 'POS_REALS': (0.0, INF),
          'PI': (math.pi, math.pi), 'TWO_PI': (2 * math.pi, 2 * math.pi), 'HALF_PI': (math.pi / 2, math.pi / 2)}


def value(m, t):
    """The interval a term stands for: (lo, hi) or None if empty."""
    if isinstance(t, tuple) and t and t[0] == 'app' and t[1].startswith('iv.'):
        n = t[1][3:]
        if n == 'new':
            return mk(M.val(m.num(t[2])), M.val(m.num(t[3])))
        if n == 'pt':
            x = M.val(m.num(t[2]))
            return None if math.isinf(x) else (x, x)
        if n == 'empty':
            return None
        a = [value(m, x) for x in t[2:3 if n in ('left', 'right') else None]]
        if n == 'hull':
            return a[1] if a[0] is None else a[0] if a[1] is None else (min(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        if any(x is None for x in a):
            return None
        if n in ('left', 'right'):
            x, r = a[0], M.val(m.num(t[3]))
            mid = (0.0 if x == ALL else -1e300 if math.isinf(x[0]) else 1e300 if math.isinf(x[1]) else x[0] + r * (x[1] - x[0]))
            return (x[0], mid) if n == 'left' else (mid, x[1])
        return UN[n](a[0]) if n in UN else BIN[n](*a)
    if isinstance(t, tuple) and t[0] == 'app' and t[1] in m.ext:
        return m.ext[t[1]](m, t, None)
    if isinstance(t, tuple) and t[0] in ('sym', 'fld', 'elem', 'app', 'g'):
        name = str(t[1]).split('::')[-1] if t[0] in ('sym', 'g') else ''
        if name in STATIC:
            return STATIC[name]
        return m.leaf(('ival', m.rep(t)), lambda: sample(m))
    raise Opaque('interval ' + str(t)[:100])


def sample(m):
    if m.rng.random() < 0.1:
        return m.rng.choice([None, ALL, (0.0, INF), (-INF, 1.0)])
    a = m.rng.choice(M.POOL)
    return (a, a + m.rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 2.0, 5.0]))


def query(m, t, c=None):
    """Numeric and Boolean questions about intervals."""
    n = t[1][3:]
    x = value(m, t[2])
    if n in NUMERIC:
        if x is None:
            raise Skip()
        lo, hi = x
        if n == 'lb':
            return lo
        if n == 'ub':
            return hi
        if n == 'mid':
            return 0.0 if x == ALL else 1e300 if hi == INF else -1e300 if lo == -INF else lo + (hi - lo) / 2
        if n == 'diam':
            return hi - lo
        if n == 'rad':
            return (hi - lo) / 2
        if n == 'mag':
            return max(abs(lo), abs(hi))
        return 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
    if n == 'is_empty':
        return x is None
    if n == 'is_degenerated':
        return x is None or x[0] == x[1]
    if n == 'is_unbounded':
        return x is not None and (math.isinf(x[0]) or math.isinf(x[1]))
    if n == 'is_bisectable':
        return x is not None and x[0] < query(m, ('app', 'iv.mid', t[2])) < x[1]
    if n in ('contains', 'interior_contains'):
        v = M.val(m.num(t[3]))
        return x is not None and (x[0] <= v <= x[1] if n == 'contains' else x[0] < v < x[1])
    y = value(m, t[3])
    sub = lambda a, b: a is None or b is not None and b[0] <= a[0] and a[1] <= b[1]
    if n == 'eq':
        return x == y
    if n == 'is_subset':
        return sub(x, y)
    if n == 'is_superset':
        return sub(y, x)
    if n == 'is_strict_subset':
        return sub(x, y) and x != y
    if n == 'is_strict_superset':
        return sub(y, x) and x != y
    if n == 'is_disjoint':
        return BIN['meet'](x, y) is None if x and y else True
    if n == 'intersects':
        return BIN['meet'](x, y) is not None if x and y else False
    if n == 'is_interior_subset':
        return x is None or y is not None and (y[0] < x[0] or y[0] == -INF) and (x[1] < y[1] or y[1] == INF)
    raise Opaque('interval question ' + n)


EXT = {'iv.' + n: query for n in NUMERIC | BOOLEAN | {'eq'}}
