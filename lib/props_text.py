"""Whole texts of the input languages, read by the composed actions (P02)."""
from fractions import Fraction
import math
import re

import extract
import grammar
from check import parallel
from common import *
from engine import Thrown, Unsupported, lit
from equiv import viol
import props_read as R
from reader import Reader, Reject as NotRead
from sym import E, F

INTERVAL = 'ibex::Interval'
RMODE = ('g', '#rounding')


def up(s):
    """Smallest double not below the decimal, and largest not above it."""
    q = Fraction(s)
    d = float(q) if abs(q) < Fraction(10) ** 300 else float(s)
    if Fraction(d) == q:
        return d, d
    if Fraction(d) > q:
        return math.nextafter(d, -math.inf), d
    return d, math.nextafter(d, math.inf)


def is_lit(t):
    return isinstance(t, tuple) and t[0] in ('int', 'flt', 'bool', 'chr', 'str')


class TextCfg(R.ReadCfg):
    dtor_cls = re.compile(r'RoundingModeGuard$')

    def prim(self, I, ref):
        q, n, cls = ref['q'], ref['n'], ref.get('cls', '')
        if q in ('fesetround', 'std::fesetround'):
            return self.setround
        if q in ('fegetround', 'std::fegetround'):
            return lambda I, n_, ref, obj, args: I.heap.get(RMODE, ('int', 0))
        if q in ('std::stod', 'std::stol', 'std::stoll', 'std::stoi'):
            return self.number
        if cls == 'dreal::Box' and n in BOXM:
            return BOXM[n]
        if cls == 'dreal::ExpressionEvaluator':
            return evaluator
        if n in ('operator==', 'operator!=') and strip_type((ref.get('pt') or [cls])[0]) == INTERVAL:
            return lambda I, n_, ref, obj, args: I.cfg.mk(I, ('app', 'iv.' + ref['n']) + tuple(sym.vals(I, ([obj] if obj is not None else []) + list(args))), 'bool')
        if cls == INTERVAL:
            if '(ctor)' in ref['fid']:
                return self.interval
            if n in ('lb', 'ub', 'mid', 'diam', 'is_degenerated'):
                return self.ival
        if cls.startswith(DS) and n == 'Evaluate':
            return self.evaluate
        return super().prim(I, ref)

    def setround(self, I, n, ref, obj, args):
        I.heap[RMODE] = canon(I.settle(args[0]))
        return ('int', 0)

    def number(self, I, n, ref, obj, args):
        v = canon(I.settle(args[0]))
        if not (is_lit(v) and isinstance(lit(v), str)):
            raise Unsupported(ref['q'] + ' of an unknown text')
        s = lit(v)
        if ref['n'] != 'stod':
            m = re.match(r'\s*[-+]?\d+', s)
            if not m:
                raise Thrown('std::invalid_argument', None)
            return ('int', int(m.group(0)))
        m = re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', s)
        h = re.match(r'\s*[-+]?0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*([pP][-+]?\d+)?', s)
        if h:
            return ('flt', float.fromhex(h.group(0).strip()))
        if not m:
            raise Thrown('std::invalid_argument', None)
        r = I.heap.get(RMODE, ('int', 0))
        mode = lit(r) if is_lit(r) else None
        s = m.group(0).strip()
        lo, hi = up(s)
        if mode == 0:
            return ('flt', float(s))
        if mode == 0x800:       # FE_UPWARD
            return ('flt', hi)
        if mode == 0x400:       # FE_DOWNWARD
            return ('flt', lo)
        raise Unsupported('rounding mode')

    def interval(self, I, n, ref, obj, args):
        vs = sym.vals(I, args)
        if len(vs) == 1 and not (is_lit(vs[0])):
            return vs[0]
        if len(vs) == 1:
            vs = [vs[0], vs[0]]
        return I.cfg.mk(I, ('app', 'interval') + tuple(vs), INTERVAL)

    def ival(self, I, n, ref, obj, args):
        v = sym.self_val(I, obj)
        if v[0] == 'app' and v[1] == 'interval' and all(is_lit(x) for x in v[2:4]):
            a, b = lit(v[2]), lit(v[3])
            if ref['n'] == 'is_degenerated':
                return TRUE if a == b else FALSE
            return ('flt', {'lb': a, 'ub': b, 'mid': a if a == b else a + (b - a) / 2, 'diam': b - a}[ref['n']])
        return I.cfg.mk(I, ('app', 'iv.' + ref['n'], v), strip_type(ref['ret']))

    def piece(self, I, ref):
        return any(strip_type(t).startswith('dreal::') for t in ref.get('pt', []))

    def evaluate(self, I, n, ref, obj, args):
        v = sym.self_val(I, obj)
        x = number_of(v)
        if x is not None:
            return ('flt', x)
        return super().prim(I, ref)(I, n, ref, obj, args)


SIZE = 2


def evaluator(I, n, ref, obj, args):
    if '(ctor)' in ref['fid']:
        return I.cfg.mk(I, ('app', 'evaluator') + tuple(sym.vals(I, args)), 'dreal::ExpressionEvaluator')
    return I.cfg.mk(I, ('app', 'eval', sym.self_val(I, obj)) + tuple(sym.vals(I, args)), strip_type(ref['ret']))


def box_at(I, n, ref, obj, args):
    return I.cfg.mk(I, ('app', 'box.at', sym.self_val(I, obj)) + tuple(sym.vals(I, args)), INTERVAL)


BOXM = {'size': lambda I, n, ref, obj, args: ('int', SIZE), 'operator[]': box_at,
        'variable': lambda I, n, ref, obj, args: I.cfg.mk(I, ('app', 'box.variable', sym.self_val(I, obj)) + tuple(sym.vals(I, args)), VAR),
        'empty': lambda I, n, ref, obj, args: I.cfg.mk(I, ('app', 'box.empty', sym.self_val(I, obj)), 'bool')}
TRUE, FALSE = ('bool', True), ('bool', False)


def number_of(t):
    if isinstance(t, tuple) and t[0] == 'app':
        if t[1] == 'E.c' and is_lit(t[2]):
            return float(lit(t[2]))
        if t[1] == 'E.real_constant' and all(is_lit(x) for x in t[2:5]):
            return float(lit(t[2]) if lit(t[4]) else lit(t[3]))
        if t[1] == 'E.neg':
            x = number_of(t[2])
            return None if x is None else -x
        if t[1] in ('E.+', 'E.-', 'E.*', 'E./') and len(t) == 4:
            a, b = number_of(t[2]), number_of(t[3])
            if a is not None and b is not None:
                return {'E.+': lambda: a + b, 'E.-': lambda: a - b, 'E.*': lambda: a * b, 'E./': lambda: a / b}[t[1]]()
    return None


def v(n):
    return E('var', ('sym', '@' + n))


def bv(n):
    return F('var', ('sym', '@' + n))


def k(x):
    return E('c', ('flt', float(x)))


SORT = {'Real': 'CONTINUOUS', 'Int': 'INTEGER', 'Bool': 'BOOLEAN', 'Binary': 'BINARY'}
x, y, z = v('x'), v('y'), v('z')
D = '(declare-const x Real)(declare-const y Real)(declare-const b Bool)'
DX = [('decl', 'x', 'Real'), ('decl', 'y', 'Real'), ('decl', 'b', 'Bool')]


def le(a, b):
    return F('<=', a, b)


def al(n, body, kind='r'):
    return F('forall', ('coll', 'set', (('sym', '@' + n),), None), body)


# (text, effects): ('decl', name, sort[, lb, ub]), ('local', name, value), ('assert', formula), (action, argument...)
SMT = [
    ('(set-logic QF_NRA)(exit)', [('SetLogic', 'QF_NRA'), ('Exit',)]),
    ('(set-logic QF_LRA)', [('SetLogic', 'QF_LRA')]),
    ('(set-option :produce-models true)(set-option :produce-models false)', [('SetOption', ':produce-models', 'true'), ('SetOption', ':produce-models', 'false')]),
    ('(set-option :precision 0.25)', [('SetOption', ':precision', 0.25)]),
    ('(set-option :a b)', [('SetOption', ':a', 'b')]),
    ('(set-info :status sat)(set-info :smt-lib-version 2.5)(set-info :source "me")',
     [('SetInfo', ':status', 'sat'), ('SetInfo', ':smt-lib-version', 2.5), ('SetInfo', ':source', '"me"')]),
    ('(get-option :precision)', [('GetOption', ':precision')]),
    ('(push 1)(push 3)(pop 2)', [('Push', 1), ('Push', 3), ('Pop', 2)]),
    ('(check-sat)', [('CheckSat',)]),
    ('(get-model)', [('get_model',)]),
    ('(declare-fun x () Real)(declare-fun n () Int)(declare-fun b () Bool)', [('decl', 'x', 'Real'), ('decl', 'n', 'Int'), ('decl', 'b', 'Bool')]),
    ('(declare-fun x () Real [-1, 2.5])(declare-const w Int [0, 4])', [('decl', 'x', 'Real', -1, 2.5), ('decl', 'w', 'Int', 0, 4)]),
    ('(declare-const x Real)(minimize (+ x 1))(maximize x)', [('decl', 'x', 'Real'), ('Minimize', E('+', x, k(1))), ('Maximize', x)]),
    (D + '(assert (<= x y))(assert (not b))(check-sat)(assert b)(check-sat)',
     DX + [('assert', le(x, y)), ('assert', F('!', bv('b'))), ('CheckSat',), ('assert', bv('b')), ('CheckSat',)]),
    (D + '; a comment (assert false)\n(assert\n\t(<= x ; another\n y))', DX + [('assert', le(x, y))]),
    (D + '(assert (<= x 1))(push 1)(assert (<= y 2))(pop 1)(assert b)',
     DX + [('assert', le(x, k(1))), ('Push', 1), ('assert', le(y, k(2))), ('Pop', 1), ('assert', bv('b'))]),
    (D + '(assert (and (<= x 1) (or b (<= y 2)) (not b)))', DX + [('assert', F('&&', le(x, k(1)), F('&&', F('||', bv('b'), le(y, k(2))), F('!', bv('b')))))]),
    (D + '(assert (=> b (<= (- x y 1) (* 2 x y))))',
     DX + [('assert', F('||', F('!', bv('b')), le(E('-', E('-', x, y), k(1)), E('*', E('*', k(2), x), y))))]),
    # definitions
    ('(declare-const x Real)(define-fun c () Real (+ x 1))(assert (<= c 0))',
     [('decl', 'x', 'Real'), ('decl', 'c', 'Real'), ('assert', F('==', v('c'), E('+', x, k(1)))), ('assert', le(v('c'), k(0)))]),
    ('(declare-const b Bool)(define-fun c () Bool (not b))(assert c)',
     [('decl', 'b', 'Bool'), ('decl', 'c', 'Bool'), ('assert', F('xor', bv('c'), bv('b'))), ('assert', bv('c'))]),
    (D + '(define-fun f ((p Real) (q Real)) Real (- p (* 2 q)))(assert (<= (f x y) (f (+ y 1) x)))',
     DX + [('param', 'p'), ('param', 'q'), ('assert', le(E('-', x, E('*', k(2), y)), E('-', E('+', y, k(1)), E('*', k(2), x))))]),
    (D + '(define-fun f ((p Real) (c Bool)) Bool (or c (<= p y)))(assert (f (* x x) b))(assert (not (f y false)))',
     DX + [('param', 'p'), ('param', 'c'), ('assert', F('||', bv('b'), le(E('*', x, x), y))), ('assert', F('!', F('||', F('false'), le(y, y))))]),
    (D + '(define-fun f ((x Real)) Real (+ x y))(assert (<= (f y) x))',
     DX + [('param', 'x'), ('assert', le(E('+', y, y), x))]),
    (D + '(define-fun f ((p Real)) Real (+ p 1))(define-fun g ((p Real)) Real (f (f p)))(assert (<= (g x) y))',
     DX + [('param', 'p'), ('param', 'p'), ('assert', le(E('+', E('+', x, k(1)), k(1)), y))]),
    (D + '(define-fun f ((p Real)) Real p)(assert (<= (f x y) 0))', DX + [('param', 'p'), ('throw',)]),
    (D + '(define-fun f ((p Real)) Real p)(assert (<= (f b) 0))', DX + [('param', 'p'), ('throw',)]),
    (D + '(define-fun f ((p Real)) Bool p)(assert (f x))', DX + [('param', 'p'), ('throw',)]),
    (D + '(define-fun f ((p Real)) Bool p)(assert (<= (f x) 0))', DX + [('param', 'p'), ('throw',)]),
    (D + '(define-fun f ((p Bool)) Real p)(assert (f b))', DX + [('param', 'p'), ('throw',)]),
    (D + '(define-fun c () Real (<= x 0))(assert (<= c 0))', DX + [('throw',)]),
    (D + '(define-fun c () Bool x)(assert c)', DX + [('throw',)]),
    (D + '(define-fun f ((p Bool)) Bool p)(assert (f x))', DX + [('param', 'p'), ('throw',)]),
    (D + '(assert (<= (f x) 0))', DX + [('throw',)]),
    # names
    (D + '(assert (<= p 0))', DX + [('throw',)]),
    (D + '(define-fun f ((p Real)) Real p)(assert (<= p 0))', DX + [('param', 'p'), ('throw',)]),
    (D + '(assert (forall ((p Real [0, 1])) (<= p x)))(assert (<= p 0))', DX + [('assert', al('p', F('||', F('!', F('&&', le(k(0), v('p')), le(v('p'), k(1)))), le(v('p'), x)))), ('throw',)]),
    (D + '(assert (let ((p x)) (<= p y)))(assert (<= p 0))', DX + [('local', 'p', x), ('assert', le(x, y)), ('throw',)]),
    (D + '(assert (+ x 1))', DX + [('throw',)]),
    (D + '(assert (<= b x))', DX + [('throw',)]),
    # let
    (D + '(assert (let ((p (+ x 1))) (<= (* p p) y)))', DX + [('local', 'p', E('+', x, k(1))), ('assert', le(E('*', E('+', x, k(1)), E('+', x, k(1))), y))]),
    (D + '(assert (let ((p (<= x y)) (q (+ y 1))) (or p (<= q x))))',
     DX + [('local', 'p', le(x, y)), ('local', 'q', E('+', y, k(1))), ('assert', F('||', le(x, y), le(E('+', y, k(1)), x)))]),
    (D + '(assert (let ((x y) (y x)) (<= x (+ y 1))))', DX + [('local', 'x', y), ('local', 'y', x), ('assert', le(y, E('+', x, k(1))))]),
    (D + '(assert (let ((x (+ x 1))) (let ((x (* x 2))) (<= x y))))',
     DX + [('local', 'x', E('+', x, k(1))), ('local', 'x', E('*', E('+', x, k(1)), k(2))), ('assert', le(E('*', E('+', x, k(1)), k(2)), y))]),
    (D + '(assert (and (let ((x (+ x 1))) (<= x y)) (<= x 5)))',
     DX + [('local', 'x', E('+', x, k(1))), ('assert', F('&&', le(E('+', x, k(1)), y), le(x, k(5))))]),
    (D + '(assert (let ((p (<= x y))) (not p)))', DX + [('local', 'p', le(x, y)), ('assert', F('!', le(x, y)))]),
    (D + '(assert (let ((b (not b))) b))', DX + [('local', 'b', F('!', bv('b'))), ('assert', F('!', bv('b')))]),
    # quantifiers
    (D + '(assert (forall ((z Real [0, 1])) (<= z x)))', DX + [('assert', al('z', F('||', F('!', F('&&', le(k(0), z), le(z, k(1)))), le(z, x))))]),
    (D + '(assert (forall ((x Real)) (<= x y)))', DX + [('assert', al('x1', le(v('x1'), y)))]),
    (D + '(assert (and (forall ((x Real [1, 1])) (<= x y)) (<= x y)))',
     DX + [('assert', F('&&', al('x1', F('||', F('!', F('&&', le(k(1), v('x1')), le(v('x1'), k(1)))), le(v('x1'), y))), le(x, y)))]),
    (D + '(assert (forall ((z Real [0, 1]) (c Bool)) (or c (<= z x))))',
     DX + [('assert', al('z', F('||', F('!', F('&&', le(k(0), z), le(z, k(1)))), le(z, x))))]),
    (D + '(assert (not (forall ((z Real [0, 1])) (forall ((w Real [0, 1])) (<= z w)))))',
     DX + [('assert', F('!', al('z', al('w', F('||', F('!', F('&&', F('&&', le(k(0), z), le(z, k(1))), F('&&', le(k(0), v('w')), le(v('w'), k(1))))), le(z, v('w')))))))]),
]
# definitions below a binder: known finding
BINDER = [
    ('forall', D + '(assert (forall ((z Real [0, 1])) (let ((p (+ z 1))) (<= p y))))',
     DX + [('assert', al('z', F('||', F('!', F('&&', le(k(0), z), le(z, k(1)))), le(E('+', z, k(1)), y))))],
     DX + [('local', 'p', E('+', z, k(1))), ('assert', al('z', F('||', F('!', F('&&', le(k(0), z), le(z, k(1)))), le(v('%p0'), y))))]),
    ('define-fun', D + '(define-fun f ((q Real)) Real (let ((p (+ q 1))) (* p p)))(assert (<= (f x) (f y)))',
     DX + [('param', 'q'), ('assert', le(E('*', E('+', x, k(1)), E('+', x, k(1))), E('*', E('+', y, k(1)), E('+', y, k(1)))))],
     DX + [('param', 'q'), ('local', 'p', E('+', v('%q0'), k(1))), ('assert', le(E('*', v('%p0'), v('%p0')), E('*', v('%p0'), v('%p0'))))]),
]
for _s in ('0', '7', '-3', '+4', '120', '1.5', '-0.25', '.5', '-.5', '2.', '+1.5', '1e2', '1.5E-3', '-2.5e+3', '0.1', '-0.1', '0.3', '-0.3', '+0.7', '123456789.123456789', '1e-5', '007.5', '0x1.8p1', '-0x2'):
    SMT.append(('(declare-const x Real)(assert (<= x %s))' % _s, [('decl', 'x', 'Real'), ('assert', le(x, k(float.fromhex(_s) if 'x' in _s else float(_s))))]))

DX2 = [('decl', 'x', 'Real', -3, 4), ('decl', 'y', 'Real', 0, 2.5)]
D2 = 'var: [-3, 4] x; [0, 2.5] y; '


def dr(ctr, f):
    return (D2 + 'ctr: ' + ctr + ';', DX2 + [('assert', f), ('CheckSat',), ('Exit',)])


DR = [
    (D2 + 'ctr: x <= y; y <= 1; cost: x + y;', DX2 + [('assert', le(x, y)), ('assert', le(y, k(1))), ('Minimize', [E('+', x, y)]), ('CheckSat',), ('Exit',)]),
    (D2 + 'cost: x; y;', DX2 + [('Minimize', [x, y]), ('CheckSat',), ('Exit',)]),
    (D2, DX2 + [('CheckSat',), ('Exit',)]),
    ('var: 5 x; ctr: x <= 1;', [('decl', 'x', 'Real', 5, 5), ('assert', le(x, k(1))), ('CheckSat',), ('Exit',)]),
    ('# a comment\nvar: [1 + 1, 2 * 3] x; ctr: x <= 1;', [('decl', 'x', 'Real', 2, 6), ('assert', le(x, k(1))), ('CheckSat',), ('Exit',)]),
    (D2 + 'ctr: p <= 1;', DX2 + [('throw',)]),
]
for _s in ('0', '7', '120', '1.5', '.5', '2.', '1e2', '1.5E-3', '0.1', '0.3', '007.5'):
    DR.append(dr('x <= ' + _s, le(x, k(float(_s)))))

# standard precedence of the infix operators of DR, loosest first
LEVELS = [('+', '-'), ('*', '/'), ('u-',), ('^',)]
LOGIC = [('=>',), ('or',), ('and',), ('not',)]


def standard(op1, op2):
    """Does `a op1 b op2 c` group to the left?"""
    lv = {o: i for i, l in enumerate(LEVELS + LOGIC) for o in l}
    if lv[op1] != lv[op2]:
        return lv[op1] > lv[op2]
    return op1 not in ('^', '=>')


def mean(op, a):
    w = {'or': 'or', 'and': 'and', '=>': '=>'}.get(op, op)
    sorts = 'F' * len(a) if op in ('or', 'and', '=>', 'not') else 'E' * len(a)
    return R.meaning(w, sorts)[1](a)


def dr_operators():
    out = []
    T = (x, y, v('w'))
    decl = 'var: [0, 1] x; [0, 1] y; [0, 1] w; '
    dx = [('decl', n, 'Real', 0, 1) for n in 'xyw']

    def add(text, f):
        out.append((decl + 'ctr: ' + text + ';', dx + [('assert', f), ('CheckSat',), ('Exit',)]))
    arith = [o for l in LEVELS for o in l if o != 'u-']
    for a in arith:
        for b in arith:
            l = standard(a, b)
            t = mean(b, [mean(a, [T[0], T[1]]), T[2]]) if l else mean(a, [T[0], mean(b, [T[1], T[2]])])
            add('x %s y %s w <= 1' % (a, b), le(t, k(1)))
            add('1 <= x %s y %s w' % (a, b), le(k(1), t))
    for a in arith:
        t = mean(a, [E('neg', T[0]), T[1]]) if standard('u-', a) else E('neg', mean(a, [T[0], T[1]]))
        add('- x %s y <= 1' % a, le(t, k(1)))
        add('x %s (- y) <= 1' % a, le(mean(a, [T[0], E('neg', T[1])]), k(1)))
    for a in arith:
        add('(x %s y) %s w <= 1' % (a, a), le(mean(a, [mean(a, [T[0], T[1]]), T[2]]), k(1)))
        add('x %s (y %s w) <= 1' % (a, a), le(mean(a, [T[0], mean(a, [T[1], T[2]])]), k(1)))
    P = [le(x, k(0.5)), le(y, k(0.5)), le(v('w'), k(0.5))]
    txt = ['x <= 0.5', 'y <= 0.5', 'w <= 0.5']
    logic = ['=>', 'or', 'and']
    for a in logic:
        for b in logic:
            t = mean(b, [mean(a, P[:2]), P[2]]) if standard(a, b) else mean(a, [P[0], mean(b, P[1:])])
            add('%s %s %s %s %s' % (txt[0], a, txt[1], b, txt[2]), t)
        add('not %s %s %s' % (txt[0], a, txt[1]), mean(a, [F('!', P[0]), P[1]]))
        add('(%s %s %s) %s %s' % (txt[0], a, txt[1], a, txt[2]), mean(a, [mean(a, P[:2]), P[2]]))
    add('%s implies %s' % (txt[0], txt[1]), mean('=>', P[:2]))
    for w in ('=', '<', '<=', '>', '>='):
        add('x %s y' % w, R.meaning(w, 'EE')[1]([x, y]))
        add('x + w %s y * w' % w, R.meaning(w, 'EE')[1]([E('+', x, T[2]), E('*', y, T[2])]))
    for w in DRFUN1:
        add('%s(x) <= y' % w, le(R.meaning(w, 'E')[1]([x]), y))
    for w in DRFUN2:
        add('%s(x, y) <= w' % w, le(R.meaning(w, 'EE')[1]([x, y]), T[2]))
    return out


DRFUN1 = ['exp', 'log', 'abs', 'sin', 'cos', 'tan', 'asin', 'arcsin', 'acos', 'arccos', 'atan', 'arctan', 'sinh', 'cosh', 'tanh', 'sqrt']
DRFUN2 = ['atan2', 'arctan2', 'min', 'max', 'pow']


def smt_operators():
    """Every word at its smallest arity, in context."""
    out = []
    X = {'E': [x, y, v('w'), E('+', x, k(1))], 'F': [le(x, y), bv('b'), bv('c'), F('!', bv('b'))]}
    txt = {'E': ['x', 'y', 'w', '(+ x 1)'], 'F': ['(<= x y)', 'b', 'c', '(not b)']}
    decl = D + '(declare-const w Real)(declare-const c Bool)'
    dx = DX + [('decl', 'w', 'Real'), ('decl', 'c', 'Bool')]
    for w, ms in R.MEANING.items():
        if w in ('distinct', 'implies'):
            continue
        for pat, n, res, f in ms:
            s = pat[0] * max(n, 3) if pat.endswith('*') else pat
            if w in ('=', '<', '<=', '>', '>=', '=>'):
                s = s[:2]
            cnt = {'E': 0, 'F': 0}
            a, t = [], []
            for c in s:
                a.append(X[c][cnt[c]])
                t.append(txt[c][cnt[c]])
                cnt[c] += 1
            term = '(%s %s)' % (w, ' '.join(t)) if s else w
            val = f(a)
            out.append((decl + '(assert %s)' % (term if res == 'F' else '(<= %s 1)' % term), dx + [('assert', val if res == 'F' else le(val, k(1)))]))
    return out


# --- judging ---------------------------------------------------------------------------------

QUERIES = {'config', 'mutable_config', 'get_model', 'box'}


def effects(p):
    """Effects of a path in order, without repeated queries of the configuration."""
    return [e[1:] for e in p.events if e[0] == 'ctx' and e[1] not in ('config', 'mutable_config', 'box', 'version')]


def fresh_name(t):
    """(name, is it decorated)"""
    n = t[3]
    if is_lit(n) and isinstance(lit(n), str):
        return lit(n), False
    ps = [lit(x[1]) for x in flat_pieces(n) if is_lit(x[1]) and isinstance(lit(x[1]), str)]
    return (ps[-1] if ps else '?'), True


def flat_pieces(n):
    if isinstance(n, tuple) and n and n[0] == 'piece':
        yield n
    elif isinstance(n, tuple):
        for q in n:
            yield from flat_pieces(q)


def rename(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(rename(q, m) for q in t)
    return t


class Wrong(Exception):
    pass


class Unclear(Exception):
    pass


def plain(t):
    """A value of an argument for comparison."""
    if is_lit(t):
        return lit(t)
    if isinstance(t, tuple) and t[0] == 'enum':
        return t[1].split('::')[-1]
    if isinstance(t, tuple) and t[0] == 'app' and t[1].startswith(('E.', 'F.')):
        x_ = number_of(t)
        return x_ if x_ is not None else t
    return t


def match(want, p):
    """Pair the effects of a path with the expected ones.
    Returns (groups [(expected formulas, actual formulas)], value comparisons, locals, renaming)."""
    fresh = [e[1] for e in p.events if e[0] == 'newvar']
    glob = [t for t in fresh if not fresh_name(t)[1]]
    loc = [t for t in fresh if fresh_name(t)[1]]
    ren, used = {}, set()

    def bind(name, t):
        ren[('sym', '@' + name)] = t
    wl = [w for w in want if w[0] in ('local', 'param')]
    locs = []
    for w in wl:
        c = [t for t in loc if fresh_name(t)[0] == w[1] and t not in used]
        if not c:       # the definition is expanded
            continue
        used.add(c[0])
        locs.append((c[0], w))
    cnt = {}
    for t in glob:
        n = fresh_name(t)[0]
        i = cnt.get(n, 0)
        cnt[n] = i + 1
        bind(n if i == 0 else '%s%d' % (n, i), t)
    acts = effects(p)
    groups, values = [], []
    ex, ac = [], []
    wi = [w for w in want if w[0] not in ('local', 'param', 'throw')]
    decls = [w for w in wi if w[0] == 'decl']
    wi = [w for w in wi if w[0] != 'decl']
    adecl = [a for a in acts if a[0] == 'DeclareVariable' and a[-1] == ('bool', True)]
    ldecl = [a for a in acts if a[0] == 'DeclareVariable' and a[-1] == ('bool', False)]
    rest = [a for a in acts if a[0] != 'DeclareVariable']
    if len(adecl) + len(ldecl) + len(rest) != len(acts):
        raise Unclear('declaration with an unknown flag')
    if len(adecl) != len(decls):
        raise Wrong('%d model variables are declared instead of %d' % (len(adecl), len(decls)))
    for w, a in zip(decls, adecl):
        t = a[1]
        if t != ren.get(('sym', '@' + w[1])):
            raise Wrong('the variable declared for %s is %s' % (w[1], show(t)))
        ty = plain(t[4]) if len(t) > 4 else 'CONTINUOUS'
        if ty != SORT[w[2]]:
            raise Wrong('%s is declared with type %s instead of %s' % (w[1], ty, SORT[w[2]]))
        if len(w) > 3:
            if len(a) < 5:
                raise Wrong('the bounds of %s are lost' % w[1])
            values += [(k(w[3]), a[2], 'lower bound of ' + w[1]), (k(w[4]), a[3], 'upper bound of ' + w[1])]
        elif len(a) > 3:
            raise Wrong('%s is declared with bounds' % w[1])
    for a in ldecl:
        if a[1] not in [t for t, _ in locs]:
            raise Wrong('an unexpected local variable %s is declared' % show(a[1]))

    def is_barrier(q):
        return q[0] not in ('Assert', 'assert')
    i = 0
    ws, as_ = split(wi), split(rest)
    if [b[0] for _, b in ws] != [b[0] for _, b in as_]:
        raise Wrong('the actions are %s instead of %s' % (', '.join(b[0] for _, b in as_ if b[0]) or 'none', ', '.join(b[0] for _, b in ws if b[0]) or 'none'))
    for (fe, be), (fa, ba) in zip(ws, as_):
        groups.append(([rename(w[1], ren) for w in fe], [a[1] for a in fa]))
        for w, a in zip(be[1:], ba[1:]):
            if isinstance(w, list):
                if not (is_coll(a) and len(a[2]) == len(w)):
                    raise Wrong('%s has other arguments' % be[0])
                values += [(rename(q, ren), r, 'argument of ' + be[0]) for q, r in zip(w, a[2])]
            elif isinstance(w, tuple):
                values.append((rename(w, ren), a, 'argument of ' + be[0]))
            elif plain(a) != w:
                if isinstance(plain(a), tuple):
                    raise Unclear('argument %s' % show(a)[:100])
                raise Wrong('the argument of %s is %r instead of %r' % (be[0], plain(a), w))
        if len(be) > len(ba) or (len(ba) > len(be)):
            raise Wrong('%s has %d arguments instead of %d' % (be[0], len(ba) - 1, len(be) - 1))
    return groups, values, [(t, w, ren) for t, w in locs], ren


def split(l):
    """[(assertions, following action)]"""
    out, cur = [], []
    for q in l:
        if q[0] in ('Assert', 'assert'):
            cur.append(q)
        else:
            out.append((cur, q))
            cur = []
    out.append((cur, ('',)))
    return out


def answers(p):
    """Does the printed text say what the checks of this path found? None, or (is it wrong, why)."""
    ks = [k for k, e in enumerate(p.events) if e[:2] == ('ctx', 'CheckSat')]
    if not ks:
        return None
    want = []
    for k in ks:
        f = dict(p.facts).get(('fld', ('app', 'ctx.CheckSat', ('int', k)), 'm_has_value'))
        if f is None:
            return False, 'the result of a check is not looked at'
        want.append('delta-sat' if f else 'unsat')
    o = p.heap.get(('g', 'std::cout'))
    if not is_coll(o):
        return True, 'nothing is printed for the result of a check'
    txt = ''.join(lit(q[1]) if q[0] == 'piece' and is_lit(q[1]) and isinstance(lit(q[1]), str) else '\n' if q[0] == 'piece' and q[1] == ('manip', 'endl') else '?' for q in o[2][1:])
    have = re.findall(r'^(delta-sat|unsat|sat)\b', txt, re.M)
    if have != want:
        return True, 'the checks found %s and the printed answers are %s' % (', '.join(want), ', '.join(have) or 'none')
    return None


def conj(l):
    r = F('true')
    for f in l:
        r = F('&&', r, f)
    return r


def judge(env, fn, text, want, what):
    r = Result(what + ': ' + re.sub(r'\s+', ' ', text)[-110:], fn)
    r.fn = what
    I = Interp(env.prog, TextCfg(env.prog, env.roles))
    throws = any(w[0] == 'throw' for w in want)
    for p in I.explore(fn, setup_for(fn)):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s [%s]' % (r.name, p.outcome[1], p.describe()[:150]))
            continue
        threw = p.outcome[0] == 'throw' and not p.outcome[1].endswith('Accept')
        if p.outcome[0] == 'abort' or threw and not throws:
            r.violations.append((r.name, '%s: reading this text ends with %s [%s]' % (r.name, p.outcome[1], p.describe()[:200])))
            continue
        if throws and not threw:
            r.violations.append((r.name, '%s: a text with an error is read without complaint' % r.name))
            continue
        try:
            groups, values, locs, ren = match(want, p)
        except Wrong as e:
            r.violations.append((r.name, '%s: %s [%s]' % (r.name, e, p.describe()[:200])))
            continue
        except Unclear as e:
            r.undecided.append('%s: %s' % (r.name, e))
            continue
        if p.outcome[0] == 'throw':
            p.outcome = ('ret', ('void',))
        a = answers(p)
        if a:
            (r.violations if a[0] else r.undecided).append((r.name, '%s: %s' % (r.name, a[1])) if a[0] else '%s: %s' % (r.name, a[1]))
        for we, wa in groups:
            judge_group(env, r, I, p, we, wa, locs)
        for i, (t, w, _) in enumerate(locs):
            if w[0] == 'local':
                judge_group(env, r, I, p, [], [f for _, wa in groups for f in wa], locs, i)
        s = re.search(r'\(<= x ([-+.0-9][^ ()]*)\)\)$|x <= ([^ ;]*);$', text)
        if s and len(groups) > 0 and not throws:
            ns = [t for _, wa in groups for f in wa for t in numerals(f)]
            if len(ns) == 1:
                judge_numeral(r, s.group(1) or s.group(2), ns[0])
        for we, wa, lab in values:
            decide_path(env, r, I, p, lambda m, p: m.E(we, C0), lambda m, p: m.E(wa, C0), None)
        if not groups and not values:
            r.agree += 1
    return r


def local_names(locs):
    """Names of the locals in expected terms: %name0, %name1, ..."""
    return {('sym', '@%%%s%d' % (n, i)): t for n in {w[1] for _, w, _ in locs} for i, t in enumerate(q[0] for q in locs if q[1][1] == n)}


def local_ctx(m, locs, wrong=None):
    """Every local variable has the value of its definition (the one at index `wrong` another value)."""
    c, names = C0, local_names(locs)
    for i, (t, w, ren) in enumerate(locs):
        if w[0] != 'local':
            continue
        d = rename(rename(w[2], ren), names)
        V = m.V(t)
        if plain(t[4]) == 'BOOLEAN':
            c = c.with_({}, {V: m.F(d, c) ^ (i == wrong)})
        else:
            c = c.with_({V: m.E(d, c) + (i == wrong)}, {})
    return c


def judge_group(env, r, I, p, we, wa, locs, wrong=None):
    """Equal where the locals have their values; false where one has another value."""
    want, have = rename(conj(we), local_names(locs)), conj(wa)

    def pre(m, p):
        for e in p.events:
            if e[0] == 'newvar':
                m.memo[('vtype', m.V(e[1]))] = plain(e[1][4]) if len(e[1]) > 4 else 'CONTINUOUS'
    q = Result(r.name)
    if wrong is None:
        spec = lambda m, p: m.F(want, local_ctx(m, locs))
    else:
        spec = lambda m, p: False
    decide_path(env, q, I, p, spec, lambda m, p: m.F(have, local_ctx(m, locs, wrong)), None, pre=pre)
    r.merge(q)


def numerals(t):
    if isinstance(t, tuple):
        if t[:2] in (('app', 'E.real_constant'), ('app', 'E.c')):
            yield t
        for q in t:
            yield from numerals(q)


def judge_numeral(r, s, t):
    """The constant read for numeral s encloses its value."""
    q = Fraction(s) if 'x' not in s else Fraction(float.fromhex(s))
    if t[1] == 'E.c':
        if is_lit(t[2]) and lit(t[2]) != float(q):
            r.violations.append((r.name, '%s: the numeral %s is read as %r' % (r.name, s, lit(t[2]))))
        return
    lo, hi = t[2], t[3]
    if not (is_lit(lo) and is_lit(hi)):
        return
    if not Fraction(lit(lo)) <= q <= Fraction(lit(hi)):
        r.violations.append((r.name, '%s: the numeral %s is read as %r .. %r, which does not contain it' % (r.name, s, lit(lo), lit(hi))))


def judge_binder(env, fn, kind, text, want, wrong, what):
    """A definition below a binder; the known wrong reading asserts it once for the whole problem."""
    r = judge(env, fn, text, want, what)
    if r.violations:
        q = judge(env, fn, text, wrong, what)
        if not q.violations and not q.undecided and q.agree:
            r.violations = [('let below ' + kind, 'let below %s: the definition is asserted once for the whole problem instead of inside the binder, as in %s' % (kind, text))]
    return r


def judge_job(env, q, text, want, what, extra):
    if q is None:
        r = Result(what + ': ' + text, text)
        r.violations.append((r.name, '%s: %s is not read' % (what, text)))
        return r
    fn = env.prog.one(q)
    if extra:
        return judge_binder(env, fn, extra[0], text, want, extra[1], what)
    return judge(env, fn, text, want, what)


def run_texts(c):
    jobs_in = []
    for d, cls, head, items, binder in (('dreal/smt2', 'Smt2', '#include "dreal/smt2/driver.h"\n#include "dreal/smt2/scanner.h"', SMT + smt_operators(), BINDER),
                                        ('dreal/dr', 'Dr', '#include "dreal/dr/driver.h"\n#include "dreal/dr/scanner.h"', DR + dr_operators(), [])):
        rd = Reader(d, cls)
        fns = []
        for i, (text, want) in enumerate([it[:2] for it in items] + [b[1:3] for b in binder]):
            try:
                code = rd.code(text)
            except NotRead as e:
                jobs_in.append((None, text, want, '%s text: %s' % (cls, e), None))
                continue
            fns.append('void t%d() { location loc; %sDriver driver{Context{}};\n%s\n}' % (i, cls, code))
            b = i - len(items)
            jobs_in.append(('dreal::probe::text%s::t%d' % (cls, i), text, want, cls + ' text', (binder[b][0], binder[b][3]) if b >= 0 else None))
        pro = [re.sub(r'^#pragma.*$|^#(undef|define|ifdef|endif|if|else).*$', '', q, flags=re.M) for q in rd.g.prologue if 'yylex' not in q]
        src = '\n'.join([head, '#include <cmath>\n#include <iostream>\n#include <limits>\n#include <sstream>'] + pro +
                        ['namespace dreal { namespace probe { namespace text%s {' % cls,
                         'struct Abort : public std::runtime_error { Abort() : std::runtime_error("abort") {} };', 'struct Accept {};',
                         '#define YYABORT throw Abort()', '#define YYERROR throw Abort()', '#define YYACCEPT throw Accept()', rd.prelude()] + fns + ['}}}'])
        yield extract.probe('text' + cls, src)
    yield jobs_in
