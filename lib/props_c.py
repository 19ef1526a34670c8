"""The solver side: conversions to the interval back end, evaluators, boxes (C..)."""
import math

import extract
from common import *
from engine import LV, NULL, TRUE, FALSE, VOID, coll, is_lit, lit
import ival
import model as M
from check import parallel
from sym import SymConfig, E, F, KIND_CLASS_E, KIND_CLASS_F

IB = 'ibex::'
DR = 'dreal::'
THIS = ('sym', 'this')


def argv(I, x):
    """The value of an argument, references followed."""
    x = I.settle(x)
    if isinstance(x, LV):
        x = I.settle(I.get(x))
    return canon(x)


# -- terms of the interval back end ------------------------------------------
IBEX_UN = ('sign abs sqr sqrt exp log cos sin tan acos asin atan cosh sinh tanh acosh asinh atanh floor ceil').split()
IBEX_BIN = 'max min atan2 pow'.split()
RELOPS = {'<': 'lt', '<=': 'leq', '>': 'gt', '>=': 'geq', '==': 'eq', '=': 'eq'}


def ibex_prim(I, ref):
    q = ref['q']
    if not q.startswith(IB):
        return None
    name = q[len(IB):]
    short = name.split('::')[-1]
    op = ref.get('op')

    def wrap(I, v):
        """A node, behind the reference IBEX returns."""
        I.types[v] = EXPR
        return I.new_root(v, 'ibex')

    pts = [strip_type(t) for t in ref['pt']]

    def handler(I, n, ref, obj, args):
        a = ([obj] if obj is not None else []) + list(args)
        tys = ([IB + 'ExprNode'] if obj is not None else []) + pts

        def expr(i):
            v = argv(I, a[i])
            return v if tys[i] == IB + 'ExprNode' else const_of(I, v)
        if ref['fid'].startswith('ibex::Interval::(ctor)'):
            v = [argv(I, x) for x in args]
            if len(v) == 1 and I.types.get(v[0], '').endswith('Interval'):
                return v[0]
            t = ('app', 'ival', v[0], v[-1]) if v else ('app', 'ival', ('flt', float('-inf')), ('flt', float('inf')))
            I.types[t] = IB + 'Interval'
            return t
        if name == 'ExprSymbol::new_':
            t = ('app', 'x.symbol', ('int', len([e for e in I.events if e[0] == 'symbol'])))
            I.events.append(('symbol', t, [argv(I, x) for x in args]))
            return wrap(I, t)
        if name.startswith('Array') and short == 'add':
            I.events.append(('array.add', argv(I, args[0])))
            return None
        if name.startswith('Array') and '(ctor)' in ref['fid'] and not args:
            return ('app', 'x.array')
        if name.startswith('Dim::'):
            return ('app', 'x.dim', ('str', short))
        if short == 'new_scalar':
            v = argv(I, args[0])
            return wrap(I, const_of(I, v))
        if op and len(a) == 2 and op in '+-*/' and strip_type(ref['ret']) == IB + 'ExprNode':
            return wrap(I, E(op, expr(0), expr(1)))
        if op == '-' and len(a) == 1:
            return wrap(I, E('neg', expr(0)))
        if op in RELOPS and len(a) == 2 and strip_type(ref['ret']) == IB + 'ExprCtr':
            t = ('app', 'ctr', op, expr(0), expr(1))
            I.types[t] = FORM
            return I.new_root(t, 'ctr')
        if short in IBEX_UN and len(a) == 1:
            return wrap(I, E('pow', expr(0), E('c', ('flt', 2.0))) if short == 'sqr' else E(short, expr(0)))
        if short in IBEX_BIN and len(a) == 2:
            return wrap(I, E(short, expr(0), expr(1)))
        return DECLINE
    return handler


def const_of(I, v):
    if isinstance(v, tuple) and v[:2] == ('app', 'ival'):
        t = E('c', v[2]) if v[2] == v[3] else ('app', 'x.ival', v[2], v[3])
    else:
        t = E('c', v)
    I.types[t] = EXPR
    return t


def quiet_log(I, ref):
    """Logging is off."""
    if ref['q'].endswith('logger::should_log'):
        return lambda I, n, ref, obj, args: FALSE
    if ref['q'] == DR + 'log' and not ref['pt']:
        return lambda I, n, ref, obj, args: I.new_root(('app', 'x.log'), 'log')


class IbexCfg(SymConfig):
    def prim(self, I, ref):
        h = quiet_log(I, ref) or ibex_prim(I, ref)
        return h if h is not None else SymConfig.prim(self, I, ref)


def visit_method(prog, cls, suffix, formula):
    for m in prog.classes[cls]['methods']:
        f = prog.functions.get(m['fid'])
        if f and f.get('body') and f['n'] == 'Visit' + suffix and f['params'] and (strip_type(f['params'][0]['type']) == FORM) == formula:
            return f


def show_paths(ps, k=10):
    for p in ps[:k]:
        print(p.outcome[0], show(p.outcome[1])[:300] if p.outcome[0] == 'ret' else str(p.outcome[1])[:200], '|', p.describe()[:300])


# -- C12 ---------------------------------------------------------------------
E_HANDLER = {k: v for k, v in __import__('props_visit').E_HANDLER.items()}
F_HANDLER = {k: v for k, v in __import__('props_visit').F_HANDLER.items()}
NO_IBEX_E = {'IfThenElse', 'UninterpretedFunction', 'NaN'}
NO_IBEX_F = {'False', 'Var', 'And', 'Or', 'Forall'}


def follow(m, p, v):
    """What a returned pointer leads to."""
    while isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
        v = p.interp_get(v[1])
    return v


def x_ival(m, t, c):
    lo, hi = m.num(t[2], c), m.num(t[3], c)
    if lo != hi:
        raise Opaque('interval constant')
    return lo


def convert_e(env, cls, f, k, visit):
    root = ('sym', f['params'][0].get('name') or 'a0')
    r = Result('%s::%s(%s)' % (cls.split('::')[-1], f['n'], k), f)
    cfg = IbexCfg(env.prog, env.roles)

    def handler(I, ref, obj, args):
        if ref['fid'] in visit['e']:
            return ('ptr', I.new_root(argv(I, args[0]), 'node'))
    cut_cfg(cfg, handler)
    cfg.kinds_restrict = {root: {k}}
    I = Interp(env.prog, cfg)
    vals = {}

    def at_exit(I):
        pass
    paths = I.explore(f, setup_for(f))
    for p in paths:
        r.paths += 1
        out = p.outcome
        if k in NO_IBEX_E:
            if out[0] == 'ret':
                r.violations.append((r.name, '%s returns %s for a term of kind %s, which has no counterpart' % (r.fn, show(out[1])[:100], k)))
            else:
                r.agree += 1
            continue
        if k == 'Var':
            var = ('fld', root, env.roles.field[('ExpressionVar', 'var')])
            if out[0] == 'throw':
                miss = [a for a, b in p.facts if a[:2] == ('app', 'contains') and not b]
                if miss:
                    r.agree += 1
                else:
                    r.violations.append((r.name, '%s rejects a variable that was declared [when %s]' % (r.fn, p.describe()[:200])))
                continue
            if out[0] == 'ret':
                v = out[1]
                if v[:2] == ('app', 'at') and v[3] == ('app', 'V.id', var):
                    r.agree += 1
                elif v[:2] == ('app', 'at'):
                    r.violations.append((r.name, '%s looks up %s for the variable %s' % (r.fn, show(v[3])[:100], show(var))))
                else:
                    r.undecided.append('%s: returns %s' % (r.name, show(v)[:200]))
                continue
        if out[0] == 'ret' and out[1] == NULL:
            empty = [t for t, n in p.shapes.items() if n == 0]
            if k in ('Add', 'Mul') and empty:
                r.vacuous += 1       # such a node has at least one operand (S09)
            else:
                r.violations.append((r.name, '%s returns no node when %s' % (r.fn, p.describe()[:300])))
            continue
        if out[0] == 'ret' and isinstance(out[1], tuple) and out[1][0] == 'ptr' and isinstance(out[1][1], LV):
            v = p.heap.get(out[1][1].root)
            if out[1][1].path or v is None:
                r.undecided.append('%s: returns %s' % (r.name, show(out[1])[:200]))
                continue
            v = canon(v)
            if k == 'RealConstant':
                want = ('app', 'x.ival') + tuple(('fld', root, env.roles.field[('ExpressionRealConstant', x)]) for x in ('lb', 'ub'))
                if v == want:
                    r.agree += 1
                    continue
                if v[:2] in (('app', 'x.ival'), ('app', 'E.c')):
                    r.violations.append((r.name, '%s converts an interval constant to %s [when %s]' % (r.fn, show(v)[:200], p.describe()[:200])))
                    continue
        elif out[0] == 'ret':
            r.undecided.append('%s: returns %s' % (r.name, show(out[1])[:200]))
            continue
        else:
            v = None
        decide_path(env, r, I, p, lambda m, p: m.E(root, C0), lambda m, p, v=v: m.E(v, C0), {'x.ival': x_ival})
    return r


def convert_f(env, cls, f, k, visit, zero):
    root = ('sym', f['params'][0].get('name') or 'a0')
    r = Result('%s::%s(%s)' % (cls.split('::')[-1], f['n'], k), f)
    ctr = {}

    def handler(I, ref, obj, args):
        if ref['fid'] in visit['e']:
            return ('ptr', I.new_root(argv(I, args[0]), 'node'))
        if ref['fid'] in visit['f']:
            t = ('app', 'x.ctr', argv(I, args[0]), argv(I, args[1]))
            I.types[t] = FORM
            return ('ptr', I.new_root(t, 'ctr'))
    for pol in (True, False):
        cfg = IbexCfg(env.prog, env.roles)
        cut_cfg(cfg, handler)
        cfg.kinds_restrict = {root: {k}}
        I = Interp(env.prog, cfg)

        def setup(I):
            this, args = setup_for(f)(I)
            args[1] = ('bool', pol)
            for z, v in zero.items():
                I.set_raw(this.sub(('f', z)), ('ptr', I.new_root(v, 'const')))
            return this, args
        for p in I.explore(f, setup):
            r.paths += 1
            out = p.outcome
            what = 'a formula of kind %s%s' % (k, '' if pol else ', negated')
            if k in NO_IBEX_F:
                if out[0] == 'ret':
                    r.violations.append((r.name, '%s returns %s for %s, which has no counterpart' % (r.fn, show(out[1])[:100], what)))
                else:
                    r.agree += 1
                continue
            dis = (k == 'Eq' and not pol) or (k == 'Neq' and pol)
            if out[0] == 'ret' and out[1] == NULL:
                if dis or (k == 'True' and pol):
                    r.agree += 1
                elif k == 'True':
                    r.vacuous += 1          # the negation of True is never built
                else:
                    r.violations.append((r.name, '%s gives no constraint for %s' % (r.fn, what)))
                continue
            if out[0] in ('throw', 'abort') and (dis or k == 'True'):
                r.agree += 1
                continue
            v = None
            if out[0] == 'ret':
                v = p.heap.get(out[1][1].root) if out[1][0] == 'ptr' and isinstance(out[1][1], LV) and not out[1][1].path else None
                if v is None:
                    r.undecided.append('%s: returns %s' % (r.name, show(out[1])[:200]))
                    continue
                v = canon(v)

            def result(m, p, v=v):
                if v[:2] == ('app', 'ctr'):
                    return rel(v[2], M.val(m.E(v[3], C0)), M.val(m.E(v[4], C0)))
                if v[:2] == ('app', 'x.ctr'):
                    return m.F(v[2], C0) == m.B(v[3], C0)
                raise Opaque('constraint ' + show(v)[:100])
            decide_path(env, r, I, p, lambda m, p: m.F(root, C0) == pol, result, {'x.ival': x_ival})
    return r


def rel(op, a, b):
    return {'!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '=': a == b}[op]


def visitors(env, cls):
    """The dispatchers of a class: what they answer is the induction hypothesis."""
    out = {'e': set(), 'f': set()}
    for m in env.prog.classes[cls]['methods']:
        f = env.prog.functions.get(m['fid'])
        if f and f['n'] == 'Visit' and f['params']:
            out['e' if strip_type(f['params'][0]['type']) == EXPR else 'f'].add(f['fid'])
    return out


def converter_ctor(env, cls):
    """What the constructor sets up: constants shared by all conversions, and one symbol per variable, in order."""
    f = [f for f in env.prog.functions.values() if f['fid'].startswith(cls + '::(ctor)(') and f.get('body') and 'vector' in f['params'][0]['type']]
    if len(f) != 1:
        raise AnalysisBroken('no constructor of IbexConverter takes the variables')
    f = f[0]
    r = Result('IbexConverter(variables)', f)
    I = Interp(env.prog, IbexCfg(env.prog, env.roles))
    consts = {}
    for p in I.explore(f, lambda I: (I.new_root(('inst', cls, None, ()), 'obj'), [I.sym_lv('vars', f['params'][0]['type'])])):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        if p.outcome[0] != 'ret':
            r.violations.append((r.name, '%s ends in "%s"' % (r.fn, p.outcome[1])))
            continue
        if any(b and a[0] in ('cmp', 'eq') and all(x[:2] == ('app', 'V.id') for x in a[-2:]) for a, b in p.facts):
            r.vacuous += 1
            continue
        n = sum(p.shapes.values())
        flds = [dict(v[3]) for v in p.heap.values() if isinstance(v, tuple) and v[0] == 'inst' and v[1] == cls][0]
        consts = {a: canon(p.heap[b[1].root]) for a, b in flds.items() if isinstance(b, tuple) and b[0] == 'ptr' and isinstance(b[1], LV) and b[1].root in p.heap}
        added = [e[1] for e in p.events if e[0] == 'array.add']
        syms = [e[1] for e in p.events if e[0] == 'symbol']
        want = [('elem', ('sym', 'vars'), i) for i in range(n)]
        maps = [canon(v) for v in flds.values() if isinstance(canon(v), tuple) and (is_coll(canon(v)))]
        ids = {}
        for mp in maps:
            for kv in mp[2]:
                if kv[0] == 'pair' and kv[2][0] == 'ptr':
                    ids[kv[1]] = canon(p.heap.get(kv[2][1].root))
        names = [e[2][0] for e in p.events if e[0] == 'symbol']
        if len(syms) != n or added != syms:
            r.violations.append((r.name, '%s: the array given to IBEX holds %s for the variables %s' % (r.fn, [show(x) for x in added], [show(x) for x in want])))
        elif [ids.get(('app', 'V.id', w)) for w in want] != syms:
            if any(is_coll(v) for v in maps):
                r.violations.append((r.name, '%s: variables are not mapped to their own symbols: %s' % (r.fn, {show(a): show(b) for a, b in ids.items()})))
            else:
                r.undecided.append('%s: map %s' % (r.name, str(flds)[:200]))
        else:
            r.agree += 1
    return r, consts


def check_C12(c):
    env = make_env(c, extract.all_tus())
    cls = DR + 'IbexConverter'
    r, zero = converter_ctor(env, cls)
    c.add([r])
    visit = visitors(env, cls)
    if not visit['e'] or not visit['f']:
        raise AnalysisBroken('IbexConverter has no Visit')
    jobs = []
    for k, h in E_HANDLER.items():
        f = visit_method(env.prog, cls, h, False)
        if f is None:
            raise AnalysisBroken('IbexConverter has no handler for ' + k)
        jobs.append(lambda f=f, k=k: convert_e(env, cls, f, k, visit))
    for k, h in F_HANDLER.items():
        f = visit_method(env.prog, cls, h, True)
        if f is None:
            raise AnalysisBroken('IbexConverter has no handler for ' + k)
        jobs.append(lambda f=f, k=k: convert_f(env, cls, f, k, visit, zero))
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every kind of term, the IBEX term that IbexConverter builds on each path has the value of the term, given that the recursive conversions do (random-interpretation '
                   'equivalence); interval constants keep both bounds; a variable is mapped through its own id. For every kind of formula and both polarities the constraint has '
                   'the truth of the formula; no constraint is allowed only for a disequation and for True; kinds without counterpart end in an error.')
    c.assumptions += ['IBEX operators and functions stand for the operation of their name (declared in a stub; IBEX is not installed)',
                      'containers have up to two entries']
    return n


# -- C13 ---------------------------------------------------------------------
class IvalCfg(SymConfig):
    def prim(self, I, ref):
        h = quiet_log(I, ref) or ival.prim(I, ref)
        return h if h is not None else SymConfig.prim(self, I, ref)


def around(m, x, key):
    """An interval that holds the point x."""
    if m.leaf('degenerate', lambda: m.rng.random() < 0.4):
        return (x, x)
    w = m.leaf(('width', key), lambda: (m.rng.choice([0.0, 0.0, 0.25, 0.5, 1.5, 3.0]), m.rng.choice([0.0, 0.0, 0.25, 0.5, 1.5, 3.0])))
    return (x - w[0], x + w[1])


def x_iv(m, t, c):
    return around(m, M.val(m.E(t[2], C0)), m.rep(t[2]))


def x_lohi(m, t, c):
    return (M.val(m.num(t[2])), M.val(m.num(t[3])))


def encloses(want, have):
    x, deg = have
    if x is None:
        return False
    tol = 1e-7 * (1 + abs(want))
    if not x[0] - tol <= want <= x[1] + tol:
        return False
    return not deg or x[1] - x[0] <= 2 * tol


def ieval(env, cls, f, kind, visit, pow3=False):
    names = [p.get('name') or 'a%d' % i for i, p in enumerate(f['params'])]
    names = [n or 'a%d' % i for i, n in enumerate(names)]
    names = [n if names.count(n) == 1 else '%s_%d' % (n, i) for i, n in enumerate(names)]
    es = [('sym', names[i]) for i, p in enumerate(f['params']) if strip_type(p['type']) == EXPR]
    box = [('sym', names[i]) for i, p in enumerate(f['params']) if strip_type(p['type']) == DR + 'Box'][0]
    r = Result('%s::%s(%s)' % (cls.split('::')[-1], f['n'], kind), f)
    bad = []

    def handler(I, ref, obj, args):
        if ref['fid'] in visit['e']:
            e, b = argv(I, args[0]), argv(I, args[1])
            if b != box:
                bad.append('evaluates an operand over %s' % show(b)[:80])
            t = ('app', 'x.iv', e)
            I.types[t] = ival.IV
            return t

    def entry(I, n, ref, obj, args):
        if strip_type(ref['pt'][0]) != VAR or argv(I, obj) != box:
            return DECLINE
        t = ('app', 'x.iv', E('var', argv(I, args[0])))
        I.types[t] = ival.IV
        return t
    cfg = IvalCfg(env.prog, env.roles, extra_prims={DR + 'Box::operator[]': entry})
    cut_cfg(cfg, handler)
    if kind in KIND_CLASS_E:
        cfg.kinds_restrict = {es[0]: {kind}}
    root = E('pow', *es) if len(es) == 2 else es[0]
    ext = dict(ival.EXT)
    ext['x.iv'] = x_iv
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f, names)):
        r.paths += 1
        if bad:
            r.violations.append((r.name, '%s: %s' % (r.fn, bad.pop())))
            continue
        if kind in ('IfThenElse', 'UninterpretedFunction', 'NaN') and p.outcome[0] == 'throw':
            r.agree += 1
            continue
        if kind == 'UninterpretedFunction' and p.outcome[0] == 'ret':
            r.violations.append((r.name, '%s returns %s for an uninterpreted function' % (r.fn, show(p.outcome[1])[:100])))
            continue
        if kind == 'RealConstant':
            if p.outcome[0] == 'ret':
                fld = lambda x: ('fld', es[0], env.roles.field[('ExpressionRealConstant', x)])
                want = ('app', 'iv.new', fld('lb'), fld('ub'))
                if p.outcome[1] == want:
                    r.agree += 1
                    continue

                def lohi(m, p):
                    lo, hi = m.leaf('lo', lambda: m.rng.choice(M.POOL)), m.leaf('w', lambda: m.rng.choice([0.0, 1.0, 2.0]))
                    m.memo[('L', fld('lb'))], m.memo[('L', fld('ub'))] = lo, lo + hi
                    return (lo, lo + hi)
                # any point of the interval constant must be enclosed
                decide_path(env, r, I, p, lohi, lambda m, p: ival.value(m, p.outcome[1]), ext,
                            compare=lambda w, h: h is not None and h[0] <= w[0] and w[1] <= h[1])
                continue

        def spec(m, p):
            v = M.val(m.E(root, C0))
            if len(es) == 2 or kind in ('Pow', 'Mul'):
                # a real power of a negative base has no interval extension
                m.leaf('degenerate', lambda: m.rng.random() < 0.4)
                for b, e in powers(m, root, kind):
                    if M.val(m.E(b, C0)) <= 0 and not m.memo.get(('L', 'degenerate')):
                        raise Skip()
            return v

        def result(m, p):
            return (ival.value(m, p.outcome[1]), m.leaf('degenerate', lambda: False))
        decide_path(env, r, I, p, spec, result, ext, compare=encloses)
    return r


def powers(m, t, kind):
    if t[0] == 'app':
        return [t[2:4]]
    if kind == 'Pow':
        return [(m.comp_(t, kind, 'a'), m.comp_(t, kind, 'b'))]
    return list(m.Mp(m.comp_(t, kind, 'm')))


def check_C13(c):
    env = make_env(c, extract.all_tus())
    cls = DR + 'ExpressionEvaluator'
    visit = visitors(env, cls)
    if not visit['e']:
        raise AnalysisBroken('ExpressionEvaluator has no Visit')
    jobs = []
    for k, h in E_HANDLER.items():
        fs = [f for f in (env.prog.functions.get(m['fid']) for m in env.prog.classes[cls]['methods']) if f and f.get('body') and f['n'] == 'Visit' + h]
        if not fs:
            raise AnalysisBroken('ExpressionEvaluator has no handler for ' + k)
        for f in fs:
            jobs.append(lambda f=f, k=k: ieval(env, cls, f, k if len(f['params']) == 2 else 'e1^e2', visit))
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every kind of expression and every path of its handler: given that the operands evaluate to intervals that hold their value, the interval computed holds '
                   'the value of the expression, and is that single point when the operands are points (random interval interpretations, computed with an interval arithmetic of '
                   'the checker). Operands are evaluated over the box that was given, a variable over its own entry, an interval constant keeps both bounds.')
    c.assumptions += ['ibex::Interval operators and functions are sound and reasonably tight interval extensions of the operation of their name (declared in a stub)',
                      'containers have up to two entries', 'a power with a negative base is checked for point intervals only']
    return n


# -- C06 ---------------------------------------------------------------------
RELATIONS = ['Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq']
EVAL_PROBE = '''#include "dreal/solver/relational_formula_evaluator.h"
namespace probe {
dreal::FormulaEvaluationResult relev(const dreal::Formula& f, const dreal::Box& box) {
  const dreal::RelationalFormulaEvaluator e{f};
  return e(box);
}
bool simple(const dreal::Formula& f) {
  const dreal::RelationalFormulaEvaluator e{f};
  return e.is_simple_relational() ? true : false;
}
bool neq(const dreal::Formula& f) {
  const dreal::RelationalFormulaEvaluator e{f};
  return e.is_neq() ? true : false;
}
}
'''


def inst_of(p, v, cls):
    """The fields of an object of a class, behind references."""
    n = 0
    while isinstance(v, LV) and not v.path and n < 5:
        v, n = canon(p.heap.get(v.root)), n + 1
    if isinstance(v, tuple) and v and v[0] == 'inst' and v[1] == cls:
        return dict(v[3])
    return None


def constant_name(v):
    """The name of an enumerator."""
    return v[1].split('::')[-1] if isinstance(v, tuple) and v and v[0] == 'enum' else None


def verdict(p, v):
    """(type, evaluation) of a FormulaEvaluationResult."""
    d = inst_of(p, v, DR + 'FormulaEvaluationResult')
    if d is None:
        raise Opaque('verdict ' + show(v)[:80])
    ty = [x for x in map(canon, d.values()) if isinstance(x, tuple) and x[0] == 'enum']
    iv = [x for x in map(canon, d.values()) if isinstance(x, tuple) and x[0] == 'app' and x[1][:3] in ('iv.', 'x.i')]
    if len(ty) != 1 or len(iv) != 1:
        raise Opaque('verdict ' + str(d)[:80])
    return ty[0], iv[0]


def x_span(m, t, c):
    """An interval holding the value of the expression; 0 is a likely bound."""
    v = M.val(m.E(t[2], C0))
    r = m.leaf(('span', m.rep(t[2])), lambda: (m.rng.choice([0, 0, 1, 2]), m.rng.choice([0, 0, 1, 2]), m.rng.choice([0.25, 1.0, 4.0]), m.rng.choice([0.25, 1.0, 4.0])))
    lo = v if r[0] == 0 else min(v, 0.0) if r[0] == 1 else v - r[2]
    hi = v if r[1] == 0 else max(v, 0.0) if r[1] == 1 else v + r[3]
    return (lo, hi)


def relational_verdict(env, f, kind, neg):
    r = Result('verdict on %s%s' % ('not ' if neg else '', kind), f)
    root = ('sym', 'f')
    inner = ('fld', root, env.roles.field[('FormulaNot', 'f')]) if neg else root

    def ctor(I, n, ref, obj, args):
        if strip_type(ref['pt'][0]) != EXPR:
            return DECLINE
        return ('app', 'x.evaluator', argv(I, args[0]))

    def call(I, n, ref, obj, args):
        v = argv(I, obj)
        if v[:2] != ('app', 'x.evaluator'):
            return DECLINE
        t = ('app', 'x.iv', v[2])
        I.types[t] = ival.IV
        return t
    cls = DR + 'ExpressionEvaluator'
    cfg = IvalCfg(env.prog, env.roles, extra_prims={cls + '::operator()': call, cls + '::(ctor)': ctor, cls + '::ExpressionEvaluator': ctor})
    cfg.unfold = 2
    cfg.kinds_restrict = {root: {'Not'}, inner: {kind}} if neg else {root: {kind}}
    I = Interp(env.prog, cfg)
    ext = dict(ival.EXT)
    ext['x.iv'] = x_span
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        if p.outcome[0] in ('throw', 'abort'):
            r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue

        def result(m, p):
            ty, iv = verdict(p, p.outcome[1])
            x = ival.value(m, iv)
            ty = constant_name(ty)
            return (ty, x)

        def agree(want, have):
            holds, v = want
            ty, x = have
            if x is None or not x[0] <= v <= x[1]:
                return False
            return not (ty == 'VALID' and not holds or ty == 'UNSAT' and holds)

        def spec(m, p):
            # the value of either difference, whichever the evaluator was given
            ts = [t for t in subterms_of(p) if t[:2] == ('app', 'x.iv')]
            v = M.val(m.E(ts[0][2], C0)) if ts else 0.0
            return (m.F(root, C0), v)
        decide_path(env, r, I, p, spec, result, ext, compare=agree)
    return r


def subterms_of(p):
    out, seen = [], set()

    def walk(t):
        if isinstance(t, LV):
            return
        if isinstance(t, tuple):
            if t in seen:
                return
            seen.add(t)
            if t[:1] == ('app',):
                out.append(t)
            for x in t:
                walk(x)
    for a, b in p.facts:
        walk(a)
    walk(canon(p.outcome[1]))
    for v in p.heap.values():
        walk(canon(v))
    return out


def shortcut(env, f, kind, neg):
    """Constraints whose variables need no branching: bounds of one variable, and disequations."""
    r = Result('%s of %s%s' % (f['n'], 'not ' if neg else '', kind), f)
    root = ('sym', 'f')
    inner = ('fld', root, env.roles.field[('FormulaNot', 'f')]) if neg else root
    cls = DR + 'ExpressionEvaluator'
    ctor = lambda I, n, ref, obj, args: ('app', 'x.evaluator', argv(I, args[0])) if strip_type(ref['pt'][0]) == EXPR else DECLINE
    cfg = IvalCfg(env.prog, env.roles, extra_prims={cls + '::(ctor)': ctor, cls + '::' + cls.split('::')[-1]: ctor})
    cfg.unfold = 2
    cfg.kinds_restrict = {root: {'Not'}, inner: {kind}} if neg else {root: {kind}}
    sides = [('fld', inner, env.roles.field[('RelationalFormulaCell', x)]) for x in ('a', 'b')]
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        out = p.outcome
        if out[0] == 'unsupported' or out[0] == 'ret' and out[1] not in (TRUE, FALSE):
            r.undecided.append('%s: %s' % (r.name, show(out[1])[:100]))
            continue
        if out[0] != 'ret':
            r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, out[1], p.describe()[:200])))
            continue
        if out[1] == TRUE:
            ks = [next((v for (t, k), v in p.kinds.items() if t == s and 'Expression' in k), None) for s in sides]
            if f['n'] == 'neq':
                ok = (kind, neg) in (('Neq', False), ('Eq', True))
                what = 'is taken for a disequation'
            else:
                fixed = {'Constant', 'RealConstant'}
                ok = any(a is not None and b is not None and a <= {'Var'} and b <= fixed for a, b in (ks, ks[::-1]))
                what = 'is taken for a bound of a variable'
            if not ok:
                r.violations.append((r.name, '%s: %s%s %s [when %s]' % (r.fn, 'not ' if neg else '', kind, what, p.describe()[:200])))
                continue
        r.agree += 1
    return r


def nothing(v):
    """An empty optional."""
    return v in (('none',), NULL) or isinstance(v, tuple) and v and (v[0] == 'none' or v[0] == 'some' and isinstance(v[1], tuple) and v[1][0] in ('sym', 'g') and str(v[1][1]).split('::')[-1] == 'nullopt')


def box_verdict(env):
    """EvaluateBox: what all the constraints say about a box together."""
    f = env.prog.one(DR + 'EvaluateBox')
    r = Result('verdict on a box', f)
    EV = DR + 'FormulaEvaluator'
    box, cs, evs = [('sym', x) for x in ('box', 'cs', 'evs')]
    prec = ('sym', 'precision')

    def call(I, n, ref, obj, args):
        if argv(I, args[0]) != box:
            I.events.append(('wrong box', argv(I, args[0])))
        t = ('app', 'x.verdict', argv(I, obj))
        I.types[t] = DR + 'FormulaEvaluationResult'
        return t

    def handler(I, ref, obj, args):
        n, cls = ref['n'], ref.get('cls') or ''
        if cls == EV and n in ('is_simple_relational', 'is_neq', 'variables', 'formula'):
            t = ('app', 'x.' + n, argv(I, obj))
            I.types[t] = {'variables': 'dreal::drake::symbolic::Variables', 'formula': FORM}.get(n, 'bool')
            return t if n.startswith('is') else I.new_root(t, n)
        if cls == DR + 'FormulaEvaluationResult' and n in ('type', 'evaluation'):
            t = ('app', 'x.' + n, argv(I, obj))
            I.types[t] = strip_type(ref['ret'])
            return t if n == 'type' else I.new_root(t, n)
        if cls == DR + 'Box' and n == 'set_empty':
            I.events.append(('set_empty',))
            return VOID
        if cls == DR + 'Box' and n == 'index':
            return ('app', 'x.index', argv(I, args[0]))
        if cls == DR + 'Box' and n == 'size':
            return ('app', 'x.size')
        if cls == DR + 'ContractorStatus' and n == 'AddUsedConstraint':
            I.events.append(('used', argv(I, args[0])))
            return VOID
        if 'dynamic_bitset' in cls and n == 'set' and args:
            I.events.append(('bit', argv(I, args[0])))
            return obj
        if 'dynamic_bitset' in cls and n != 'set':
            I.events.append(('bitset', n))
    cfg = IvalCfg(env.prog, env.roles, extra_prims={EV + '::operator()': call})
    cut_cfg(cfg, handler)
    I = Interp(env.prog, cfg)
    ext = dict(ival.EXT)
    for n in ('is_simple_relational', 'is_neq'):
        ext['x.' + n] = lambda m, t, c: m.leaf(m.rep(t), lambda: m.rng.random() < 0.5)
    ext['x.evaluation'] = lambda m, t, c: m.leaf(m.rep(t), lambda: (0.0, m.rng.choice([0.0, 0.5, 1.0, 3.0])))
    ext['x.size'] = lambda m, t, c: m.leaf('size', lambda: m.rng.choice([0, 2]))
    names = ['evs', 'box', 'precision', 'cs']
    if len(f['params']) != 4:
        raise AnalysisBroken('EvaluateBox has other parameters')
    for p in I.explore(f, setup_for(f, names)):
        r.paths += 1
        if p.outcome[0] != 'ret':
            (r.undecided if p.outcome[0] == 'unsupported' else r.violations).append(
                '%s: %s' % (r.name, p.outcome[1]) if p.outcome[0] == 'unsupported' else (r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        n = p.shapes.get(evs, 0)
        ev = [('elem', evs, i) for i in range(n)]

        def bad(text):
            r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, text, p.describe()[:300])))
        kinds = {}
        for e in ev:
            k = p.kinds.get((('app', 'x.type', ('app', 'x.verdict', e)), DR + 'FormulaEvaluationResult::Type'))
            kinds[e] = {str(x).split('::')[-1] for x in k} if k else None
        wrong = [x for x in p.events if x[0] == 'wrong box']
        empty = any(x[0] == 'set_empty' for x in p.events)
        used = [x[1] for x in p.events if x[0] == 'used']
        unsat = [e for e in ev if kinds[e] == {'UNSAT'}]
        if wrong:
            bad('a constraint is evaluated on %s' % show(wrong[0][1])[:80])
        elif nothing(p.outcome[1]):
            if not unsat:
                bad('the box is given up although no constraint excludes it')
            elif not empty:
                bad('the box is given up but not made empty')
            elif not any(('app', 'x.formula', e) in used for e in unsat):
                bad('the constraint that excludes the box is not recorded (recorded: %s)' % [show(u) for u in used])
            elif any(u not in [('app', 'x.formula', e) for e in unsat] for u in used):
                bad('a constraint that does not exclude the box is recorded: %s' % [show(u) for u in used])
            else:
                r.agree += 1
        elif unsat:
            bad('the constraint %s excludes the box, but the box is kept' % show(unsat[0]))
        elif empty:
            bad('the box is made empty although no constraint excludes it')
        elif any(kinds[e] is None for e in ev):
            if any(('app', 'x.verdict', e) in subterms_of(p) for e in ev if kinds[e] is None):
                r.undecided.append('%s: verdict of %s' % (r.name, [show(e) for e in ev if kinds[e] is None]))
            else:
                bad('the constraint %s is not evaluated' % [show(e) for e in ev if kinds[e] is None][0])
        else:
            bits = {x[1] for x in p.events if x[0] == 'bit'}
            open_ = [e for e in ev if 'UNKNOWN' in kinds[e]]

            def spec(m, p):
                need = set()
                for e in open_:
                    d = m.num(('app', 'iv.diam', ('app', 'x.evaluation', ('app', 'x.verdict', e))))
                    if M.val(d) > M.val(m.num(prec)) and not any(m.B(('app', 'x.' + x, e), C0) for x in ('is_simple_relational', 'is_neq')):
                        vs = ('app', 'x.variables', e)
                        hit = [t for t in p.shapes if vs in parts(t)]
                        k = max([p.shapes[t] for t in hit] or [1])
                        root = hit[0] if hit else vs
                        need |= {('app', 'x.index', ('elem', root, j)) for j in range(k)}
                return need
            decide_path(env, r, I, p, spec, lambda m, p: bits, ext, compare=lambda w, h: w <= h)
    return r


def parts(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.add(x)
            todo.extend(x)
    return out


def check_C06(c):
    env = make_env(c, extract.all_tus() + [extract.probe('relev', EVAL_PROBE)])
    f = env.prog.one('probe::relev')
    jobs = [lambda k=k, n=n: relational_verdict(env, f, k, n) for k in RELATIONS for n in (False, True)]
    jobs += [lambda k=k, n=n, g=g: shortcut(env, env.prog.one('probe::' + g), k, n) for k in RELATIONS for n in (False, True) for g in ('simple', 'neq')]
    jobs.append(lambda: box_verdict(env))
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every relation and its negation, every path of the evaluator: the difference it evaluates lies in an arbitrary interval around its value; VALID is answered '
                   'only if the relation holds for every value of that interval, UNSAT only if for none, and the interval reported holds the value. A box is given up exactly '
                   'when some constraint excludes it, which is then recorded and the box emptied; a constraint that is undecided and wider than the precision makes all its variables '
                   'candidates for branching, unless it is a bound of one variable or a disequation (decided per kind).')
    c.assumptions += ['the interval given by ExpressionEvaluator holds the value of the expression (C13)', 'two constraints over two variables']
    return n


# -- C04 ---------------------------------------------------------------------
FILTER_PROBE = '''#include "dreal/solver/filter_assertion.h"
namespace probe {
dreal::FilterAssertionResult filter(const dreal::Formula& f, dreal::Box& box) { return dreal::FilterAssertion(f, &box); }
}
'''


def bound(env, f, kind, neg):
    r = Result('bounds from %s%s' % ('not ' if neg else '', kind), f)
    root = ('sym', 'f')
    inner = ('fld', root, env.roles.field[('FormulaNot', 'f')]) if neg else root
    state = {}
    old = ('app', 'x.old')

    def entry(I, n, ref, obj, args):
        if strip_type(ref['pt'][0]) != VAR:
            return DECLINE
        I.events.append(('entry', argv(I, args[0])))
        return state['slot']

    def handler(I, ref, obj, args):
        if ref.get('cls') == DR + 'Box' and ref['n'] == 'set_empty':
            I.set(state['slot'], ('app', 'iv.empty'))
            I.events.append(('set_empty',))
            return VOID
        if ref.get('cls') == DR + 'Box':
            I.events.append(('box', ref['n']))
    cfg = IvalCfg(env.prog, env.roles, extra_prims={DR + 'Box::operator[]': entry})
    cut_cfg(cfg, handler)
    cfg.unfold = 2
    cfg.kinds_restrict = {root: {'Not'}, inner: {kind}} if neg else {root: {kind}}
    I = Interp(env.prog, cfg)
    ext = dict(ival.EXT)

    def setup(I):
        state['slot'] = I.new_root(old, 'slot')
        I.types[old] = ival.IV
        return setup_for(f)(I)
    for p in I.explore(f, setup):
        r.paths += 1
        out = p.outcome

        def bad(text):
            r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, text, p.describe()[:300])))

        def kind_of(t, name):
            return next((v for (x, k), v in p.kinds.items() if x == t and k.split('::')[-1] == name), None)
        if out[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, out[1]))
            continue
        types = [v for (x, k), v in p.kinds.items() if x[:2] == ('app', 'V.type')]
        if out[0] != 'ret':
            if kind in ('True', 'False') and neg or any(t <= {'BOOLEAN'} for t in types):
                r.vacuous += 1           # such a formula is never built
            else:
                bad('ends in "%s"' % (out[1],))
            continue
        said = constant_name(out[1])
        new = canon(p.heap.get(state['slot'].root))
        if said is None:
            r.undecided.append('%s: result %s' % (r.name, show(out[1])[:80]))
            continue
        if any(e[0] == 'box' for e in p.events):
            r.undecided.append('%s: %s' % (r.name, [e for e in p.events if e[0] == 'box'][:2]))
            continue
        if said == 'NotFiltered' and new == old:
            r.agree += 1
            continue
        if kind not in RELATIONS:
            bad('%s absorbed' % ('is' if said != 'NotFiltered' else 'is not'))
            continue
        side = [('fld', inner, env.roles.field[('RelationalFormulaCell', x)]) for x in 'ab']
        ks = [kind_of(x, 'ExpressionKind') for x in side]
        at = [i for i in (0, 1) if ks[i] == {'Var'} and ks[1 - i] is not None and ks[1 - i] <= {'Constant', 'RealConstant'} and len(ks[1 - i]) == 1]
        if len(at) != 1:
            bad('%s, box entry %s, although the constraint is not a bound of a variable' % (said, show(new)[:100]))
            continue
        at = at[0]
        var = ('fld', side[at], env.roles.field[('ExpressionVar', 'var')])
        if any(e[1] != var for e in p.events if e[0] == 'entry'):
            bad('changes the entry of %s' % [show(e[1]) for e in p.events if e[0] == 'entry'])
            continue
        fixed = list(ks[1 - at])[0]
        cs = [('fld', side[1 - at], env.roles.field[('Expression' + fixed, x)]) for x in (('v',) if fixed == 'Constant' else ('lb', 'ub'))]
        integral = bool(types) and types[0] <= {'INTEGER', 'BINARY'}

        def pre(m, p):
            v = m.rng.choice(M.POOL)
            vs = [v] if fixed == 'Constant' else [v, v + m.rng.choice([0.0, 0.25, 1.0])]
            for t, x in zip(cs, vs):
                m.memo[('L', m.rep(t))] = x
            near = [x for v in vs for x in (v, v, math.nextafter(v, -math.inf), math.nextafter(v, math.inf), v - 0.5, v + 0.5, v - 2, v + 2)]
            if integral:
                near = [float(math.floor(x)) for x in near] + [float(math.ceil(x)) for x in near]
            a, b = m.rng.choice(near + [-math.inf]), m.rng.choice(near + [math.inf])
            m.memo[('L', 'old')] = (min(a, b), max(a, b))
            m.test = near

        def holds(x, vs):
            # some value of the constant makes the relation true
            c = vs + [x] if vs[0] <= x <= vs[-1] else vs
            return any(rel(RELOP[kind], x, v) if at == 0 else rel(RELOP[kind], v, x) for v in c) if not neg else any(
                not (rel(RELOP[kind], x, v) if at == 0 else rel(RELOP[kind], v, x)) for v in c)

        def result(m, p):
            a, b = m.leaf('old', None), ival.value(m, new)
            vs = [M.val(m.num(t)) for t in cs]
            # the region of interest is a union of intervals: testing around every bound decides inclusion
            pts = set(m.test)
            for z in (a, b):
                for x in z or ():
                    pts |= {x, math.nextafter(x, -math.inf), math.nextafter(x, math.inf)}
            pts = [x for x in pts if not math.isinf(x) and (not integral or x == int(x))]
            inside = lambda x, z: z is not None and z[0] <= x <= z[1]
            for x in pts:
                if inside(x, a) and holds(x, vs) and not inside(x, b):
                    return 'loses the point %r of %r for the constant %r' % (x, a, vs)
                if inside(x, b) and not inside(x, a):
                    return 'adds the point %r to %r for the constant %r' % (x, a, vs)
                if said != 'NotFiltered' and inside(x, b) and not holds(x, vs):
                    return 'counts as absorbed, but keeps the point %r of %r for the constant %r' % (x, a, vs)
            if b is None and not any(e[0] == 'set_empty' for e in p.events):
                return 'empties the entry but not the box'
            if said == 'FilteredWithoutChange' and a != b:
                return 'reports no change from %r to %r' % (a, b)
            return 'fine'
        decide_path(env, r, I, p, lambda m, p: 'fine', result, dict(ext, **{'x.old': lambda m, t, c: m.leaf('old', None)}), pre=pre)
    return r


RELOP = {'Eq': '==', 'Neq': '!=', 'Gt': '>', 'Geq': '>=', 'Lt': '<', 'Leq': '<='}


def check_C04(c):
    env = make_env(c, extract.all_tus() + [extract.probe('filter', FILTER_PROBE)])
    f = env.prog.one('probe::filter')
    jobs = [lambda k=k, n=n: bound(env, f, k, n) for k in F_HANDLER if k != 'Not' for n in (False, True)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every kind of formula and its negation, every path: the new entry of the variable keeps every double of the old entry for which the relation holds for some value '
                   'of the constant, holds no other double than the old one, and if the formula is reported as absorbed every double that is left satisfies it (points around every bound '
                   'and around the constant, with exact floating-point neighbours); "no change" is reported only without change; an emptied entry empties the box; nothing but a bound of '
                   'one variable is absorbed.')
    c.assumptions += ['ibex::Interval operations do what their names say', 'the box is not empty before']
    return n


from props_box import check_C11, check_C07  # noqa: E402
from props_par import check_C08  # noqa: E402
from props_opt import check_C14  # noqa: E402
from props_ctc import check_C05  # noqa: E402
from props_ctx import check_C03  # noqa: E402
from props_ctx import check_C02  # noqa: E402
from props_ctx import check_C01  # noqa: E402

from props_forall import check_C09  # noqa: E402
from props_cfg import check_C10  # noqa: E402
from props_api import check_C16  # noqa: E402
