"""Local optimisation (C14): constraints and objectives keep their sense; gradients belong to their variables."""
import extract
import model as M
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from props_c import IvalCfg, argv, DR, rel, RELOP, inst_of, subterms_of
from sym import SymConfig

OPT, CE = DR + 'NloptOptimizer', DR + 'CachedExpression'


def expr_field(prog):
    return next(f['name'] for f in prog.classes[CE]['fields'] if strip_type(f['type']) in (EXPR, DR + 'Expression'))


class OptCfg(IvalCfg):
    unfold = 3

    def __init__(self, env, extra=None):
        IvalCfg.__init__(self, env.prog, env.roles, extra_prims=extra or {})
        self.field = expr_field(env.prog)

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if cls == 'nlopt::opt':
            def call(I, n_, ref, obj, args):
                ev = [n, None, None]
                for a in args:
                    v = argv(I, a)
                    if isinstance(v, tuple) and v[:1] == ('ptr',) and isinstance(v[1], LV):
                        ev[2] = argv(I, v[1].sub(('f', self.field)))
                    elif isinstance(v, tuple) and v[:1] in (('fnref',), ('memfn',), ('lam',)):
                        ev[1] = v
                    elif is_coll(v):
                        ev[2] = v
                I.events.append(tuple(ev))
                return VOID
            return call
        return IvalCfg.prim(self, I, ref)


def this_setup(f, env, fields):
    def setup(I):
        this, args = setup_for(f)(I)
        for k, v in fields.items():
            I.set_raw(this.sub(('f', k)), v)
        return this, args
    return setup


def vectors(prog):
    return {f['name']: coll('vec', ()) for f in prog.classes[OPT]['fields'] if 'std::vector' in f['type']}


def constraint(env, name, kind, neg):
    """One relation (or its negation) given to the optimiser."""
    f = env.prog.one(OPT + '::' + name)
    r = Result('%s %s%s' % (name, 'not ' if neg else '', kind), f)
    root = ('sym', f['params'][0]['name'])
    inner = ('fld', root, env.roles.field[('FormulaNot', 'f')]) if neg else root
    cfg = OptCfg(env)
    cfg.kinds_restrict = {root: {'Not'}, inner: {kind}} if neg else {root: {kind}}
    if kind == 'And':
        cfg.max_loop = 3
        for e in (0, 1):
            cfg.kinds_restrict[('elem', ('fld', root, env.roles.field[('NaryFormulaCell', 's')]), e)] = {'Gt', 'Lt', 'Eq'}
    I = Interp(env.prog, cfg)
    for p in I.explore(f, this_setup(f, env, vectors(env.prog))):
        r.paths += 1
        if 'loop bound' in str(p.outcome[1]) and p.outcome[0] == 'unsupported':
            r.vacuous += 1
            continue
        if p.outcome[0] == 'throw':
            if kind == 'And':
                r.violations.append((r.name, '%s rejects a conjunction of relations [when %s]' % (r.fn, p.describe()[:200])))
                continue
            r.agree += 1            # a constraint that has no counterpart is rejected
            continue
        if p.outcome[0] != 'ret':
            (r.undecided if p.outcome[0] == 'unsupported' else r.violations).append(
                '%s: %s' % (r.name, p.outcome[1]) if p.outcome[0] == 'unsupported' else (r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        cs = [e for e in p.events if e[0] in ('add_equality_constraint', 'add_inequality_constraint')]
        other = [e for e in p.events if e not in cs and e[0] not in ('set_lower_bounds', 'set_upper_bounds')]
        if other:
            r.undecided.append('%s: calls %s' % (r.name, other[0][0]))
            continue
        if not cs or any(e[1] is None or e[2] is None for e in cs):
            (r.undecided if cs else r.violations).append('%s: what is given to the optimiser' % r.name if cs else (r.name, '%s: no constraint is given to the optimiser [when %s]' % (r.fn, p.describe()[:200])))
            continue

        def result(m, p):
            out = []
            for e in cs:
                h = M.val(m.E(e[2], C0))
                out.append((e[0] == 'add_equality_constraint', h))
            return out

        def agree(want, have):
            ok = all(h == 0 if eq else h <= 0 for eq, h in have)
            edge = any(h == 0 for eq, h in have if not eq)
            return ok == want or edge and ok
        decide_path(env, r, I, p, lambda m, p: m.F(root, C0), result, {}, compare=agree)
    return r


VARS = [('sym', 'v0'), ('sym', 'v1')]


def box_prims(I_types=None):
    """A box of the two variables v0, v1."""
    def size(I, n, ref, obj, args):
        return ('int', 2)

    def variable(I, n, ref, obj, args):
        i = argv(I, args[0])
        if not is_lit(i) or not 0 <= lit(i) < 2:
            raise AbortEx('variable out of range')
        I.types[VARS[int(lit(i))]] = VAR
        return I.new_root(VARS[int(lit(i))], 'var')

    def entry(I, n, ref, obj, args):
        i = argv(I, args[0])
        if is_lit(i):
            if not 0 <= lit(i) < 2:
                raise AbortEx('entry out of range')
            i = VARS[int(lit(i))]
        t = ('app', 'x.entry', i)
        I.types[t] = 'ibex::Interval'
        return I.new_root(t, 'entry')

    def variables(I, n, ref, obj, args):
        return I.new_root(coll('vec', tuple(VARS)), 'vars')
    return {DR + 'Box::size': size, DR + 'Box::variable': variable, DR + 'Box::operator[]': entry, DR + 'Box::variables': variables}


def env_map(env, pairs):
    """An Environment that holds the given pairs."""
    cls = next(k for k in env.prog.classes if k.endswith('symbolic::Environment'))
    fields = env.prog.classes[cls]['fields']
    return ('inst', cls, None, tuple((f['name'], coll('map', tuple(('pair', a, b) for a, b in pairs))) for f in fields if not f.get('static')))


def content(p, v):
    """The pairs of an Environment value."""
    n = 0
    while isinstance(v, LV) and n < 5:
        v, n = p.heap.get(v.root), n + 1
    v = canon(v)
    if isinstance(v, tuple) and v[:1] == ('inst',):
        for _, x in v[3]:
            x = canon(x)
            if is_coll(x):
                return {y[1]: y[2] for y in x[2]}
    raise M.Opaque('environment %s' % show(v)[:80])


def sym_prims():
    def val(I, n, ref, obj, args):
        t = ('app', 'x.val', argv(I, obj)) + tuple(argv(I, a) for a in args)
        I.types[t] = 'double'
        return t

    def diff(I, n, ref, obj, args):
        t = ('app', 'x.diff', argv(I, obj), argv(I, args[0]))
        I.types[t] = EXPR
        return t
    return {EXPR + '::Evaluate': val, EXPR + '::Differentiate': diff}


def evaluate(env, with_grad):
    """The function given to the optimiser: value and gradient at x."""
    f = env.prog.one(DR + 'NloptOptimizerEvaluate')
    r = Result('evaluation%s' % (' with gradient' if with_grad else ''), f)
    cfg = OptCfg(env, dict(sym_prims(), **box_prims()))
    I = Interp(env.prog, cfg)
    w = ('sym', 'w')
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        fields = []
        for d in env.prog.classes[CE]['fields']:
            t = strip_type(d['type'])
            fields.append((d['name'], ('sym', 'e') if t == EXPR else env_map(env, [(w, ('sym', 'old'))]) if t.endswith('Environment')
                           else ('ptr', I.new_root(('sym', 'box'), 'box')) if t.startswith(DR + 'Box') else coll('map', ())))
        I.types[('sym', 'e')] = EXPR
        ce = I.new_root(('inst', CE, None, tuple(fields)), 'ce')
        xs = I.new_root(coll('vec', (('sym', 'x0'), ('sym', 'x1'))), 'x')
        for x in ('x0', 'x1'):
            I.types[('sym', x)] = 'double'
        g = I.new_root(coll('vec', (('sym', 'g0'), ('sym', 'g1'))), 'grad')
        state['g'] = g
        return None, [('int', 2), ('ptr', xs), ('ptr', g) if with_grad else NULL, ('ptr', ce)]
    for p in I.explore(f, setup):
        r.paths += 1
        if any(b and a[0] == 'eq' and all(x in VARS + [w] for x in a[1:]) or b and a[0] == 'cmp' and a[1] == '==' and all(x in VARS + [w] for x in a[2:]) for a, b in p.facts):
            r.vacuous += 1              # the variables are distinct
            continue
        if p.outcome[0] == 'throw':
            if any(b and a[:2] in (('app', 'm.isnan'), ('app', 'V.dummy')) for a, b in p.facts):
                r.agree += 1
            else:
                r.violations.append((r.name, '%s throws %s [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        if p.outcome[0] != 'ret':
            (r.undecided if p.outcome[0] == 'unsupported' else r.violations).append(
                '%s: %s' % (r.name, p.outcome[1]) if p.outcome[0] == 'unsupported' else (r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        try:
            want_env = {VARS[0]: ('sym', 'x0'), VARS[1]: ('sym', 'x1'), w: ('sym', 'old')}

            def at(t, e, what):
                if not (isinstance(t, tuple) and t[:2] == ('app', 'x.val')):
                    raise M.Opaque('%s is %s' % (what, show(t)[:80]))
                if t[2] != e:
                    return '%s is computed from %s, not %s' % (what, show(t[2])[:80], show(e))
                if content(p, t[3]) != want_env:
                    return '%s is computed at %s' % (what, {show(k): show(x) for k, x in content(p, t[3]).items()})
                return None
            bad = at(canon(p.outcome[1]), ('sym', 'e'), 'the value')
            if with_grad:
                g = canon(p.heap.get(state['g'].root))
                for i in (0, 1):
                    bad = bad or at(canon(g[2][i]), ('app', 'x.diff', ('sym', 'e'), VARS[i]), 'entry %d of the gradient' % i)
        except M.Opaque as e:
            r.undecided.append('%s: %s' % (r.name, e))
            continue
        if bad:
            r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, bad, p.describe()[:200])))
        else:
            r.agree += 1
    return r


OPT_PROBE = '''#include "dreal/optimization/cached_expression.h"
namespace probe {
using namespace dreal;
Expression diff_once(const Expression& e, const Box& b, const Variable& x) { CachedExpression c{e, b}; return c.Differentiate(x); }
Expression diff_twice(const Expression& e, const Box& b, const Variable& x) { CachedExpression c{e, b}; c.Differentiate(x); return c.Differentiate(x); }
Expression diff_other(const Expression& e, const Box& b, const Variable& x, const Variable& y) { CachedExpression c{e, b}; c.Differentiate(y); return c.Differentiate(x); }
Expression diff_back(const Expression& e, const Box& b, const Variable& x, const Variable& y) { CachedExpression c{e, b}; c.Differentiate(x); c.Differentiate(y); return c.Differentiate(x); }
double val(const Expression& e, const Box& b, const Environment& env) { CachedExpression c{e, b}; return c.Evaluate(env); }
}
'''


def simple(env, f, want, setup=None, got=None, extra=None):
    """A function all of whose paths give one given term."""
    r = Result(f['q'].split('::')[-1], f)
    cfg = OptCfg(env, dict(sym_prims(), **(extra or box_prims())))
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup or setup_for(f)):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        if p.outcome[0] != 'ret':
            r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        try:
            v = got(I, p) if got else canon(p.outcome[1])
        except M.Opaque as e:
            r.undecided.append('%s: %s' % (r.name, e))
            continue
        same = {x[1:] for x, b in p.facts if b and x[0] == 'eq'}
        alt = v
        for x in same:
            alt = replace(alt, x[0], x[1])
        w2 = want
        for x in same:
            w2 = replace(w2, x[0], x[1])
        if v == want or alt == w2:
            r.agree += 1
        else:
            r.violations.append((r.name, '%s gives %s, expected %s [when %s]' % (r.fn, show(v)[:200] if not isinstance(v, (list, dict)) else v, show(want)[:200] if isinstance(want, tuple) else want, p.describe()[:200])))
    return r


def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


def bounds(env):
    f = next(x for q, x in env.prog.functions.items() if q.startswith(OPT + '::(ctor)(') and len(x['params']) == 3)

    def got(I, p):
        out = {}
        for e in p.events:
            if e[0] in ('set_lower_bounds', 'set_upper_bounds'):
                out[e[0]] = e[2]
        return out
    want = {'set_%s_bounds' % w: coll('vec', tuple(('app', 'iv.' + q, ('app', 'x.entry', v)) for v in VARS)) for w, q in (('lower', 'lb'), ('upper', 'ub'))}

    def setup(I):
        for v in VARS:
            I.types[v] = VAR
        return setup_for(f)(I)

    def option(I, n, ref, obj, args):
        t = ('app', 'x.config', ('str', ref['n']))
        I.types[t] = strip_type(ref['ret'])
        return t
    extra = dict(box_prims(), **{DR + 'Config::' + m['name']: option for m in env.prog.classes[DR + 'Config']['methods'] if not m['name'].startswith(('Config', '~', 'operator', 'mutable_'))})
    r = simple(env, f, want, setup, got, extra)
    r.name = 'bounds'
    return r


def environment(env):
    """Optimize with an environment gives it to the objective and to every constraint."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(OPT + '::Optimize(') and len(x['params']) == 3)
    new = env_map(env, [(('sym', 'w'), ('sym', 'value'))])
    state = {}
    ef = next(x['name'] for x in env.prog.classes[CE]['fields'] if strip_type(x['type']).endswith('Environment'))

    def ce(I, name):
        return ('inst', CE, None, tuple((d['name'], env_map(env, []) if d['name'] == ef else ('sym', name + '.' + d['name'])) for d in env.prog.classes[CE]['fields']))

    def setup(I):
        this, args = setup_for(f)(I)
        for d in env.prog.classes[OPT]['fields']:
            if strip_type(d['type']) == CE:
                I.set_raw(this.sub(('f', d['name'])), ce(I, 'obj'))
                state['obj'] = this.sub(('f', d['name']))
            elif 'std::vector' in d['type']:
                cs = [I.new_root(ce(I, 'c%d' % i), 'c') for i in range(2)]
                state['cs'] = cs
                I.set_raw(this.sub(('f', d['name'])), coll('vec', tuple(('ptr', x) for x in cs)))
        args[2] = I.new_root(new, 'env')
        return this, args

    def got(I, p):
        where = [state['obj']] + state['cs']
        if not any(e[0] == 'optimize' for e in p.events):
            return 'no call of the optimiser'
        out = []
        for lv in where:
            v = p.heap.get(lv.root)
            for k, x in lv.path:
                v = dict(v[3])[x] if isinstance(v, tuple) and v[:1] == ('inst',) else p.heap.get((lv.root, k, x))
            v = dict(v[3])[ef]
            out.append(tuple(sorted(content(p, v).items())))
        return out
    return simple(env, f, [((('sym', 'w'), ('sym', 'value')),)] * 3, setup, got)


CR = DR + 'CounterexampleRefiner'


def refiner_ctor(env, single):
    """What the refiner of counterexamples asks the optimiser for."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(CR + '::(ctor)(') and len(x['params']) == 3)
    r = Result('refiner of %s' % ('a relation' if single else 'a conjunction'), f)
    q = ('sym', f['params'][0]['name'])

    def handler(I, ref, obj, args):
        n, cls = ref['n'], ref.get('cls') or ''
        if n == 'FilterAssertion':
            t = ('app', 'x.filtered', argv(I, args[0]))
            I.types[t] = DR + 'FilterAssertionResult'
            return t
        if n == 'IsSubsetOf':
            t = ('app', 'x.only_forall', argv(I, obj))
            I.types[t] = 'bool'
            return t
        if n == 'IsDifferentiable':
            t = ('app', 'x.differentiable', argv(I, args[0]))
            I.types[t] = 'bool'
            return t
        if cls == OPT:
            I.events.append((n, argv(I, args[0])))
            return VOID
        if n == 'GetFreeVariables':
            t = ('app', 'x.vars', argv(I, obj))
            I.types[t] = strip_type(ref['ret'])
            return I.new_root(t, 'vars')
    opaque = lambda name: (lambda I, n, ref, obj, args: ('app', name))
    cfg = OptCfg(env, {OPT + '::(ctor)': opaque('x.opt'), OPT + '::NloptOptimizer': opaque('x.opt'), DR + 'Box::(ctor)': opaque('x.box'), DR + 'Box::Box': opaque('x.box'), DR + 'Box::size': lambda *a: ('int', 0)})
    cut_cfg(cfg, handler)
    kinds = {'Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq'}
    cfg.kinds_restrict = {q: kinds if single else {'And'}}
    cfg.max_loop = 3
    I = Interp(env.prog, cfg)
    kind_of = lambda p, t: next((v for (x, k), v in p.kinds.items() if x == t and k.split('::')[-1] == 'FormulaKind'), None)
    for e in (0, 1):
        cfg.kinds_restrict[('elem', ('fld', q, env.roles.field[('NaryFormulaCell', 's')]), e)] = {'Gt', 'Leq', 'Eq'}

    def setup(I):
        this, args = setup_for(f)(I)
        cls = strip_type(f['params'][1]['type'])
        args[1] = I.new_root(('inst', cls, None, tuple((x['name'], coll('set', ())) for x in env.prog.classes[cls]['fields'])), 'forall')
        return this, args
    for p in I.explore(f, setup, 4000):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            if 'loop bound' in str(p.outcome[1]):
                r.vacuous += 1
            else:
                r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        if p.outcome[0] != 'ret':
            r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        if single:
            fs = [q]
        else:
            roots = [t for t in p.shapes if q in parts_of(t)]
            if len(roots) != 1:
                r.undecided.append('%s: operands' % r.name)
                continue
            fs = [('elem', roots[0], j) for j in range(p.shapes[roots[0]])]
        filt = {e: next((v for (x, k), v in p.kinds.items() if x == ('app', 'x.filtered', e)), None) for e in fs}
        if any(v is None for v in filt.values()):
            miss = [e for e in fs if filt[e] is None]
            added = [e[1] for e in p.events if e[0] == 'AddRelationalConstraint']
            if any(e not in added for e in miss):
                r.violations.append((r.name, '%s: the constraint %s is neither absorbed into the box nor given to the optimiser [when %s]' % (r.fn, show(miss[0]), p.describe()[:200])))
                continue
        open_ = [e for e in fs if filt[e] and any('NotFiltered' in str(k) for k in filt[e])]
        added = [e[1] for e in p.events if e[0] in ('AddRelationalConstraint', 'AddConstraint')]
        objs = [e[1] for e in p.events if e[0] == 'SetMinObjective']
        lost = [e for e in open_ if e not in added]
        if lost:
            r.violations.append((r.name, '%s: the constraint %s is not given to the optimiser [when %s]' % (r.fn, show(lost[0]), p.describe()[:200])))
            continue
        alien = [e for e in added if e not in fs]
        if alien:
            r.undecided.append('%s: constraint %s' % (r.name, show(alien[0])[:80]))
            continue
        if not open_:
            if objs:
                r.violations.append((r.name, '%s: an objective is set although nothing is left to optimise' % r.fn))
            else:
                r.agree += 1
            continue

        def spec(m, p):
            tot = M.lit0() if hasattr(M, 'lit0') else 0
            for e in open_:
                sub = next((b for a, b in p.facts if a[:2] == ('app', 'x.only_forall') and e in parts_of(a)), None)
                k = kind_of(p, e)
                if sub is None:
                    raise M.Opaque('variables of %s' % show(e))
                if sub or k is None or not k <= {'Gt', 'Geq', 'Lt', 'Leq'}:
                    continue
                a, b = [M.val(m.E(('fld', e, env.roles.field[('RelationalFormulaCell', x)]), C0)) for x in 'ab']
                tot += b - a if k <= {'Gt', 'Geq'} else a - b
            return tot

        def result(m, p):
            return M.val(m.E(objs[-1], C0)) if objs else 0
        decide_path(env, r, I, p, spec, result, {})
    return r


def parts_of(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.add(x)
            todo.extend(x)
    return out


def refine(env):
    """Refine starts in the middle of the box and moves only the universal variables."""
    f = env.prog.one(CR + '::Refine')
    r = Result('refinement', f)
    a, b, d = ('sym', 'a'), ('sym', 'b'), ('sym', 'd')
    state = {}

    def entry(I, n, ref, obj, args):
        v = argv(I, args[0])
        if v not in state['slots']:
            return DECLINE
        return state['slots'][v]

    def variables(I, n, ref, obj, args):
        return I.new_root(coll('vec', (a, b, d)), 'vars')

    def handler(I, ref, obj, args):
        n, cls = ref['n'], ref.get('cls') or ''
        if n == 'include' and cls.endswith('Variables'):
            return TRUE if argv(I, args[0]) in (b, d) else FALSE
        if cls == OPT and n == 'Optimize':
            if len(args) != 3:
                return None
            lv = I.deref(args[0])
            I.events.append(('start', argv(I, lv), args[2]))
            state['env'] = I.settle(args[2])
            for x in ('r0', 'r1'):
                I.types[('sym', x)] = 'double'
            I.set(lv, coll('vec', (('sym', 'r0'), ('sym', 'r1'))))
            t = ('app', 'x.result')
            I.types[t] = strip_type(ref['ret'])
            I.events.append(('env', canon(I.settle(args[2]))))
            return t
    cfg = OptCfg(env, {DR + 'Box::operator[]': entry, DR + 'Box::variables': variables})
    cut_cfg(cfg, handler)
    I = Interp(env.prog, cfg)

    def setup(I):
        this, args = setup_for(f)(I)
        for v in (a, b, d):
            I.types[v] = VAR
        state['slots'] = {}
        for v in (a, b, d):
            t = ('app', 'x.entry', v)
            I.types[t] = 'ibex::Interval'
            state['slots'][v] = I.new_root(t, 'slot')
        for x in env.prog.classes[CR]['fields']:
            t = strip_type(x['type'])
            if 'vector<double' in t:
                I.set_raw(this.sub(('f', x['name'])), coll('vec', (('flt', 0.0), ('flt', 0.0))))
            elif 'vector<' in t:
                I.set_raw(this.sub(('f', x['name'])), coll('vec', (b, d)))
            elif 'unique_ptr' in t:
                I.set_raw(this.sub(('f', x['name'])), ('ptr', I.new_root(('app', 'x.opt'), 'opt')))
        return this, args
    for p in I.explore(f, setup):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        if p.outcome[0] != 'ret':
            if any(x[:2] in (('app', 'V.dummy'), ('app', 'm.isnan')) and y for x, y in p.facts):
                r.vacuous += 1
            else:
                r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
            continue
        start = [e for e in p.events if e[0] == 'start']
        envs = [e for e in p.events if e[0] == 'env']
        mid = lambda v: ('app', 'iv.mid', ('app', 'x.entry', v))
        w = None
        if len(start) != 1:
            r.undecided.append('%s: %d calls of the optimiser' % (r.name, len(start)))
            continue
        got = canon(start[0][1])
        if got != coll('vec', (mid(b), mid(d))):
            w = 'the optimiser starts at %s, not in the middle of the universal variables' % show(got)[:100]
        try:
            e = content(p, envs[0][1])
            if e.get(a) != mid(a):
                w = 'the existential variable has the value %s' % (show(e[a])[:80] if a in e else 'of no one')
        except M.Opaque as x:
            r.undecided.append('%s: %s' % (r.name, x))
            continue
        now = {v: canon(p.heap.get(lv.root)) for v, lv in state['slots'].items()}
        if now[a] != ('app', 'x.entry', a):
            w = 'the interval of the existential variable becomes %s' % show(now[a])[:80]
        old = [('app', 'x.entry', v) for v in (b, d)]
        moved = [now[b], now[d]]
        pts = [('app', 'iv.pt', ('sym', 'r0')), ('app', 'iv.pt', ('sym', 'r1'))]
        if moved not in (old, pts):
            w = 'the universal variables become %s' % [show(x)[:60] for x in moved]
        if w:
            r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, w, p.describe()[:200])))
        else:
            r.agree += 1
    return r


def check_C14(c):
    env = make_env(c, extract.all_tus() + [extract.probe('opt', OPT_PROBE)])
    kinds = ('Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq')
    jobs = [lambda k=k: constraint(env, 'AddRelationalConstraint', k, False) for k in kinds]
    jobs += [lambda k=k, n=n: constraint(env, 'AddConstraint', k, n) for k in kinds for n in (False, True)]
    jobs += [lambda k=k: constraint(env, 'AddConstraint', k, False) for k in ('And', 'Or', 'Var', 'True', 'False', 'Forall')]
    jobs += [lambda g=g: evaluate(env, g) for g in (False, True)]
    jobs += [lambda n=n: simple(env, env.prog.one('probe::' + n), ('app', 'x.diff', ('sym', 'e'), ('sym', 'x'))) for n in ('diff_once', 'diff_twice', 'diff_other', 'diff_back')]
    jobs += [lambda: simple(env, env.prog.one('probe::val'), ('app', 'x.val', ('sym', 'e'), ('sym', 'env')))]
    jobs += [lambda: bounds(env), lambda: environment(env)]
    g = env.prog.one(OPT + '::SetMinObjective')
    jobs += [lambda: simple(env, g, [('set_min_objective', ('sym', g['params'][0]['name']))], None, lambda I, p: [(e[0], e[2]) for e in p.events])]
    jobs += [lambda s=s: refiner_ctor(env, s) for s in (True, False)] + [lambda: refine(env)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every relation, its negation and conjunctions of two relations: what reaches nlopt is an inequality h <= 0 or an equality h = 0 that holds exactly where the constraint '
                   'holds, up to the boundary; anything else is rejected. The function given to nlopt evaluates the expression, and in entry i the derivative by variable i, at the '
                   'point whose i-th coordinate is variable i, keeping the other values of the environment; cached derivatives are those of the variable asked for. Bounds, objective and environment '
                   'are passed on. The refiner gives every constraint not absorbed into its box to the optimiser, minimises the sum of the differences that are negative where the mixed '
                   'inequalities hold, starts in the middle of the box and moves only universal variables.')
    c.assumptions += ['nlopt does what its interface says', 'boxes of two and three variables, conjunctions of two constraints', 'Expression::Differentiate and Evaluate are decided by S08 and S01']
    return n
