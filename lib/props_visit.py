"""Dispatch over the kinds of terms (S12)."""
import extract
from common import *
from engine import LV, TRUE, FALSE
from check import parallel
from sym import SymConfig, ECELL, FCELL

E_HANDLER = dict(Constant='Constant', RealConstant='RealConstant', Var='Variable', Add='Addition', Mul='Multiplication', Div='Division', Log='Log', Abs='Abs',
                 Exp='Exp', Sqrt='Sqrt', Pow='Pow', Sin='Sin', Cos='Cos', Tan='Tan', Asin='Asin', Acos='Acos', Atan='Atan', Atan2='Atan2', Sinh='Sinh',
                 Cosh='Cosh', Tanh='Tanh', Min='Min', Max='Max', IfThenElse='IfThenElse', UninterpretedFunction='UninterpretedFunction')
F_HANDLER = dict(False_='False', True_='True', Var='Variable', Eq='EqualTo', Neq='NotEqualTo', Gt='GreaterThan', Geq='GreaterThanOrEqualTo', Lt='LessThan',
                 Leq='LessThanOrEqualTo', And='Conjunction', Or='Disjunction', Not='Negation', Forall='Forall')
F_HANDLER = {k.rstrip('_'): v for k, v in F_HANDLER.items()}
POLY = {'Constant', 'RealConstant', 'Var', 'Add', 'Mul', 'Div', 'Pow'}
HANDLERS = {'Visit' + v for d in (E_HANDLER, F_HANDLER) for v in d.values()}


def kinds(prog, is_e):
    return [x['name'] for x in prog.enums[EKIND if is_e else FKIND]['consts']]


def flag(p, t, name):
    for a, b in p.facts:
        if a[:2] == ('app', name) and a[2] == t:
            return b
    return None


def dispatch(env, f):
    prog = env.prog
    ti = [i for i, p in enumerate(f['params']) if strip_type(p['type']) in (EXPR, FORM)]
    i = ti[0]
    names = [q.get('name') or 'a%d' % j for j, q in enumerate(f['params'])]
    names = [x if names.count(x) == 1 else '%s_%d' % (x, j) for j, x in enumerate(names)]
    root = ('sym', names[i])
    isE = strip_type(f['params'][i]['type']) == EXPR
    table = E_HANDLER if isE else F_HANDLER
    vi = [j for j, p in enumerate(f['params']) if p['type'].rstrip().endswith('*')]
    who = strip_type(f['params'][vi[0]]['type'].replace('*', ' ')).split('::')[-1] if vi else '?'
    r = Result('%s for %s' % (f['n'], who), f)
    for k in kinds(env.prog, isE):
        seen = []
        cfg = SymConfig(prog, env.roles)

        def handler(I, ref, obj, args):
            n = ref['q'].split('::')[-1]
            if n in HANDLERS and ref.get('cls'):
                a = [canon(I.settle(x)) if not isinstance(x, LV) else canon(I.settle(I.get(x))) for x in args]
                t = ('app', 'x.visited', n) + tuple(a)
                I.types[t] = strip_type(ref['ret'])
                return t
            return None
        cut_cfg(cfg, handler)
        cfg.kinds_restrict = {root: {k}}
        I = Interp(prog, cfg)
        for p in I.explore(f, setup_for(f, names)):
            r.paths += 1
            when = 'a term of kind %s [when %s]' % (k, p.describe()[:200])
            key = '%s:%s' % (r.name, k)
            want = 'Visit' + table[k] if k in table else None
            if p.outcome[0] == 'unsupported':
                r.undecided.append('%s %s: %s' % (r.name, k, p.outcome[1]))
                continue
            poly = flag(p, root, 'is_polynomial')
            if p.outcome[0] == 'ret':
                x = p.outcome[1]
                if not (isinstance(x, tuple) and x[:2] == ('app', 'x.visited')):
                    r.violations.append((key, '%s answers %s for %s without calling a handler' % (r.fn, show(x)[:80], when)))
                elif x[2] != want:
                    r.violations.append((key, '%s calls %s for %s' % (r.fn, x[2], when)))
                elif root != x[3]:
                    r.violations.append((key, '%s passes %s to %s for %s' % (r.fn, show(x[3])[:80], x[2], when)))
                elif tuple(x[3:]) != tuple(('sym', x) for j, x in enumerate(names) if j not in vi[:1]):
                    r.violations.append((key, '%s passes (%s) to %s for %s' % (r.fn, ', '.join(show(y)[:40] for y in x[3:]), x[2], when)))
                else:
                    r.agree += 1
            elif want is not None and not ('olynomial' in f['n'] and (poly is False or k not in POLY)):
                r.violations.append((key, '%s ends in "%s" for %s' % (r.fn, p.outcome[1], when)))
            else:
                r.agree += 1
    return r


def probe_visitor():
    """A visitor with a handler per kind, so that every dispatcher is instantiated, also those no traversal of the repository uses."""
    out = ['#include "dreal/symbolic/symbolic.h"', 'namespace dreal { namespace probe {', 'using namespace dreal::drake::symbolic;', 'struct ProbeVisitor {']
    for d, ty in ((E_HANDLER, 'Expression'), (F_HANDLER, 'Formula')):
        for h in d.values():
            out.append('int Visit%s(const %s& t, int x, int y);' % (h, ty))
    out += ['};', 'int poly(ProbeVisitor* v, const Expression& e, int x, int y) { return VisitPolynomial<int>(v, e, x, y); }',
            'int expr(ProbeVisitor* v, const Expression& e, int x, int y) { return VisitExpression<int>(v, e, x, y); }',
            'int form(ProbeVisitor* v, const Formula& e, int x, int y) { return VisitFormula<int>(v, e, x, y); }', '}}']
    return '\n'.join(out)


NAMES_E = dict(constant='Constant', real_constant='RealConstant', variable='Var', addition='Add', multiplication='Mul', division='Div', log='Log', abs='Abs',
               exp='Exp', sqrt='Sqrt', pow='Pow', sin='Sin', cos='Cos', tan='Tan', asin='Asin', acos='Acos', atan='Atan', atan2='Atan2', sinh='Sinh',
               cosh='Cosh', tanh='Tanh', min='Min', max='Max', if_then_else='IfThenElse', uninterpreted_function='UninterpretedFunction', nan='NaN')
REL = {'Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq'}
NAMES_F = dict(false={'False'}, true={'True'}, variable={'Var'}, equal_to={'Eq'}, not_equal_to={'Neq'}, greater_than={'Gt'}, greater_than_or_equal_to={'Geq'},
               less_than={'Lt'}, less_than_or_equal_to={'Leq'}, relational=REL, conjunction={'And'}, disjunction={'Or'}, nary={'And', 'Or'}, negation={'Not'},
               forall={'Forall'})


def holds(t, root, k):
    """The truth of a condition on the kind of root, or None."""
    if t in (TRUE, FALSE):
        return t == TRUE
    if t[0] == 'not':
        b = holds(t[1], root, k)
        return None if b is None else not b
    if t[0] == 'op' and t[1] in ('&', '&&', '|', '||', '^') and len(t) == 4:
        a, b = holds(t[2], root, k), holds(t[3], root, k)
        return None if a is None or b is None else a and b if t[1][0] == '&' else a or b if t[1][0] == '|' else a != b
    if t[0] == 'cmp' and t[1] in ('==', '!='):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a == ('kind', root) and b[0] == 'enum':
                return (b[1].split('::')[-1] == k) == (t[1] == '==')
    return None


def predicate(env, f, want):
    """is_<kind> answers true for exactly its kinds."""
    root = ('sym', f['params'][0].get('name') or 'a0')
    isE = strip_type(f['params'][0]['type']) in (EXPR, ECELL)
    r = Result('%s(%s)' % (f['n'], 'expression' if isE else 'formula'), f)
    for k in kinds(env.prog, isE):
        cfg = SymConfig(env.prog, env.roles)
        cfg.kinds_restrict = {root: {k}}
        for p in Interp(env.prog, cfg).explore(f, setup_for(f)):
            r.paths += 1
            v = holds(p.outcome[1], root, k) if p.outcome[0] == 'ret' else None
            if v is not None:
                if v != (k in want):
                    r.violations.append(('%s:%s' % (r.name, k), '%s is %s for a term of kind %s [when %s]' % (r.fn, v, k, p.describe()[:200])))
                else:
                    r.agree += 1
            elif p.outcome[0] in ('throw', 'abort'):
                r.violations.append(('%s:%s' % (r.name, k), '%s raises an error for a term of kind %s' % (r.fn, k)))
            else:
                r.undecided.append('%s %s: %s' % (r.name, k, str(p.outcome)[:200]))
    return r


def check_S12(c):
    env = make_env(c, extract.all_tus() + [extract.probe('visitors', probe_visitor())])
    prog = env.prog
    jobs = []
    for f in sorted(prog.functions.values(), key=lambda f: f['fid']):
        if f.get('body') and not f.get('cls') and f['q'].startswith(DS) and any(strip_type(p['type']) in (EXPR, FORM) for p in f['params']):
            hs = {prog.functions[x]['n'] if x in prog.functions else x for x in prog.callees(f)}
            hs = {x.split('(')[0].split('::')[-1] for x in hs}
            if len(hs & HANDLERS) >= 5:
                jobs.append(lambda f=f: dispatch(env, f))
        if f.get('body') and not f.get('cls') and f['q'].startswith(DS) and len(f['params']) == 1 and f['n'].startswith('is_'):
            t, n = strip_type(f['params'][0]['type']), f['n'][3:]
            if t in (EXPR, ECELL) and n in NAMES_E:
                jobs.append(lambda f=f, n=n: predicate(env, f, {NAMES_E[n]}))
            elif t in (FORM, FCELL) and n in NAMES_F:
                jobs.append(lambda f=f, n=n: predicate(env, f, NAMES_F[n]))
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every instance of the dispatchers (one per visitor class of the repository, and a probe visitor that has every handler) and every kind of term: '
                   'the dispatcher calls the handler of that kind, once, with the term and the remaining arguments in order; an unsupported kind ends in an error. '
                   'The kind predicates (is_addition, ...) are true for exactly their kinds.')
    c.assumptions += ['the kind stored in a term is the kind of its cell (checked by S01 and S09, which interpret the constructors)']
    return n
