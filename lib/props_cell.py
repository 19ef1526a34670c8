"""Per-kind obligations on the cells of expressions and formulas (S03-S10)."""
from common import *
from engine import LV, coll, is_lit, lit, mkbool
import check
import model as M
from check import parallel
from program import coll_kind
from sym import SymConfig, ECELL, FCELL, E_METHODS, F_METHODS
from props_s import *
from props_s import OUTSIDE, check_S01, check_S02, check_S09

THIS = ('sym', 'this')
KINDS = {ECELL: KIND_CLASS_E, FCELL: KIND_CLASS_F}


def base_methods(prog, base, name):
    return [m for m in prog.classes[base]['methods'] if m['name'] == name]


def cells(prog, base, name, nparams=None):
    """(kind, class, function implementing method `name` for that class)."""
    ms = base_methods(prog, base, name)
    if nparams is not None:
        ms = [m for m in ms if m['fid'].count('(') and prog_nparams(prog, m) in (None, nparams)]
    if not ms:
        raise AnalysisBroken('%s has no method %s' % (base, name))
    out = []
    for m in ms:
        for kind, short in KINDS[base].items():
            cls = DS + short
            f = prog.method_on(cls, m['fid'], name)
            if f is None or not f.get('body'):
                raise AnalysisBroken('no definition of %s for %s' % (name, cls))
            out.append((kind, cls, f))
    return out


def prog_nparams(prog, m):
    f = prog.functions.get(m['fid'])
    return len(f['params']) if f else None


def this_setup(f, cls):
    return setup_for(f, this_cls=cls)


def pname(f, i):
    return f['params'][i].get('name') or 'a%d' % i


def ps(f, i):
    return ('sym', pname(f, i))


def wrappers(prog, cls, name):
    return [f for f in prog.find(cls + '::' + name) if f.get('body')]


def short(cls):
    return cls.split('::')[-1]


def own_domain(m, kind, c):
    """Complaint about the operands of this node being outside its domain, or None."""
    op = {'Div': '/', 'Pow': 'pow', 'Log': 'log', 'Sqrt': 'sqrt', 'Asin': 'asin', 'Acos': 'acos'}.get(kind)
    if op is None:
        return None
    names = ('a',) if op in UNARY else ('a', 'b')
    x = [M.val(m.E(m.comp_(THIS, kind, r), c)) for r in names]
    if OUTSIDE[op](*x):
        return '%s(%s)' % (op, ', '.join('%g' % a for a in x))


def apps(t, op):
    if isinstance(t, tuple):
        if t[:2] == ('app', op):
            yield t
        for x in t:
            yield from apps(x, op)


def eval_obligation(env, base, kind, cls, f):
    e = base == ECELL

    def ctx(m):
        return m.env_ctx(ps(f, 0))

    def spec(m, p):
        c = ctx(m)
        if kind in ('Eq', 'Neq') and c.base == ('closed',) and not c.ov:
            raise Skip()    # documented: decided by structural equality
        return m.E(THIS, c) if e else m.F(THIS, c)

    def result(m, p):
        return m.num(p.outcome[1], C0) if e else m.B(p.outcome[1], C0)

    def undefined(m, p):
        if p.outcome[0] == 'throw' and kind in ('Eq', 'Neq') and any(not m.env_in(m.env_root(ps(f, 0)), V) for V in m.vars(THIS)):
            return 'an error is raised for an equation with variables that the assignment leaves open'
        if p.outcome[0] != 'ret':
            return None
        if kind == 'NaN':
            return 'a value is returned for NaN'
        if kind == 'Var':
            v = m.V(m.comp_(THIS, kind, 'var'))
            c = ctx(m)
            if v not in c.ov and not (isinstance(c.base, tuple) and c.base[0] == 'env' and m.env_has(c.base[1], v)):
                return 'a value is returned for a variable that has none'
            return None
        if kind in ('Eq', 'Neq'):
            return partly(m, p)
        if not e:
            return None
        try:
            w = own_domain(m, kind, ctx(m))
        except Skip:
            return None
        if w:
            return 'a value is returned for %s, which is undefined' % w

    def partly(m, p):
        """The assignment leaves a variable of an (dis)equation open: what remains of both sides is compared."""
        t, en = canon(p.outcome[1]), ps(f, 0)
        sides = [m.comp_(THIS, kind, x) for x in ('a', 'b')]

        def open_(x):
            return any(not m.env_in(m.env_root(en), V) for V in m.vars(x))
        if not any(open_(x) for x in sides):
            return None
        for x in apps(t, 'E.eval'):
            if open_(x[2]):
                return '%s is evaluated although the assignment leaves one of its variables open' % M.show(x[2])
        neg = kind == 'Neq'
        while t[0] == 'not':
            t, neg = t[1], not neg
        if t[0] != 'eq':
            return None
        if neg:
            return 'the answer of the comparison is negated'
        c0 = Ctx()
        want = [m.E(('app', 'E.partial', x, en), c0) for x in sides]
        have = [m.E(x, c0) for x in t[1:3]]
        if not all(same(x, y) for x, y in zip(want, have)) and not all(same(x, y) for x, y in zip(want, reversed(have))):
            return 'what is compared is not what remains of the two sides'
    if kind == 'UninterpretedFunction':
        return throws_always(env, f, cls, 'an uninterpreted function is given a value')
    if not e and kind == 'Forall':
        return throws_always(env, f, cls, 'a quantified formula is given a truth value')

    def strict(m, p):
        # a factor or term that does not count (constant 0, coefficient 0) does not occur in a cell
        if kind in ('Add', 'Mul'):
            if kind == 'Mul' and m.num(m.comp_(THIS, kind, 'c'), C0) == 0:
                return False
            if kind == 'Add' and any(m.num(v, C0) == 0 for k, v in m.Mp(m.comp_(THIS, kind, 'm'))):
                return False
        return True
    return run(env, '%s::%s' % (short(cls), f['n']), f, this_setup(f, cls), spec, result, undefined=undefined,
               strict=strict if e or kind in ('Gt', 'Geq', 'Lt', 'Leq') else None)


def throws_always(env, f, cls, complaint):
    r = Result('%s::%s' % (short(cls), f['n']), f)
    I = Interp(env.prog, SymConfig(env.prog, env.roles))
    for p in I.explore(f, this_setup(f, cls)):
        r.paths += 1
        if p.outcome[0] in ('throw', 'abort'):
            r.agree += 1
        elif p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
        else:
            r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, complaint, p.describe()[:300])))
    return r


def wrapper_obligation(env, f, base):
    """A public method of Expression or Formula denotes the operation of its name."""
    e = strip_type(f['cls']) == EXPR
    h = (E_METHODS if e else F_METHODS)[f['n']]
    ret = strip_type(f['ret'])

    class FakeLV:
        pass

    def spec_term(I):
        ref = {'q': f['q'], 'fid': f['fid'], 'cls': f['cls'], 'ret': f['ret'], 'n': f['n'], 'pt': [p['type'] for p in f['params']]}
        lv = I.sym_lv('this', f['cls'])
        return canon(h(I, None, ref, lv, [I.sym_lv(pname(f, i), p['type']) for i, p in enumerate(f['params'])]))
    terms = {}

    def term(m):
        if id(m.I) not in terms:
            terms[id(m.I)] = spec_term(m.I)
        return terms[id(m.I)]
    val_ = {EXPR: lambda m, t: m.E(t, C0), FORM: lambda m, t: m.F(t, C0), VARS: lambda m, t: m.S(t), 'double': lambda m, t: m.num(t, C0),
            'bool': lambda m, t: m.B(t, C0)}.get(ret)
    if val_ is None:
        return None
    return run(env, '%s::%s(%s)' % (short(f['cls']), f['n'], ', '.join(short(strip_type(p['type'])) for p in f['params'])), f, setup_for(f),
               lambda m, p: val_(m, term(m)), lambda m, p: val_(m, p.outcome[1]), inline=(f['fid'],))


def check_eval(c, base):
    env = make_env(c)
    jobs = [lambda x=x: eval_obligation(env, base, *x) for x in cells(env.prog, base, 'Evaluate')]
    top = EXPR if base == ECELL else FORM
    for n in ('Evaluate', 'EvaluatePartial') if base == ECELL else ('Evaluate',):
        for f in wrappers(env.prog, top, n):
            jobs.append(lambda f=f: wrapper_obligation(env, f, base))
    c.add(parallel(jobs))
    return len(jobs)


def check_S05(c):
    n = check_eval(c, ECELL)
    c.rules.append('For every kind of expression, the summary of its evaluation method equals the operation of the node applied to the values of the '
                   'operands (recursive calls are the induction hypothesis); where a variable has no value, the node is NaN or the operands are outside '
                   'the domain of the operation, every path ends in an error.')
    c.assumptions += ['real arithmetic up to rounding', 'standard library functions of <cmath> compute the function of their name']
    return n


def check_S10(c):
    n = check_eval(c, FCELL)
    c.rules.append('For every kind of formula, the summary of its evaluation method equals the connective or relation applied to the values of the '
                   'operands; a Boolean variable without a value and a quantified formula end in an error.')
    c.assumptions += ['S05 for operands that are expressions']
    return n


NO_RULE = {'Abs', 'Min', 'Max', 'IfThenElse', 'UninterpretedFunction', 'NaN'}


def check_S03(c):
    env = make_env(c)
    jobs = []

    def one(kind, cls, f):
        x = ps(f, 0)

        def spec(m, p):
            v = m.E(THIS, Ctx(dv=m.V(x)))
            return v.d if isinstance(v, M.Dual) else 0.0

        def allow(m, p, ty):
            return kind == 'NaN' or (kind in NO_RULE and m.V(x) in m.vars(THIS))
        if kind == 'NaN':
            return throws_always(env, f, cls, 'NaN has a derivative')
        if kind in NO_RULE:
            spec0 = spec

            def spec(m, p):
                if m.V(x) not in m.vars(THIS):
                    return 0.0
                if p.outcome[0] == 'throw':
                    return 0.0
                return spec0(m, p)
        r = run(env, '%s::%s' % (short(cls), f['n']), f, this_setup(f, cls), spec, ret_E, allow_throw=allow, partial=True, extra_prims=facprims(env.prog))
        return r
    for x in cells(env.prog, ECELL, 'Differentiate'):
        jobs.append(lambda x=x: one(*x))
    for f in wrappers(env.prog, EXPR, 'Differentiate'):
        jobs.append(lambda f=f: wrapper_obligation(env, f, ECELL))
    c.add(parallel(jobs))
    c.rules.append('For every kind of expression, the summary of its differentiation method, with the derivatives of the operands as induction hypothesis, '
                   'equals the derivative of the node computed by dual numbers; kinds without a rule (%s) may only raise an error when the variable occurs in them.'
                   % ', '.join(sorted(NO_RULE)))
    c.assumptions += ['real arithmetic up to rounding', 'points where an intermediate term of the result is undefined are not compared']
    return len(jobs)


def check_S04(c):
    env = make_env(c)
    jobs = []

    def one(base, kind, cls, f, capture=False):
        e = base == ECELL
        es, fs = [p for p in f['params'] if strip_type(template_args(p['type'])[1]) == EXPR], \
            [p for p in f['params'] if strip_type(template_args(p['type'])[1]) == FORM]
        if len(es) != 1 or len(fs) != 1:
            raise AnalysisBroken('parameters of %s' % f['fid'])
        es, fs = ps(f, f['params'].index(es[0])), ps(f, f['params'].index(fs[0]))

        def spec(m, p):
            ctx = m.subst_ctx(es, fs, C0)
            if kind == 'Var' and (m.vtypeV(m.V(m.comp_(THIS, kind, 'var'))) == 'BOOLEAN') == e:
                raise Skip()
            if kind == 'Forall':
                bound = m.S(m.comp_(THIS, kind, 'vars'))
                dom = m.vars(THIS)
                fv = frozenset()
                for s in (es, fs):
                    for V, x in m.sub_terms(s).items():
                        if V in dom:
                            fv |= m.vars(x)
                if bool(fv & bound) != capture:
                    raise Skip()
            return m.E(THIS, ctx) if e else m.F(THIS, ctx)
        if kind == 'UninterpretedFunction':
            def spec(m, p):
                out = frozenset()
                ee, ff = m.sub_terms(es), m.sub_terms(fs)
                for V in m.vars(THIS):
                    x = (ff if m.vtypeV(V) == 'BOOLEAN' else ee).get(V)
                    out |= m.vars(x) if x is not None else frozenset([V])
                return out
            return run(env, '%s::%s' % (short(cls), f['n']), f, this_setup(f, cls), spec, lambda m, p: m.vars(p.outcome[1]))
        if kind == 'NaN':
            return throws_always(env, f, cls, 'NaN has a value after substitution')
        name = '%s::%s' % (short(cls), f['n'])
        if capture:
            name += ' when a replacement mentions a bound variable'
        return run(env, name, f, this_setup(f, cls), spec, ret_E if e else ret_F, extra_prims=facprims(env.prog))
    for base in (ECELL, FCELL):
        for x in cells(env.prog, base, 'Substitute'):
            jobs.append(lambda x=x, base=base: one(base, *x))
            if x[0] == 'Forall':
                jobs.append(lambda x=x, base=base: one(base, *x, capture=True))
    for top, base in ((EXPR, ECELL), (FORM, FCELL)):
        for f in wrappers(env.prog, top, 'Substitute'):
            jobs.append(lambda f=f, base=base: wrapper_obligation(env, f, base))
    c.add(parallel(jobs))
    c.rules.append('For every kind of expression and formula, the value of the summary of its substitution method equals the value of the node under the '
                   'assignment in which every substituted variable takes the value of its replacement (substitution on the operands is the induction hypothesis).')
    c.assumptions += ['real arithmetic up to rounding', 'a Boolean variable is only replaced by a formula and any other only by an expression']
    return len(jobs)


from props_exp import check_S08  # noqa: E402
from props_eq import check_S06  # noqa: E402
from props_attr import check_S07  # noqa: E402
from props_f import check_S14  # noqa: E402
from props_visit import check_S12
from props_print import check_S13


def check_S11(c):
    import props_own
    return props_own.check_S11(c)
