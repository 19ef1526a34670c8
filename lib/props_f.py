"""Helpers over formulas (S14)."""
from common import *
from engine import LV, coll, lit, is_lit
import model as M
from check import parallel
from sym import SymConfig
from props_attr import operands
from props_s import facprims

NOT_SMOOTH = {'Abs', 'Min', 'Max', 'IfThenElse', 'UninterpretedFunction'}


def one_fn(prog, q, pts):
    fs = [f for f in prog.find(q) if f.get('body') and [strip_type(p['type']) for p in f['params']] == pts]
    if len(fs) != 1:
        raise AnalysisBroken('%d definitions of %s(%s)' % (len(fs), q, ', '.join(pts)))
    return fs[0]


def psym(f, i=0):
    return ('sym', f['params'][i].get('name') or 'a%d' % i)


def fid_short(f):
    return f['fid'].replace(DS, '').replace('dreal::', '')


def truth(m, t, ty):
    return m.bval(m.V(t), C0) if ty == VAR else m.F(t, C0)


def implications(env, jobs):
    for n, op in (('imply', lambda a, b: not a or b), ('iff', lambda a, b: a == b)):
        fs = [f for f in env.prog.find('dreal::' + n) if f.get('body')]
        if not fs:
            raise AnalysisBroken('no definition of ' + n)
        for f in fs:
            tys = [strip_type(p['type']) for p in f['params']]

            def job(f=f, tys=tys, op=op):
                def pre(m, p):
                    for i, ty in enumerate(tys):
                        if ty == VAR:
                            m.memo.setdefault(('vtype', m.V(psym(f, i))), 'BOOLEAN')
                return run(env, fid_short(f), f, setup_for(f), lambda m, p: op(truth(m, psym(f, 0), tys[0]), truth(m, psym(f, 1), tys[1])), ret_F)
            jobs.append(job)


def nary(env, jobs):
    for n, op in (('make_conjunction', all), ('make_disjunction', any)):
        for f in env.prog.find('dreal::' + n):
            if f.get('body') and len(f['params']) == 1:
                jobs.append(lambda f=f, op=op: run(env, fid_short(f), f, setup_for(f), lambda m, p: op(m.F(x, C0) for x in list(m.C(psym(f)))), ret_F,
                                                   sizes=(0, 1, 2, 3)))


# --- classifiers --------------------------------------------------------------------------

def kind_of(m, t):
    k = m.kind(m.rep(t))
    if k is None:
        raise Skip()
    return k


def lit_shape(m, t):
    """'atom', 'lit' or None."""
    k = kind_of(m, t)
    if k in ('And', 'Or'):
        return None
    if k != 'Not':
        return 'atom'
    k = kind_of(m, m.comp_(t, 'Not', 'f'))
    return None if k in ('And', 'Or', 'Not') else 'lit'


def clause(m, t):
    if kind_of(m, t) == 'Or':
        return all(lit_shape(m, x) for x in operands(m, 'Or', t, True))
    return lit_shape(m, t) is not None


def cnf(m, t):
    if kind_of(m, t) == 'And':
        return all(clause(m, x) for x in operands(m, 'And', t, True))
    return clause(m, t)


CLASS = {'is_clause': clause, 'is_cnf': cnf}


def pick_kinds(m, p):
    m.kindpick = KindPick(m, p).kind


class KindPick:
    """Kind of a formula: what the path says, else a random one the path allows."""

    def __init__(self, m, p):
        self.m, self.p = m, p

    def rep(self, t):
        return self.m.rep(t)

    def kind(self, t):
        k = self.m.kind(t)
        if k is not None:
            return k
        key = ('picked kind', t)
        if key not in self.m.memo:
            ks = None
            for (u, en), s in self.p.kinds.items():
                if self.m.rep(u) == t:
                    ks = s
            ks = frozenset(KIND_CLASS_F) if ks is None else ks
            ks = self.m.I.cfg.restrict_kinds(self.m.I, t, ks)
            if t[0] == 'fld' and t[2] == self.m.roles.field.get(('FormulaNot', 'f')) and self.kind(t[1]) == 'Not':
                ks = ks - {'True', 'False', 'Not'}
            if t[0] == 'elem' and t[1][0] == 'fld' and self.kind(self.m.rep(t[1][1])) in ('And', 'Or'):
                ks = ks - {self.kind(self.m.rep(t[1][1])), 'True', 'False'}
            self.m.memo[key] = self.m.rng.choice(sorted(ks))
        return self.m.memo[key]

    def comp_(self, t, kind, role):
        return self.m.comp_(t, kind, role)

    def C(self, t):
        return self.m.C(t)


def classifiers(env, jobs):
    prog = env.prog
    for n, spec in CLASS.items():
        f = one_fn(prog, 'dreal::' + n, [FORM])

        def h(I, nn, ref, obj, args, f=f):
            x = canon(I.settle(args[0]))
            if not subterm(x, psym(f)):
                return DECLINE
            t = ('app', 'x.is_clause', x)
            I.types.setdefault(t, 'bool')
            return t

        def job(f=f, spec=spec, h=h):
            return run(env, f['n'], f, setup_for(f), lambda m, p: spec(KindPick(m, p), psym(f)), ret_bool, sizes=(1, 2), pre=pick_kinds,
                       extra_prims={'dreal::is_clause': h}, ext={'x.is_clause': lambda m, t, c: clause(KindPick(m, m.path), t[2])})
        jobs.append(job)
    f = one_fn(prog, 'dreal::is_atomic', [FORM])

    def atomic(m, t):
        if kind_of(m, t) == 'Not':
            return kind_of(m, m.comp_(t, 'Not', 'f')) not in ('And', 'Or', 'Not', 'Forall', 'True', 'False')
        return lit_shape(m, t) == 'atom'
    jobs.append(lambda f=f: run(env, f['n'], f, setup_for(f), lambda m, p: atomic(KindPick(m, p), psym(f)), ret_bool, pre=pick_kinds))
    g = one_fn(prog, 'dreal::get_clauses', [FORM])

    def clauses(g=g):
        def spec(m, p):
            k = KindPick(m, p)
            if not cnf(k, psym(g)):
                raise Skip()
            t = psym(g)
            ops = operands(m, 'And', t, True) if kind_of(k, t) == 'And' else [t]
            return frozenset(m.rep(canon(x)) for x in ops)

        def have(m, p):
            return frozenset(m.rep(canon(x)) for x in m.C(p.outcome[1]))
        prims = {}
        for n, sp in CLASS.items():
            def h(I, nn, ref, obj, args, n=n):
                t = ('app', 'x.' + n, canon(I.settle(args[0])))
                I.types.setdefault(t, 'bool')
                return t
            prims['dreal::' + n] = h
        ext = {'x.' + n: (lambda m, t, c, sp=sp: sp(KindPick(m, m.path), t[2])) for n, sp in CLASS.items()}
        return run(env, g['n'], g, setup_for(g), spec, have, sizes=(1, 2), extra_prims=prims, ext=ext, allow_abort=None)
    jobs.append(clauses)


# --- delta perturbation -----------------------------------------------------------------

RELNODE = {'F.>': 'Gt', 'F.>=': 'Geq', 'F.<': 'Lt', 'F.<=': 'Leq'}
RELV = {'Eq': lambda l, r: l == r, 'Neq': lambda l, r: l != r, 'Gt': lambda l, r: l > r, 'Geq': lambda l, r: l >= r, 'Lt': lambda l, r: l < r,
        'Leq': lambda l, r: l <= r}


class Pert:
    """What a perturbed formula may be: an exact truth value or one side of an implication."""

    def __init__(self, exact=None, implies=None, implied=None):
        self.exact, self.implies, self.implied = exact, implies, implied

    def __repr__(self):
        if self.exact is not None:
            return repr(self.exact)
        return 'a truth value that implies %r' % self.implies if self.implies is not None else 'a truth value implied by %r' % self.implied


def pert_ok(want, have):
    if want.exact is not None:
        return want.exact == have
    if want.implies is not None:
        return not have or want.implies
    return have or not want.implied


def perturbed(m, t, d):
    """Induction hypothesis for an operand."""
    v = m.F(t, C0)
    if d == 0:
        return v
    if t[0] == 'app' and t[1] in RELNODE:
        l, r = [M.val(m.E(x, C0)) for x in t[2:]]
        return {'F.>': l - d > r, 'F.>=': l - d >= r, 'F.<': l + d < r, 'F.<=': l + d <= r}[t[1]]
    w = m.leaf(('perturbed', m.rep(canon(t)), d), lambda: m.rng.random() < 0.5)
    return (v and w) if d > 0 else (v or w)


def pert_spec(m, p, t, d):
    k = m.kind(m.rep(t))
    if k is None or d == 0:
        raise Skip()        # the public functions require a positive amount
    if k in RELV:
        l, r = [M.val(m.E(m.comp_(t, k, x), C0)) for x in 'ab']
        if k in ('Gt', 'Geq'):
            return Pert(exact=RELV[k](l - d, r))
        if k in ('Lt', 'Leq'):
            return Pert(exact=RELV[k](l + d, r))
        if k == 'Eq':
            return Pert(implies=l == r) if d > 0 else Pert(exact=abs(l - r) <= -d)
        return Pert(exact=abs(l - r) > d) if d > 0 else Pert(implied=l != r)
    if k in ('And', 'Or'):
        xs = [perturbed(m, x, d) for x in m.C(m.comp_(t, k, 's'))]
        return Pert(exact=all(xs) if k == 'And' else any(xs))
    if k == 'Not':
        return Pert(exact=not perturbed(m, m.comp_(t, k, 'f'), -d))
    return Pert(exact=m.F(t, C0))


def perturbation(env, c):
    prog = env.prog
    tops = [(one_fn(prog, 'dreal::DeltaStrengthen', [FORM, 'double']), 1), (one_fn(prog, 'dreal::DeltaWeaken', [FORM, 'double']), -1)]
    seen = {}

    def handler(I, ref, obj, args, root):
        ds = param_index(ref, 'double')
        if len(ds) != 1 or ref['q'].startswith(DS):
            return None
        fs, es = param_index(ref, FORM), param_index(ref, EXPR)
        if len(fs) == 1 and strip_type(ref['ret']) == FORM:
            x = canon(I.settle(args[fs[0]]))
            # operands, and inequalities built on the way, are smaller
            if not subterm(x, root) and not (x[0] == 'app' and x[1] in RELNODE):
                return None
            t = ('app', 'x.str', x, canon(I.settle(args[ds[0]])))
            I.types.setdefault(t, FORM)
        elif len(es) == 1 and strip_type(ref['ret']) == EXPR:
            x = canon(I.settle(args[es[0]]))
            if not subterm(x, root):
                return None
            t = ('app', 'E.same', x)
            I.types.setdefault(t, EXPR)
        else:
            return None
        seen.setdefault(ref['fid'], set()).add(RELNODE.get(x[1]) if x[0] == 'app' else None)
        return t
    ext = {'x.str': lambda m, t, cc: perturbed(m, t[2], M.val(m.num(t[3], C0))), 'E.same': lambda m, t, cc: m.E(t[2], cc)}

    def cfg_mod(root):
        return lambda cfg: cut_cfg(cfg, lambda I, ref, obj, args: handler(I, ref, obj, args, root))

    def job(f, sign, kinds=None):
        ft, dt = psym(f, 0), psym(f, 1)

        def allow_throw(m, p, ty):
            return m.kind(m.rep(ft)) == 'Forall'

        def spec(m, p):
            d = M.val(m.num(dt, C0))
            if sign is not None:
                if d <= 0:
                    raise Skip()
                d *= sign
            return pert_spec(m, p, ft, d)
        def mod(cfg):
            cfg_mod(ft)(cfg)
            if kinds is not None:
                cfg.kinds_restrict[ft] = kinds
        return run(env, fid_short(f), f, setup_for(f), spec, ret_F, cfg_mod=mod, ext=ext, allow_throw=allow_throw, compare=pert_ok)

    def ejob(f):
        i = param_index({'pt': [p['type'] for p in f['params']]}, EXPR)[0]
        return run(env, fid_short(f), f, setup_for(f), lambda m, p: m.E(psym(f, i), C0), ret_E, cfg_mod=cfg_mod(psym(f, i)), ext=ext, extra_prims=facprims(prog),
                   allow_throw=lambda m, p, ty: m.kind(m.rep(psym(f, i))) == 'NaN')
    for f, s in tops:
        c.add(job(f, s))
    done = {}
    n = 2
    while True:
        todo = [x for x in seen if done.get(x) != seen[x]]
        if not todo:
            break
        for fid in todo:
            ks = done[fid] = set(seen[fid])
            f = prog.functions[fid]
            if fid in [t['fid'] for t, _ in tops]:
                continue
            if strip_type(f['ret']) == FORM:
                c.add(job(f, None, None if None in ks else ks))
            else:
                c.add(ejob(f))
            n += 1
    return n


# --- differentiability ---------------------------------------------------------------------

def smooth(env, c):
    prog = env.prog
    seen = {}

    def handler(I, ref, obj, args, root):
        xs = param_index(ref, FORM) + param_index(ref, EXPR)
        if len(xs) != 1 or strip_type(ref['ret']) != 'bool' or ref['q'].startswith(DS):
            return None
        x = canon(I.settle(args[xs[0]]))
        if not subterm(x, root):
            return None
        t = ('app', 'x.smooth', x)
        I.types.setdefault(t, 'bool')
        seen.setdefault(ref['fid'], ref)
        return t

    def leaf(m, t):
        return m.leaf(('smooth', m.rep(canon(t))), lambda: m.rng.random() < 0.7)
    ext = {'x.smooth': lambda m, t, cc: leaf(m, t[2])}

    def cfg_mod(root):
        return lambda cfg: cut_cfg(cfg, lambda I, ref, obj, args: handler(I, ref, obj, args, root))

    def job(f):
        form = strip_type(f['params'][0]['type']) == FORM
        t = psym(f, 0)

        def spec(m, p):
            k = m.kind(m.rep(t))
            if k is None:
                raise Skip()
            if k in NOT_SMOOTH or k == 'Forall':
                return False
            return all([leaf(m, x) for x in operands(m, k, t, form)])
        return run(env, fid_short(f), f, setup_for(f), spec, ret_bool, cfg_mod=cfg_mod(t), ext=ext, allow_throw=lambda m, p, ty: m.kind(m.rep(t)) == 'NaN')
    todo = [f for f in prog.find('dreal::IsDifferentiable') if f.get('body')]
    if len(todo) != 2:
        raise AnalysisBroken('IsDifferentiable for formulas and expressions is not found')
    done = set()
    n = 0
    while todo:
        f = todo.pop(0)
        if f['fid'] in done:
            continue
        done.add(f['fid'])
        c.add(job(f))
        n += 1
        if not todo:
            todo = [prog.functions[x] for x in seen if x not in done]
    return n


def misc(env, jobs):
    prog = env.prog
    f = one_fn(prog, 'dreal::operator!', ['dreal::RelationalOperator'])
    neg = {'EQ': 'NEQ', 'NEQ': 'EQ', 'GT': 'LEQ', 'LEQ': 'GT', 'LT': 'GEQ', 'GEQ': 'LT'}

    def job(f=f):
        r = Result('negation of a relational operator', f)
        I = Interp(prog, SymConfig(prog, env.roles))
        seen = set()
        en = strip_type(f['params'][0]['type'])
        consts = [x for x in prog.enums[en]['consts']]
        for cst in consts:
            for p in I.explore(f, lambda i: (None, [('enum', en + '::' + cst['name'], en, cst['val'])])):
                r.paths += 1
                v = p.outcome[1]
                if p.outcome[0] == 'ret' and isinstance(v, tuple) and v[0] == 'enum':
                    if v[1].split('::')[-1] == neg[cst['name']]:
                        r.agree += 1
                    else:
                        r.violations.append((r.name, '%s: the negation of %s is %s' % (r.fn, cst['name'], v[1])))
                elif p.outcome[0] in ('throw', 'abort'):
                    r.violations.append((r.name, '%s: no negation of %s' % (r.fn, cst['name'])))
                else:
                    r.undecided.append('%s: %s' % (r.name, p.outcome))
        return r
    jobs.append(job)
    g = one_fn(prog, 'dreal::HaveIntersection', [VARS, VARS])
    from props_attr import set_obligation
    jobs.append(lambda g=g: set_obligation(env, g, ('bool', lambda a, b: bool(set(a) & set(b)), None)))


def check_S14(c):
    env = make_env(c)
    jobs = []
    implications(env, jobs)
    nary(env, jobs)
    classifiers(env, jobs)
    misc(env, jobs)
    c.add(parallel(jobs))
    n = len(jobs) + perturbation(env, c) + smooth(env, c)
    c.rules.append('Implication, equivalence and n-ary connectives have their truth table. For every kind of formula (and of its operands) the classifiers '
                   'accept exactly literals, clauses and conjunctions of clauses. Perturbation by delta moves every inequality by exactly delta and is a '
                   'homomorphism that flips delta under negation, so the result implies (delta > 0) or is implied by (delta < 0) the original; terms keep '
                   'their value. A term is differentiable iff it has no non-differentiable node. Operands are covered by the induction hypothesis.')
    c.assumptions += ['S09 for formula constructors', 'real arithmetic up to rounding']
    return n
