"""S07 and the attribute part of S08: what the constructors of nodes record."""
from common import *
from engine import LV
from check import parallel
from equiv import decide_path, Result
from sym import SymConfig, ECELL, FCELL
import props_cell as pc
import props_eq
from props_eq import VARPRIMS, ctors_of, explore_ctor


def getter_field(env, base, names):
    """The field a plain accessor of the node class returns."""
    for n in names:
        for m in env.prog.classes[base]['methods']:
            if m['name'] != n:
                continue
            f = env.prog.functions.get(m['fid'])
            if not f or f['params'] or not f.get('body'):
                continue
            fields = {x['name'] for x in env.prog.classes[base]['fields']}
            I = Interp(env.prog, SymConfig(env.prog, env.roles, inline=(f['fid'],)))
            ps = I.explore(f, lambda i: (i.sym_lv('this', base), []))
            if len(ps) == 1 and ps[0].outcome[0] == 'ret':
                v = ps[0].outcome[1]
                if isinstance(v, LV):
                    v = canon(I.settle(v))
                if isinstance(v, tuple) and v[0] == 'fld' and v[2] in fields:
                    return v[2]
            from engine import walk
            used = {x['name'] for x in walk(f['body']) if isinstance(x, dict) and x.get('k') == 'member' and x.get('name') in fields}
            if len(used) == 1:
                return used.pop()
    raise AnalysisBroken('%s: no accessor among %s returns a stored value' % (base, ', '.join(names)))


def vfun(m, name, t):
    return m.B(('app', name, t))


def poly_spec(m, kind, t):
    if kind in ('Constant', 'RealConstant', 'Var'):
        return True

    def nonneg(x):
        if m.kind(m.rep(x)) != 'Constant' and not (x[0] == 'app' and x[1] == 'E.c'):
            return False
        from model import val
        v = val(m.E(x, C0))
        return v >= 0 and v == int(v)
    if kind == 'Add':
        return all(vfun(m, 'is_polynomial', k) for k, _ in m.Mp(m.comp_(t, kind, 'm')))
    if kind == 'Mul':
        return all(vfun(m, 'is_polynomial', k) and nonneg(e) for k, e in m.Mp(m.comp_(t, kind, 'm')))
    if kind == 'Pow':
        return vfun(m, 'is_polynomial', m.comp_(t, kind, 'a')) and nonneg(m.comp_(t, kind, 'b'))
    if kind == 'Div':
        return vfun(m, 'is_polynomial', m.comp_(t, kind, 'a')) and m.kind(m.rep(m.comp_(t, kind, 'b'))) in ('Constant', 'RealConstant')
    return False


def operands(m, kind, t, formula):
    """Operand terms of a node."""
    g = lambda *rs: [m.comp_(t, kind, r) for r in rs]
    if formula:
        if kind in RELKIND:
            return g('a', 'b')
        if kind in ('And', 'Or'):
            return list(m.C(m.comp_(t, kind, 's')))
        if kind in ('Not', 'Forall'):
            return g('f')
        return []
    if kind == 'Add':
        return [k for k, _ in m.Mp(m.comp_(t, kind, 'm'))]
    if kind == 'Mul':
        return [x for kv in m.Mp(m.comp_(t, kind, 'm')) for x in kv]
    if kind in BINARY.values() or kind == 'Div':
        return g('a', 'b')
    if kind in UNARY.values():
        return g('a')
    return []


def ctor_jobs(env, what):
    """what: 'vars' or 'attr'."""
    prog = env.prog
    jobs = []
    for base, kinds, getters in ((ECELL, KIND_CLASS_E, ('GetVariables',)), (FCELL, KIND_CLASS_F, ('GetFreeVariables', 'get_free_variables'))):
        flds = {}
        if what == 'vars':
            flds['vars'] = getter_field(env, base, getters)
        else:
            flds['include_ite'] = getter_field(env, base, ('include_ite',))
            if base == ECELL:
                flds['is_polynomial'] = getter_field(env, base, ('is_polynomial',))
        flds['kind'] = getter_field(env, base, ('get_kind',))
        for kind, kc in kinds.items():
            cls = DS + kc
            fs = ctors_of(prog, cls)
            if not fs:
                raise AnalysisBroken('no constructor of ' + cls)
            for f in fs:
                jobs.append(lambda base=base, kind=kind, cls=cls, f=f, flds=flds: ctor_obligation(env, base, kind, cls, f, flds))
    return jobs


def ctor_obligation(env, base, kind, cls, f, flds):
    formula = base == FCELL
    name = '%s(%s)' % (pc.short(cls), ', '.join(strip_type(p['type']).split('::')[-1].split('<')[0] for p in f['params']))
    I, ps = explore_ctor(env, cls, f, extra=VARPRIMS)
    new = ('new', cls) + tuple(('sym', 'arg%d' % i) for i in range(len(f['params'])))
    r = Result(name, f)
    # the term's own kind is known
    for p, fields in ps:
        r.paths += 1
        if p.outcome[0] in ('throw', 'abort'):
            r.agree += 1
            continue

        def getf(x):
            if flds[x] not in fields:
                raise Opaque('field %s is not set' % flds[x])
            return fields[flds[x]]
        q = Result(name, f)
        k = fields.get(flds['kind'])
        if k is None or k[0] != 'enum' or not k[1].endswith('::' + kind):
            r.violations.append((name + ':kind', '%s: a node of class %s records the kind %s' % (r.fn, pc.short(cls), show(k) if k else 'nothing')))
            continue
        if 'vars' in flds:
            decide_path(env, q, I, p, lambda m, p: m.vars(new), lambda m, p: m.S(getf("vars")), {})
        else:
            def ite(m, p):
                return kind == 'IfThenElse' or any(vfun(m, 'include_ite', x) for x in operands(m, kind, new, formula))
            decide_path(env, q, I, p, ite, lambda m, p: bool(m.B(getf("include_ite"))), {}, key=lambda p, m: name + ':include_ite')
            if 'is_polynomial' in flds:
                decide_path(env, q, I, p, lambda m, p: poly_spec(m, kind, new), lambda m, p: bool(m.B(getf("is_polynomial"))), {},
                            compare=lambda want, have: want or not have, key=lambda p, m: name + ':is_polynomial')
        q.agree = min(1, q.agree)
        r.merge(q)
    return r


# --- variable sets -----------------------------------------------------------------------------

def check_S07(c):
    env = make_env(c)
    prog = env.prog
    jobs = ctor_jobs(env, 'vars')
    jobs += set_jobs(env)
    for top, n in ((EXPR, 'GetVariables'), (FORM, 'GetFreeVariables')):
        for f in pc.wrappers(prog, top, n):
            jobs.append(lambda f=f, top=top: pc.wrapper_obligation(env, f, ECELL if top == EXPR else FCELL))
    c.add(parallel(jobs))
    c.rules.append('For every constructor of a node, the summary of the recorded variable set equals the union of the variables of the operands (minus the '
                   'bound ones); every operation of the variable set class is evaluated on small sets and must agree with set theory.')
    c.assumptions += ['containers have up to two entries', 'std::set and the set algorithms of <algorithm> behave as specified']
    return len(c.results)


def set_spec(f):
    """What a member or operator of the variable set class must compute: (result or None, new value of the mutated set or None)."""
    n = f['n']
    tys = [strip_type(p['type']) for p in f['params']]
    op = {'operator+': '+', 'operator+=': '+', 'operator-': '-', 'operator-=': '-', 'intersect': '&'}.get(n)
    member = f.get('cls') == VARS

    def asset(x):
        return {x} if len(x) == 2 and isinstance(x[0], str) else set(x)
    comb = {'+': lambda a, b: a | b, '-': lambda a, b: a - b, '&': lambda a, b: a & b}
    if op and not member and set(tys) <= {VAR, VARS} and VARS in tys and len(tys) == 2:
        return ('set', lambda a, b: comb[op](asset(a), asset(b)), 0 if n.endswith('=') else None)
    if not member:
        return None
    if n in ('insert', 'erase') and len(tys) == 1 and tys[0] in (VAR, VARS):
        o = '+' if n == 'insert' else '-'
        return ('erased' if n == 'erase' else 'void', lambda a, b: comb[o](set(a), asset(b)), 'this')
    t = {'IsSubsetOf': lambda a, b: a <= b, 'IsSupersetOf': lambda a, b: a >= b, 'IsStrictSubsetOf': lambda a, b: a < b,
         'IsStrictSupersetOf': lambda a, b: a > b, 'include': lambda a, b: a >= b}.get(n)
    if t and len(tys) == 1:
        return ('bool', lambda a, b: t(set(a), asset(b)), None)
    if n == 'empty' and not tys:
        return ('bool', lambda a: not a, None)
    if n == 'size' and not tys:
        return ('num', lambda a: len(a), None)
    return None


def set_jobs(env):
    jobs = []
    seen = set()
    for f in env.prog.functions.values():
        if not f.get('body') or f['fid'] in seen:
            continue
        if f.get('cls') != VARS and VARS not in [strip_type(p['type']) for p in f['params']]:
            continue
        if not f['q'].startswith(DS):
            continue
        s = set_spec(f)
        if s:
            seen.add(f['fid'])
            jobs.append(lambda f=f, s=s: set_obligation(env, f, s))
    if len(jobs) < 12:
        raise AnalysisBroken('operations of the variable set class not found')
    return jobs


def set_obligation(env, f, spec):
    import random
    from concrete import Bad, Summary
    what, fn, mutated = spec
    name = f['fid'].replace(DS, '').replace('const ', '')
    r = Result(name, f)
    s = props_eq.summary(env, f, inline=(f['fid'],))
    rng = random.Random(23)
    names = (['this'] if f.get('cls') == VARS else []) + [pc.pname(f, i) for i in range(len(f['params']))]
    tys = ([VARS] if f.get('cls') == VARS else []) + [strip_type(p['type']) for p in f['params']]
    und = None
    r.paths = len(s.paths)
    for _ in range(300):
        vals = [props_eq.gen(rng, t) for t in tys]
        if len(vals) == 2 and tys[0] == tys[1] and rng.random() < 0.2:
            vals[1] = vals[0]
        e = dict(zip(names, vals))
        want = fn(*vals)
        try:
            p, have = s(e)
            ok = True
            if what == 'set':
                ok = set(have) == want
            elif what == 'bool':
                ok = bool(have) == want
            elif what == 'num':
                ok = have == want
            elif what == 'erased':
                ok = have == len(set(vals[0])) - len(want)
            if ok and mutated is not None:
                from concrete import CEval
                t = p.final.get('this' if mutated == 'this' else names[mutated])
                have = CEval(e).ev(canon(t)) if t is not None else vals[0]
                ok = set(have) == want
            if not ok:
                r.violations.append((name, '%s: on %r gives %r, expected %r' % (r.fn, vals, have, want)))
                return r
            r.samples += 1
        except Bad as x:
            r.violations.append((name, '%s: %s on %r' % (r.fn, x, vals)))
            return r
        except Opaque as x:
            und = und or str(x)
    if und:
        r.undecided.append('%s: %s' % (name, und))
    r.agree = 1 if r.samples else 0
    return r
