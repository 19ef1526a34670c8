"""Properties of the symbolic library (S01-S14)."""
from common import *
from engine import Config, LV, coll, lit, is_lit
import check
import handlers
from check import parallel
from program import coll_kind
from sym import SymConfig, p_fun, p_eop, p_fop, p_forall, p_nary, m_opeq_inc

E_OPS = {'+', '-', '*', '/', '+=', '-=', '*=', '/='}


def api_functions(env, want):
    """Functions of the symbolic interface that other analyses treat as an operation,
    with the operation they stand for."""
    cfg = SymConfig(env.prog, env.roles)
    out = []
    for f in env.prog.functions.values():
        if not f['q'].startswith('dreal::') or not f.get('body') or f.get('lambda'):
            continue
        ref = ref_of(f)
        if ref is None:
            continue
        h = cfg.prim(None, ref)
        if h in want:
            out.append((f, ref, h))
    out.sort(key=lambda x: (x[0]['file'], x[0]['line']))
    return out


def ref_of(f):
    return {'q': f['q'], 'fid': f['fid'], 'cls': f.get('cls'), 'ret': f.get('ret', ''), 'n': f['q'].split('::')[-1] if 'n' not in f else f['n'],
            'op': f.get('op'), 'pt': [p['type'] for p in f['params']], 'static': f.get('static')}


def root_name(p, i):
    return p.get('name') or 'a%d' % i


OUTSIDE = {'/': lambda a, b: b == 0, 'pow': lambda a, b: a < 0 and b != int(b), 'log': lambda a: a < 0, 'sqrt': lambda a: a < 0,
           'asin': lambda a: abs(a) > 1, 'acos': lambda a: abs(a) > 1}


def api_obligation(env, f, ref, h, sizes=(0, 1, 2), extra=None, alias=False):
    """The summary of an interface function agrees with the operation it stands for.
    alias: all arguments of the same type are one object."""
    isf = strip_type(f['ret']) == FORM
    types = [strip_type(p['type']) for p in f['params']]
    assign = bool(ref.get('op')) and ref['op'] in ('+=', '-=', '*=', '/=') or (f['ret'].endswith('&') and not f.get('cls'))
    spec_t = {}

    def spec(m, p):
        I = m.I
        k = id(I)
        if k not in spec_t:
            lvs = []
            for i, pr in enumerate(f['params']):
                lvs.append(('sym', root_name(f['params'][0] if alias else pr, 0 if alias else i)))
            t = h(I, None, ref, None, lvs)
            spec_t[k] = canon(t)
        t = spec_t[k]
        return m.F(t, C0) if isf else m.E(t, C0)

    def result(m, p):
        v = p.outcome[1]
        if isinstance(v, LV):
            v = p.final.get(root_name(f['params'][0], 0))
        r = m.F(v, C0) if isf else m.E(v, C0)
        return r
    def alias_setup(I):
        lv = I.sym_lv(root_name(f['params'][0], 0), f['params'][0]['type'])
        return None, [lv] * len(f['params'])
    name = f['fid'].replace(DS, '').replace('dreal::drake::symbolic::', '')

    def outside(m, p):
        """A fold of constants outside the domain of the operation."""
        op = {'/': '/', '/=': '/'}.get(ref.get('op'), ref['n'])
        if op not in OUTSIDE or p.outcome[0] != 'ret' or isf:
            return
        ts = [('sym', root_name(f['params'][0] if alias else pr, 0 if alias else i)) for i, pr in enumerate(f['params'])]
        if any(m.kind(t) != 'Constant' for t in ts):
            return
        v = p.outcome[1]
        if isinstance(v, LV):
            v = p.final.get(root_name(f['params'][0], 0))
        if not (v[0] == 'app' and v[1] == 'E.c' or v in ts):
            return
        x = [m.E(t, C0) for t in ts]
        if OUTSIDE[op](*x):
            return 'folds %s(%s) to %s although it is undefined' % (op, ', '.join('%g' % a for a in x), show(v)[:100])
    return run(env, name + (' on one object' if alias else ''), f, alias_setup if alias else setup_for(f), spec, result, sizes=sizes, extra_prims=extra, undefined=outside)


# --- accumulators for sums and products ---------------------------------------------------

FACT = {'ExpressionAddFactory': ('E.addmap', 'E.+'), 'ExpressionMulFactory': ('E.mulmap', 'E.*')}
FMETHODS = ('AddExpression', 'Add', 'operator=', 'Negate', 'GetExpression', 'AddConstant', 'AddTerm', 'AddMap')


def fac_fields(prog, cls):
    """(constant, map, already-taken flag) fields of a factory, by type."""
    con = [f for f, d in prog.field_types(cls).items() if d['type'] == 'double']
    mp = [f for f, d in prog.field_types(cls).items() if coll_kind(d['type']) == 'map']
    fl = [f for f, d in prog.field_types(cls).items() if d['type'] == 'bool']
    if len(con) != 1 or len(mp) != 1:
        raise AnalysisBroken('the fields of %s are not a constant and a map' % cls)
    return con[0], mp[0], (fl or [None])[0]


def fac_value_of(v, fields, short):
    """The term a factory value denotes."""
    if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'fac':
        return v[2]
    con, mp, _ = fields

    def fld(name):
        if isinstance(v, tuple) and v[0] == 'inst':
            for a, b in v[3]:
                if a == name:
                    return canon(b)
            return ('fld', v[2], name) if v[2] is not None else None
        return ('fld', v, name)
    return ('app', FACT[short][0], fld(con), fld(mp))


def expr_t(I, t):
    I.types.setdefault(t, EXPR)
    return t


def ptr_target(I, a):
    v = canon(I.settle(a))
    if isinstance(v, tuple) and v[0] == 'ptr':
        v = canon(I.get(v[1]))
    return v


def facprims(prog, skip=None):
    """Factory methods as operations on what the factory denotes."""
    out = {}
    for short, (mapop, plus) in FACT.items():
        cls = DS + short
        fields = fac_fields(prog, cls)

        def old(I, obj, fields=fields, short=short):
            con, mp, fl = fields
            v = canon(I.get(obj))
            if isinstance(v, tuple) and v[0] == 'inst':
                t = ('app', FACT[short][0], canon(I.get(obj.sub(('f', con)))), canon(I.get(obj.sub(('f', mp)))))
            else:
                t = fac_value_of(v, fields, short)
            return expr_t(I, t)

        def put(I, obj, t, cls=cls):
            v = ('app', 'fac', expr_t(I, t))
            I.types.setdefault(v, cls)
            I.set(obj, v)
            return obj

        for m in prog.classes[cls]['methods']:
            f = prog.functions.get(m['fid'])
            if f is None or f['n'] not in FMETHODS or f.get('defaulted') or m['fid'] == skip:
                continue
            out[m['fid']] = fac_method(f, old, put, mapop, plus)
    return out


def fac_method(f, old, put, mapop, plus):
    name = f['n']
    pts = [strip_type(p['type']) for p in f['params']]

    def h(I, n, ref, obj, args):
        a = sym.vals(I, args)
        if name == 'operator=':
            return put(I, obj, ptr_target(I, args[0]))
        t = old(I, obj)
        if name == 'GetExpression':
            v = canon(I.get(obj))
            if isinstance(v, tuple) and v[0] == 'app' and len(v) > 3:
                from engine import Thrown
                raise Thrown('std::runtime_error', None)
            I.set(obj, ('app', 'fac', t, ('bool', True)))
            return t
        if name == 'Negate':
            return put(I, obj, ('app', 'E.neg', t))
        if name == 'AddConstant':
            x = expr_t(I, ('app', 'E.c', a[0]))
        elif name == 'AddExpression':
            x = a[0]
        elif name == 'Add':
            x = ptr_target(I, args[0])
        elif name == 'AddMap':
            x = expr_t(I, ('app', mapop, ('flt', 0.0 if plus == 'E.+' else 1.0), a[0]))
        elif name == 'AddTerm' and plus == 'E.+':
            i = pts.index('double')
            x = expr_t(I, ('app', 'E.*', expr_t(I, ('app', 'E.c', a[i])), a[1 - i]))
        else:
            x = expr_t(I, ('app', 'E.pow', a[0], a[1]))
        return put(I, obj, ('app', plus, t, x))
    return h


def fac_obligation(env, f, short):
    cls = DS + short
    fields = fac_fields(env.prog, cls)
    mapop, plus = FACT[short]
    name = f['n']
    prims = facprims(env.prog, skip=f['fid'])
    hm = fac_method(f, lambda I, obj: expr_t(I, ('app', mapop, ('fld', ('sym', 'this'), fields[0]), ('fld', ('sym', 'this'), fields[1]))),
                    lambda I, obj, t: t, mapop, plus)
    if not f.get('cls') or f['fid'].startswith(cls + '::(ctor)'):
        return None

    class Fake:
        def __init__(self, I):
            self.types = I.types
            self.I = I

        def settle(self, x):
            return x

        def get(self, o):
            return ('sym', 'this')

        def set(self, o, v):
            pass
        heap = {}

    def rec(I, ref, obj, args):
        g = env.prog.functions.get(ref['fid'])
        if g is not None and g['fid'] == f['fid']:
            return prims_all[f['fid']](I, None, ref, obj, args)
        return None
    prims_all = facprims(env.prog)

    def cfg_mod(cfg):
        cfg.recursion = rec

    def spec(m, p):
        t = hm(Fake(m.I), None, None, None, [('sym', root_name(pr, i)) for i, pr in enumerate(f['params'])])
        return m.E(t, C0)

    def result(m, p):
        if name == 'GetExpression':
            return m.E(p.outcome[1], C0)
        return m.E(fac_value_of(p.final['this'], fields, short), C0)

    def taken(m, p, ty):
        return bool(fields[2]) and m.B(('fld', ('sym', 'this'), fields[2]))

    def const_term(m, p):
        # the precondition of adding a term: the term (base) is not a constant
        return name == 'AddTerm' and any(x[0][0] == 'sym' and x[1] <= frozenset(['Constant']) for x in
                                         [((k[0]), v) for k, v in p.kinds.items()])
    return run(env, '%s::%s' % (short, name), f, setup_for(f), spec, result, cfg_mod=cfg_mod, extra_prims=prims,
               allow_throw=taken, allow_abort=const_term)


def check_S02(c):
    env = make_env(c)
    jobs = []
    for short in FACT:
        for m in env.prog.classes[DS + short]['methods']:
            f = env.prog.functions.get(m['fid'])
            if f is None or not f.get('body') or f.get('defaulted') or f['n'] not in FMETHODS:
                continue
            jobs.append(lambda f=f, short=short: fac_obligation(env, f, short))
    for q in ('Sum', 'Prod'):
        for f in env.prog.find(DS + q):
            jobs.append(lambda f=f: api_obligation(env, f, ref_of(f), p_fun, extra=facprims(env.prog)))
    c.add(parallel(jobs))
    return len(jobs)


def check_S09(c):
    env = make_env(c)
    fs = [x for x in api_functions(env, (p_fop, p_forall, p_nary)) if strip_type(x[0]['ret']) == FORM]
    c.add(parallel([lambda x=x: api_obligation(env, *x) for x in fs]))
    return len(fs)


def check_S01(c):
    env = make_env(c)
    fs = [x for x in api_functions(env, (p_eop, p_fun)) if strip_type(x[0]['ret']) == EXPR]
    fac = facprims(env.prog)
    jobs = [lambda x=x: api_obligation(env, *x, extra=fac) for x in fs]
    for x in fs:
        pts = [p['type'] for p in x[0]['params']]
        if len(pts) == 2 and strip_type(pts[0]) == strip_type(pts[1]) == EXPR and '&&' not in pts[0] + pts[1] and '&' in pts[0] and '&' in pts[1]:
            jobs.append(lambda x=x: api_obligation(env, *x, extra=fac, alias=True))
    c.add(parallel(jobs))
    return len(fs)
