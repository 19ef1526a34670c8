"""Formula transformations (T01-T05)."""
from common import *
from engine import LV as LV_, coll
from program import coll_kind

NNF = 'dreal::Nnfizer'


def member_of(prog, cls, pred):
    return [f for f in prog.functions.values() if f.get('cls') == cls and pred(f)]


# --- T01 -------------------------------------------------------------------------------

def literal_only(I, p, t, push_known):
    """Is the result in negation normal form, given that recursive results are?"""
    bad = []

    def atom(x):
        k = I.cfg.known_kind(I, x)
        if k is None:
            for (u, en), ks in p.kinds.items():
                if u == x and len(ks) == 1:
                    k = next(iter(ks))
        return k

    def possible(x):
        """Kinds an input formula may have on this path."""
        if x[0] not in ('sym', 'fld', 'elem'):
            return frozenset()
        for (u, en), ks in p.kinds.items():
            if u == x:
                break
        else:
            ks = frozenset(KIND_CLASS_F)
        if x[0] == 'elem' and x[1][0] == 'fld':
            for (u, en), own in p.kinds.items():
                if u == x[1][1] and len(own) == 1:
                    ks = ks - own - {'True', 'False'}
        return ks

    def go(x):
        if not isinstance(x, tuple):
            return
        ks = possible(x)
        if len(ks) > 1:
            if ks & {'And', 'Or'}:
                bad.append('the operand %s is not converted' % show(x))
            return
        if x[0] == 'app':
            n = x[1]
            if n == 'F.!' and len(possible(x[2])) > 1:
                ks = possible(x[2])
                if ks & {'And', 'Or', 'Not'}:
                    bad.append('negation of an unconverted operand: %s' % show(x))
                elif ks & set(RELKIND) and push_known(p) is not False:
                    bad.append('a relation may be negated although negations are to be pushed into relations: %s' % show(x))
                return
            if n == 'F.!':
                y = x[2]
                k = atom(y)
                if y[0] == 'app' and y[1] in ('F.==', 'F.!=', 'F.<', 'F.<=', 'F.>', 'F.>='):
                    k = 'rel'
                if k in RELKIND or k == 'rel':
                    if push_known(p) is not False:
                        bad.append('a relation is negated although negations are to be pushed into relations: %s' % show(x))
                elif k in ('Var', 'Forall'):
                    pass
                elif k in ('True', 'False'):
                    pass
                elif k in ('And', 'Or', 'Not'):
                    bad.append('negation of a %s: %s' % (k, show(x)))
                elif y[0] == 'app' and y[1] in ('F.all', 'F.any', 'F.&&', 'F.||', 'F.!', 'x.nnf'):
                    bad.append('negation is not pushed to an atom: %s' % show(x))
                return
            if n in ('F.all', 'F.any'):
                if is_coll(x[2]):
                    for e in x[2][2]:
                        go(e)
                return
            if n in ('F.&&', 'F.||'):
                go(x[2])
                go(x[3])
                return
        k = atom(x)
        if k in ('And', 'Or', 'Not'):
            bad.append('the operands of %s (a %s) are not converted' % (show(x), k))
    go(t)
    return bad


def nnf_setup(fn):
    return setup_for(fn)


def nnf_run(env, fn, hyp, polarity_of, push_of, name):
    """Spec: truth value of the first Formula argument, flipped when polarity is false."""
    fi = [i for i, p in enumerate(fn['params']) if strip_type(p['type']) == FORM]
    ft = ('sym', fn['params'][fi[0]]['name'])

    def handler(I, ref, obj, args):
        fs = param_index(ref, FORM)
        bs = param_index(ref, 'bool')
        if len(fs) != 1 or strip_type(ref['ret']) != FORM:
            return None
        f = canon(I.settle(args[fs[0]]))
        b = [canon(I.settle(args[i])) for i in bs]
        pol = b[0] if len(b) == 2 else ('bool', True)
        push = b[-1] if b else ('bool', False)
        t = ('app', 'x.nnf', f, pol, push)
        I.types.setdefault(t, FORM)
        return t

    def cfg_mod(cfg):
        cfg.recursion = hyp.hook(handler)

    def spec(m, p):
        v = m.F(ft, C0)
        return v == polarity_of(m)

    ext = {'x.nnf': lambda m, t, c: m.F(t[2], c) == m.B(t[3], c)}
    r = run(env, name, fn, setup_for(fn), spec, ret_F, cfg_mod=cfg_mod, ext=ext)
    # normal form
    cfg = sym.SymConfig(env.prog, env.roles)
    cfg_mod(cfg)
    I = Interp(env.prog, cfg)
    push = push_of
    for p in I.explore(fn, setup_for(fn)):
        if p.outcome[0] != 'ret':
            continue

        def push_known(p):
            if push is None:
                return None
            for a, b in p.facts:
                if a == push:
                    return b
            return None
        for b in literal_only(I, p, p.outcome[1], push_known):
            r.violations.append((name + ':nnf', '%s: %s: %s [when %s]' % (name, r.fn, b, p.describe()[:300])))
        check_push(r, p, push, name)
    return r


def check_push(r, p, push, name):
    """The in-place flag reaches every recursive conversion unchanged."""
    def go(x):
        if isinstance(x, tuple):
            if x[:2] == ('app', 'x.nnf') and x[4] != push and not (x[4][0] == 'bool' and (push, x[4][1]) in p.facts):
                r.violations.append((name + ':flag', '%s: %s: an operand is converted with the relational-negation flag %s instead of %s' %
                                     (name, r.fn, show(x[4]), show(push))))
                return
            for y in x:
                go(y)
    go(p.outcome[1])


def check_T01(c):
    env = make_env(c)
    conv = env.prog.one(NNF + '::Convert')
    hyp = Hyp()
    done = set()
    push = ('sym', conv['params'][1]['name'])
    c.add(nnf_run(env, conv, hyp, lambda m: True, push, 'Convert'))
    n = 1
    while True:
        todo = [f for f in hyp.seen if f not in done]
        if not todo:
            break
        for fid in todo:
            done.add(fid)
            fn = env.prog.functions[fid]
            bs = [p['name'] for p in fn['params'] if strip_type(p['type']) == 'bool']
            if len(bs) == 2:
                c.add(nnf_run(env, fn, hyp, lambda m: m.B(('sym', bs[0]), C0), ('sym', bs[1]), fn['n']))
            elif fid != conv['fid']:
                c.add(nnf_run(env, fn, hyp, lambda m: True, ('sym', bs[0]) if bs else None, fn['n']))
            n += 1
    if not done:
        raise AnalysisBroken('the conversion to NNF is not recursive')
    c.rules.append('For every formula kind and polarity, the abstract result of the NNF conversion has the truth value of (the negation of) '
                   'its argument under the induction hypothesis for operands; negation is applied only to Boolean variables, quantified '
                   'formulas, constants and, when in-place negation is not requested, relations; the flag is passed on unchanged.')
    c.assumptions += ['formula constructors have their specified meaning (S09)', 'NaN operands of relations are not considered (total order on reals)']
    return n


# --- T02 -------------------------------------------------------------------------------

def cnf_shape(I, p, t, cnf_op, leaf=None):
    """'atom' < 'lit' < 'clause' < 'cnf' or None, given that results of recursive
    conversions are in CNF."""
    order = {'atom': 0, 'lit': 1, 'clause': 2, 'cnf': 3}

    def kinds(x):
        k = I.cfg.known_kind(I, x)
        if k:
            return frozenset([k])
        for (u, en), ks in p.kinds.items():
            if u == x:
                return ks
        return frozenset(KIND_CLASS_F)

    def worst(xs):
        r = 'atom'
        for x in xs:
            s = go(x)
            if s is None:
                return None
            if order[s] > order[r]:
                r = s
        return r

    def go(x):
        if leaf is not None:
            s = leaf(x, kinds)
            if s is not None:
                return s
        if x[0] == 'app':
            n = x[1]
            if n in ('F.true', 'F.false', 'F.var', 'F.==', 'F.!=', 'F.<', 'F.<=', 'F.>', 'F.>=', 'F.forall'):
                return 'atom'
            if n == 'F.!':
                s = go(x[2])
                return 'lit' if s in ('atom', 'lit') else None
            if n in ('F.||', 'F.any'):
                s = worst(x[2:] if n == 'F.||' else x[2][2])
                if s is None or s == 'cnf':
                    return None
                return 'clause'
            if n in ('F.&&', 'F.all'):
                if n == 'F.all' and not is_coll(x[2]):
                    return None
                xs = x[2:] if n == 'F.&&' else x[2][2]
                s = worst(xs)
                if s is not None and 'And' not in kinds(x):
                    return 'clause'
                return None if s is None else 'cnf' if len(xs) > 1 else s
            if n == cnf_op:
                ks = kinds(x)
                if ks == {'And'}:
                    return 'cnf'
                if 'And' not in ks:
                    return 'clause' if 'Or' in ks else 'lit'
                return 'cnf'
        if x[0] == 'elem' and x[1][0] == 'fld':
            own = x[1][1]
            if own[0] == 'app' and own[1] in (cnf_op, 'F.all', 'F.any', 'F.&&', 'F.||'):
                s = go(own)
                ks = kinds(own)
                if ks == {'And'} and s == 'cnf':
                    return 'clause'
                if ks == {'Or'} and s == 'clause':
                    return 'lit'
                return s
        ks = kinds(x)
        if len(ks) < len(KIND_CLASS_F) and not ks & {'And', 'Or', 'Not'}:
            return 'atom'
        if ks == {'Not'}:
            op = ('fld', x, I.cfg.roles.field[('FormulaNot', 'f')])
            ko = kinds(op)
            if not ko & {'And', 'Or', 'Not'} and len(ko) < len(KIND_CLASS_F):
                return 'lit'
        return None
    return go(t)


def p_nnf(I, n, ref, obj, args):
    a = [canon(I.settle(x)) for x in args]
    t = ('app', 'x.nnf', a[0], ('bool', True), a[1] if len(a) > 1 else ('bool', False))
    I.types.setdefault(t, FORM)
    return t


NNF_EXT = {'x.nnf': lambda m, t, c: m.F(t[2], c) == m.B(t[3], c)}


def nnf_kinds(env):
    nf = env.roles.field[('FormulaNot', 'f')]

    def dk(I, t):
        if t[0] == 'fld' and t[2] == nf:
            return {'Var', 'Forall'}
        return None
    return dk


def check_T02(c):
    env = make_env(c)
    CN = 'dreal::NaiveCnfizer'
    conv = env.prog.one(CN + '::Convert')
    hyp = Hyp()

    def handler(I, ref, obj, args):
        fs = param_index(ref, FORM)
        if ref.get('cls') != CN or len(fs) != 1 or strip_type(ref['ret']) != FORM:
            return None
        t = ('app', 'x.cnf', canon(I.settle(args[fs[0]])))
        I.types.setdefault(t, FORM)
        return t

    def cfg_mod(cfg):
        cfg.recursion = hyp.hook(handler)
        cfg.default_kinds = nnf_kinds(env)

    ext = dict(NNF_EXT)
    ext['x.cnf'] = lambda m, t, c: m.F(t[2], c)
    prims = {NNF + '::Convert': p_nnf}
    done = set()
    todo = [conv['fid']]
    while todo:
        fid = todo.pop()
        if fid in done:
            continue
        done.add(fid)
        fn = env.prog.functions[fid]
        ft = ('sym', [p['name'] for p in fn['params'] if strip_type(p['type']) == FORM][0])
        r = run(env, fn['n'], fn, setup_for(fn), lambda m, p: m.F(ft, C0), ret_F, cfg_mod=cfg_mod, ext=ext, extra_prims=prims)
        c.add(r)
        cfg = sym.SymConfig(env.prog, env.roles, extra_prims=prims)
        cfg_mod(cfg)
        I = Interp(env.prog, cfg)
        for p in I.explore(fn, setup_for(fn)):
            if p.outcome[0] == 'ret' and cnf_shape(I, p, p.outcome[1], 'x.cnf') is None:
                r.violations.append((fn['n'] + ':cnf', '%s: the result %s is not a conjunction of clauses [when %s]' %
                                     (r.fn, show(p.outcome[1])[:400], p.describe()[:400])))
        todo += [f for f in hyp.seen if f not in done]
    if len(done) < 2:
        raise AnalysisBroken('the naive CNF conversion is not recursive')
    c.rules.append('For every formula kind in negation normal form, the abstract result of the conversion has the truth value of its argument, '
                   'and a shape typing of the result (literal, clause, conjunction of clauses) shows it is in CNF, both under the induction '
                   'hypothesis for operands.')
    c.assumptions += ['T01 for the argument of the distribution step', 'formula constructors flatten nested conjunctions and disjunctions (S09)']
    return len(done)


# --- T03 -------------------------------------------------------------------------------

def map_entries(v):
    """Entries added to a lookup-only map, or all entries of a known one."""
    if v is None:
        return []
    if v[0] == 'kv':
        return [(k, pr[2] if pr and pr[0] == 'pair' else None) for k, pr in v[2]]
    if is_coll(v):
        return [(pr[1], pr[2]) for pr in v[2] if pr[0] == 'pair']
    return []


def this_field(p, name, root='this'):
    v = p.final.get(root)
    if v is None:
        return None
    if v[0] == 'inst':
        for a, b in v[3]:
            if a == name:
                return canon(b)
        return None
    return None


def all_fields(p, root='this'):
    v = p.final.get(root)
    return dict((a, canon(b)) for a, b in v[3]) if v is not None and v[0] == 'inst' else {}


def p_inter(I, n, ref, obj, args):
    t = ('app', 'x.inter') + tuple(canon(I.settle(a)) for a in args)
    I.types.setdefault(t, 'bool')
    return t


def check_T03(c):
    env = make_env(c)
    TS = 'dreal::TseitinCnfizer'
    conv = env.prog.one(TS + '::Convert')
    visit = env.prog.one(TS + '::Visit')
    maps = [f for f, d in env.prog.field_types(TS).items() for t in [d['type']] if coll_kind(t) == 'map' and VAR in t and FORM in t]
    if len(maps) != 1:
        raise AnalysisBroken('the definition map of the Tseitin converter is not found')
    mapf = maps[0]

    def p_cnf(I, n, ref, obj, args):
        t = ('app', 'x.cnf', canon(I.settle(args[0])))
        I.types.setdefault(t, FORM)
        return t

    def p_true(I, n, ref, obj, args):
        return ('bool', True)

    def handler(I, ref, obj, args):
        fs = param_index(ref, FORM)
        if ref.get('cls') != TS or len(fs) != 1 or strip_type(ref['ret']) != FORM:
            return None
        t = ('app', 'x.tse', canon(I.settle(args[fs[0]])))
        I.types.setdefault(t, FORM)
        return t
    prims = {'dreal::NaiveCnfizer::Convert': p_cnf, 'dreal::is_clause': p_true, 'dreal::is_cnf': p_true, DS + 'HaveIntersection': p_inter,
             'dreal::HaveIntersection': p_inter}
    ext = {'x.tse': lambda m, t, cc: m.F(t[2], cc), 'x.cnf': lambda m, t, cc: m.F(t[2], cc),
           'x.inter': lambda m, t, cc: bool(m.S(t[2]) & m.S(t[3]))}

    def cfg_mod(cfg):
        cfg.recursion = handler
        base = cfg.lookup
        cfg.lookup = lambda I, v: v == ('fld', ('sym', 'this'), mapf) or base(I, v)
        cfg.sizes_default = (1, 2)

    ft = ('sym', visit['params'][0]['name'])

    def defs(p):
        return map_entries(all_fields(p).get(mapf))

    def result(m, p):
        for k, d in defs(p):
            if d is None:
                raise Opaque('definition')
            m.memo[('bval', '0', m.V(k))] = m.F(d, C0)
        return m.F(p.outcome[1], C0)
    r = run(env, 'Visit', visit, setup_for(visit), lambda m, p: m.F(ft, C0), result, cfg_mod=cfg_mod, ext=ext, extra_prims=prims,
            pre=lambda m, p: m.use_alias(('x.cnf', 'x.tse')))
    c.add(r)
    cfg = sym.SymConfig(env.prog, env.roles, extra_prims=prims)
    cfg_mod(cfg)
    I = Interp(env.prog, cfg)

    def leaf(x, kinds):
        return 'lit' if x[0] == 'app' and x[1] == 'x.tse' else None
    for p in I.explore(visit, setup_for(visit)):
        if p.outcome[0] != 'ret':
            continue
        t = p.outcome[1]
        ds = dict(defs(p))
        if t[0] == 'app' and t[1] == 'F.var' and t[2][0] == 'app' and t[2][1] == 'V.fresh' and t[2] not in ds:
            r.violations.append(('Visit:unreported', '%s: the fresh variable of %s has no reported definition [when %s]' %
                                 (r.fn, show(t), p.describe()[:300])))
        s = cnf_shape(I, p, t, 'x.cnf', leaf)
        if s not in ('atom', 'lit'):
            r.violations.append(('Visit:head', '%s: the result %s is not a literal [when %s]' % (r.fn, show(t)[:200], p.describe()[:500])))
        for k, d in ds.items():
            ok = d is not None and d[0] == 'app' and d[1] in ('F.all', 'F.any', 'F.&&', 'F.||', 'F.!')
            if ok:
                ops = d[2][2] if d[1] in ('F.all', 'F.any') and is_coll(d[2]) else d[2:]
                for o in ops:
                    if cnf_shape(I, p, o, 'x.cnf', leaf) not in ('atom', 'lit'):
                        r.violations.append(('Visit:definition', '%s: the definition %s of a fresh variable has the operand %s, which is not a literal '
                                             '[when %s]' % (r.fn, show(d)[:200], show(o)[:100], p.describe()[:300])))
                        break
            else:
                r.violations.append(('Visit:definition', '%s: the definition %s of a fresh variable is not a connective [when %s]' %
                                     (r.fn, show(d)[:200] if d else '?', p.describe()[:300])))

    # the clauses of the recorded definitions
    def p_visit(I, n, ref, obj, args):
        k = I.choose(4, 'visit')
        if k == 0:
            t = ('app', 'x.head', canon(I.settle(args[0])))
            I.types.setdefault(t, FORM)
            I.set(LV_sub(obj, mapf), coll('map', []))
            return t
        n = 1 if k == 1 else 2
        vs, ds = [], []
        for i in range(n):
            v, d = ('sym', 'var%d' % i), ('sym', 'def%d' % i)
            I.types[v] = VAR
            I.types[d] = FORM
            vs.append(v)
            ds.append(d)
        I.set(LV_sub(obj, mapf), coll('map', [('pair', a, b) for a, b in zip(vs, ds)]))
        h = vs[1 if k == 3 else 0]
        t = ('app', 'F.var', h)
        I.types.setdefault(t, FORM)
        I.events.append(('head', h))
        return t
    prims2 = dict(prims)
    prims2[TS + '::Visit'] = p_visit
    nf = env.roles.field[('FormulaNot', 'f')]

    def cfg2(cfg):
        def dk(I, t):
            if t[0] == 'sym' and t[1].startswith('def'):
                return {'And', 'Or', 'Not'}
            if t[0] == 'fld' and t[2] == nf:
                return {'Var', 'Forall', 'Eq'}
            return None
        cfg.default_kinds = dk
        ke = cfg.known_eq

        def known_eq(I, a, b):
            if a[0] == 'sym' and b[0] == 'sym' and a[1].startswith('var') and b[1].startswith('var'):
                return a == b
            return ke(I, a, b)
        cfg.known_eq = known_eq
        cfg.sizes_default = (2,)

    def spec(m, p):
        hs = [e[1] for e in p.events if e[0] == 'head']
        if not hs:
            return m.F(('app', 'x.head', ('sym', conv['params'][0]['name'])), C0)
        h = hs[0]
        i = int(h[1][3:])
        n = 2 if len(p_entries(p)) > 1 else 1
        ok = m.F(('sym', 'def%d' % i), C0)
        for j in range(n):
            if j != i:
                ok = (m.bval(m.V(('sym', 'var%d' % j)), C0) == m.F(('sym', 'def%d' % j), C0)) and ok
        return ok

    def p_entries(p):
        return map_entries(all_fields(p).get(mapf))

    def pre(m, p):
        m.memo[('L', ('sym', 'var0'))] = 50
        m.memo[('L', ('sym', 'var1'))] = 51

    def clauses(m, p):
        return m.C(p.outcome[1])

    def result2(m, p):
        return all([m.F(x, C0) for x in m.C(p.outcome[1])])
    ext2 = {'x.head': lambda m, t, cc: m.leafF(('sym', 'headvalue'), cc)}
    r2 = run(env, 'Convert', conv, setup_for(conv), spec, result2, cfg_mod=cfg2, ext=ext2, extra_prims=prims2, pre=pre)
    c.add(r2)
    cfg = sym.SymConfig(env.prog, env.roles, extra_prims=prims2)
    cfg2(cfg)
    I = Interp(env.prog, cfg)

    def leaf2(x, kinds):
        if x[0] == 'app' and x[1] == 'x.head':
            return 'atom'
        if x[0] == 'sym' and x[1].startswith('def'):
            ks = kinds(x)
            return 'cnf' if 'And' in ks else 'clause' if 'Or' in ks else 'lit'
        if x[0] == 'elem' and x[1][0] == 'fld':
            return 'lit'
        return None
    for p in I.explore(conv, setup_for(conv)):
        if p.outcome[0] != 'ret':
            continue
        if not is_coll(p.outcome[1]):
            r2.undecided.append('the result is not a known list: ' + show(p.outcome[1])[:100])
            continue
        for x in p.outcome[1][2]:
            if cnf_shape(I, p, x, 'x.cnf', leaf2) in (None, 'cnf'):
                r2.violations.append(('Convert:clause', '%s: the list contains %s, which is not a clause [when %s]' % (r2.fn, show(x)[:300], p.describe()[:300])))
                break
    # the definitions reported are those of the last conversion
    r3 = Result('map', conv)
    acc = [f for f in env.prog.functions.values() if f.get('cls') == TS and not f['params'] and coll_kind(strip_type(f.get('ret', ''))) == 'map']
    for f in acc:
        I = Interp(env.prog, sym.SymConfig(env.prog, env.roles))
        for p in I.explore(f, setup_for(f)):
            r3.paths += 1
            if p.outcome == ('ret', ('fld', ('sym', 'this'), mapf)):
                r3.agree += 1
            else:
                r3.violations.append(('map', '%s returns %s, not the recorded definitions' % (f['fid'], show(p.outcome[1]))))
    c.add(r3)
    c.rules.append('Visit: for every formula kind the returned literal has the truth value of the formula when every fresh variable takes the value of '
                   'its recorded definition, every fresh variable returned has a definition, and definitions are connectives over literals. '
                   'Convert: for every set of recorded definitions the conjunction of the returned list equals the head definition and the '
                   'equivalences of the other definitions, and every element is a clause.')
    c.assumptions += ['T02 for matrices of quantified formulas', 'S09 for formula constructors']
    return 3


def LV_sub(lv, name):
    return lv.sub(('f', name))


# --- T04 -------------------------------------------------------------------------------

def walk_term(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk_term(x)


def check_T04(c):
    env = make_env(c)
    prog = env.prog
    PA = 'dreal::PredicateAbstractor'
    ft = prog.field_types(PA)
    v2f = [n for n, d in ft.items() if coll_kind(d['type']) == 'map' and strip_type(template_args(d['type'])[0]) == VAR]
    f2v = [n for n, d in ft.items() if coll_kind(d['type']) == 'map' and strip_type(template_args(d['type'])[0]) == FORM]
    if len(v2f) != 1 or len(f2v) != 1:
        raise AnalysisBroken('the maps between atoms and variables are not found')
    v2f, f2v = v2f[0], f2v[0]
    M1, M2 = ('fld', ('sym', 'this'), v2f), ('fld', ('sym', 'this'), f2v)
    tops = [f for f in prog.find(PA + '::Convert') if f.get('body')]
    one = [f for f in tops if strip_type(f['params'][0]['type']) == FORM]
    many = [f for f in tops if f not in one]
    if len(one) != 1 or len(many) != 1:
        raise AnalysisBroken('PredicateAbstractor::Convert is not found')
    seen = {}

    def handler(I, ref, obj, args, root):
        fs = param_index(ref, FORM)
        if ref.get('cls') != PA or len(fs) != 1 or strip_type(ref['ret']) != FORM:
            return None
        x = canon(I.settle(args[fs[0]]))
        if root is not None and not subterm(x, root):
            return None
        seen.setdefault(ref['fid'], ref)
        t = ('app', 'x.abs', x)
        I.types.setdefault(t, FORM)
        return t
    ext = {'x.abs': lambda m, t, cc: m.F(t[2], cc)}

    def added(p, fld):
        v = all_fields(p).get(fld)
        return [e for e in map_entries(v) if v[0] == 'kv']

    def result(m, p):
        t = p.outcome[1]
        for k, d in added(p, v2f):
            if d is not None:
                m.memo[('bval', '0', m.V(k))] = m.F(d, C0)
        for x in walk_term(t):
            if x[:2] == ('app', 'at') and len(x) >= 4 and x[2] == M2:
                m.memo[('bval', '0', m.V(x))] = m.F(x[3], C0)
        return m.F(t, C0)

    def job(f):
        root = ('sym', f['params'][0]['name'])
        name = '%s(%s)' % (f['n'], 'formula')

        def mod(cfg):
            cut_cfg(cfg, lambda I, ref, obj, args: handler(I, ref, obj, args, root))
        r = run(env, name, f, setup_for(f), lambda m, p: m.F(root, C0), result, cfg_mod=mod, ext=ext)
        cfg = sym.SymConfig(prog, env.roles)
        mod(cfg)
        I = Interp(prog, cfg)
        for p in I.explore(f, setup_for(f)):
            if p.outcome[0] == 'ret':
                abstraction_shape(r, I, p, p.outcome[1], name)
        return r

    def kinds_of(I, p, t):
        k = I.cfg.known_kind(I, t)
        if k:
            return {k}
        if t[0] == 'app' and t[1][:2] == 'F.':
            for kk, op in RELKIND.items():
                if t[1][2:] == op:
                    return {kk}
        for (u, en), ks in p.kinds.items():
            if u == t:
                return set(ks)
        return set(KIND_CLASS_F)

    def abstraction_shape(r, I, p, t, name):
        when = ' [when %s]' % p.describe()[:300]
        # leaves of the result
        def leaves(x):
            if x[0] == 'app' and x[1] in ('F.!', 'F.&&', 'F.||'):
                for y in x[2:]:
                    yield from leaves(y)
            elif x[0] == 'app' and x[1] in ('F.all', 'F.any') and is_coll(x[2]) and x[2][3] is None:
                for y in x[2][2]:
                    yield from leaves(y)
            else:
                yield x
        fresh = {}
        for k, d in added(p, v2f):
            fresh[k] = d
        for x in leaves(t):
            if x[0] == 'app' and x[1] in ('x.abs', 'F.true', 'F.false'):
                continue
            if x[0] == 'app' and x[1] == 'F.var':
                if x[2][:2] == ('app', 'V.fresh') and x[2] not in fresh:
                    r.violations.append((name + ':unrecorded', '%s: the fresh variable %s of the result has no recorded atom%s' % (r.fn, show(x[2])[:80], when)))
                continue
            if not kinds_of(I, p, x) <= {'True', 'False', 'Var'}:
                r.violations.append((name + ':atom', '%s: %s is left in the result%s' % (r.fn, show(x)[:100], when)))
        back = dict((b, a) for a, b in added(p, f2v) if b is not None)
        for v, g in fresh.items():
            if g is None or v[:2] != ('app', 'V.fresh'):
                r.violations.append((name + ':map', '%s: the entry of %s is changed%s' % (r.fn, show(v)[:100], when)))
                continue
            if 'BOOLEAN' not in show(v):
                r.violations.append((name + ':type', '%s: the fresh variable for %s is not Boolean%s' % (r.fn, show(g)[:100], when)))
            if back.get(v) != g:
                r.violations.append((name + ':map', '%s: the variable recorded for %s is not looked up from it (%s)%s' %
                                     (r.fn, show(g)[:100], show(back[v])[:100] if v in back else 'no entry', when)))
            if kinds_of(I, p, g) & {'And', 'Or', 'Not', 'Var', 'True', 'False'}:
                r.violations.append((name + ':notatom', '%s: a variable is recorded for %s, which is not an atom%s' % (r.fn, show(g)[:100], when)))
            if (('app', 'contains', M2, g), False) not in [(a, b) for a, b in p.facts]:
                r.violations.append((name + ':again', '%s: a second variable is made for an atom that may have one: %s%s' % (r.fn, show(g)[:100], when)))
        for v, g in back.items():
            if v not in fresh:
                r.violations.append((name + ':map', '%s: %s is recorded for %s only in one direction%s' % (r.fn, show(v)[:80], show(g)[:80], when)))
    c.add(job(one[0]))
    n = 1
    done = {one[0]['fid']}
    while True:
        todo = [x for x in seen if x not in done]
        if not todo:
            break
        for fid in todo:
            done.add(fid)
            c.add(job(prog.functions[fid]))
            n += 1
    if n < 2:
        raise AnalysisBroken('predicate abstraction is not recursive')
    f = many[0]
    vec = ('sym', f['params'][0]['name'])
    c.add(run(env, 'Convert(formulas)', f, setup_for(f), lambda m, p: all([m.F(x, C0) for x in m.C(vec)]), ret_F, ext=ext, sizes=(0, 1, 2),
              cfg_mod=lambda cfg: cut_cfg(cfg, lambda I, ref, obj, args: handler(I, ref, obj, args, None) if ref['fid'] == one[0]['fid'] else None)))
    n += 1
    for f in prog.find(PA + '::operator[]') + prog.find(PA + '::var_to_formula_map'):
        if not f.get('body'):
            continue
        r = Result(f['fid'].replace('dreal::', '').replace(DS, ''), f)
        fld = M1 if not f['params'] or strip_type(f['params'][0]['type']) == VAR else M2
        I = Interp(prog, sym.SymConfig(prog, env.roles))
        for p in I.explore(f, setup_for(f)):
            r.paths += 1
            if p.outcome[0] in ('throw', 'abort'):
                r.agree += 1
                continue
            v = p.outcome[1]
            ok = v == fld if not f['params'] else isinstance(v, tuple) and v[:2] == ('app', 'at') and v[2] == fld and v[3] == ('sym', f['params'][0]['name'])
            if ok:
                r.agree += 1
            elif p.outcome[0] == 'unsupported':
                r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            else:
                r.violations.append((r.name, '%s: returns %s, not the entry of %s' % (r.fn, show(v)[:200], show(fld))))
        c.add(r)
        n += 1
    c.rules.append('Invariant: the two maps record the same pairs of an atom and a fresh Boolean variable. For every kind of formula the result has the truth '
                   'value of the formula when every variable takes the value of its atom, contains no atom of the theory, makes a fresh variable only for an atom '
                   'without one, and records it in both maps; lookups read the right map.')
    c.assumptions += ['S06 for formulas as keys', 'S09 for formula constructors']
    return n


# --- T05 -------------------------------------------------------------------------------

def check_T05(c):
    env = make_env(c)
    prog = env.prog
    IE = 'dreal::IfThenElseEliminator'
    ft = prog.field_types(IE)
    addf = [n for n, d in ft.items() if coll_kind(d['type']) == 'vec' and FORM in d['type']]
    varf = [n for n, d in ft.items() if coll_kind(d['type']) == 'set' and VAR in d['type']]
    if len(addf) != 1 or len(varf) != 1:
        raise AnalysisBroken('the definitions and fresh variables of the eliminator are not found')
    addf, varf = addf[0], varf[0]
    A0, V0 = ('fld', ('sym', 'this'), addf), ('fld', ('sym', 'this'), varf)
    process = prog.one(IE + '::Process')
    from props_s import facprims
    seen = {}
    W = ('sym', 'inner')

    def handler(I, ref, obj, args, root, top):
        fs, es = param_index(ref, FORM), param_index(ref, EXPR)
        if ref.get('cls') != IE:
            return None
        ret = strip_type(ref['ret'])
        if ref['fid'] == process['fid']:
            x = canon(I.settle(args[0]))
            if top and x == root:
                return None
            I.types[W] = VAR
            old = I.settle(I.get(LV_sub(obj, addf)))
            clean = is_coll(old) and not old[2] and old[3] is None
            I.set(LV_sub(obj, varf), coll('set', [W]))
            t = ('app', 'x.elim', x) if clean else ('app', 'x.elim', x, ('sym', 'definitions of an earlier formula'))
            if not clean:
                I.types[t[3]] = FORM
            I.types.setdefault(t, FORM)
            return t
        if ret == EXPR and len(es) == 1 and len(fs) == 1:
            x, g = canon(I.settle(args[es[0]])), canon(I.settle(args[fs[0]]))
        elif ret == FORM and len(fs) == 2 and not es:
            x, g = canon(I.settle(args[0])), canon(I.settle(args[1]))
        else:
            return None
        if not subterm(x, root) and not top:
            return None
        seen.setdefault(ref['fid'], ref)
        t = ('app', 'x.ite', x, g)
        I.types.setdefault(t, ret)
        return t

    def holds(m):
        if A0 not in m.path.shapes and A0 not in walk_term(m.path.outcome[1]):
            return m.leaf(('defined',), lambda: m.rng.random() < 0.5)
        return all([m.F(('elem', A0, i), C0) for i in range(m.path.shapes.get(A0, 0))])

    def ite(m, t, cc, top=False):
        x = t[2]
        if top and not holds(m):
            return m.leaf(('undefined', m.rep(x)), lambda: m.rng.random() < 0.5)
        e = m.I.types.get(t, EXPR) == EXPR
        if m.F(t[3], cc):
            return m.E(x, cc) if e else m.F(x, cc)
        k = ('unguarded', m.rep(x), m.rep(t[3]))
        return m.leaf(k, (lambda: m.rng.choice([0.0, 1.0, -1.0, 2.0, 3.0])) if e else (lambda: m.rng.random() < 0.5))

    def elim(m, t, cc):
        # satisfiable in the variables of the inner eliminator exactly where the argument holds
        w = m.V(W)
        inner = Ctx(cc.base, {k: v for k, v in cc.ov.items() if k != w}, {k: v for k, v in cc.ovb.items() if k != w}, cc.dv)
        return m.F(t[2], inner) and m.bval(w, cc) and (len(t) < 4 or m.F(t[3], cc))
    ext = dict(NNF_EXT)
    ext.update({'x.ite': ite, 'x.elim': elim})
    prims = {NNF + '::Convert': p_nnf}
    prims.update(facprims(prog))

    def entries(p, fld):
        v = all_fields(p).get(fld)
        if v is None:
            return [], True
        if v[0] == 'kv':
            return [k for k, x in v[2] if x is not None], True
        if is_coll(v):
            old = [x for x in v[2] if x[0] == 'elem' and x[1] in (A0, V0)]
            n = [k for t, k in p.shapes.items() if t in (A0, V0) and t[2] == fld]
            kept = v[3] is not None or len(set(old)) >= (n[0] if n else 0)
            return [x for x in v[2] if x not in old], kept
        return [], v in (A0, V0)

    def job(f):
        isE = strip_type(f['ret']) == EXPR
        fs = [p['name'] or 'a%d' % i for i, p in enumerate(f['params'])]
        root = ('sym', pn(f, [i for i, p in enumerate(f['params']) if strip_type(p['type']) == (EXPR if isE else FORM)][0]))
        gs = [('sym', pn(f, i)) for i, p in enumerate(f['params']) if strip_type(p['type']) == FORM and ('sym', pn(f, i)) != root]
        guard = gs[0] if gs else ('app', 'F.true')
        name = '%s(%s)' % (f['n'], root[1])
        if f['fid'] == process['fid']:
            name = 'Process'

        def mod(cfg):
            cut_cfg(cfg, lambda I, ref, obj, args: handler(I, ref, obj, args, root, f['fid'] == process['fid']))
            cfg.sizes_default = (0, 1)
        val_ = (lambda m, t: m.E(t, C0)) if isE else (lambda m, t: m.F(t, C0))

        def fresh(p):
            return [e[1] for e in p.events if e[0] == 'newvar']

        def candidates(m, p):
            from model import val
            out = []
            try:
                if isE:
                    out.append(val(m.E(root, C0)))
            except Skip:
                pass
            for t in walk_term(tuple(entries(p, addf)[0])):
                if t[:2] == ('app', 'x.ite') and m.I.types.get(t) == EXPR:
                    try:
                        out.append(val(m.E(t, C0)))
                    except Skip:
                        pass
            return out + [m.rng.choice([0.0, 1.0, 2.0, 5.0])]

        def setv(m, p, vs):
            for t, x in zip(fresh(p), vs):
                m.memo[('val', '0', m.V(t))] = x

        def added_hold(m, p):
            return all([m.F(x, C0) for x in entries(p, addf)[0]])

        def spec(m, p):
            if any(a[0] == 'eq' and W in a[1:] and b for a, b in p.facts):
                raise Skip()    # fresh, so equal to no variable of the input
            if not m.F(guard, C0):
                raise Skip()
            v = val_(m, root)
            if fresh(p):
                cs = candidates(m, p)
                setv(m, p, [m.rng.choice(cs) for _ in fresh(p)])
                if not added_hold(m, p):
                    raise Reject()
            elif not added_hold(m, p):
                raise Reject()
            return v
        if name == 'Process':
            def spec(m, p):
                return (m.F(root, C0), holds(m))
        allow = (lambda m, p, ty: m.kind(m.rep(root)) == 'NaN')

        def cmp_process(want, have):
            v, hold = want
            return have == v if hold else (not have or v)
        r = run(env, name, f, setup_for(f), spec, ret_E if isE else ret_F, cfg_mod=mod,
                ext=dict(ext, **{'x.ite': lambda m, t, cc: ite(m, t, cc, True)}) if name == 'Process' else ext, extra_prims=prims, allow_throw=allow,
                compare=cmp_process if name == 'Process' else None)
        cfg = sym.SymConfig(prog, env.roles, extra_prims=prims)
        mod(cfg)
        I = Interp(prog, cfg)
        import itertools
        q = Result(name + ': definitions', f)

        def sat(m, p):
            cs = candidates(m, p)
            for vs in itertools.product(cs, repeat=len(fresh(p))):
                setv(m, p, vs)
                if added_hold(m, p):
                    return True
            return False
        for p in I.explore(f, setup_for(f)):
            if p.outcome[0] != 'ret':
                continue
            when = ' [when %s]' % p.describe()[:300]
            new, kept = entries(p, addf)
            if not kept:
                r.violations.append((name + ':lost', '%s: definitions made before are dropped%s' % (r.fn, when)))
            if name != 'Process' and (new or fresh(p)):
                q.paths += 1

                def sspec(m, p):
                    val_(m, root)
                    return True
                decide_path(env, q, I, p, sspec, sat, ext)
            rep, kept = entries(p, varf)
            if not kept:
                r.violations.append((name + ':forgotten', '%s: variables reported before are dropped%s' % (r.fn, when)))
            for v in fresh(p):
                if v not in rep:
                    r.violations.append((name + ':unreported', '%s: the fresh variable %s is not reported%s' % (r.fn, show(v)[:60], when)))
                if isE and len(v) > 4 and not show(v[4]).endswith('CONTINUOUS'):
                    r.violations.append((name + ':type', '%s: the fresh variable %s cannot take every value%s' % (r.fn, show(v)[:60], when)))
            for t in [p.outcome[1]] + new:
                w = left_over(I, p, t, root)
                if w is not None:
                    r.violations.append((name + ':left', '%s: %s is kept as it is although it may contain if-then-else%s' % (r.fn, show(w)[:100], when)))
        return [r, q] if q.paths else [r]

    def left_over(I, p, t, root):
        """A component of the input that occurs in t without having been processed."""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return None
        if t == root or subterm(t, root):
            if (('app', 'include_ite', t), False) in p.facts or ('not', ('app', 'include_ite', t)) in [a for a, b in p.facts if b]:
                return None
            if any(a[0] == 'eq' and b and t in a[1:] and any(isinstance(y, tuple) and y[:2] == ('app', 'x.ite') for y in a[1:]) for a, b in p.facts):
                return None     # equal to its own conversion
            ty = I.types.get(t, '')
            if ty not in (EXPR, FORM):
                return None
            own = [(u, ks) for (u, en), ks in p.kinds.items() if u == t]
            if own and own[0][1] <= {'Var', 'Constant', 'RealConstant', 'UninterpretedFunction', 'True', 'False', 'NaN'}:
                return None
            return t
        if t[0] == 'app' and t[1] in ('x.ite', 'x.elim', 'x.nnf'):
            return None if t[1] != 'x.nnf' else left_over(I, p, t[2], root)
        for x in t:
            if isinstance(x, tuple):
                w = left_over(I, p, x, root)
                if w is not None:
                    return w
        return None
    jobs = [process]
    c.add(job(process))
    done = {process['fid']}
    n = 1
    while True:
        todo = [x for x in seen if x not in done]
        if not todo:
            break
        for fid in todo:
            done.add(fid)
            c.add(job(prog.functions[fid]))
            n += 1
    if n < 3:
        raise AnalysisBroken('if-then-else elimination is not recursive')
    acc = [f for f in prog.functions.values() if f.get('cls') == IE and not f['params'] and coll_kind(strip_type(f.get('ret', ''))) == 'set']
    for f in acc:
        r = Result(f['n'], f)
        I = Interp(prog, sym.SymConfig(prog, env.roles))
        for p in I.explore(f, setup_for(f)):
            r.paths += 1
            if p.outcome == ('ret', V0):
                r.agree += 1
            else:
                r.violations.append((r.name, '%s returns %s, not the fresh variables' % (r.fn, show(p.outcome[1])[:100])))
        c.add(r)
    c.rules.append('For every kind of expression and formula and every guard: where the guard and the recorded definitions hold, the result has the value of '
                   'the input; the definitions recorded can always be satisfied by a choice of the fresh variables; every fresh variable is reported; '
                   'no part of the input that may contain if-then-else is left. The processed formula is the conjunction of the result and the definitions; '
                   'under a quantifier the fresh variables of the inner elimination are quantified with the right polarity. Operands are covered by the '
                   'induction hypothesis.')
    c.assumptions += ['T01 for the conversion of quantified matrices', 'S01, S09 for constructors', 'NaN and domain errors of operands are not considered']
    return n


def pn(f, i):
    return f['params'][i].get('name') or 'a%d' % i
