"""Entry points (C16): what the API declares, asserts, minimises and gives back."""
import extract
from check import parallel
from common import *
from engine import LV, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from props_c import argv, DR, nothing
from props_ctc import CtcCfg, BOX, outcome_ok, bad, variables
from props_ctx import TheoryCfg, F_, resolve
from props_cfg import Cfg, stock, changed, CONFIG, field_by_name

CTX = DR + 'Context'
FVARS, EVARS = [('sym', 'v0'), ('sym', 'v1')], [('sym', 'v1'), ('sym', 'v2')]


class ApiCfg(Cfg):
    """A context records what it is told; its answer is free."""

    def __init__(self, env):
        Cfg.__init__(self, env)

    def context(self, I, args):
        I.events.append(('context', argv(I, args[0]) if args else None))
        I.types[F_('context')] = CTX
        return F_('context')

    def build(self, I, cls, args):
        return self.context(I, args) if cls == CTX else None

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if cls.startswith('tl::') and n in ('operator bool', 'has_value'):
            def has(I, n_, ref, obj, args):
                v = argv(I, obj)
                return DECLINE if not isinstance(v, tuple) or v[:1] not in (('some',), ('none',)) else TRUE if v[0] == 'some' else FALSE
            return has
        if ref['fid'].startswith(CTX + '::(ctor)'):
            return lambda I, n_, ref, obj, args: self.context(I, args)
        if cls == CTX:
            def ctx(I, n_, ref, obj, args):
                a = tuple(argv(I, x) for x in args)
                if n == 'CheckSat':
                    i = I.choose(2, 'answer')
                    I.events.append((n, bool(i)))
                    I.types[F_('model')] = BOX
                    return ('some', F_('model')) if i else ('none',)
                I.events.append((n,) + a)
                return VOID
            return ctx
        if n in ('GetFreeVariables', 'GetVariables'):
            def vs(I, n_, ref, obj, args):
                x = argv(I, obj)
                if x in (F_('f'), F_('e')):
                    return I.new_root(variables(self.env, FVARS if x == F_('f') else EVARS), 'vars')
                return DECLINE
            return vs
        if cls == BOX and ref.get('op') == '=':
            def assign(I, n_, ref, obj, args):
                I.events.append(('result', argv(I, args[0])))
                I.set(obj, argv(I, args[0]))
                return obj
            return assign
        return Cfg.prim(self, I, ref)


def whole(v):
    v = canon(v)
    if is_coll(v) and len(v[2]) == 1:
        v = canon(v[2][0])
    return v


def entry(env, f):
    """One overload of an entry point."""
    minimise = f['n'] == 'Minimize'
    pt = [strip_type(a['type']) for a in f['params']]
    r = Result('%s(%s)' % (f['n'], ', '.join(t.split('::')[-1] for t in pt)), f)
    cfg = ApiCfg(env)
    m = field_by_name(env)

    def setup(I):
        this, args = setup_for(f)(I)
        for x, t in (('f', FORM), ('e', EXPR), ('delta', 'double')):
            I.types[F_(x)] = t
        for i, (t, a) in enumerate(zip(pt, f['params'])):
            v = F_('f') if t == FORM else F_('e') if t == EXPR else F_('delta') if t == 'double' else stock(env) if t == CONFIG else None
            if v is not None:
                args[i] = I.new_root(v, 'arg') if '&' in a['type'] else v
            elif '*' in a['type']:
                I.types[F_('before')] = BOX
                args[i] = ('ptr', I.new_root(F_('before'), 'out'))
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 100):
        if not outcome_ok(r, p):
            continue
        ev = list(p.events)
        at = {k: [i for i, e in enumerate(ev) if e[0] == k] for k in ('context', 'Assert', 'Minimize', 'Maximize', 'CheckSat')}
        if len(at['context']) != 1 or len(at['CheckSat']) != 1:
            r.undecided.append('%s: %d contexts, %d checks' % (r.name, len(at['context']), len(at['CheckSat'])))
            continue
        w, c = None, at['CheckSat'][0]
        declared = [e[1] for e in ev[:c] if e[0] == 'DeclareVariable']
        need = set(FVARS) | (set(EVARS) if minimise else set())
        if not need <= set(declared):
            w = 'the variable %s is not declared' % show(sorted(need - set(declared))[0])
        if any(e[0] == 'DeclareVariable' and len(e) == 3 and e[2] == FALSE and e[1] in need for e in ev):
            w = w or 'a variable of the problem is left out of the model'
        asserted = [e[1] for e in ev[:c] if e[0] == 'Assert']
        if not asserted and any(k[0] == F_('f') for k in p.kinds):
            r.undecided.append(r.name + ': asserted for some formulas only')
            continue
        if F_('f') not in asserted:
            w = w or ('the constraint is not asserted' if not asserted else 'the context is given %s' % show(asserted[0])[:80])
        first = {}
        for i, e in enumerate(ev):
            if e[0] == 'DeclareVariable':
                first.setdefault(e[1], i)
        if at['Assert'] and any(first.get(v, 0) > at['Assert'][0] for v in FVARS):
            w = w or 'a variable is declared after the constraint is asserted'
        if minimise:
            ok = [e for e in ev[:c] if e[0] == 'Minimize' and whole(e[1]) == F_('e')] or \
                 [e for e in ev[:c] if e[0] == 'Maximize' and 'E.neg' in str(e[1])]
            if not ok:
                w = w or 'the objective is not minimised'
            if at['Assert'] and at['Minimize'] and at['Minimize'][0] < at['Assert'][0]:
                w = w or 'the objective is encoded before the constraint is asserted, which it then ignores'
        given = ev[at['context'][0]][1]
        if given is None:
            w = w or 'the context has a configuration of its own'
        else:
            ch = changed(env, given)
            if 'double' in pt:
                d = dict(canon(given)[3]).get(m.get('precision')) if isinstance(canon(given), tuple) and canon(given)[:1] == ('inst',) else None
                if d is None:
                    r.undecided.append(r.name + ': configuration')
                    continue
                if "'delta'" not in str(d):
                    w = w or 'the precision is %s' % show(d)[:60]
            elif ch is None:
                r.undecided.append(r.name + ': configuration')
                continue
            elif ch:
                w = w or 'the context has another %s' % ', '.join(sorted(ch))
        sat = ev[c][1]
        out = p.outcome[1]
        out = canon(resolve(p, out))
        if strip_type(f['ret']) == 'bool':
            if out not in (TRUE, FALSE):
                r.undecided.append('%s: gives %s' % (r.name, show(out)[:60]))
                continue
            if (out == TRUE) != sat:
                w = w or 'it gives %s after %s' % (show(out), 'a model' if sat else 'no model')
            got = [e[1] for e in ev if e[0] == 'result']
            left = [canon(v) for k, v in p.heap.items() if canon(v) == F_('model')]
            if sat and not got and F_('before') in [canon(v) for v in p.heap.values()]:
                w = w or 'the model is not given back'
        elif (nothing(out) and sat) or (out == ('some', F_('model')) and not sat):
            w = w or 'it gives %s after %s' % (show(out)[:40], 'a model' if sat else 'no model')
        elif not nothing(out) and out != ('some', F_('model')):
            r.undecided.append('%s: gives %s' % (r.name, show(out)[:60]))
            continue
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def entries_of(env):
    return [x for q, x in sorted(env.prog.functions.items()) if q.startswith((DR + 'CheckSatisfiability(', DR + 'Minimize(')) and x.get('body') is not None]


def forwards(env, name, pick):
    """What Context passes to its implementation."""
    fs = [x for q, x in env.prog.functions.items() if q.startswith(CTX + '::' + name + '(') and pick(x)]
    f = fs[0]
    r = Result('Context::%s(%s)' % (name, ', '.join(strip_type(a['type']).split('::')[-1][:20] for a in f['params'])), f)

    class C(Cfg):
        def prim(self, I, ref):
            if (ref.get('cls') or '') == CTX + '::Impl':
                def impl(I, n_, ref, obj, args):
                    I.events.append((ref['n'],) + tuple(argv(I, a) for a in args))
                    return VOID
                return impl
            return Cfg.prim(self, I, ref)
    cfg = C(env)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('impl')] = CTX + '::Impl'
        for g in env.prog.classes[CTX]['fields']:
            I.set_raw(this.sub(('f', g['name'])), ('ptr', I.new_root(F_('impl'), 'impl')))
        state['a'] = []
        for i, a in enumerate(f['params']):
            t = strip_type(a['type'])
            x = F_('a%d' % i)
            I.types[x] = t
            v = coll('vec', (x, F_('b'))) if t.startswith('std::vector') else x
            if t.startswith('std::vector'):
                I.types[x] = I.types[F_('b')] = EXPR
            args[i] = I.new_root(v, 'arg') if '&' in a['type'] else v
            state['a'].append(v)
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 50):
        if not outcome_ok(r, p):
            continue
        a, ev = state['a'], [tuple(canon(x) if isinstance(x, tuple) else x for x in e) for e in p.events]
        w = None
        if name in ('Minimize', 'Maximize'):
            got = [e[1] for e in ev if e[0] == 'Minimize']
            if len(got) != 1 or not is_coll(got[0]):
                r.undecided.append('%s: %s' % (r.name, [show(x)[:60] for x in got]))
                continue
            items = [canon(x) for x in got[0][2]]
            want = [canon(x) for x in a[0][2]] if is_coll(a[0]) else [a[0]]
            if name == 'Minimize':
                if items != want:
                    w = 'it minimises %s' % [show(x)[:40] for x in items]
            elif items == want:
                w = 'it minimises the objective it should maximise'
            elif len(items) != 1 or "'a0'" not in str(items[0]):
                w = 'it minimises %s' % [show(x)[:40] for x in items]
        elif name == 'DeclareVariable':
            d = [e for e in ev if e[0] == 'DeclareVariable']
            if len(d) != 1:
                r.undecided.append('%s: %s' % (r.name, ev))
                continue
            if d[0][1] != a[0]:
                w = 'it declares %s' % show(d[0][1])
            elif d[0][2:] != (a[-1],):
                w = 'whether the variable is in the model becomes %s' % [show(x) for x in d[0][2:]]
            if len(a) == 4:
                s = [e for e in ev if e[0] == 'SetDomain']
                if not s and any(e[0] not in ('SetDomain', 'DeclareVariable') for e in ev):
                    r.undecided.append('%s: %s' % (r.name, [e[0] for e in ev]))
                    continue
                if len(s) != 1 or s[0][1:] != tuple(a[:3]):
                    w = w or 'the domain becomes %s' % [[show(x) for x in e[1:]] for e in s]
                elif ev.index(s[0]) < ev.index(d[0]):
                    w = w or 'the domain is set before the variable is declared'
        elif name in ('Assert', 'SetInterval'):
            s = [e for e in ev if e[0] == name]
            if not s and (p.facts or p.kinds or ev):
                r.undecided.append('%s: passed on in some cases only' % r.name)
                continue
            if len(s) != 1 or s[0][1:] != tuple(a):
                w = 'it passes on %s' % [[show(x) for x in e[1:]] for e in s]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def check_C16(c):
    env = make_env(c)
    jobs = [lambda f=f: entry(env, f) for f in entries_of(env)]
    one = lambda x: strip_type(x['params'][0]['type']) == EXPR
    jobs += [lambda: forwards(env, 'Minimize', one), lambda: forwards(env, 'Minimize', lambda x: not one(x)), lambda: forwards(env, 'Maximize', one),
             lambda: forwards(env, 'DeclareVariable', lambda x: len(x['params']) == 2), lambda: forwards(env, 'DeclareVariable', lambda x: len(x['params']) == 4),
             lambda: forwards(env, 'Assert', lambda x: True), lambda: forwards(env, 'SetInterval', lambda x: True)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Every overload of CheckSatisfiability and Minimize makes a context with the configuration or precision it is given, declares every free variable before it asserts the constraint, encodes the '
                   'objective after it, checks once, and gives back exactly that answer and model. Context passes constraints, domains, variables and objectives on unchanged; maximising minimises a different '
                   'expression of the same objective.')
    c.assumptions += ['the context answers freely', 'the solver behind it is C01 to C09']
    return n
