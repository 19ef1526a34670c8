"""Contractors (C05): parts are applied to the given status, and every change is accounted for."""
import math
import extract
import ival
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from props_c import IvalCfg, argv, DR, inst_of, constant_name
from props_box import vector_prim, vec, decided, preset
from props_opt import parts_of

CTC, CS, BOX = DR + 'Contractor', DR + 'ContractorStatus', DR + 'Box'
CELL = DR + 'ContractorCell'
VAR0 = [('sym', 'v%d' % i) for i in range(5)]


def field_of(prog, cls, *keys):
    """The field of a class whose type contains one of the keys (searched in base classes too)."""
    for k in keys:
        for f in prog.classes[cls]['fields']:
            if k in f['type']:
                return f['name']
    return None


def bits(*xs):
    return coll('vec', tuple(TRUE if x is True else FALSE if x is False else x for x in xs))


def bitset(I, ref):
    """dynamic_bitset as a sequence of truth values."""
    cls = ref.get('cls') or ''
    if not (cls or ref['fid']).startswith(('dreal::dynamic_bitset', 'dreal::DynamicBitset', 'boost::dynamic_bitset')):
        return None
    if '::(ctor)' in ref['fid'] or ref['n'] == 'dynamic_bitset':
        def ctor(I, n, ref, obj, args):
            v = [argv(I, x) for x in args]
            if v and is_coll(v[0]):
                return v[0]
            if not v:
                return bits()
            if is_lit(v[0]) and (len(v) == 1 or v[1] == ('int', 0)):
                return bits(*[False] * int(lit(v[0])))
            return DECLINE
        return ctor
    n, op = ref['n'], ref.get('op')

    def h(I, n_, ref, obj, args):
        v = argv(I, obj)
        if not is_coll(v):
            return DECLINE
        xs = list(v[2])
        a = [argv(I, x) for x in args]

        def first(i):
            while i < len(xs):
                if I.decide(xs[i]):
                    return ('int', i)
                i += 1
            return ('int', 2 ** 64 - 1)
        if n in ('set', 'reset', 'flip') and not op:
            if not a:
                I.set(obj, bits(*[n == 'set'] * len(xs)))
                return obj
            if not is_lit(a[0]):
                return DECLINE
            i = int(lit(a[0]))
            if not 0 <= i < len(xs):
                raise AbortEx('bit %d of %d' % (i, len(xs)))
            if n == 'set' and len(a) == 2 and isinstance(a[1], tuple) and a[1] not in (TRUE, FALSE) and is_lit(a[1]):
                a[1] = TRUE if lit(a[1]) else FALSE
            xs[i] = (a[1] if len(a) == 2 else TRUE) if n == 'set' else FALSE
            I.set(obj, bits(*xs))
            return obj
        if op in ('|=', '&=', '-='):
            if not is_coll(a[0]) or len(a[0][2]) != len(xs):
                raise AbortEx('bitsets of different sizes') if is_coll(a[0]) else AbortEx('unknown bitset')
            ys = list(a[0][2])
            out = []
            for x, y in zip(xs, ys):
                if op == '|=':
                    out.append(TRUE if TRUE in (x, y) else y if x == FALSE else x if y == FALSE else TRUE if I.decide(x) or I.decide(y) else FALSE)
                else:
                    out.append(TRUE if I.decide(x) and I.decide(y) == (op == '&=') else FALSE)
            I.set(obj, bits(*out))
            return obj
        if op == '=':
            I.set(obj, a[0])
            return obj
        if op == '[]' or n == 'test':
            if is_lit(a[0]):
                if not 0 <= int(lit(a[0])) < len(xs):
                    raise AbortEx('bit %d of %d' % (int(lit(a[0])), len(xs)))
                return xs[int(lit(a[0]))]
        if n == 'find_first':
            return first(0)
        if n == 'find_next' and is_lit(a[0]):
            return first(int(lit(a[0])) + 1)
        if n in ('any', 'none'):
            x = first(0)
            return TRUE if (x[1] == 2 ** 64 - 1) == (n == 'none') else FALSE
        if n == 'all':
            return TRUE if all(I.decide(x) for x in xs) else FALSE
        if n == 'size':
            return ('int', len(xs))
        if n == 'empty':
            return TRUE if not xs else FALSE
        if n == 'count':
            return ('int', sum(1 for x in xs if I.decide(x)))
        if n == 'resize' and is_lit(a[0]):
            k = int(lit(a[0]))
            I.set(obj, bits(*(xs + [a[1] if len(a) > 1 else False] * k)[:k]))
            return VOID
        return DECLINE
    return h


def args_of(ref):
    return ref.get('pt') or ()


class CtcCfg(IvalCfg):
    """Boxes are opaque values; what a part does to one is the term x.pruned."""
    max_loop = 12
    asserts_abort = True
    boxes = 'opaque'
    limit = 6
    distinct = frozenset(VAR0 + [('sym', 'f%d' % i) for i in range(6)] + [('sym', 'g')])

    def known_eq(self, I, a, b):
        strip = lambda t: t[2] if t[:2] in (('app', 'V.id'),) else t
        if strip(a) in self.distinct and strip(b) in self.distinct:
            return strip(a) == strip(b)
        h = getattr(IvalCfg, 'known_eq', None)
        return h(self, I, a, b) if h else None

    def decide_atom(self, I, c):
        if c[:2] == ('app', 'less') or c[:1] == ('less',):
            a, b = [canon(x) for x in c[-2:]]
            if a in self.distinct and b in self.distinct:
                return a < b
        h = getattr(IvalCfg, 'decide_atom', None)
        return h(self, I, c) if h else None

    def __init__(self, env, extra=None):
        IvalCfg.__init__(self, env.prog, env.roles, extra_prims=extra or {})
        self.env = env
        self.status = {f: field_of(env.prog, CS, k) for f, k in (('box', 'dreal::Box'), ('output', 'ynamic'), ('witness', 'Variables'), ('used', 'std::set<'))}

    def fresh(self, I, name, *a, ty='bool'):
        t = ('app', 'x.' + name) + a
        I.types[t] = ty
        return t

    def part(self, I, c, lv):
        """Apply part c to the status at lv."""
        k = sum(1 for e in I.events if e[0] == 'prune')
        box = lv.sub(('f', self.status['box']))
        old = argv(I, box)
        I.events.append(('prune', c, lv.root, old))
        if k >= self.limit:
            raise AbortEx('enough')
        I.set(box, self.fresh(I, 'pruned', c, old, ('int', k), ty=BOX))
        return VOID

    def prim(self, I, ref):
        n, cls, op, q = ref['n'], ref.get('cls') or '', ref.get('op'), ref['q']
        h = bitset(I, ref)
        if h:
            return h
        if cls == CTC and n == 'Prune':
            return lambda I, n_, ref, obj, args: self.part(I, argv(I, obj), I.deref(args[0]))
        if cls == CTC and n == 'input':
            return lambda I, n_, ref, obj, args: I.new_root(self.inputs[argv(I, obj)], 'input') if argv(I, obj) in getattr(self, 'inputs', {}) else DECLINE
        if cls == CTC and n == 'include_forall':
            return lambda I, n_, ref, obj, args: self.fresh(I, 'forall', argv(I, obj))
        if cls == CTC and n == 'kind':
            def kind(I, n_, ref, obj, args):
                t = ('app', 'x.kind', argv(I, obj))
                I.types[t] = strip_type(ref['ret'])
                return t
            return kind
        if self.boxes == 'opaque' and (cls in (BOX, 'ibex::IntervalVector') or ref['fid'].startswith((BOX + '::(ctor)', 'ibex::IntervalVector::(ctor)'))):
            if '::(ctor)' in ref['fid']:
                return lambda I, n_, ref, obj, args: argv(I, args[0]) if args else DECLINE
            if n in ('empty', 'is_empty'):
                def empty(I, n_, ref, obj, args):
                    v = argv(I, obj)
                    return TRUE if v == ('app', 'x.nothing') else self.fresh(I, 'empty', v)
                return empty
            if n == 'set_empty':
                def set_empty(I, n_, ref, obj, args):
                    I.set(obj, self.fresh(I, 'nothing', ty=BOX))
                    return VOID
                return set_empty
            if n in ('InplaceUnion',) or op == '|=':
                def union(I, n_, ref, obj, args):
                    I.set(obj, self.fresh(I, 'union', argv(I, obj), argv(I, args[0]), ty=BOX))
                    return obj
                return union
            if n in ('interval_vector', 'mutable_interval_vector'):
                return lambda I, n_, ref, obj, args: obj
            if op == '=':
                def assign(I, n_, ref, obj, args):
                    I.set(obj, argv(I, args[0]))
                    return obj
                return assign
            if n == 'size':
                return lambda I, n_, ref, obj, args: ('int', 2)
        if cls.startswith('std::function') and op == '()' and len(ref['pt']) == 2:
            def stop(I, n_, ref, obj, args):
                old, new = argv(I, args[0]), argv(I, args[1])
                I.events.append(('stop?', old, new))
                return self.fresh(I, 'stop', old, new, ('int', sum(1 for e in I.events if e[0] == 'stop?')))
            return stop
        if cls in (DR + 'TimerGuard', DR + 'Timer', DR + 'Stat') or cls.endswith('Stat') or q.startswith(DR + 'Timer'):
            return lambda I, n_, ref, obj, args: FALSE if ref['ret'] == 'bool' else VOID
        if ref['fid'].startswith((DR + 'TimerGuard::', DR + 'Timer::')) or 'Stat::(ctor)' in ref['fid']:
            return lambda I, n_, ref, obj, args: ('sym', 'timer')
        return IvalCfg.prim(self, I, ref)


def make_status(I, cfg, box=('sym', 'B'), output=(False, False), used=(), witness=(), point=None):
    I.types.setdefault(box, BOX)
    fields = []
    for f in cfg.env.prog.classes[CS]['fields']:
        x = f['name']
        if x == cfg.status['box']:
            v = box
        elif x == cfg.status['output']:
            v = bits(*output)
        elif x == cfg.status['used']:
            v = coll('set', tuple(used))
        elif x == cfg.status['witness']:
            v = variables(cfg.env, witness)
        else:
            v = point if point is not None else ('int', -1)
        fields.append((x, v))
    return I.new_root(('inst', CS, None, tuple(fields)), 'status')


def variables(env, vs):
    cls = next(c for c in env.prog.classes if c.endswith('symbolic::Variables'))
    return ('inst', cls, None, tuple((f['name'], coll('set', tuple(vs))) for f in env.prog.classes[cls]['fields']))


def status_field(cfg, I, p, lv, what):
    v = p.heap.get(lv.root)
    if isinstance(v, tuple) and v[:1] == ('inst',):
        v = canon(dict(v[3])[cfg.status[what]])
    if what == 'witness' and isinstance(v, tuple) and v[:1] == ('inst',):
        v = canon(v[3][0][1])
    return v


def outcome_ok(r, p, ignore=()):
    """Record how a path ended; True if it returned."""
    r.paths += 1
    if p.outcome[0] == 'ret':
        return True
    if p.outcome[0] == 'unsupported':
        if 'loop bound' in str(p.outcome[1]):
            r.vacuous += 1
        else:
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
    elif any(x in str(p.outcome[1]) for x in ('enough',) + tuple(ignore)):
        r.vacuous += 1
    else:
        r.violations.append((r.name, '%s ends in "%s" [when %s]' % (r.fn, p.outcome[1], p.describe()[:200])))
    return False


def bad(r, p, w):
    r.violations.append((r.name, '%s: %s [when %s]' % (r.fn, w, p.describe()[:250])))


PARTS = [('sym', 'c0'), ('sym', 'c1'), ('sym', 'c2'), ('sym', 'c3')]


def part_setup(env, cls, cfg, state, k=2, point=None, inputs=None):
    f = env.prog.one(cls + '::Prune')
    vecf = field_of(env.prog, cls, 'vector<' + CTC + '>', 'vector<dreal::Contractor', 'Contractor>')

    def setup(I):
        this, args = setup_for(f)(I)
        for c in PARTS:
            I.types[c] = CTC
        I.set_raw(this.sub(('f', vecf)), coll('vec', tuple(PARTS[:k])))
        if inputs:
            idx = field_of(env.prog, cls, 'vector<dreal::DynamicBitset', 'vector<boost::dynamic_bitset', 'dynamic_bitset')
            I.set_raw(this.sub(('f', idx)), coll('vec', tuple(bits(*[i in inputs[j] for j in range(k)]) for i in range(2))))
        cs = make_status(I, cfg, point=point)
        state['cs'] = cs
        args[0] = ('ptr', cs)
        return this, args
    return f, setup


def in_order(env, name):
    """Sequencing, fixpoint and work-list contractors: every part is applied to the status that was given, unless it became empty."""
    cls = DR + 'Contractor' + name
    r = Result(name, env.prog.one(cls + '::Prune'))
    cfg = CtcCfg(env)
    state = {}
    f, setup = part_setup(env, cls, cfg, state)
    for p in Interp(env.prog, cfg).explore(f, setup, 4000):
        if not outcome_ok(r, p):
            continue
        w = None
        root = state['cs'].root
        ev = [e for e in p.events if e[0] == 'prune']
        last = ('sym', 'B')
        for k, e in enumerate(ev):
            if e[2] != root:
                w = 'part %s is applied to a copy of the status' % show(e[1])
            elif e[3] != last:
                w = 'part %s is applied to %s' % (show(e[1]), show(e[3])[:80])
            last = ('app', 'x.pruned', e[1], e[3], ('int', k))
        now = status_field(cfg, None, p, state['cs'], 'box')
        if not w and now != last and not (now == ('app', 'x.nothing') and decided(p, ('app', 'x.empty', last))):
            w = 'the box becomes %s' % show(now)[:80]
        missing = [c for c in PARTS[:2] if c not in [e[1] for e in ev]]
        if not w and missing and not decided(p, ('app', 'x.empty', last)):
            w = 'the part %s is not applied' % show(missing[0])
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def worklist(env, dim, inputs):
    """The work-list contractor, from a branching dimension, with the inputs of its parts given."""
    cls = DR + 'ContractorWorklistFixpoint'
    r = Result('work list from dimension %s, inputs %s' % (dim, inputs), env.prog.one(cls + '::Prune'))
    cfg = CtcCfg(env)
    marks = {}

    class Cfg(CtcCfg):
        def part(self, I, c, lv):
            v = CtcCfg.part(self, I, c, lv)
            k = len([e for e in I.events if e[0] == 'prune'])
            out = lv.sub(('f', self.status['output']))
            old = argv(I, out)
            new = [self.fresh(I, 'marks', c, ('int', k), ('int', i)) for i in range(2)]
            I.set(out, bits(*[n if o == FALSE else TRUE for o, n in zip(old[2], new)]))
            return v
    cfg = Cfg(env)
    cfg.limit = 3
    state = {}
    f, setup = part_setup(env, cls, cfg, state, 2, ('int', dim), inputs)
    for p in Interp(env.prog, cfg).explore(f, setup, 6000):
        if not outcome_ok(r, p):
            continue
        root = state['cs'].root
        ev = [e for e in p.events if e[0] == 'prune']
        w, last, due = None, ('sym', 'B'), set(j for j in range(2) if dim < 0 or dim in inputs[j])
        base = set(due)
        for k, e in enumerate(ev):
            if e[2] != root or e[3] != last:
                w = 'part %s is applied to %s' % (show(e[1]), show(e[3])[:80])
            last = ('app', 'x.pruned', e[1], e[3], ('int', k))
            j = PARTS.index(e[1])
            due.discard(j)
            base.discard(j)
            for i in range(2):
                if decided(p, ('app', 'x.marks', e[1], ('int', k + 1), ('int', i))) is not False:
                    due |= {x for x in range(2) if i in inputs[x]}
        if not w and not decided(p, ('app', 'x.empty', last)):
            if base:
                w = 'part %s, which depends on the dimension that was split, is not applied' % show(PARTS[min(base)])
            elif due and not any(b and a[:2] == ('app', 'x.stop') for a, b in p.facts):
                w = 'stops although part %s depends on a dimension that changed' % show(PARTS[min(due)])
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def join(env):
    cls = DR + 'ContractorJoin'
    r = Result('join', env.prog.one(cls + '::Prune'))

    class Cfg(CtcCfg):
        def part(self, I, c, lv):
            v = CtcCfg.part(self, I, c, lv)
            j = PARTS.index(c)
            out, used, wit = [lv.sub(('f', self.status[x])) for x in ('output', 'used', 'witness')]
            o = list(argv(I, out)[2])
            o[j] = TRUE
            I.set(out, bits(*o))
            u = argv(I, used)
            I.set(used, coll('set', u[2] + (('sym', 'f%d' % j),)))
            x = wit.sub(('f', self.wfield))
            u = argv(I, x)
            I.set(x, coll('set', u[2] + (VAR0[j],)))
            return v
    cfg = Cfg(env)
    cfg.wfield = env.prog.classes[next(c for c in env.prog.classes if c.endswith('symbolic::Variables'))]['fields'][0]['name']
    state = {}
    f, setup0 = part_setup(env, cls, cfg, state)

    def setup(I):
        this, args = setup0(I)
        for v in VAR0:
            I.types[v] = VAR
        cs = make_status(I, cfg, used=(('sym', 'g'),), witness=(VAR0[2],))
        state['cs'] = cs
        args[0] = ('ptr', cs)
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 3000):
        if not outcome_ok(r, p):
            continue
        ev = [e for e in p.events if e[0] == 'prune']
        w = None
        pr = {}
        for k, e in enumerate(ev):
            if e[3] != ('sym', 'B'):
                w = 'part %s is applied to %s, not to the given box' % (show(e[1]), show(e[3])[:80])
            pr[e[1]] = ('app', 'x.pruned', e[1], e[3], ('int', k))
        if len(pr) < 2:
            w = w or 'a part is not applied'
        now = status_field(cfg, None, p, state['cs'], 'box')

        def flat(t):
            if t == ('app', 'x.nothing') or decided(p, ('app', 'x.empty', t)):
                return set()
            if t[:2] == ('app', 'x.union'):
                return flat(t[2]) | flat(t[3])
            return {t}
        out = status_field(cfg, None, p, state['cs'], 'output')
        used = status_field(cfg, None, p, state['cs'], 'used')
        wit = status_field(cfg, None, p, state['cs'], 'witness')
        if not w and flat(now) != {x for x in pr.values() if not decided(p, ('app', 'x.empty', x))}:
            w = 'the box becomes %s' % show(now)[:120]
        if not w and any(x != TRUE for x in out[2]):
            w = 'a dimension changed by a part is not marked'
        if not w and not {('sym', 'f0'), ('sym', 'f1'), ('sym', 'g')} <= set(used[2]):
            w = 'the constraints used are %s' % show(used)[:80]
        if not w and not set(VAR0[:3]) <= set(wit[2]):
            w = 'the witnesses are %s' % show(wit)[:80]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def combined_ctor(env, name):
    """The inputs of a composite contractor are those of its parts."""
    cls = DR + 'Contractor' + name
    f = next(x for q, x in env.prog.functions.items() if q.startswith(cls + '::(ctor)(') and any('vector' in a['type'] for a in x['params']))
    r = Result(name + ' constructor', f)
    cfg = CtcCfg(env)
    cfg.inputs = {PARTS[0]: bits(True, False, False), PARTS[1]: bits(False, False, True)}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        for i, a in enumerate(f['params']):
            if 'vector' in a['type']:
                for c in PARTS:
                    I.types[c] = CTC
                args[i] = I.new_root(coll('vec', tuple(PARTS[:2])), 'parts')
        state['this'] = this
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 1000):
        if not outcome_ok(r, p):
            continue
        w = None
        got = final_field(p, state['this'], field_of(env.prog, CELL, 'ynamic'))
        if not is_coll(got):
            r.undecided.append('%s: input is %s' % (r.name, show(got)[:80]))
            continue
        if got != bits(True, False, True):
            w = 'the inputs are %s, those of the parts {0} and {2}' % show(got)[:80]
        fa = final_field(p, state['this'], next(x['name'] for x in env.prog.classes[CELL]['fields'] if strip_type(x['type']) == 'bool'))
        want = any(b and a[:2] == ('app', 'x.forall') for a, b in p.facts)
        if not w and want and fa != TRUE:
            w = 'a part with a forall is not noticed'
        vecf = field_of(env.prog, cls, 'Contractor>')
        parts = final_field(p, state['this'], vecf)
        if not w and is_coll(parts) and [canon(x) for x in parts[2]] != PARTS[:2]:
            w = 'the parts become %s' % show(parts)[:80]
        if name == 'WorklistFixpoint' and not w:
            idx = final_field(p, state['this'], field_of(env.prog, cls, 'dynamic_bitset', 'DynamicBitset'))
            if not is_coll(idx):
                r.undecided.append('%s: index is %s' % (r.name, show(idx)[:80]))
                continue
            if [canon(x) for x in idx[2]] != [bits(True, False), bits(False, False), bits(False, True)]:
                w = 'the parts that depend on each dimension are %s' % show(idx)[:150]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def final_field(p, lv, name):
    v = p.heap.get(lv.root)
    if isinstance(v, tuple) and v[:1] == ('inst',):
        d = dict(v[3])
        if name in d:
            return canon(d[name])
    return canon(p.final.get((lv.root, 'f', name), p.heap.get((lv.root, ('f', name)))))




class PlainCfg(CtcCfg):
    """A box of two intervals."""
    boxes = 'intervals'

    def prim(self, I, ref):
        n, cls, op = ref['n'], ref.get('cls') or '', ref.get('op')
        h = vector_prim(I, ref)
        if h:
            return h
        if cls == BOX:
            def bounded(v):
                if not is_lit(v) or not 0 <= int(lit(v)) < 2:
                    raise AbortEx('dimension %s' % show(v))
                return int(lit(v))

            def m(I, n_, ref, obj, args):
                a = [argv(I, x) for x in args]
                if n in ('interval_vector', 'mutable_interval_vector'):
                    return obj
                if n == 'size':
                    return ('int', 2)
                if n == 'variable':
                    return I.new_root(VAR0[bounded(a[0])], 'var')
                if n == 'variables':
                    return I.new_root(coll('vec', tuple(VAR0[:2])), 'vars')
                if n == 'index' and a[0] in VAR0:
                    return ('int', VAR0.index(a[0]))
                if op == '[]':
                    i = VAR0.index(a[0]) if a[0] in VAR0 else bounded(a[0])
                    from handlers import index as coll_index
                    return coll_index(I, obj, ('int', i), 'std::vector<%s>' % ival.IV)
                if n == 'set_empty':
                    e = ('app', 'iv.empty')
                    I.types[e] = ival.IV
                    I.set(obj, vec([e, e]))
                    return VOID
                if n == 'empty':
                    t = ('app', 'iv.is_empty', argv(I, obj)[2][0])
                    I.types[t] = 'bool'
                    return t
                return DECLINE
            return m
        if cls.startswith('std::set<' + FORM) and n == 'insert' and len(args_of(ref)) == 1:
            def insert(I, n_, ref, obj, args):
                v, x = argv(I, obj), argv(I, args[0])
                if not is_coll(v) or x not in self.distinct:
                    return DECLINE
                new = x not in [canon(y) for y in v[2]]
                if new:                 # the order is arbitrary: the new one comes first
                    I.set(obj, coll('set', (x,) + v[2]))
                return ('pair', ('sym', 'it'), TRUE if new else FALSE)
            return insert
        if n == 'GetFreeVariables':
            def free(I, n_, ref, obj, args):
                v = argv(I, obj)
                if v not in self.free:
                    return DECLINE
                return I.new_root(variables(self.env, [VAR0[i] for i in self.free[v]]), 'free')
            return free
        return CtcCfg.prim(self, I, ref)


def ivals(I, *xs):
    for x in xs:
        I.types[('sym', x)] = ival.IV
    for v in VAR0:
        I.types[v] = VAR
    return vec([('sym', x) for x in xs])


def integer(env, dims):
    """Integer variables keep their integers, and nothing else happens."""
    f = env.prog.one(DR + 'ContractorInteger::Prune')
    r = Result('integer contractor on %s' % (dims,), f)
    cfg = PlainCfg(env)
    cfg.free = {}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        b = ivals(I, 'x', 'y')
        I.set_raw(this.sub(('f', field_of(env.prog, DR + 'ContractorInteger', 'vector<int'))), coll('vec', tuple(('int', i) for i in dims)))
        cs = state['cs'] = make_status(I, cfg, box=b)
        args[0] = ('ptr', cs)
        return this, args
    def pre(m, p):
        preset('xy', True)(m, p)
        for x in 'xy':
            k = ('L', ('ival', m.rep(('sym', x))))
            if any(b and a == ('app', 'iv.is_empty', ('sym', x)) for a, b in p.facts):
                m.memo[k] = None
            elif m.rng.random() < 0.4:
                a = m.rng.choice([2.0, -5e9, -2147483649.0, 2147483646.5, 2147483648.0, 3e9, 3e9 + 0.5, -3e9 - 0.5, 0.5, 1e300])
                m.memo[k] = (a, max(a, m.rng.choice([a, a + 0.25, a + 0.5, a + 1.0, a + 2.5, 4e9, 2.5, math.inf])))
                if m.rng.random() < 0.1:
                    m.memo[k] = (-math.inf, m.memo[k][1])
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup, 2000):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        now = [canon(x) for x in status_field(cfg, I, p, state['cs'], 'box')[2]]
        out = [x == TRUE for x in status_field(cfg, I, p, state['cs'], 'output')[2]]
        wit = status_field(cfg, I, p, state['cs'], 'witness')[2]

        def result(m, p):
            if p.outcome[0] != 'ret':
                return 'it ends in %s' % (p.outcome[1],)
            z = [m.leaf(('ival', m.rep(('sym', x))), None) for x in 'xy']
            if None in z:
                return 'fine'
            got = [ival.value(m, t) for t in now]
            want = list(z)
            for i in dims:
                lo, hi = math.ceil(z[i][0]) if not math.isinf(z[i][0]) else z[i][0], math.floor(z[i][1]) if not math.isinf(z[i][1]) else z[i][1]
                want[i] = (float(lo), float(hi)) if lo <= hi else None
            if None in want:
                if None not in got:
                    return 'no integer is in %s, but the box is %s' % (z, got)
                if not all(out):
                    return 'an emptied box is not marked as changed'
                if not any(want[i] is None and VAR0[i] in wit for i in (0, 1)):
                    return 'the variable without integers is not recorded'
                return 'fine'
            if got != want:
                return '%s becomes %s, not %s' % (z, got, want)
            for i in (0, 1):
                if got[i] != z[i] and not out[i]:
                    return 'dimension %d changes from %s to %s and is not marked' % (i, z[i], got[i])
            return 'fine'
        decide_path(env, r, I, p, lambda m, p: 'fine', result, ival.EXT, pre=pre)
    return r


def integer_ctor(env):
    f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + 'ContractorInteger::(ctor)(') and len(x['params']) == 2)
    r = Result('integer contractor constructor', f)
    cfg = PlainCfg(env)
    cfg.free = {}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        args[0] = I.new_root(ivals(I, 'x', 'y'), 'box')
        state['this'] = this
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup):
        kinds = [next((k for (x, _), k in p.kinds.items() if x == ('app', 'V.type', v)), None) for v in VAR0[:2]]
        ints = [k is not None and k <= {'INTEGER', 'BINARY'} for k in kinds]
        if p.outcome[0] == 'abort' and not any(ints):
            r.paths += 1
            r.agree += 1
            continue
        if not outcome_ok(r, p):
            continue
        got = final_field(p, state['this'], field_of(env.prog, DR + 'ContractorInteger', 'vector<int'))
        inp = final_field(p, state['this'], field_of(env.prog, CELL, 'ynamic'))
        if any(k is None or (k & {'INTEGER', 'BINARY'} and not k <= {'INTEGER', 'BINARY'}) for k in kinds):
            bad(r, p, 'integer and binary variables are not told from others (%s)' % [sorted(k) if k else 'any' for k in kinds])
            continue
        want = [i for i in (0, 1) if ints[i]]
        if [int(lit(canon(x))) for x in got[2]] != want:
            bad(r, p, 'the integer dimensions are %s, not %s' % (show(got), want))
        elif inp != bits(*ints):
            bad(r, p, 'the inputs are %s' % show(inp))
        else:
            r.agree += 1
    return r


def ibex(env, name, free):
    """A contractor of IBEX: dimensions that changed are marked, and the constraint recorded."""
    cls = DR + 'ContractorIbex' + name
    f = env.prog.one(cls + '::Prune')
    r = Result('%s on variables %s' % (name, free), f)
    cfg = PlainCfg(env)
    fs = [('sym', 'f0')] if name == 'Fwdbwd' else [('sym', 'f0'), ('sym', 'f1')]
    cfg.free = {x: free for x in fs}
    state = {}

    class Cfg(PlainCfg):
        def prim(self, I, ref):
            cls, n = ref.get('cls') or '', ref['n']
            if cls.startswith('ibex::') and n in ('backward', 'contract'):
                def run(I, n_, ref, obj, args):
                    lv = args[-1]
                    inner = self.fresh(I, 'inner')
                    same = n == 'backward' and I.decide(inner)
                    old = argv(I, lv)
                    I.events.append(('contract',))
                    if not same:
                        ivals(I, 'nx', 'ny')
                        I.set(lv, vec([('sym', 'nx') if 0 in free else old[2][0], ('sym', 'ny') if 1 in free else old[2][1]]))
                    return (TRUE if same else FALSE) if n == 'backward' else VOID
                return run
            if cls.startswith('ibex::') and n not in ('operator=', 'is_empty', 'operator!=', 'operator==', 'operator[]') and cls not in ('ibex::Interval', 'ibex::IntervalVector'):
                return lambda I, n_, ref, obj, args: self.fresh(I, 'ibex.' + n, ty=strip_type(ref['ret']))
            if n == 'DisplayDiff':
                return lambda I, n_, ref, obj, args: VOID
            return PlainCfg.prim(self, I, ref)
    cfg2 = Cfg(env)
    cfg2.free = cfg.free

    def setup(I):
        this, args = setup_for(f)(I)
        b = ivals(I, 'x', 'y')
        for x in fs:
            I.types[x] = FORM
        for x in env.prog.classes[cls]['fields']:
            t = strip_type(x['type'])
            if t == FORM:
                I.set_raw(this.sub(('f', x['name'])), fs[0])
            elif 'vector<' in t and 'Formula' in t:
                I.set_raw(this.sub(('f', x['name'])), coll('vec', tuple(fs)))
            elif t == 'bool':
                I.set_raw(this.sub(('f', x['name'])), FALSE)
            elif 'unique_ptr' in t and ('NumConstraint' in t or 'Ctc' in t):
                o = I.new_root(('app', 'x.ibex'), 'ibex')
                I.set_raw(this.sub(('f', x['name'])), ('ptr', o))
        I.set_raw(this.sub(('f', field_of(env.prog, CELL, 'ynamic'))), bits(*[i in free for i in (0, 1)]))
        cs = state['cs'] = make_status(I, cfg2, box=b)
        args[0] = ('ptr', cs)
        return this, args
    for p in Interp(env.prog, cfg2).explore(f, setup, 3000):
        if not outcome_ok(r, p):
            continue
        now = [canon(x) for x in status_field(cfg2, None, p, state['cs'], 'box')[2]]
        out = [x == TRUE for x in status_field(cfg2, None, p, state['cs'], 'output')[2]]
        wit = status_field(cfg2, None, p, state['cs'], 'witness')[2]
        used = status_field(cfg2, None, p, state['cs'], 'used')[2]
        if ('contract',) not in p.events:
            bad(r, p, 'the constraint is not applied')
            continue
        same = lambda a, b: a == b or any(v and set(x[-2:]) == {a, b} and x[:2] == ('app', 'iv.eq') or not v and set(x[-2:]) == {a, b} and x[:2] == ('app', 'iv.ne') for x, v in p.facts)
        old = [('sym', 'x'), ('sym', 'y')]
        w = None
        ch = [not same(a, b) for a, b in zip(old, now)]
        empty = any(v and a[:2] == ('app', 'iv.is_empty') and a[2] in now for a, v in p.facts)
        for i in (0, 1):
            if now[i] not in (old[i], ('sym', 'n' + 'xy'[i])):
                w = 'dimension %d becomes %s' % (i, show(now[i])[:80])
            elif (ch[i] or empty) and not out[i]:
                w = 'dimension %d may change and is not marked' % i
        if not w and (any(ch) or empty) and not set(fs) <= set(used):
            w = 'the box changes, but the constraints recorded are %s' % [show(x) for x in used]
        if not w and empty and not {VAR0[i] for i in free} <= set(wit):
            w = 'the box becomes empty, but its variables are not recorded'
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def explanation(env, label, free, witness, want):
    """The explanation holds every used constraint that is connected to a witness."""
    f = env.prog.one(CS + '::Explanation')
    r = Result('explanation of %s' % label, f)
    cfg = PlainCfg(env)
    fs = [('sym', 'f%d' % i) for i in range(len(free))]
    cfg.free = dict(zip(fs, free))
    cfg.max_loop = 40
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        ivals(I, 'x', 'y')
        for x in fs:
            I.types[x] = FORM
        return make_status(I, cfg, used=fs, witness=[VAR0[i] for i in witness]), args
    for p in Interp(env.prog, cfg).explore(f, setup, 3000):
        if not outcome_ok(r, p):
            continue
        v = canon(p.outcome[1])
        if isinstance(v, LV):
            v = canon(p.heap.get(v.root))
        if not is_coll(v):
            r.undecided.append('%s: %s' % (r.name, show(v)[:80]))
            continue
        got = {canon(x) for x in v[2]}
        lost = [x for x in (fs[i] for i in want) if x not in got]
        alien = [x for x in got if x not in fs]
        if lost or alien:
            bad(r, p, 'the explanation %s lacks %s' % ([show(x) for x in got], [show(x) for x in lost]) if lost else 'the explanation holds %s' % show(alien[0])[:80])
        else:
            r.agree += 1
    return r


def record(env, many, empty):
    """Recording a constraint."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(CS + '::AddUsedConstraint(') and ('vector' in x['params'][0]['type']) == many)
    r = Result('recording %s in %s box' % ('constraints' if many else 'a constraint', 'an empty' if empty else 'a'), f)
    cfg = PlainCfg(env)
    fs = [('sym', 'f0'), ('sym', 'f1')][:2 if many else 1]
    cfg.free = {('sym', 'f0'): (0,), ('sym', 'f1'): (1, 2)}
    state = {}

    def setup(I):
        _, args = setup_for(f)(I)
        b = ivals(I, 'x', 'y')
        e = ('app', 'iv.empty')
        I.types[e] = ival.IV
        for x in fs + [('sym', 'g')]:
            I.types[x] = FORM
        state['cs'] = make_status(I, cfg, box=vec([e, e]) if empty else b, used=(('sym', 'g'),))
        args[0] = I.new_root(coll('vec', tuple(fs)) if many else fs[0], 'f')
        return state['cs'], args
    for p in Interp(env.prog, cfg).explore(f, setup, 200):
        if not outcome_ok(r, p):
            continue
        if empty and any(not b and a[:2] == ('app', 'iv.is_empty') for a, b in p.facts) or not empty and any(b and a[:2] == ('app', 'iv.is_empty') for a, b in p.facts):
            r.paths -= 1
            continue
        used = set(status_field(cfg, None, p, state['cs'], 'used')[2])
        wit = set(status_field(cfg, None, p, state['cs'], 'witness')[2])
        w = None
        if used != set(fs) | {('sym', 'g')}:
            w = 'the constraints recorded are %s' % [show(x) for x in used]
        elif empty and not {VAR0[i] for x in fs for i in cfg.free[x]} <= wit:
            w = 'the variables recorded are %s' % [show(x) for x in wit]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def factory(env, name):
    """A composite contractor made from parts has all parts that do something, in order."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + 'make_contractor_' + name + '('))
    r = Result('making %s' % name, f)
    state = {}

    class Cfg(CtcCfg):
        def prim(self, I, ref):
            if ref['n'] == 'to_seq':
                return lambda I, n, ref, obj, args: ('ptr', I.new_root(('sym', 'inside'), 'seq'))
            if ref['n'] == 'contractors' and (ref.get('cls') or '').endswith('ContractorSeq'):
                return lambda I, n, ref, obj, args: I.new_root(coll('vec', (PARTS[2], PARTS[3])), 'inside')
            return CtcCfg.prim(self, I, ref)
    cfg = Cfg(env)
    cfg.inputs = {c: bits(True) for c in PARTS}

    def setup(I):
        this, args = setup_for(f)(I)
        for c in PARTS:
            I.types[c] = CTC
        for i, a in enumerate(f['params']):
            if 'vector' in a['type']:
                args[i] = I.new_root(coll('vec', tuple(PARTS[:2])), 'parts')
        return this, args
    cfg.kinds_restrict = {('app', 'x.kind', PARTS[1]): {'ID', 'INTEGER'}}
    for p in Interp(env.prog, cfg).explore(f, setup, 1000):
        if not outcome_ok(r, p):
            continue
        want = []
        known = True
        for c in PARTS[:2]:
            k = next((v for (x, _), v in p.kinds.items() if x == ('app', 'x.kind', c)), None)
            if k == {'ID'}:
                continue
            if k == {'SEQ'}:
                want += [PARTS[2], PARTS[3]]
            else:
                known = known and (name == 'join' or k is not None and not k & {'ID', 'SEQ'} or k is None)
                want.append(c)
        v = canon(p.outcome[1])
        try:
            cell = canon(dict(v[3])[field_of(env.prog, CTC, 'ptr')])
            o = cell[1] if isinstance(cell[1], LV) else None
            n = 0
            o = canon(p.heap.get(o.root)) if o is not None else None
            while isinstance(o, tuple) and o[:1] == ('ptr',) and n < 4:
                o, n = canon(p.heap.get(o[1].root)), n + 1
            cls = o[1]
            got = next((canon(x) for k, x in o[3] if k == field_of(env.prog, cls, 'Contractor>')), coll('vec', ())) if cls.split('Contractor')[-1] != 'Id' else coll('vec', ())
            got = [canon(x) for x in got[2]]
        except (KeyError, TypeError, IndexError, AttributeError):
            r.undecided.append('%s: gives %s' % (r.name, show(v)[:100]))
            continue
        # a part that does nothing may be kept, and a sequence may stay one part
        idle = {c for c in PARTS[:2] if any(x == ('app', 'x.kind', c) and k == {'ID'} for (x, _), k in p.kinds.items())}
        got = [c for c in got if c not in idle]
        if not known:
            r.undecided.append('%s: kinds %s' % (r.name, p.describe()[:100]))
        elif got != want and got != [c for c in PARTS[:2] if c not in idle]:
            bad(r, p, 'the parts are %s, not %s' % ([show(x) for x in got], [show(x) for x in want]))
        elif got and not cls.endswith({'seq': 'ContractorSeq', 'fixpoint': 'ContractorFixpoint', 'worklist_fixpoint': 'ContractorWorklistFixpoint', 'join': 'ContractorJoin'}[name]):
            bad(r, p, 'the contractor is a %s' % cls)
        else:
            r.agree += 1
    return r


def check_C05(c):
    env = make_env(c)
    jobs = [lambda n=n: in_order(env, n) for n in ('Seq', 'Fixpoint')] + [lambda: join(env)]
    sets = [set(), {0}, {1}, {0, 1}]
    for d in (-1, 0, 1):
        for a in sets[1:]:
            for b in sets[1:]:
                jobs.append(lambda d=d, a=a, b=b: worklist(env, d, [a, b]))
    jobs += [lambda n=n: combined_ctor(env, n) for n in ('Seq', 'Join', 'Fixpoint', 'WorklistFixpoint')]
    jobs += [lambda d=d: integer(env, d) for d in ((0,), (1,), (0, 1))] + [lambda: integer_ctor(env)]
    jobs += [lambda n=n, v=v: ibex(env, n, v) for n in ('Fwdbwd', 'Polytope') for v in ((0,), (1,), (0, 1))]
    jobs += [lambda n=n: factory(env, n) for n in ('seq', 'fixpoint', 'worklist_fixpoint', 'join')]
    for label, free, wit, want in EXPLANATIONS:
        jobs.append(lambda l=label, fr=free, w=wit, x=want: explanation(env, l, fr, w, x))
    jobs += [lambda m=m, e=e: record(env, m, e) for m in (False, True) for e in (False, True)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Sequencing, fixpoint and work-list contractors apply every part (from a split dimension: every part that depends on it, and again on every dimension marked) to the status they were '
                   'given and to nothing else, unless the box became empty; joining applies every part to the given box, unites the boxes and keeps marks, constraints and witnesses of all. Their inputs '
                   'are those of the parts. The integer contractor leaves exactly the integers of its dimensions; IBEX contractors mark every dimension that may have changed and record the constraint, and '
                   'the variables when the box became empty. The explanation holds every recorded constraint connected to a witness by shared variables.')
    c.assumptions += ['IBEX contractors change only dimensions of the variables of their constraint, and the forward-backward contractor reports "inner" only when nothing changed', 'two parts, boxes of two dimensions, up to five constraints',
                      'the work-list contractor resets the marks before every part (documented), so the marks it leaves are those of its last part: not examined']
    return n


EXPLANATIONS = [
    ('a chain', [(0,), (0, 1), (1, 2), (2, 3), (3, 4)], [0], [0, 1, 2, 3, 4]),
    ('a chain given backwards', [(1, 2), (0, 1), (0,)], [0], [0, 1, 2]),
    ('a constraint apart', [(0,), (1, 2), (2,)], [1], [1, 2]),
    ('a constraint without variables', [(), (0,), (1,)], [1], [0, 2]),
    ('no witness', [(), (0,)], [], [0]),
    ('two witnesses', [(0,), (1,), (2,)], [0, 2], [0, 2]),
]
