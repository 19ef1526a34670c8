"""Exists-forall solving (C09): directions of strengthening, order of precisions, and what a counterexample may change."""
import extract
import ival
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from handlers import index as coll_index
from props_c import argv, DR, inst_of, constant_name, nothing, verdict
from props_ctc import CtcCfg, CTC, CS, BOX, CELL, VAR0, make_status, status_field, final_field, outcome_ok, bad, decided, variables, bits
from props_ctx import TheoryCfg, F_, resolve, precision_of, names_in, kinds_at

CTX, FFE = DR + 'Context', DR + 'ForallFormulaEvaluator'
CFA, CFM = DR + 'ContractorForall<dreal::Context>', DR + 'ContractorForallMt<dreal::Context>'
FREE, BOUND = VAR0[:1], VAR0[2:3]      # the formula is  forall v2. q(v0, v2);  the boxes searched also have v1


def box_of(I, **kv):
    """A box: a map from variables to intervals."""
    for x in kv.values():
        I.types[F_(x)] = ival.IV
    for v in VAR0:
        I.types[v] = VAR
    return coll('map', tuple(('pair', F_(k), F_(x)) for k, x in kv.items()))


class ForallCfg(TheoryCfg):
    """Boxes know their variables; the context for counterexamples answers freely."""
    max_loop = 12
    unfold = 3

    def __init__(self, env):
        TheoryCfg.__init__(self, env)
        self.found = lambda I: I.new_root(box_of(I, v0='c0', v1='c1', v2='c2'), 'counterexample')

    def part(self, I, c, lv):
        box = lv.sub(('f', self.status['box']))
        old = argv(I, box)
        k = sum(1 for e in I.events if e[0] == 'prune')
        I.events.append(('prune', c, old))
        if is_coll(old):
            out = []
            for i, e in enumerate(old[2]):
                t = ('app', 'x.part', ('int', k), canon(e[1]))
                I.types[t] = ival.IV
                out.append(('pair', e[1], t))
            I.set(box, coll('map', tuple(out)))
        return VOID

    def box_prim(self, I, ref):
        n, op = ref['n'], ref.get('op')

        def h(I, n_, ref, obj, args):
            if '::(ctor)' in ref['fid']:
                return argv(I, args[0]) if args and is_coll(argv(I, args[0])) else coll('map', ())
            v = argv(I, obj)
            if not is_coll(v):
                return DECLINE
            a = [argv(I, x) for x in args]
            keys = [canon(e[1]) for e in v[2]]
            if op == '[]' or n in ('variable', 'index'):
                if is_lit(a[0]):
                    if not 0 <= int(lit(a[0])) < len(keys):
                        raise AbortEx('dimension %s of a box of %d' % (show(a[0]), len(keys)))
                    k = keys[int(lit(a[0]))]
                else:
                    k = a[0]
                if k not in keys:
                    raise AbortEx('the variable %s is not in the box, whose first dimension is used for it' % show(k))
                if n == 'variable':
                    return I.new_root(k, 'var')
                if n == 'index':
                    return ('int', keys.index(k))
                return coll_index(I, obj, k, 'std::map<%s, %s>' % (VAR, ival.IV))
            if op == '=':
                I.set(obj, a[0])
                return obj
            if n == 'size':
                return ('int', len(keys))
            if n == 'has_variable':
                return TRUE if a[0] in keys else FALSE
            if n == 'variables':
                return I.new_root(coll('vec', tuple(keys)), 'vars')
            if n == 'empty':
                t = ('app', 'iv.is_empty', canon(v[2][0][2]))
                I.types[t] = 'bool'
                return FALSE if t[2][:1] == ('sym',) else TRUE if t[2] == ('app', 'iv.empty') else t
            if n == 'set_empty':
                e = ('app', 'iv.empty')
                I.types[e] = ival.IV
                I.set(obj, coll('map', tuple(('pair', k, e) for k in keys)))
                return VOID
            if n == 'Add':
                t = ('app', 'x.domain', a[0])
                I.types[t] = ival.IV
                I.set(obj, coll('map', v[2] + (('pair', a[0], t),)))
                return VOID
            return DECLINE
        return h

    def prim(self, I, ref):
        n, cls, q, fid, op = ref['n'], ref.get('cls') or '', ref['q'], ref['fid'], ref.get('op')
        if cls == BOX or fid.startswith(BOX + '::(ctor)'):
            return self.box_prim(I, ref)
        if fid.startswith(CTX + '::(ctor)'):
            def ctor(I, n_, ref, obj, args):
                I.events.append(('context', argv(I, args[0]) if args else None))
                t = ('app', 'x.context', ('int', sum(1 for e in I.events if e[0] == 'context')))
                I.types[t] = CTX
                return t
            return ctor
        if cls == CTX:
            def ctx(I, n_, ref, obj, args):
                if n in ('config', 'mutable_config'):
                    return self.config(I)
                a = tuple(argv(I, x) for x in args)
                if n == 'CheckSat':
                    k = sum(1 for e in I.events if e[0] == 'CheckSat')
                    if k >= 3:
                        raise AbortEx('enough')
                    i = I.choose(2, 'counterexample')
                    I.events.append((n, bool(i)))
                    return ('some', self.found(I)) if i else ('none',)
                I.events.append((n,) + a)
                return VOID
            return ctx
        if cls == DR + 'Config' and n.startswith('mutable_'):
            def setting(I, n_, ref, obj, args):
                I.types.setdefault(F_(n), strip_type(ref['ret']))
                key = ('setting', n)
                return I.new_root(F_(n), n)
            return setting
        if cls.startswith(DR + 'OptionValue') and op == '=' :
            def assign(I, n_, ref, obj, args):
                I.events.append(('set', argv(I, obj), argv(I, args[0])))
                return obj
            return assign
        if cls == DR + 'Config' and n in ('stack_left_box_first', 'use_polytope_in_forall'):
            return lambda I, n_, ref, obj, args: self.fresh(I, 'config', F_(n))
        if n in ('get_quantified_variables', 'get_quantified_formula') and q.startswith(DR):
            def part(I, n_, ref, obj, args):
                return I.new_root(variables(self.env, BOUND), 'bound') if n.endswith('variables') else I.new_root(F_('q'), 'q')
            return part
        if n == 'GetFreeVariables':
            return lambda I, n_, ref, obj, args: I.new_root(variables(self.env, FREE), 'free') if argv(I, obj) == F_('f') else DECLINE
        if q == DR + 'DeltaStrengthen' or q == DR + 'DeltaWeaken':
            def strengthen(I, n_, ref, obj, args):
                t = ('app', 'x.' + n, argv(I, args[0]), argv(I, args[1]))
                I.types[t] = FORM
                return t
            return strengthen
        if cls == DR + 'Nnfizer' and n == 'Convert':
            def nnf(I, n_, ref, obj, args):
                t = ('app', 'x.nnf', argv(I, args[0]))
                I.types[t] = FORM
                return t
            return nnf
        if fid.startswith(DR + 'Nnfizer::(ctor)') or fid.startswith(DR + 'GenericContractorGenerator::(ctor)'):
            return lambda I, n_, ref, obj, args: F_('tool')
        if cls == DR + 'GenericContractorGenerator' and n == 'Generate':
            def gen(I, n_, ref, obj, args):
                t = ('app', 'x.generated', argv(I, args[0]), argv(I, args[1]))
                I.types[t] = CTC
                I.events.append(('generate', t[2], t[3]))
                return t
            return gen
        if cls == DR + 'CounterexampleRefiner' or fid.startswith(DR + 'CounterexampleRefiner::(ctor)'):
            def refine(I, n_, ref, obj, args):
                if n == 'Refine':
                    return box_of(I, v0='r0', v1='r1', v2='r2')
                I.events.append(('refiner', argv(I, args[0])))
                return F_('refiner')
            return refine
        if cls == DR + 'RelationalFormulaEvaluator' and op == '()':
            def evaluate(I, n_, ref, obj, args):
                I.events.append(('evaluate', argv(I, obj), argv(I, args[0])))
                return self.fresh(I, 'evaluation', argv(I, obj), ty=DR + 'FormulaEvaluationResult')
            return evaluate
        if n == 'get_thread_id':
            return lambda I, n_, ref, obj, args: ('int', 0)
        return TheoryCfg.prim(self, I, ref)

    def build(self, I, cls, args):
        name = {DR + 'RelationalFormulaEvaluator': 'evaluator', DR + 'CounterexampleRefiner': 'refiner', CTX: 'context'}.get(cls)
        if name is None:
            return None
        a = [argv(I, x) for x in args]
        I.events.append((name,) + tuple(a))
        t = ('app', 'x.' + name, ('int', sum(1 for e in I.events if e[0] == name)))
        I.types[t] = cls
        return t

    def config(self, I):
        if not getattr(self, 'cfg_root', None) or self.cfg_root[0] is not I.heap:
            I.types[F_('inner_config')] = DR + 'Config'
            self.cfg_root = (I.heap, I.new_root(F_('inner_config'), 'config'))
        return self.cfg_root[1]


def content(v):
    """{variable: interval} of a box."""
    return {canon(e[1]): canon(e[2]) for e in v[2]} if is_coll(v) else None


def bound_events(p, upto):
    """What the context's box was set to before an event."""
    out = {}
    for e in p.events[:upto]:
        if e[0] == 'SetInterval':
            out[e[1]] = e[2:]
    return out


def is_bound(ts, x):
    return len(ts) == 2 and ts[0] == ('app', 'iv.lb', x) and ts[1] == ('app', 'iv.ub', x)


def evaluate(env, wide):
    """Judging a box against a quantified formula: valid only without a counterexample, never unsatisfiable."""
    f = env.prog.one(FFE + '::operator()')
    r = Result('verdict of a quantified formula%s' % (' in a wider box' if wide else ''), f)
    cfg = ForallCfg(env)
    cfg.kinds_restrict = {F_('f'): {'Forall'}}
    cfg.found = lambda I: I.new_root(box_of(I, v0='c0', v2='c2'), 'counterexample')
    cell = DR + 'FormulaEvaluatorCell'
    ff = next(g['name'] for g in env.prog.classes[cell]['fields'] if FORM in g['type'])
    fields = {g['name']: strip_type(g['type']) for g in env.prog.classes[FFE]['fields']}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('f')] = I.types[F_('q')] = FORM
        I.set_raw(this.sub(('f', ff)), F_('f'))
        for k, t in fields.items():
            if CTX in t:
                I.types[F_('context')] = CTX
                I.set_raw(this.sub(('f', k)), coll('vec', (F_('context'),)))
            elif 'Evaluator' in t:
                I.types[F_('e0')] = DR + 'RelationalFormulaEvaluator'
                I.set_raw(this.sub(('f', k)), coll('vec', (F_('e0'),)))
        args[0] = I.new_root(box_of(I, v0='b0', v1='b1') if wide else box_of(I, v0='b0'), 'box')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w = None
        checks = [i for i, e in enumerate(p.events) if e[0] == 'CheckSat']
        if len(checks) != 1:
            r.undecided.append('%s: %d searches' % (r.name, len(checks)))
            continue
        env_ = bound_events(p, checks[0])
        for v, x in ((VAR0[0], F_('b0')),):
            if v not in env_ or not is_bound(env_[v], x):
                w = 'the counterexample is searched for with %s in %s' % (show(v), [show(t)[:40] for t in env_.get(v, ())])
        for v in env_:
            if v not in FREE:
                w = w or 'it sets %s in a context that does not have it: the first variable gets its interval' % show(v)
        found = p.events[checks[0]][1]
        d = inst_of(p, p.outcome[1], DR + 'FormulaEvaluationResult')
        if d is None:
            r.undecided.append('%s: verdict' % r.name)
            continue
        ty = next((constant_name(canon(x)) for x in d.values() if constant_name(canon(x))), None)
        if ty is None:
            r.undecided.append('%s: verdict %s' % (r.name, d))
        elif ty == 'UNSAT':
            w = w or 'the formula is unsatisfiable after a search for one counterexample'
        elif ty == 'VALID' and found:
            w = w or 'the formula is valid although there is a counterexample'
        elif ty != 'VALID' and not found:
            w = w or 'the formula is %s although there is no counterexample' % ty
        for e in p.events:
            if e[0] == 'evaluate':
                m = content(e[2])
                if m is None or VAR0[0] not in m or VAR0[2] not in m:
                    w = w or 'the matrix is evaluated on %s' % show(e[2])[:80]
                elif m[VAR0[0]] not in (F_('b0'), F_('c0')) or m[VAR0[2]] != F_('c2'):
                    w = w or 'the matrix is evaluated on %s' % show(e[2])[:100]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def counterexample(env):
    """Pruning with a counterexample: the existential part is the box, the universal part a part of the counterexample."""
    f = env.prog.one(CFA + '::PruneWithCounterexample')
    r = Result('pruning with a counterexample', f)
    cfg = ForallCfg(env)
    cfg.distinct = CtcCfg.distinct
    ctcf = next(g['name'] for g in env.prog.classes[CFA]['fields'] if strip_type(g['type']) == CTC)
    ff = next(g['name'] for g in env.prog.classes[CFA]['fields'] if strip_type(g['type']) == FORM)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('c')] = CTC
        I.types[F_('f')] = I.types[F_('q')] = FORM
        I.set_raw(this.sub(('f', ctcf)), F_('c'))
        I.set_raw(this.sub(('f', ff)), F_('f'))
        cs = state['cs'] = make_status(I, cfg, box=coll('map', ()))
        I.set_raw(cs.sub(('f', cfg.status['box'])), box_of(I, v0='b0', v1='b1'))
        n = 0
        for i, a in enumerate(f['params']):
            if CS in a['type']:
                args[i] = ('ptr', cs)
            elif '*' in a['type']:
                args[i] = ('ptr', cs.sub(('f', cfg.status['box'])))
            else:
                args[i] = I.new_root(box_of(I, v0='c0', v1='c1', v2='c2'), 'ce')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w = None
        ev = [e for e in p.events if e[0] == 'prune']
        if len(ev) != 1 or not is_coll(ev[0][2]):
            r.undecided.append('%s: %d prunings' % (r.name, len(ev)))
            continue
        m = content(ev[0][2])
        for v, x in ((VAR0[0], 'b0'), (VAR0[1], 'b1')):
            if m.get(v) != F_(x):
                w = 'the existential variable %s is pruned from %s' % (show(v), show(m.get(v))[:60])
        if 'c2' not in str(m.get(VAR0[2])) or any(x in str(m.get(VAR0[2])) for x in ("'b", "'c0", "'c1")):
            w = w or 'the universal variable is set to %s' % show(m.get(VAR0[2]))[:60]
        now = content(status_field(cfg, None, p, state['cs'], 'box'))
        out = status_field(cfg, None, p, state['cs'], 'output')
        if now is None or not is_coll(out):
            r.undecided.append('%s: the box left' % r.name)
            continue
        part = lambda v: ('app', 'x.part', ('int', 0), v)
        empty = decided(p, ('app', 'iv.is_empty', part(VAR0[0])))
        if empty:
            if any(x != ('app', 'iv.empty') and x != part(v) for v, x in now.items()):
                w = w or 'the box is refuted and becomes %s' % {show(k): show(x)[:40] for k, x in now.items()}
            if any(canon(x) != TRUE for x in out[2]):
                w = w or 'an emptied box is not marked as changed'
        else:
            for i, (v, x) in enumerate(((VAR0[0], 'b0'), (VAR0[1], 'b1'))):
                same = any(b and a[:2] == ('app', 'iv.eq') and set(a[2:]) == {F_(x), part(v)} for a, b in p.facts)
                if now.get(v) == F_(x):
                    if not same:
                        w = w or '%s is not pruned' % show(v)
                elif now.get(v) != part(v):
                    w = w or '%s becomes %s' % (show(v), show(now.get(v))[:60])
                elif not same and canon(out[2][i]) != TRUE:
                    w = w or '%s changes and is not marked' % show(v)
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def search(env):
    """The pruning loop: every search is for the current box, and only pruning with a counterexample changes it."""
    f = env.prog.one(CFA + '::Prune')
    r = Result('pruning by a quantified formula', f)
    state = {}
    fields = {g['name']: strip_type(g['type']) for g in env.prog.classes[CFA]['fields']}
    ff = next(k for k, t in fields.items() if t == FORM and k.startswith('f'))

    class Cfg(ForallCfg):
        def prim(self, I, ref):
            n = ref['n']
            if n == 'PruneWithCounterexample':
                def prune(I, n_, ref, obj, args):
                    box = I.deref(args[1])
                    k = sum(1 for e in I.events if e[0] == 'refute')
                    I.events.append(('refute', argv(I, box), argv(I, args[2])))
                    I.set(box, box_of(I, v0='p%d' % k, v1='s%d' % k))
                    return self.fresh(I, 'stop', ('int', k))
                return prune
            return ForallCfg.prim(self, I, ref)
    cfg = Cfg(env)

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('f')] = FORM
        I.set_raw(this.sub(('f', ff)), F_('f'))
        cs = state['cs'] = make_status(I, cfg, box=coll('map', ()))
        I.set_raw(cs.sub(('f', cfg.status['box'])), box_of(I, v0='b0', v1='b1'))
        args[0] = ('ptr', cs)
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w = None
        cur = ['b0', 'b1']
        k = 0
        pending = None
        for i, e in enumerate(p.events):
            if e[0] == 'CheckSat':
                env_ = bound_events(p, i)
                for v, x in zip(VAR0, cur):
                    if v not in env_ or not is_bound(env_[v], F_(x)):
                        w = w or 'search %d has %s in %s, the box has %s' % (k, show(v), [show(t)[:40] for t in env_.get(v, ())], x)
                if set(env_) - set(VAR0[:2]):
                    w = w or 'the universal variables are set'
                pending = e[1]
            elif e[0] == 'refute':
                m = content(e[2])
                if not pending:
                    w = w or 'it prunes without a counterexample'
                elif m and m.get(VAR0[2]) not in (F_('c2'), F_('r2')):
                    w = w or 'it prunes with %s' % show(e[2])[:80]
                cur = ['p%d' % k, 's%d' % k]
                k += 1
                pending = None
        now = content(status_field(cfg, None, p, state['cs'], 'box'))
        used = status_field(cfg, None, p, state['cs'], 'used')
        if now != {VAR0[0]: F_(cur[0]), VAR0[1]: F_(cur[1])}:
            w = w or 'the box becomes %s' % {show(a): show(b)[:40] for a, b in (now or {}).items()}
        if is_coll(used) and k and F_('f') not in [canon(x) for x in used[2]]:
            w = w or 'the formula is not recorded'
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


EPS, INNER = 0.5, 0.25


def judged(e, want, label):
    """A formula given to the counterexample search: it must be the strengthened negation of the matrix, or a part of it."""
    t = e
    part = None
    if isinstance(t, tuple) and t[:1] == ('elem',):
        part, t = t[2], t[1]
        t = t[1] if t[:1] == ('fld',) else t
    if isinstance(t, tuple) and t[:2] == ('app', 'x.nnf'):
        t = t[2]
    if not (isinstance(t, tuple) and t[:1] == ('app',) and t[1] in ('x.DeltaStrengthen', 'x.DeltaWeaken')):
        return part, ('undecided' if 'x.Delta' in str(e) or F_('q') not in (e, t) else 'the search is given %s' % show(e)[:80]) if "'q'" in str(e) else 'the search is given %s' % show(e)[:80]
    if t[2] == ('app', 'x.nnf', ('app', 'F.!', F_('q'))) or t[2] == ('app', 'F.!', F_('q')):
        d = float(lit(t[3])) if is_lit(t[3]) else None
        if d is None:
            return part, 'undecided'
        d = d if t[1] == 'x.DeltaStrengthen' else -d
        return part, None if d == EPS else 'the negated matrix is strengthened by %g, not %g' % (d, EPS)
    if t[2] == F_('q') or t[2] == ('app', 'x.nnf', F_('q')):
        return part, 'the matrix is given to the search, not its negation'
    return part, 'undecided'


def construct(env, cls, conj):
    """Setting up the counterexample search."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(cls + '::(ctor)(') and sum(1 for a in x['params'] if strip_type(a['type']) == 'double') == 2)
    r = Result('search of %s, a %s' % (cls.split('::')[-1].split('<')[0] if '<' not in cls else 'ContractorForall', 'conjunction' if conj else 'disjunction'), f)
    cfg = ForallCfg(env)
    cfg.asserts_abort = False
    cfg.max_loop = 4
    S = ('app', 'x.DeltaStrengthen', ('app', 'F.!', F_('q')), ('flt', EPS))
    cfg.kinds_restrict = {F_('f'): {'Forall'}, F_('q'): {'Or' if conj else 'Gt'}}
    for t in (('app', 'x.nnf', S), S):
        cfg.kinds_restrict[t] = {'And'} if conj else {'Or', 'Gt'}
    ctx_cls = cls != FFE

    def setup(I):
        this, args = setup_for(f)(I)
        for x in ('f', 'q'):
            I.types[F_(x)] = FORM
        d = [('flt', EPS), ('flt', INNER)]
        for i, a in enumerate(f['params']):
            t = strip_type(a['type'])
            if t == FORM:
                args[i] = F_('f') if '&' not in a['type'] else I.new_root(F_('f'), 'f')
            elif t == 'double':
                args[i] = d.pop(0)
            elif t == 'int':
                args[i] = ('int', 1)
            elif t == BOX:
                args[i] = I.new_root(box_of(I, v0='b0', v1='b1'), 'box')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w, und = None, None
        prec = [e[2] for e in p.events if e[0] == 'set' and e[1] == F_('mutable_precision')]
        if not prec:
            w = 'the precision of the search is not set'
        elif not is_lit(prec[-1]):
            und = 'precision %s' % show(prec[-1])[:60]
        elif not 0 < float(lit(prec[-1])) < EPS:
            w = 'the precision of the search is %g, the strengthening %g' % (float(lit(prec[-1])), EPS)
        asserted = [e[1] for e in p.events if e[0] == 'Assert']
        parts, whole_ = set(), False
        for a in asserted:
            part, bad_ = judged(a, None, None)
            if bad_ == 'undecided':
                und = und or 'the search is given %s' % show(a)[:80]
            elif bad_:
                w = w or bad_
            whole_ = whole_ or part is None
            parts.add(part)
        if not whole_ and not parts >= {0, 1}:
            w = w or 'only a part of the negated matrix is given to the search'
        declared = {e[1] for e in p.events if e[0] == 'DeclareVariable'}
        need = set(BOUND) | set(VAR0[:2] if ctx_cls else FREE)
        if not need <= declared:
            w = w or 'the variable %s is not declared' % show(sorted(need - declared)[0])
        if [e for e in p.events if e[0] == 'Assert'] and p.events.index(next(e for e in p.events if e[0] == 'Assert')) < max([i for i, e in enumerate(p.events) if e[0] == 'DeclareVariable'] or [0]):
            w = w or 'a variable is declared after the formula is asserted'
        for e in p.events:
            if e[0] == 'generate':
                if 'F.!' in str(e[1]) or 'x.Delta' in str(e[1]):
                    w = w or 'the box is contracted with %s' % show(e[1])[:80]
                m = content(e[2])
                if m is not None and list(m) != VAR0[:3]:
                    w = w or 'the contractor is made for the variables %s' % [show(x) for x in m]
            if e[0] == 'refiner' and judged(e[1], None, None)[1] not in (None, 'undecided'):
                w = w or 'the refiner is given %s' % show(e[1])[:80]
        if w:
            bad(r, p, w)
        elif und:
            r.undecided.append('%s: %s' % (r.name, und))
        else:
            r.agree += 1
    return r


def precisions(env, which):
    """Strengthening below the precision, inner precision below the strengthening."""
    f = env.prog.one(DR + 'TheorySolver::' + which)
    r = Result('precisions in ' + which, f)
    cfg = TheoryCfg(env)
    cfg.kinds_restrict = {F_('f0'): {'Forall'}}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('f0')] = FORM
        for g in env.prog.classes[DR + 'TheorySolver']['fields']:
            if 'unordered_map' in g['type'][:20]:
                I.set_raw(this.sub(('f', g['name'])), coll('map', ()))
        for i, a in enumerate(f['params']):
            if 'vector<' in a['type']:
                args[i] = I.new_root(coll('vec', (F_('f0'),)), 'assertions')
            elif CS in a['type']:
                args[i] = ('ptr', make_status(I, cfg))
        return this, args
    seen = 0
    for p in Interp(env.prog, cfg).explore(f, setup, 1000):
        if not outcome_ok(r, p):
            continue
        for e in p.events:
            if e[0] in ('make_contractor_forall', 'make_forall_formula_evaluator'):
                d = precision_of(e)
                seen += 1
                if len(d) < 2:
                    r.undecided.append('%s: %s' % (r.name, [show(x)[:30] for x in e[1:]]))
                elif not 0 < d[1] < d[0] <= 1.0:
                    bad(r, p, 'for precision 1, the strengthening is %g and the inner precision %g' % (d[0], d[1]))
        r.agree += 1
    if not seen:
        r.undecided.append(r.name + ': nothing is made for a quantified formula')
    return r


def forwarded(env, what):
    """The factory and the thread-local variant hand over epsilon and the inner precision in their places."""
    r = None
    if what == 'factory':
        f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + 'make_contractor_forall<'))
        if 'Context' not in str(f.get('q', '')) and False:
            return None
    elif what == 'evaluator':
        f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + 'make_forall_formula_evaluator('))
    else:
        f = env.prog.one(CFM + '::GetCtcOrCreate')
    r = Result('precisions handed over by ' + f['n'], f)
    fields = {g['name']: strip_type(g['type']) for g in env.prog.classes[CFM]['fields']}

    class Cfg(ForallCfg):
        asserts_abort = False

        def build(self, I, cls, args):
            if cls in (CFA, CFM, FFE):
                a = [argv(I, x) for x in args]
                I.events.append(('made', a))
                I.types[F_('made')] = cls
                return F_('made')
            return ForallCfg.build(self, I, cls, args)

        def prim(self, I, ref):
            if ref['n'].startswith('make_') and ref['q'].startswith(DR):
                return CtcCfg.prim(self, I, ref)
            return ForallCfg.prim(self, I, ref)
    cfg = Cfg(env)
    
    def setup(I):
        this, args = setup_for(f)(I)
        d = [('flt', EPS), ('flt', INNER)]
        if this is not None and what == 'threads':
            for k, t in fields.items():
                if t == 'double':
                    I.set_raw(this.sub(('f', k)), d.pop(0))
                elif t.startswith('std::vector<int'):
                    I.set_raw(this.sub(('f', k)), coll('vec', (('int', 0),)))
                elif t.startswith('std::vector<'):
                    I.set_raw(this.sub(('f', k)), coll('vec', (NULL,)))
        for i, a in enumerate(f['params']):
            if strip_type(a['type']) == 'double':
                args[i] = d.pop(0)
            elif strip_type(a['type']) == BOX:
                args[i] = I.new_root(box_of(I, v0='b0', v1='b1'), 'box')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 300):
        if not outcome_ok(r, p):
            continue
        made = [e[1] for e in p.events if e[0] == 'made']
        d = [[float(lit(x)) for x in a if isinstance(x, tuple) and x[:1] == ('flt',)] for a in made]
        if not made or any(len(x) < 2 for x in d):
            r.undecided.append('%s: makes %s' % (r.name, [[show(y)[:30] for y in x] for x in made][:2]))
        elif any(x[:2] != [EPS, INNER] for x in d):
            bad(r, p, 'the strengthening and the inner precision become %s' % d[0])
        else:
            r.agree += 1
    return r


def generated(env, kind, poly):
    """The contractor of a matrix: relations by IBEX, conjunctions in sequence, disjunctions joined."""
    f = env.prog.one(DR + 'GenericContractorGenerator::Generate')
    r = Result('contractor of a matrix: %s%s' % (kind, ', polytope' if poly else ''), f)
    N = ('app', 'x.nnf', F_('q'))
    fld = ('fld', N, env.roles.field[('NaryFormulaCell', 's')])
    parts = [('elem', fld, i) for i in (0, 1)]

    class Cfg(ForallCfg):
        def prim(self, I, ref):
            if ref.get('cls') == DR + 'GenericContractorGenerator' or ref['fid'].startswith(DR + 'GenericContractorGenerator'):
                return TheoryCfg.prim(self, I, ref)
            if ref.get('cls') == DR + 'Config' and ref['n'] == 'use_polytope':
                return lambda *a: TRUE if poly else FALSE
            return ForallCfg.prim(self, I, ref)
    cfg = Cfg(env)
    cfg.kinds_restrict = {N: {kind}, parts[0]: {'Gt', 'Eq', 'Leq'}, parts[1]: {'Lt', 'Geq'}}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('q')] = FORM
        for i, a in enumerate(f['params']):
            if strip_type(a['type']) == FORM:
                args[i] = I.new_root(F_('q'), 'q')
            elif strip_type(a['type']) == BOX:
                args[i] = I.new_root(box_of(I, v0='b0', v2='b2'), 'box')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if p.outcome[0] == 'throw' and kind in ('False', 'Var', 'Not', 'Forall'):
            r.paths += 1
            r.agree += 1
            continue
        if p.outcome[0] == 'throw':
            r.paths += 1
            bad(r, p, 'it ends in %s' % (p.outcome[1],))
            continue
        if not outcome_ok(r, p):
            continue
        v = resolve(p, p.outcome[1])
        got = names_in(v, [])
        w = None
        if not isinstance(v, tuple) or v[:1] != ('app',):
            r.undecided.append('%s: gives %s' % (r.name, show(v)[:80]))
            continue
        ps = parts
        if kind in ('And', 'Or'):
            top = v[1]
            leaves = [t for t in got if 'ibex' in t[1]]
            if kind == 'Or' and 'join' not in top:
                w = 'the parts of a disjunction are not joined: %s' % top[2:]
            elif kind == 'And' and 'join' in str(v):
                w = 'the parts of a conjunction are joined'
            for x in ps:
                if not any(str(x) in str(t) for t in leaves):
                    if kind == 'Or':
                        w = w or 'the disjunct %s has no contractor: its solutions are lost' % show(x)[:60]
        elif kind not in ('True', 'False', 'Var', 'Not', 'Forall'):
            if not any('ibex' in t[1] and str(N) in str(t) for t in got):
                w = 'the relation has the contractor %s' % show(v)[:80]
        elif kind == 'True' and v[1] != 'x.make_contractor_id':
            w = 'true has the contractor %s' % v[1]
        elif kind == 'False':
            w = 'false has a contractor %s' % v[1]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def check_C09(c):
    env = make_env(c)
    jobs = [lambda w=w: evaluate(env, w) for w in (False, True)]
    jobs += [lambda: counterexample(env), lambda: search(env)]
    jobs += [lambda k=k, j=j: construct(env, k, j) for k in (CFA, FFE) for j in (True, False)]
    jobs += [lambda w=w: precisions(env, w) for w in ('BuildContractor', 'BuildFormulaEvaluator')]
    jobs += [lambda w=w: forwarded(env, w) for w in ('factory', 'threads', 'evaluator')]
    jobs += [lambda k=k, p=p: generated(env, k, p) for k in ('And', 'Or', 'Gt', 'Lt', 'Geq', 'Leq', 'Eq', 'Neq', 'True', 'False') for p in (False, True)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For a quantified constraint, 0 < inner precision < strengthening <= precision at every place that chooses them, and both arrive in their places; the search for counterexamples is given exactly the '
                   'negated matrix, strengthened by that amount, with that precision, over the current box of the existential variables; without a counterexample the formula is valid, with one it is never '
                   'unsatisfiable; pruning uses the un-negated matrix, the current existential box and a part of the counterexample for the universal variables, and only what it leaves changes the box. Every '
                   'disjunct of the matrix takes part in the union, every relation is contracted by itself.')
    c.assumptions += ['strengthening and negation of formulas are S properties', 'matrices of two parts, boxes of two existential variables and one universal one', 'the refiner is C14']
    return n
