"""The solving context (C01, C02, C03): push and pop, verdicts, and what reaches the Boolean solver."""
import itertools
import extract
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from props_c import IvalCfg, argv, DR, inst_of, nothing
from props_ctc import ivals, preset, CtcCfg, PlainCfg, CTC, CS, BOX, VAR0, make_status, status_field, outcome_ok, bad, decided

CTX, SAT, TH = DR + 'Context', DR + 'SatSolver', DR + 'TheorySolver'
IMPL = CTX + '::Impl'
FAR = DR + 'FilterAssertionResult'


def path_of(lv):
    return '.'.join(str(s[1]) for s in lv.path if s[0] == 'f')


def is_scoped(t):
    return strip_type(t).startswith(DR + 'Scoped')


def scoped_fields(prog, cls, pre=()):
    out = []
    for f in prog.classes[cls]['fields']:
        t = strip_type(f['type'])
        if is_scoped(t):
            out.append('.'.join(pre + (f['name'],)))
        elif t in (SAT,):
            out += scoped_fields(prog, t, pre + (f['name'],))
    return out


class ScopeCfg(CtcCfg):
    """Scoped containers and the SAT solver as recorders of push and pop."""
    asserts_abort = False

    def prim(self, I, ref):
        n, cls, q = ref['n'], ref.get('cls') or '', ref['q']
        if cls.startswith(DR + 'Scoped') and n in ('push', 'pop', 'push_back', 'last', 'size', 'empty', 'insert', 'clear', 'get_vector', 'begin', 'end', 'find', 'count', 'first'):
            def call(I, n_, ref, obj, args):
                w = path_of(obj)
                if n in ('last', 'size', 'empty', 'get_vector', 'find', 'count', 'first', 'begin', 'end'):
                    t = ('app', 'x.' + n, ('sym', w))
                    I.types[t] = strip_type(ref['ret'])
                    return t if n != 'last' else I.new_root(t, 'last')
                I.events.append((n, w) + tuple(argv(I, a) for a in args))
                return VOID
            return call
        if n.startswith('picosat_'):
            def pico(I, n_, ref, obj, args):
                I.events.append((n,))
                return ('app', 'x.' + n)
            return pico
        return CtcCfg.prim(self, I, ref)


def whole(env, op):
    """Push and Pop of the whole context: every scoped component, and the SAT solver, once."""
    f = env.prog.one(IMPL + '::' + op)
    r = Result('%s of the whole context' % op, f)
    want = sorted(scoped_fields(env.prog, IMPL)) + ['<sat>']
    boxes = [x['name'] for x in env.prog.classes[IMPL]['fields'] if is_scoped(x['type']) and DR + 'Box' in x['type']]
    used = next((x['name'] for x in env.prog.classes[SAT]['fields'] if strip_type(x['type']) == 'bool'), None)
    satf = next(x['name'] for x in env.prog.classes[IMPL]['fields'] if strip_type(x['type']) == SAT)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        if used:
            I.set_raw(this.sub(('f', satf)).sub(('f', used)), FALSE)
        state['this'] = this
        return this, args
    for p in Interp(env.prog, ScopeCfg(env)).explore(f, setup, 200):
        if not outcome_ok(r, p):
            continue
        v = op.lower()
        got = sorted([e[1] for e in p.events if e[0] == v]) + ['<sat>'] * sum(1 for e in p.events if e[0] == 'picosat_' + v)
        other = [e for e in p.events if e[0] in ('insert', 'clear') or e[0] in ('push', 'pop', 'picosat_push', 'picosat_pop') and e[0] not in (v, 'picosat_' + v)]
        w = None
        for x in set(want) - set(got):
            w = '%s is not %sed' % (x, v)
        for x in set(got):
            if got.count(x) > 1:
                w = '%s is %sed twice' % (x, v)
        if other and not w:
            w = 'it also does %s' % (other[0],)
        adds = [e for e in p.events if e[0] == 'push_back']
        if not w and op == 'Push':
            for b in boxes:
                mine = [e for e in adds if e[1] == b]
                if len(mine) != 1 or p.events.index(mine[0]) < p.events.index(('push', b)):
                    w = 'the new level of %s has no box of its own' % b
                elif mine[0][2] != ('app', 'x.last', ('sym', b)):
                    w = 'the new level of %s starts from %s' % (b, show(mine[0][2])[:80])
            if [e for e in adds if e[1] not in boxes]:
                w = 'something is added'
        elif not w and adds:
            w = 'something is added'
        if not w and op == 'Pop' and used:
            h = canon(p.heap.get(state['this'].root))
            try:
                h = dict(h[3])[satf]
                flag = canon(dict(h[3])[used])
            except (TypeError, KeyError, IndexError):
                flag = None
            if flag is None:
                r.undecided.append('%s: the flag %s' % (r.name, used))
                continue
            if flag != TRUE:
                w = 'the flag %s is %s: the next check would use partial assignments after a pop' % (used, show(flag))
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def levels(env, op, n):
    """Context::Push(n) and Pop(n): n levels, or an exception when n is not positive."""
    f = env.prog.one(CTX + '::' + op)
    r = Result('%s(%d)' % (op, n), f)

    class Cfg(CtcCfg):
        asserts_abort = False

        def prim(self, I, ref):
            if ref.get('cls') == IMPL:
                def call(I, n_, ref, obj, args):
                    I.events.append(('level', ref['n']))
                    return VOID
                return call
            return CtcCfg.prim(self, I, ref)

    def setup(I):
        this, args = setup_for(f)(I)
        args[0] = ('int', n)
        impl = I.new_root(('sym', 'impl'), 'impl')
        I.types[('sym', 'impl')] = IMPL
        I.set_raw(this.sub(('f', env.prog.classes[CTX]['fields'][0]['name'])), ('ptr', impl))
        return this, args
    for p in Interp(env.prog, Cfg(env)).explore(f, setup, 200):
        if n <= 0 and p.outcome[0] in ('throw', 'abort') and not p.events:
            r.paths += 1
            r.agree += 1
            continue
        if not outcome_ok(r, p):
            continue
        got = [e[1] for e in p.events if e[0] == 'level']
        if n <= 0:
            if got:
                bad(r, p, '%d levels' % len(got))
            else:
                r.agree += 1
        elif got != [op] * n:
            bad(r, p, 'the calls are %s' % got)
        else:
            r.agree += 1
    return r


def check_C03(c):
    env = make_env(c)
    jobs = [lambda o=o: whole(env, o) for o in ('Push', 'Pop')]
    jobs += [lambda o=o, n=n: levels(env, o, n) for o in ('Push', 'Pop') for n in (-1, 0, 1, 2, 3)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Pushing (popping) a level pushes (pops) every backtrackable component of the context and of its Boolean solver, found from their types, and PicoSAT itself, exactly once; the new level '
                   'starts from a copy of the current box; after a pop, partial assignments are not used. Push(n) and Pop(n) do so n times and reject n <= 0.')
    c.assumptions += ['the backtrackable containers themselves are decided by the U properties', 'PicoSAT restores its own clauses']
    return n


# ---------------------------------------------------------------- C02: what reaches the Boolean solver

def F_(x):
    return ('sym', x)


class SatCfg(CtcCfg):
    """A Boolean solver with real variable maps; PicoSAT records its input."""
    asserts_abort = False
    max_loop = 12

    def __init__(self, env, shapes, clauses=(), tseitin=()):
        CtcCfg.__init__(self, env)
        self.clauses, self.tseitin = clauses, tseitin
        self.free, self.lits, self.kinds_restrict, self.alias = {}, {}, {}, {}
        nary, fv, ov = env.roles.field[('NaryFormulaCell', 's')], env.roles.field[('FormulaVar', 'var')], env.roles.field[('FormulaNot', 'f')]

        def literal(t, positive):
            top = t
            self.kinds_restrict[t] = {'Var'} if positive else {'Not'}
            if not positive:
                t = ('fld', t, ov)
                self.kinds_restrict[t] = {'Var'}
            v, neg = ('fld', t, fv), ('app', 'F.!', top)
            # the negation of a literal is the other literal of its variable
            self.kinds_restrict[neg] = {'Not'} if positive else {'Var'}
            if positive:
                neg = ('fld', neg, ov)
                self.kinds_restrict[neg] = {'Var'}
            self.alias[('fld', neg, fv)] = v
            return v, positive
        for name, shape in shapes.items():
            t = ('app', 'x.abs', F_(name))
            if isinstance(shape, bool):
                self.lits[name] = [literal(t, shape)]
            else:
                self.kinds_restrict[t] = {'Or'}
                self.lits[name] = [literal(('elem', ('fld', t, nary), i), s) for i, s in enumerate(shape)]
                self.size_of = getattr(self, 'size_of', {})
                self.size_of[('fld', t, nary)] = len(shape)
            self.free[t] = [v for v, _ in self.lits[name]]
        self.distinct = CtcCfg.distinct | {v for ls in self.lits.values() for v, _ in ls} | {F_(x) for x in shapes}

    def known_eq(self, I, a, b):
        def strip(t):
            t = t[2] if t[:2] == ('app', 'V.id') else t
            return self.alias.get(t, t)
        if strip(a) in self.distinct and strip(b) in self.distinct:
            return strip(a) == strip(b)
        return CtcCfg.known_eq(self, I, a, b)

    def sizes(self, I, t, kind):
        n = getattr(self, 'size_of', {}).get(t)
        return [n] if n is not None else CtcCfg.sizes(self, I, t, kind)

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if n.startswith('picosat_'):
            def pico(I, n_, ref, obj, args):
                a = [argv(I, x) for x in args]
                if n == 'picosat_add':
                    I.events.append(('add', a[1]))
                    return ('int', 0)
                if n == 'picosat_inc_max_var':
                    k = 11 + sum(1 for e in I.events if e[0] == 'var')
                    I.events.append(('var', k))
                    return ('int', k)
                return self.pico(I, n, a)
            return pico
        if cls == DR + 'PredicateAbstractor' and n == 'Convert':
            def conv(I, n_, ref, obj, args):
                a = argv(I, args[0])
                if is_coll(a):
                    return DECLINE
                t = ('app', 'x.abs', a)
                I.types[t] = FORM
                return t
            return conv
        if cls == DR + 'TseitinCnfizer' and n == 'Convert':
            return lambda I, n_, ref, obj, args: coll('vec', tuple(F_(x) for x in self.clauses))
        if cls == DR + 'TseitinCnfizer' and n == 'map':
            def tmap(I, n_, ref, obj, args):
                return I.new_root(coll('map', tuple(('pair', v, F_('def')) for v in self.tseitin)), 'map')
            return tmap
        if n == 'GetFreeVariables':
            def free(I, n_, ref, obj, args):
                v = argv(I, obj)
                if v not in self.free:
                    return DECLINE
                return I.new_root(variables_of(self.env, self.free[v]), 'free')
            return free
        return CtcCfg.prim(self, I, ref)

    def pico(self, I, n, a):
        I.events.append((n,) + tuple(a[1:]))
        return ('app', 'x.' + n) + tuple(a[1:])


def variables_of(env, vs):
    cls = next(c for c in env.prog.classes if c.endswith('symbolic::Variables'))
    return ('inst', cls, None, tuple((f['name'], coll('set', tuple(vs))) for f in env.prog.classes[cls]['fields']))


def ID(v):
    return ('app', 'V.id', v)


def solver(I, env, this, known):
    """Set up the variable maps of a Boolean solver that knows the given variables."""
    prog = env.prog
    for f in prog.classes[SAT]['fields']:
        t = strip_type(f['type'])
        if not is_scoped(t):
            continue
        inner = []
        a = template_args(t)
        for g in prog.classes[t]['fields']:
            if 'unordered_map' in g['type'][:25]:
                if strip_type(a[0]) == 'int':
                    v = coll('map', tuple(('pair', ('int', k), x) for x, k in known))
                else:
                    v = coll('map', tuple(('pair', ID(x), ('int', k)) for x, k in known))
            elif 'unordered_set' in g['type'][:25]:
                v = coll('set', ())
            else:
                v = coll('vec', ())
            inner.append((g['name'], v))
        I.set_raw(this.sub(('f', f['name'])), ('inst', t, None, tuple(inner)))


def maps_of(env, p, this):
    """The pairs variable -> number and number -> variable, and the temporary variables."""
    h = dict(canon(p.heap[this.root])[3])
    out = [None, None, None]
    for f in env.prog.classes[SAT]['fields']:
        t = strip_type(f['type'])
        if not is_scoped(t):
            continue
        x = canon(h[f['name']])
        for k, v in x[3]:
            g = next(g for g in env.prog.classes[t]['fields'] if g['name'] == k)
            v = canon(v)
            if 'unordered_map' in g['type'][:25]:
                out[1 if strip_type(template_args(t)[0]) == 'int' else 0] = [(canon(e[1]), canon(e[2])) for e in v[2]]
            elif 'unordered_set' in g['type'][:25]:
                out[2] = [canon(e) for e in v[2]]
    return out


def given(env, label, entry, shapes, known=(), clauses=(), tseitin=()):
    """The literals PicoSAT is given for a clause, a formula or a conflict."""
    f = env.prog.one(SAT + '::' + entry)
    r = Result('%s %s' % (entry, label), f)
    cfg = SatCfg(env, shapes, clauses, [cfg_v(shapes, env, x) for x in tseitin])
    allv = [v for n in sorted(shapes) for v, _ in cfg.lits[n]]
    pre = [(allv[i], 5 + i) for i in known]
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        for v in allv:
            I.types[v] = VAR
        for t in cfg.kinds_restrict:
            I.types[t] = FORM
        for x in list(shapes) + ['g']:
            I.types[F_(x)] = FORM
        solver(I, env, this, pre)
        state['this'] = this
        ty = strip_type(f['params'][0]['type'])
        if 'set<' in ty or 'vector<' in ty:
            args[0] = I.new_root(coll('set' if 'set<' in ty else 'vec', tuple(F_(x) for x in shapes)), 'given')
        return this, args
    learned = entry == 'AddLearnedClause'
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w = None
        nums = dict(pre)
        try:
            by_id, by_num, temps = maps_of(env, p, state['this'])
        except (KeyError, TypeError, StopIteration, IndexError):
            r.undecided.append('%s: the variable maps' % r.name)
            continue
        var = {}
        for k, v in by_id or ():
            var[k[2] if k[:2] == ('app', 'V.id') else k] = v
        seq = [e[1] for e in p.events if e[0] == 'add']
        if any(not is_lit(x) for x in seq):
            r.undecided.append('%s: adds %s' % (r.name, show(next(x for x in seq if not is_lit(x)))[:80]))
            continue
        seq = [int(lit(x)) for x in seq]
        for v, k in pre:
            if var.get(v) != ('int', k):
                w = 'the number of a known variable becomes %s' % show(var.get(v))
        if any(v not in var for v in allv):
            w = w or 'a variable has no number'
        elif len(set(var.values())) != len(var):
            w = w or 'two variables share a number'
        elif sorted((b, a) for a, b in var.items()) != sorted(by_num):
            w = w or 'the maps are not inverse: %s and %s' % (sorted(var.items()), by_num)
        if not w:
            nums = {v: int(lit(k)) for v, k in var.items()}
            if seq and seq[-1] != 0:
                w = 'the last clause is not ended'
            got, cur = [], []
            for x in seq:
                if x == 0:
                    got.append(frozenset(cur))
                    cur = []
                else:
                    cur.append(x)
            if learned:
                want = [frozenset(nums[v] * (-1 if s else 1) for n in shapes for v, s in cfg.lits[n])]
            else:
                want = [frozenset(nums[v] * (1 if s else -1) for v, s in cfg.lits[n]) for n in shapes]
            if not w and sorted(map(sorted, got)) != sorted(map(sorted, want)):
                w = 'PicoSAT is given %s, not %s' % ([sorted(x) for x in got], [sorted(x) for x in want])
        if not w and tseitin and not set(ID(v) for v in cfg.tseitin) <= set(temps or ()):
            w = 'a variable introduced by the clause conversion is not remembered as temporary'
        if not w and temps and set(temps) - set(ID(v) for v in cfg.tseitin):
            w = '%s is remembered as temporary' % show(temps[0])
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def cfg_v(shapes, env, x):
    return SatCfg(env, shapes).lits[x][0][0]


def check_C02(c):
    env = make_env(c)
    T, N = True, False
    jobs = []
    for a, b in itertools.product((T, N), (T, N)):
        jobs.append(lambda a=a, b=b: given(env, 'of %d%d' % (a, b), 'AddLearnedClause', {'f0': a, 'f1': b}, known=(0, 1)))
        for known in ((), (0,), (0, 1)):
            jobs.append(lambda a=a, b=b, k=known: given(env, 'a disjunction of %d%d, %d known' % (a, b, len(k)), 'AddFormula', {'f0': (a, b)}, known=k, clauses=('f0',)))
    for a in (T, N):
        jobs.append(lambda a=a: given(env, 'of one, %d' % a, 'AddLearnedClause', {'f0': a}, known=(0,)))
        jobs.append(lambda a=a: given(env, 'a literal %d' % a, 'AddFormula', {'f0': a}, clauses=('f0',)))
        jobs.append(lambda a=a: given(env, 'two clauses, %d' % a, 'AddFormula', {'f0': a, 'f1': (T, N, a)}, clauses=('f0', 'f1'), tseitin=('f0',)))
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For a conflict, PicoSAT is given one clause: the negation of every literal of the explanation under the number of the variable that abstracts it, ended by 0. For a formula it is given every clause '
                   'of its conversion, with every literal under its polarity; every variable gets a number of its own before it is used, known ones keep theirs, both maps stay inverse, and exactly the variables '
                   'the conversion introduced are temporary.')
    c.assumptions += ['the clause conversion and the abstraction of atoms are the T properties', 'clauses of up to three literals, conflicts of up to two', 'the literals of a conflict have numbers: they come from a model of the same solver']
    return n


# ---------------------------------------------------------------- C01: verdicts

B_ = [('sym', 'b0'), ('sym', 'b1')]


class CoreCfg(PlainCfg):
    """The refinement loop: the Boolean solver and the theory solver answer freely."""
    asserts_abort = False
    max_loop = 12

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if cls.startswith('tl::') and n in ('operator bool', 'has_value'):
            def has(I, n_, ref, obj, args):
                v = argv(I, obj)
                return DECLINE if not isinstance(v, tuple) or v[:1] not in (('some',), ('none',)) else TRUE if v[0] == 'some' else FALSE
            return has
        if cls == SAT and n == 'CheckSat':
            def sat(I, n_, ref, obj, args):
                k = sum(1 for e in I.events if e[0] == 'sat')
                if k >= 3:
                    raise AbortEx('enough')
                m = MODELS[I.choose(len(MODELS), 'model')]
                I.events.append(('sat', k, m))
                if m is None:
                    return ('none',)
                one = lambda vs: coll('vec', tuple(('pair', VAR0[i], TRUE if b else FALSE) for i, b in vs))
                return ('some', ('pair', one(m[0]), one(m[1])))
            return sat
        if cls == SAT and n == 'theory_literal':
            def literal(I, n_, ref, obj, args):
                t = ('app', 'x.lit', argv(I, args[0]))
                I.types[t] = FORM
                return t
            return literal
        if cls == SAT and n in ('AddLearnedClause', 'AddFormula', 'AddFormulas', 'Push', 'Pop'):
            def learn(I, n_, ref, obj, args):
                I.events.append((n,) + tuple(argv(I, a) for a in args))
                return VOID
            return learn
        if cls == TH:
            def theory(I, n_, ref, obj, args):
                k = sum(1 for e in I.events if e[0] == 'theory')
                if n == 'CheckSat':
                    t = self.fresh(I, 'accepts', ('int', k))
                    I.events.append(('theory', t, argv(I, args[0]), argv(I, args[1])))
                    return t
                t = ('app', 'x.' + n, ('int', k - 1))
                I.types[t] = strip_type(ref['ret'])
                return I.new_root(t, n)
            return theory
        return PlainCfg.prim(self, I, ref)


#: what the Boolean solver may answer: the Boolean and the theory literals
MODELS = [None, ((), ()), (((0, True),), ()), (((0, False),), ((2, True), (3, False))), ((), ((2, False),))]
STACKS = {'no assertion': (), 'true': ('True',), 'false': ('False',), 'a relation': ('Gt',), 'a relation and false': ('Gt', 'False'), 'true and a relation': ('True', 'Gt')}


def point(b):
    return ('app', 'iv.pt', ('flt', 1.0 if b else 0.0))


def same_box(b, allowed):
    if not is_coll(b) or len(b[2]) != len(allowed):
        return False
    norm = lambda t: ('pt', float(lit(t[2]))) if isinstance(t, tuple) and t[:2] == ('app', 'iv.pt') and is_lit(t[2]) else t
    return all(norm(canon(x)) in [norm(a) for a in ok] for x, ok in zip(b[2], allowed))


def core(env, label):
    """The verdict of the refinement loop on every sequence of answers."""
    f = env.prog.one(IMPL + '::CheckSatCore')
    r = Result('verdict for ' + label, f)
    cfg = CoreCfg(env)
    names = ['g%d' % i for i in range(len(STACKS[label]))]
    cfg.kinds_restrict = {F_(x): {k} for x, k in zip(names, STACKS[label])}
    false, trivial = 'False' in STACKS[label], all(k == 'True' for k in STACKS[label])

    def setup(I):
        this, args = setup_for(f)(I)
        for x in names:
            I.types[F_(x)] = FORM
        for v in VAR0:
            I.types[v] = VAR
        for b in B_:
            I.types[b] = 'ibex::Interval'
        for i, a in enumerate(f['params']):
            t = strip_type(a['type'])
            if is_scoped(t):
                vecf = next(g['name'] for g in env.prog.classes[t]['fields'] if FORM in g['type'])
                args[i] = I.new_root(('inst', t, None, tuple((g['name'], coll('vec', tuple(F_(x) for x in names) if g['name'] == vecf else ())) for g in env.prog.classes[t]['fields'])), 'stack')
            elif t == DR + 'Box':
                args[i] = coll('vec', tuple(B_)) if '&' not in a['type'] else I.new_root(coll('vec', tuple(B_)), 'box')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 6000):
        if not outcome_ok(r, p):
            continue
        w = None
        values = [[B_[0]], [B_[1]]]
        empty = decided(p, ('app', 'iv.is_empty', B_[0]))
        last, pending = None, None      # the last model; what must follow it
        verdict = None
        for e in p.events:
            if e[0] == 'sat':
                if pending:
                    w = w or 'the Boolean solver is asked again before %s' % pending
                last, verdict = e[2], None
                if last:
                    for i, b in last[0]:
                        values[i] = [point(b)]
                    pending = 'the theory solver has seen its model' if last[1] else 'its model is given'
            elif e[0] == 'theory':
                want = sorted(str(('app', 'x.lit', VAR0[i]) if b else ('app', 'F.!', ('app', 'x.lit', VAR0[i]))) for i, b in (last[1] if last else ()))
                if not is_coll(e[3]):
                    r.undecided.append('%s: literals %s' % (r.name, show(e[3])[:80]))
                    continue
                got = sorted(str(canon(x)) for x in e[3][2])
                if got != want:
                    w = w or 'the theory solver is given %s for the model %s' % ([show(canon(x)) for x in e[3][2]], last)
                if not same_box(e[2], values):
                    w = w or 'the theory solver is given the box %s' % show(e[2])[:120]
                verdict = (e[1], decided(p, e[1]))
                if verdict[1] is None:
                    w = w or 'the verdict of the theory solver is not used'
                pending = None if verdict[1] else 'the conflict is learned'
            elif e[0] == 'AddLearnedClause':
                if not verdict or verdict[1] or e[1] != ('app', 'x.GetExplanation', verdict[0][2]):
                    w = w or 'it learns %s%s' % (show(e[1])[:80], '' if verdict else ' without a conflict')
                elif pending is None:
                    w = w or 'a conflict is learned twice'
                pending = None
            else:
                w = w or 'it calls %s' % e[0]
        v = canon(p.outcome[1])
        none = nothing(v)
        got = v[1] if v[:1] == ('some',) else v
        if isinstance(got, LV):
            got = canon(p.heap.get(got.root))
        asked = [e for e in p.events if e[0] == 'sat']
        if none:
            if not (empty or false or asked and last is None):
                w = w or 'it answers unsatisfiable [events %s]' % [e[:2] for e in p.events]
        else:
            if empty is not False:
                w = w or 'it gives a model of a box that may be empty'
            elif false:
                w = w or 'it gives a model although false is asserted'
            elif not asked:
                if not trivial or not same_box(got, values):
                    w = w or 'it gives the model %s without asking the Boolean solver' % show(got)[:80]
            elif last is None:
                w = w or 'it gives a model after the Boolean solver found none'
            elif pending and 'seen' in pending:
                w = w or 'it gives a model before %s' % pending
            elif last[1]:
                if not verdict or not verdict[1]:
                    w = w or 'it gives a model the theory solver rejected'
                elif got != ('app', 'x.GetModel', verdict[0][2]):
                    w = w or 'the model is %s, not the one of the theory solver' % show(got)[:80]
            elif not same_box(got, values):
                w = w or 'the model is %s, the box should be %s' % (show(got)[:80], values)
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


class ModelCfg(SatCfg):
    """PicoSAT with four variables: an abstracted atom, a temporary, a Boolean variable, and one that is gone."""

    def __init__(self, env):
        SatCfg.__init__(self, env, {})

    def pico(self, I, n, a):
        if n == 'picosat_sat':
            k = (10, 20, 0)[I.choose(3, 'answer')]
            I.events.append(('answer', k))
            return ('int', k)
        if n == 'picosat_variables':
            return ('int', 4)
        if n in ('picosat_deref', 'picosat_deref_partial') and len(a) == 2 and is_lit(a[1]):
            i = int(lit(a[1]))
            old = next((e for e in I.events if e[0] == 'deref' and e[2] == i), None)
            v = old[3] if old else (-1, 0, 1)[I.choose(3, 'value')]
            I.events.append(('deref', n, i, v))
            return ('int', v)
        return ('app', 'x.' + n) + tuple(a[1:])

    def prim(self, I, ref):
        if ref['n'] == 'var_to_formula_map':
            return lambda I, n_, ref, obj, args: I.new_root(coll('map', (('pair', VAR0[0], F_('g')),)), 'map')
        return SatCfg.prim(self, I, ref)


def model(env, popped):
    """The model of the Boolean solver: every assigned variable with its polarity, split by what it stands for."""
    f = env.prog.one(SAT + '::CheckSat')
    r = Result('model of the Boolean solver%s' % (' after a pop' if popped else ''), f)
    used = next((x['name'] for x in env.prog.classes[SAT]['fields'] if strip_type(x['type']) == 'bool'), None)

    def setup(I):
        this, args = setup_for(f)(I)
        for v in VAR0:
            I.types[v] = VAR
        solver(I, env, this, [(VAR0[0], 1), (VAR0[1], 2), (VAR0[2], 4)])
        for g in env.prog.classes[SAT]['fields']:
            t = strip_type(g['type'])
            if is_scoped(t) and 'Set' in t[:30]:
                s = next(h['name'] for h in env.prog.classes[t]['fields'] if 'unordered_set' in h['type'][:25])
                I.set_raw(this.sub(('f', g['name'])).sub(('f', s)), coll('set', (ID(VAR0[1]),)))
        if used:
            I.set_raw(this.sub(('f', used)), TRUE if popped else FALSE)
        return this, args
    for p in Interp(env.prog, ModelCfg(env)).explore(f, setup, 6000):
        answer = next((e[1] for e in p.events if e[0] == 'answer'), None)
        if p.outcome[0] in ('throw', 'abort') and answer == 0:
            r.paths += 1
            r.agree += 1
            continue
        if not outcome_ok(r, p):
            continue
        if p.outcome[0] == 'ret' and answer is None:
            r.undecided.append('%s: PicoSAT is not asked' % r.name)
            continue
        w = None
        v = canon(p.outcome[1])
        none = nothing(v)
        if answer != 10 or none:
            if not none or answer != 20:
                w = 'it gives %s when PicoSAT answers %d' % ('no model' if none else 'a model', answer)
        else:
            v = v[1] if v[:1] == ('some',) else v
            n = 0
            while isinstance(v, LV) and n < 4:
                v, n = p.heap.get(v.root), n + 1
            v = canon(v)
            try:
                got = [[(canon(x)[1], canon(x)[2]) for x in canon(y)[2]] for y in v[1:3]]
            except (TypeError, IndexError):
                r.undecided.append('%s: the model is %s' % (r.name, show(v)[:100]))
                continue
            val = {e[2]: e[3] for e in p.events if e[0] == 'deref'}
            want = [[(VAR0[2], TRUE if val.get(4) == 1 else FALSE)] if val.get(4) else [], [(VAR0[0], TRUE if val.get(1) == 1 else FALSE)] if val.get(1) else []]
            if 1 not in val or 4 not in val:
                w = 'it does not ask for the value of a variable'
            elif got != want:
                w = 'the model is %s, not %s, for %s' % (show(v)[:120], want, val)
            elif popped and any(e[1] != 'picosat_deref' for e in p.events if e[0] == 'deref'):
                w = 'partial assignments are used after a pop'
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


class TheoryCfg(CtcCfg):
    """The theory solver over opaque boxes; its parts answer freely."""
    asserts_abort = True
    cut = ()
    jobs = ('sym', 'jobs')

    def known_eq(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if x == ('app', 'x.nothing') and y[:2] == ('app', 'x.filtered') and decided_in(I, ('app', 'x.empty', y)) is False:
                return False
        return CtcCfg.known_eq(self, I, a, b)

    def prim(self, I, ref):
        n, cls, q, op = ref['n'], ref.get('cls') or '', ref['q'], ref.get('op')
        if cls.startswith('tl::') and n in ('operator bool', 'has_value'):
            def has(I, n_, ref, obj, args):
                v = argv(I, obj)
                return DECLINE if not isinstance(v, tuple) or v[:1] not in (('some',), ('none',)) else TRUE if v[0] == 'some' else FALSE
            return has
        if cls == DR + 'Config':
            def conf(I, n_, ref, obj, args):
                if n == 'precision':
                    return ('flt', 1.0)
                if n == 'number_of_jobs':
                    return self.jobs
                if strip_type(ref['ret']) == 'bool':
                    if n.startswith('dump'):
                        return FALSE
                    return self.fresh(I, 'config', ('sym', n))
                return DECLINE
            return conf
        if q == DR + 'FilterAssertion':
            def filt(I, n_, ref, obj, args):
                g = argv(I, args[0])
                box = I.deref(args[1])
                old = argv(I, box)
                k = ('NotFiltered', 'NotFiltered', 'FilteredWithChange', 'FilteredWithoutChange')
                i = I.choose(4, 'filter')
                I.events.append(('filter', g, k[i], i in (1, 2)))
                if i in (1, 2):
                    I.set(box, self.fresh(I, 'filtered', g, old, ty=BOX))
                return ('enum', FAR + '::' + k[i], FAR, next(c['val'] for c in self.env.prog.enums[FAR]['consts'] if c['name'] == k[i]))
            return filt
        if n.startswith(('make_contractor_', 'make_forall_formula_evaluator', 'make_relational_formula_evaluator')) and q.startswith(DR):
            def make(I, n_, ref, obj, args):
                a = []
                for x in args:
                    v = argv(I, x)
                    a.append(v if isinstance(v, tuple) else ('sym', '?'))
                t = ('app', 'x.' + n) + tuple(a)
                I.types[t] = strip_type(ref['ret'])
                I.events.append((n,) + tuple(a))
                return t
            return make
        if cls == TH and n in self.cut:
            return self.cut[n]
        if cls in (DR + 'Icp', DR + 'IcpSeq', DR + 'IcpParallel') and n == 'CheckSat':
            def icp(I, n_, ref, obj, args):
                cs = I.deref(args[2])
                box = cs.sub(('f', self.status['box']))
                I.events.append(('icp', argv(I, args[0]), argv(I, args[1]), argv(I, box), cs.root))
                I.set(box, self.fresh(I, 'icp', argv(I, box), ty=BOX))
                return self.fresh(I, 'verdict')
            return icp
        if cls == CS and n == 'Explanation':
            def why(I, n_, ref, obj, args):
                t = ('app', 'x.why', argv(I, obj.sub(('f', self.status['box']))))
                I.types[t] = strip_type(ref['ret'])
                return t
            return why
        if op in ('==', '!=') and len(ref['pt']) == 2 and all(strip_type(x) == BOX for x in ref['pt']):
            def eq(I, n_, ref, obj, args):
                a, b = [argv(I, x) for x in args]
                return TRUE if (a == b) == (op == '==') else FALSE
            return eq
        if 'DumpTheoryLiterals' in q or 'DumpTheoryLiterals' in cls or 'DumpTheoryLiterals' in ref['fid']:
            return lambda I, n_, ref, obj, args: VOID
        return CtcCfg.prim(self, I, ref)


def decided_in(I, t):
    return next((b for a, b in getattr(I, 'facts', ()) if a == t), None)


def status_ptr(f, args, cs):
    for i, a in enumerate(f['params']):
        if CS in a['type'] and '*' in a['type']:
            args[i] = ('ptr', cs)


def theory_fields(env, I, this, cached=()):
    for g in env.prog.classes[TH]['fields']:
        if 'unordered_map' in g['type'][:20]:
            what = 'contractor' if DR + 'Contractor' in g['type'] else 'evaluator'
            I.set_raw(this.sub(('f', g['name'])), coll('map', tuple(('pair', x, ('app', 'x.cached', F_(what), x)) for x in cached)))


def names_in(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('app',) and isinstance(t[1], str) and (t[1].startswith('x.make_') or t[1] == 'x.cached'):
            out.append(t)
        for x in t:
            names_in(x, out)
    return out


def resolve(p, v, n=0):
    """A value with the contents of local roots put in place."""
    if isinstance(v, LV):
        v = p.heap.get(v.root) if n < 6 else F_('?')
        return resolve(p, v, n + 1)
    v = canon(v)
    return v


def precision_of(ev):
    return [float(lit(x)) for x in ev[1:] if isinstance(x, tuple) and is_lit(x) and isinstance(lit(x), float)]


def build(env, cached=(), count=2):
    """The contractor of a set of assertions: one part for every assertion that is not settled by the box."""
    f = env.prog.one(TH + '::BuildContractor')
    r = Result('contractor of %d assertions%s' % (count, ' (one known)' if cached else ''), f)
    cfg = TheoryCfg(env)
    fs = [F_('f0'), F_('f1')][:count]
    cfg.kinds_restrict = {F_('f0'): {'Gt', 'Forall'}, F_('f1'): {'Gt'}}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        for x in fs:
            I.types[x] = FORM
        theory_fields(env, I, this, cached)
        cs = make_status(I, cfg)
        state['cs'], state['this'] = cs, this
        for i, a in enumerate(f['params']):
            if 'vector<' in a['type']:
                args[i] = I.new_root(coll('vec', tuple(fs)), 'assertions')
        status_ptr(f, args, cs)
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 6000):
        if not outcome_ok(r, p):
            continue
        w = None
        now = status_field(cfg, None, p, state['cs'], 'box')
        used = status_field(cfg, None, p, state['cs'], 'used')
        v = canon(p.outcome[1])
        none = nothing(v)
        filters = [e for e in p.events if e[0] == 'filter']
        empty = decided(p, ('app', 'x.empty', now))
        got = [] if none else names_in(v, [])
        if none:
            if not empty:
                w = 'there is no contractor although the box is not empty'
        else:
            for g in fs:
                e = [x for x in filters if x[1] == g]
                if not e:
                    w = w or '%s is not looked at' % show(g)
                elif all(x[2] == 'NotFiltered' for x in e):
                    mine = [t for t in got if t[1] in ('x.make_contractor_ibex_fwdbwd', 'x.make_contractor_forall') and g in t or t[1] == 'x.cached' and t[2:] == (F_('contractor'), g)]
                    if not mine:
                        w = w or 'there is no contractor for %s' % show(g)
                    elif 'Forall' in kinds_at(p, g) and len(kinds_at(p, g)) == 1 and mine[0][1] == 'x.make_contractor_ibex_fwdbwd':
                        w = w or 'a quantified formula is given to IBEX'
            if not any(t[1] == 'x.make_contractor_integer' for t in got):
                w = w or 'there is no contractor for integers'
            poly = decided(p, ('app', 'x.config', F_('use_polytope')))
            if poly and not any(t[1] == 'x.make_contractor_ibex_polytope' for t in got):
                w = w or 'the polytope contractor that was asked for is missing'
        have = [canon(x) for x in used[2]] if is_coll(used) else None
        if have is None:
            r.undecided.append('%s: constraints %s' % (r.name, show(used)[:80]))
            continue
        for e in filters:
            if e[3] and e[1] not in have:
                w = w or 'the constraint %s changed the box and is not recorded' % show(e[1])
        w = w or wrong_cache(p, state['this'])
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def wrong_cache(p, this):
    """An entry of a cache that was made for another formula."""
    h = canon(p.heap.get(this.root))
    if not (isinstance(h, tuple) and h[:1] == ('inst',)):
        return None
    for k, x in h[3]:
        x = canon(x)
        if is_coll(x) and x[1] == 'map':
            for e in x[2]:
                e = canon(e)
                key, t = canon(e[1]), canon(e[2])
                if 'f0' in str(key) + str(t) and str(key) not in str(t):
                    return 'what is remembered for %s is %s' % (show(key), show(t)[:80])
    return None


def kinds_at(p, t):
    return next((k for (x, _), k in p.kinds.items() if x == t), frozenset())


def evaluators(env, cached=()):
    """The evaluators of the assertions: one for each, in order, of the right kind."""
    f = env.prog.one(TH + '::BuildFormulaEvaluator')
    r = Result('evaluators of the assertions%s' % (' (one known)' if cached else ''), f)
    cfg = TheoryCfg(env)
    fs = [F_('f0'), F_('f1')]
    cfg.kinds_restrict = {F_('f0'): {'Gt', 'Forall'}, F_('f1'): {'Gt'}}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        for x in fs:
            I.types[x] = FORM
        theory_fields(env, I, this, cached)
        args[0] = I.new_root(coll('vec', tuple(fs)), 'assertions')
        state['this'] = this
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 1000):
        if not outcome_ok(r, p):
            continue
        v = canon(p.outcome[1])
        if not is_coll(v):
            r.undecided.append('%s: gives %s' % (r.name, show(v)[:80]))
            continue
        w = None
        got = [canon(x) for x in v[2]]
        if len(got) != len(fs):
            w = '%d evaluators for %d assertions' % (len(got), len(fs))
        for g, t in zip(fs, got):
            ok = t[:2] == ('app', 'x.cached') and t[3] == g or t[:1] == ('app',) and g in t[2:3]
            forall = kinds_at(p, g) == {'Forall'}
            if not ok:
                w = w or 'the evaluator of %s is %s' % (show(g), show(t)[:80])
            elif t[1] != 'x.cached' and ('forall' in t[1]) != forall:
                w = w or '%s gets a %s' % (show(g), t[1][2:])
        w = w or wrong_cache(p, state['this'])
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def theory(env):
    """The theory check: branch and prune with the built contractor on a status of the given box; the box left decides."""
    f = env.prog.one(TH + '::CheckSat')
    r = Result('theory check', f)
    cfg = TheoryCfg(env)
    fields = {g['name']: strip_type(g['type']) for g in env.prog.classes[TH]['fields']}
    mf = next(k for k, t in fields.items() if t == BOX)
    ef = next(k for k, t in fields.items() if t.startswith('std::set<'))
    icpf = next(k for k, t in fields.items() if 'Icp' in t)

    def contractor(I, n_, ref, obj, args):
        cs = I.deref(args[1])
        box = cs.sub(('f', cfg.status['box']))
        I.events.append(('build', argv(I, args[0]), argv(I, box), cs.root))
        if I.choose(2, 'contractor'):
            I.set(box, ('app', 'x.nothing'))
            return ('none',)
        t = ('app', 'x.contractor')
        I.types[t] = CTC
        return ('some', t)

    def evals(I, n_, ref, obj, args):
        return coll('vec', (('app', 'x.eval', argv(I, args[0])),))
    cfg.cut = {'BuildContractor': contractor, 'BuildFormulaEvaluator': evals}
    state = {}
    want = coll('vec', (F_('f0'), F_('f1')))

    def setup(I):
        this, args = setup_for(f)(I)
        for x in want[2]:
            I.types[x] = FORM
        I.types[F_('B')] = BOX
        I.types[F_('icp')] = DR + 'Icp'
        I.set_raw(this.sub(('f', icpf)), ('ptr', I.new_root(F_('icp'), 'icp')))
        for i, a in enumerate(f['params']):
            args[i] = I.new_root(F_('B') if strip_type(a['type']) == BOX else want, a['name'])
        state['this'] = this
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 1000):
        if decided(p, ('app', 'x.empty', F_('B'))):
            continue                # an empty box is never given to the theory solver
        if not outcome_ok(r, p):
            continue
        w = None
        b = [e for e in p.events if e[0] == 'build']
        i = [e for e in p.events if e[0] == 'icp']
        got = {}
        h = canon(p.heap.get(state['this'].root))
        if isinstance(h, tuple) and h[:1] == ('inst',):
            got = {k: canon(x) for k, x in h[3]}
        if not b:
            r.undecided.append('%s: no contractor is built' % r.name)
            continue
        if b[0][1] != want or b[0][2] != F_('B'):
            w = 'the contractor is built from %s for the box %s' % (show(b[0][1])[:80], show(b[0][2])[:60])
        last = ('app', 'x.icp', F_('B')) if i else ('app', 'x.nothing')
        if i:
            if i[0][1] != ('app', 'x.contractor') or i[0][2] != coll('vec', (('app', 'x.eval', want),)) or i[0][3] != F_('B') or i[0][4] != b[0][3]:
                w = w or 'branch and prune is given %s, %s, %s' % (show(i[0][1])[:60], show(i[0][2])[:60], show(i[0][3])[:60])
        empty = True if not i else decided(p, ('app', 'x.empty', last))
        v = p.outcome[1]
        if v not in (TRUE, FALSE):
            r.undecided.append('%s: gives %s' % (r.name, show(canon(v))[:80]))
            continue
        if empty is None:
            w = w or 'the verdict is %s whatever the box is' % show(v)
        elif (v == TRUE) == empty:
            w = w or 'the verdict is %s although the box is %sempty' % (show(v), '' if empty else 'not ')
        elif v == TRUE and got.get(mf) != last:
            w = w or 'the model is %s' % show(got.get(mf))[:80]
        elif v == FALSE and got.get(ef) != ('app', 'x.why', last):
            w = w or 'the explanation is %s' % show(got.get(ef))[:80]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


class AssertCfg(TheoryCfg):
    """One assertion given to a context."""
    asserts_abort = False

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if cls.startswith(DR + 'ScopedVector'):
            def scoped(I, n_, ref, obj, args):
                w = path_of(obj)
                if n in ('last', 'first'):
                    return self.state['box']
                if n == 'push_back':
                    I.events.append(('assert', argv(I, args[0])))
                    return VOID
                return DECLINE
            return scoped
        if cls == SAT:
            def sat(I, n_, ref, obj, args):
                I.events.append((n, argv(I, args[0]) if args else None))
                return VOID
            return sat
        if cls == DR + 'IfThenElseEliminator' or ref['fid'].startswith(DR + 'IfThenElseEliminator::'):
            def ite(I, n_, ref, obj, args):
                if n == 'Process':
                    t = ('app', 'x.noite', argv(I, args[0]))
                    I.types[t] = FORM
                    return t
                if n == 'variables':
                    return I.new_root(coll('set', (VAR0[3],)), 'itevars')
                return F_('ite')
            return ite
        if cls == BOX and n in ('Add', 'variables', 'has_variable'):
            def add(I, n_, ref, obj, args):
                if n == 'Add':
                    I.events.append(('variable', argv(I, args[0])))
                    return VOID
                if n == 'has_variable':
                    return self.fresh(I, 'has', argv(I, args[0]))
                return I.new_root(coll('vec', (VAR0[0],)), 'vars')
            return add
        return TheoryCfg.prim(self, I, ref)


def assertion(env, kind):
    """What asserting a formula does."""
    f = env.prog.one(IMPL + '::Assert')
    r = Result('assertion: %s' % kind, f)
    cfg = AssertCfg(env)
    g = ('sym', f['params'][0]['name'])
    cfg.kinds_restrict = {g: {kind}}
    cfg.distinct = CtcCfg.distinct

    def setup(I):
        this, args = setup_for(f)(I)
        for v in VAR0:
            I.types[v] = VAR
        I.types[F_('B')] = BOX
        cfg.state = {'box': I.new_root(F_('B'), 'box')}
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 500):
        if not outcome_ok(r, p):
            continue
        w = None
        now = canon(p.heap.get(cfg.state['box'].root))
        empty = decided(p, ('app', 'x.empty', F_('B')))
        filters = [e for e in p.events if e[0] == 'filter']
        adds = [e[1] for e in p.events if e[0] == 'assert']
        sat = [e[1] for e in p.events if e[0] == 'AddFormula']
        variables = [e[1] for e in p.events if e[0] == 'variable']
        settled = any(e[2] != 'NotFiltered' for e in filters)
        if empty or kind == 'True':
            pass
        elif kind == 'False' and now == ('app', 'x.nothing'):
            pass
        elif settled and not adds and not sat:
            pass
        elif not adds or not sat:
            w = 'the formula is lost: %s%s' % ('' if adds else 'no assertion is kept', '' if sat else ', the Boolean solver does not get it')
        elif sorted(adds) != sorted(sat):
            w = 'the assertions get %s, the Boolean solver %s' % (show(adds[0])[:60], show(sat[0])[:60])
        elif adds[0] == ('app', 'x.noite', g):
            if VAR0[3] not in variables and decided(p, ('app', 'x.has', VAR0[3])) is not True:
                w = 'a variable that stands for an if-then-else is not in the box'
        elif adds[0] != g:
            w = 'it asserts %s' % show(adds[0])[:80]
        else:
            r.undecided.append('%s: if-then-else terms are kept' % r.name)
            continue
        if kind == 'True' and not w and (now != F_('B') and not filters):
            w = 'the box becomes %s' % show(now)[:80]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def context_check(env):
    """CheckSat of the context: the verdict of the loop for its own assertions, box and solver."""
    f = env.prog.one(IMPL + '::CheckSat')
    r = Result('verdict of the context', f)
    fields = {g['name']: strip_type(g['type']) for g in env.prog.classes[IMPL]['fields']}
    mf = next(k for k, t in fields.items() if t == BOX)

    class Cfg(AssertCfg):
        def prim(self, I, ref):
            n = ref['n']
            if n == 'CheckSatCore':
                def core(I, n_, ref, obj, args):
                    I.events.append(('core', [path_of(x) for x in map(I.settle, args) if isinstance(x, LV)], [argv(I, a) for a in args if strip_type(ref['pt'][args.index(a)]) == BOX]))
                    if I.choose(2, 'verdict'):
                        return ('none',)
                    I.types[F_('M')] = BOX
                    return ('some', I.new_root(F_('M'), 'found'))
                return core
            if n == 'Tighten':
                def tighten(I, n_, ref, obj, args):
                    box = I.deref(args[0])
                    I.set(box, self.fresh(I, 'tight', argv(I, box), ty=BOX))
                    return VOID
                return tighten
            if n == 'ExtractModel':
                return lambda I, n_, ref, obj, args: self.fresh(I, 'extract', argv(I, args[0]), ty=BOX)
            return AssertCfg.prim(self, I, ref)
    cfg = Cfg(env)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        I.types[F_('B')] = BOX
        cfg.state = {'box': I.new_root(F_('B'), 'box')}
        state['this'] = this
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 200):
        if not outcome_ok(r, p):
            continue
        w = None
        calls = [e for e in p.events if e[0] == 'core']
        v = canon(p.outcome[1])
        none = nothing(v)
        got = resolve(p, v[1]) if v[:1] == ('some',) else v
        h = canon(p.heap.get(state['this'].root))
        model_ = None
        if isinstance(h, tuple) and h[:1] == ('inst',):
            model_ = canon(dict(h[3]).get(mf))
        if not calls:
            r.undecided.append('%s: the loop is not called' % r.name)
            continue
        found = next((x for x in p.choices if False), None) if hasattr(p, 'choices') else None
        want = ('app', 'x.extract', ('app', 'x.tight', F_('M')))
        if calls[0][2] and calls[0][2][0] != F_('B'):
            w = 'the loop is given the box %s' % show(calls[0][2][0])[:60]
        elif not none and got != want:
            if 'M' not in str(got):
                w = 'the model is %s' % show(got)[:80]
            else:
                r.undecided.append('%s: the model is %s' % (r.name, show(got)[:80]))
                continue
        elif not none and model_ != got:
            w = 'the model kept is %s, the one given %s' % (show(model_)[:80], show(got)[:80])
        elif none and model_ != ('app', 'x.nothing'):
            w = 'after no model, the one kept is %s' % show(model_)[:80]
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def tighten(env, kind, delta):
    """The final tightening keeps a non-empty part of the box, of at most the precision for real variables and one integer for the others."""
    import math
    import ival
    fs = [x for q, x in env.prog.functions.items() if x['n'] == 'Tighten' and 'context_impl' in x.get('file', x.get('loc', ''))] or [x for q, x in env.prog.functions.items() if x['n'] == 'Tighten']
    f = fs[0]
    r = Result('tightening of a %s variable, precision %g' % (kind, delta), f)
    cfg = PlainCfg(env)
    cfg.free = {}
    cfg.kinds_restrict = {('app', 'V.type', VAR0[0]): {kind}, ('app', 'V.type', VAR0[1]): {'CONTINUOUS'}}
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        box = state['box'] = I.new_root(ivals(I, 'x', 'y'), 'box')
        args[0] = ('ptr', box)
        args[1] = ('flt', delta)
        return this, args
    whole_ = kind != 'CONTINUOUS'

    def pre(m, p):
        preset('xy', True)(m, p)
        rng = m.rng
        k = ('L', ('ival', m.rep(F_('x'))))
        if kind in ('BOOLEAN', 'BINARY'):
            m.memo[k] = rng.choice([(0.0, 1.0), (0.0, 1.0), (1.0, 1.0), (0.0, 0.0)])
        elif kind == 'INTEGER':
            a = rng.choice([-3.0, -1.0, 0.0, 1.0, 5.0, -2147483647.0])
            m.memo[k] = (a, max(a, rng.choice([a, a + 1, a + 2, a + 7, 0.0, 2147483647.0])))
        else:
            a = rng.choice([-3.0, -1.5, 0.0, 0.25, 7.0, 1e6])
            m.memo[k] = (a, a + rng.choice([0.0, delta / 2, delta, delta * 1.5, delta * 4, 3.0]))
        b = rng.choice([-2.0, 0.0, 1.25])
        m.memo[('L', ('ival', m.rep(F_('y'))))] = (b, b + rng.choice([0.0, delta, delta * 3]))
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup, 500):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue

        def result(m, p):
            if p.outcome[0] != 'ret':
                return 'it ends in %s' % (p.outcome[1],)
            for i, x in enumerate('xy'):
                z = m.leaf(('ival', m.rep(F_(x))), None)
                t = canon(canon(p.heap.get(state['box'].root))[2][i])
                got = ival.value(m, t)
                if got is None or got[0] > got[1]:
                    return '%s becomes empty' % (z,)
                if got[0] < z[0] or got[1] > z[1]:
                    return '%s becomes %s, outside of it' % (z, got)
                if i == 0 and whole_:
                    if z[1] - z[0] > delta and (got[0] != got[1] or got[0] != math.floor(got[0])):
                        return '%s of a %s variable becomes %s' % (z, kind, got)
                elif got[1] - got[0] > delta * (1 + 1e-9) + 1e-9 * abs(got[0]):
                    return '%s becomes %s, wider than %g' % (z, got, delta)
            return 'fine'
        decide_path(env, r, I, p, lambda m, p: 'fine', result, ival.EXT, pre=pre)
    return r


def check_C01(c):
    env = make_env(c)
    jobs = [lambda l=l: core(env, l) for l in STACKS]
    jobs += [lambda p=p: model(env, p) for p in (False, True)]
    jobs += [lambda: theory(env), lambda: context_check(env)]
    for cached in ((), (F_('f0'),), (F_('f1'),)):
        jobs += [lambda k=cached: build(env, k), lambda k=cached: evaluators(env, k)]
    jobs += [lambda n=n: build(env, (), n) for n in (0, 1)]
    jobs += [lambda k=k: assertion(env, k) for k in ('True', 'False', 'Gt', 'And', 'Or', 'Not', 'Var', 'Forall')]
    jobs += [lambda k=k, d=d: tighten(env, k, d) for k in ('BOOLEAN', 'BINARY', 'INTEGER', 'CONTINUOUS') for d in (0.5, 0.125)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('On every path of the refinement loop, for every sequence of answers: no model only for an empty box, an assertion of false, or a Boolean solver without a model; a model only without assertions, '
                   'from a Boolean model without theory literals, or from the theory solver that accepted exactly the literals of the last Boolean model on the box with its Boolean values; every rejected model is '
                   'excluded by its explanation before the next is asked for. The Boolean model holds every assigned variable with its polarity. The theory check runs branch and prune with a contractor and an '
                   'evaluator for every literal not settled by the box, and rejects exactly when no box is left. An assertion is kept, given to the Boolean solver without if-then-else, or settled by the box.')
    c.assumptions += ['three rounds of the loop, two theory literals, four PicoSAT variables', 'PicoSAT answers correctly', 'branch and prune, contractors and evaluators are C04 to C08 and C12', 'integer variables stay in the range their declaration gives them']
    return n
