"""Configuration (C10): which entry every option reaches, which source wins, and what the components read."""
import extract
from check import parallel
from common import *
from engine import LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit, coll
from props_c import argv, DR
from props_ctc import CtcCfg, outcome_ok, bad, field_of, final_field
from props_ctx import TheoryCfg, F_, resolve

CONFIG, CI, MAIN, OV = DR + 'Config', DR + 'Context::Impl', DR + 'MainProgram', DR + 'OptionValue<'
STR = 'std::string'
ORDER = ('DEFAULT', 'FROM_FILE', 'FROM_COMMAND_LINE', 'FROM_CODE')

# The options a file may set, with the entry and the type of each.
FILE_BOOL = {'polytope': 'use_polytope', 'forall-polytope': 'use_polytope_in_forall', 'local-optimization': 'use_local_optimization',
             'worklist-fixpoint': 'use_worklist_fixpoint', 'produce-models': 'produce_models', 'smtlib2-compliant': 'smtlib2_compliant'}
# The flags of the command line, with the entry each sets.
FLAGS = {'precision': ('precision', 'double'), 'produce-models': ('produce_models', None), 'smtlib2-compliant': ('smtlib2_compliant', None),
         'polytope': ('use_polytope', None), 'forall-polytope': ('use_polytope_in_forall', None), 'worklist-fixpoint': ('use_worklist_fixpoint', None),
         'local-optimization': ('use_local_optimization', None), 'dump-theory-literals': ('dump_theory_literals', None), 'jobs': ('number_of_jobs', 'int'),
         'nlopt-ftol-rel': ('nlopt_ftol_rel', 'double'), 'nlopt-ftol-abs': ('nlopt_ftol_abs', 'double'), 'nlopt-maxeval': ('nlopt_maxeval', 'int'),
         'nlopt-maxtime': ('nlopt_maxtime', 'double'), 'sat-default-phase': ('sat_default_phase', 'int'), 'random-seed': ('random_seed', 'long')}


def entries(env):
    """{entry name: (field of Config, option type)}: what the accessor of each name reads."""
    out = {}
    for g in env.prog.classes[CONFIG]['fields']:
        t = strip_type(g['type'])
        if t.startswith(OV):
            out[g['name']] = t
    return out


def types_of(env, ov):
    return {c['name']: ('enum', ov + '::Type::' + c['name'], ov + '::Type', c['val']) for c in env.prog.enums[ov + '::Type']['consts']}


def ov_fields(env, ov):
    """Names of the value and of the source in OptionValue<T>."""
    v = src = None
    for g in env.prog.classes[ov]['fields']:
        if strip_type(g['type']).endswith('::Type'):
            src = g['name']
        else:
            v = g['name']
    return v, src


def stock(env, source='DEFAULT'):
    """A configuration in which every entry has a value of its own."""
    fs = []
    for name, ov in entries(env).items():
        v, s = ov_fields(env, ov)
        fs.append((name, ('inst', ov, None, ((v, F_('old ' + name)), (s, types_of(env, ov)[source])))))
    return ('inst', CONFIG, None, tuple(fs))


class Cfg(CtcCfg):
    """Strings are literals; the option parser answers for one flag."""
    flag = None

    def prim(self, I, ref):
        n, cls = ref['n'], ref.get('cls') or ''
        if n == 'isSet' and cls.startswith('ez::'):
            return lambda I, n_, ref, obj, args: TRUE if argv(I, args[0]) in (('str', '--' + self.flag),) else FALSE
        if n == 'get' and cls.startswith('ez::'):
            def get(I, n_, ref, obj, args):
                a = argv(I, args[0])
                t = ('app', 'x.group', a)
                I.types[t] = 'ez::OptionGroup'
                return ('ptr', I.new_root(t, 'group'))
            return get
        if n.startswith('get') and cls == 'ez::OptionGroup':
            def value(I, n_, ref, obj, args):
                g = argv(I, obj)
                t = ('app', 'x.given', g[2] if isinstance(g, tuple) and g[:2] == ('app', 'x.group') else F_('?'))
                if n == 'getString':
                    t = ('str', 'error')
                else:
                    I.types[t] = {'getDouble': 'double', 'getInt': 'int'}.get(n, 'unsigned long')
                I.set(args[0], t)
                return VOID
            return value
        if n == 'set_level' or (n == 'log' and ref['q'].startswith(DR)):
            return lambda I, n_, ref, obj, args: VOID if n == 'set_level' else I.new_root(F_('log'), 'log')
        if n.startswith('picosat_'):
            def pico(I, n_, ref, obj, args):
                I.events.append((n,) + tuple(argv(I, a) for a in args[1:]))
                return F_('sat') if n == 'picosat_init' else ('int', 0)
            return pico
        if ref['q'] in ('fmt::format', 'fmt::v5::format', 'fmt::v6::format') or n == 'format':
            return lambda I, n_, ref, obj, args: ('app', 'x.text', *[canon(argv(I, a)) for a in args])
        return CtcCfg.prim(self, I, ref)


def changed(env, v):
    """{entry: (value, source)} of the entries of a configuration that are not as in stock(), or None."""
    v = canon(v)
    if not (isinstance(v, tuple) and v[:1] == ('inst',)):
        return None
    d, out = dict(v[3]), {}
    was = dict(stock(env)[3])
    for name, ov in entries(env).items():
        x = d.get(name)
        if x == was[name]:
            continue
        if not (isinstance(x, tuple) and x[:1] == ('inst',)):
            return None
        a, s = ov_fields(env, ov)
        m = dict(x[3])
        t = m.get(s)
        out[name] = (canon(m.get(a)), t[1].split('::')[-1] if isinstance(t, tuple) and t[:1] == ('enum',) else show(t))
    return out


def preset_config(env, I, lv, source='DEFAULT'):
    for k, v in stock(env, source)[3]:
        I.set_raw(lv.sub(('f', k)), v)


def config_of(env, p, lv):
    """The configuration left at a location, as an object."""
    v = p.heap.get(lv.root) if not lv.path else final_field(p, LV(lv.root), lv.path[0][1])
    if isinstance(v, tuple) and v[:1] == ('inst',) and v[1] == CONFIG:
        return v
    return ('inst', CONFIG, None, tuple((k, final_field(p, lv, k)) for k in entries(env)))


def access(env, name):
    """The accessor of an entry reads what its mutable accessor gives."""
    get, put = (env.prog.one(CONFIG + '::' + n) for n in (name, 'mutable_' + name))
    r = Result('accessors of ' + name, put)
    cfg = Cfg(env)

    def setup_of(f):
        def setup(I):
            this, args = setup_for(f)(I)
            preset_config(env, I, this)
            return this, args
        return setup
    got = {}
    for f in (get, put):
        for p in Interp(env.prog, cfg).explore(f, setup_of(f), 20):
            if not outcome_ok(r, p):
                continue
            v = p.outcome[1]
            if isinstance(v, LV):
                v = F_('old ' + v.path[0][1]) if v.path and v.path[0][0] == 'f' else resolve(p, v)
            got.setdefault(f['n'], set()).add(canon(v))
    a, b = got.get(get['n'], set()), got.get(put['n'], set())
    if len(a) != 1 or len(b) != 1:
        r.undecided.append('%s: %s' % (r.name, got))
        return r
    a, b = a.pop(), b.pop()
    if isinstance(b, tuple) and b[:1] == ('inst',):
        b = dict(b[3]).get(ov_fields(env, b[1])[0])
    if not (isinstance(a, tuple) and a[:1] == ('sym',) and isinstance(b, tuple) and b[:1] == ('sym',)):
        r.undecided.append('%s: reads %s, writes %s' % (r.name, show(a)[:60], show(b)[:60]))
    elif a != b:
        r.violations.append((r.name, '%s: %s reads %s but mutable_%s gives %s' % (r.fn, name, a[1][4:], name, b[1][4:])))
    else:
        r.agree += 1
        r.read = a[1][4:]
    return r


def names(env):
    return sorted(m['name'][8:] for m in env.prog.classes[CONFIG]['methods'] if m['name'].startswith('mutable_') and m['name'][8:] != 'config')


def field_by_name(env):
    """{entry name: field}, as its accessor reads it."""
    out = {}
    for n in names(env):
        r = access(env, n)
        if getattr(r, 'read', None):
            out[n] = r.read
    return out


def apart(env):
    """Different entries are stored apart."""
    r = Result('entries are stored apart', env.prog.one(CONFIG + '::mutable_precision'))
    m = field_by_name(env)
    for a in m:
        for b in m:
            if a < b and m[a] == m[b]:
                r.violations.append((r.name, '%s: %s and %s are the same entry' % (env.prog.one(CONFIG + '::mutable_' + b)['q'], a, b)))
    r.paths += len(m)
    r.agree += len(m)
    return r


def judge(env, r, p, ch, want, m):
    """Whether exactly the entry wanted (name, value, source) has changed."""
    if ch is None:
        r.undecided.append(r.name + ': the configuration left')
        return
    if want is None:
        if ch:
            bad(r, p, 'it changes %s' % ', '.join(sorted(ch)))
        else:
            r.agree += 1
        return
    name, value, source = want
    field = m.get(name)
    if field is None:
        r.undecided.append('%s: no entry %s' % (r.name, name))
        return
    w = None
    for k in ch:
        if k != field:
            w = 'it changes %s' % k
    if field not in ch:
        w = w or '%s does not change' % name
    elif ch[field][1] != source:
        w = w or '%s is marked %s' % (name, ch[field][1])
    elif ch[field][0] != value:
        if 'x.given' in str(ch[field][0]) and 'x.given' in str(value) and value[2] != F_('?') and str(value[2]) in str(ch[field][0]):
            pass                # converted to the type of the entry
        elif is_lit(ch[field][0]) or 'x.given' in str(ch[field][0]) or str(ch[field][0]).startswith("('sym', 'old"):
            w = w or '%s becomes %s, not %s' % (name, show(ch[field][0])[:60], show(value)[:60])
        else:
            r.undecided.append('%s: %s becomes %s' % (r.name, name, show(ch[field][0])[:60]))
            return
    if w:
        bad(r, p, w)
    else:
        r.agree += 1


def literals(env, f):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'str':
                out.add(x['v'])
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    walk(f.get('body'))
    return out


def option(env, key, val, want):
    """(set-option key val) in a file."""
    number = isinstance(val, float)
    f = next(x for q, x in env.prog.functions.items() if q.startswith(CI + '::SetOption(') and ('double' in strip_type(x['params'][1]['type'])) == number)
    r = Result('set-option %s %s' % (key, val), f)
    cfg = Cfg(env)
    field = field_of(env.prog, CI, CONFIG)
    opts = [g['name'] for g in env.prog.classes[CI]['fields'] if 'unordered_map<std::basic_string' in g['type'] or 'map<std::basic_string' in g['type']]
    m = field_by_name(env)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        state['this'] = this
        preset_config(env, I, this.sub(('f', field)))
        for o in opts:
            I.set_raw(this.sub(('f', o)), coll('map', ()))
        args[0] = I.new_root(('str', key), 'key')
        args[1] = ('flt', val) if number else I.new_root(('str', val), 'val')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 50):
        if p.outcome[0] == 'throw':
            r.paths += 1
            if want == 'throw':
                r.agree += 1
            else:
                bad(r, p, 'it throws %s' % (p.outcome[1],))
            continue
        if not outcome_ok(r, p):
            continue
        c = final_field(p, state['this'], field)
        if not (isinstance(c, tuple) and c[:1] == ('inst',)):
            c = ('inst', CONFIG, None, tuple((k, canon(p.heap.get((state['this'].root, ('f', field), ('f', k)), p.final.get((state['this'].root, 'f', field, 'f', k))))) for k in entries(env)))
        ch = changed(env, c)
        if want == 'throw':
            if ch:
                bad(r, p, 'a bad value is accepted and %s' % ', '.join('%s becomes %s' % (k, show(v[0])) for k, v in ch.items()))
            else:
                r.agree += 1
            continue
        if want == 'any':
            if ch is not None and len(ch) > 1:
                bad(r, p, 'it changes %s' % ', '.join(sorted(ch)))
            else:
                r.agree += 1
            continue
        judge(env, r, p, ch, want, m)
    return r


def flag(env, name, source):
    """A flag of the command line, over a configuration whose entries come from a given source."""
    f = env.prog.one(MAIN + '::ExtractOptions')
    r = Result('--%s over %s' % (name, source), f)
    cfg = Cfg(env)
    cfg.flag = name
    field = field_of(env.prog, MAIN, CONFIG)
    m = field_by_name(env)
    entry, ty = FLAGS[name]
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        state['this'] = this
        preset_config(env, I, this.sub(('f', field)), source)
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 200):
        if not outcome_ok(r, p):
            continue
        c = final_field(p, state['this'], field)
        if not (isinstance(c, tuple) and c[:1] == ('inst',)):
            c = ('inst', CONFIG, None, tuple((k, canon(p.heap.get((state['this'].root, ('f', field), ('f', k)), p.final.get((state['this'].root, 'f', field, 'f', k))))) for k in entries(env)))
        ch = changed(env, c)
        if ch is not None and source != 'DEFAULT':
            # entries keep their source, which stock() does not know about
            ch = {k: v for k, v in ch.items() if v[1] != source or not str(v[0]).startswith("('sym', 'old")}
        value = TRUE if ty is None else ('app', 'x.given', ('str', '--' + name))
        judge(env, r, p, ch, None if source == 'FROM_CODE' else (entry, value, 'FROM_COMMAND_LINE'), m)
    return r


def unset(env):
    """Without flags nothing changes."""
    f = env.prog.one(MAIN + '::ExtractOptions')
    r = Result('no flags', f)
    cfg = Cfg(env)
    cfg.flag = 'none of them'
    field = field_of(env.prog, MAIN, CONFIG)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        state['this'] = this
        preset_config(env, I, this.sub(('f', field)))
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 200):
        if outcome_ok(r, p):
            judge(env, r, p, changed(env, final_field(p, state['this'], field)), None, {})
    return r


def wins(env, ov, how, was):
    """A new value replaces one from the same or a weaker source, and no other."""
    name = how if how != '=' else 'operator='
    fs = [x for q, x in env.prog.functions.items() if q.startswith(ov + '::' + name + '(') and not strip_type(x['params'][0]['type']).startswith(OV) and x.get('body') is not None]
    if not fs:
        return None
    source = {'set_from_file': 'FROM_FILE', 'set_from_command_line': 'FROM_COMMAND_LINE', '=': 'FROM_CODE'}[how]
    r = Result('%s of a value %s (%s)' % (name, was, ov.split('<', 1)[1][:20]), fs[0])
    for f in fs:
        a, s = ov_fields(env, ov)
        ty = types_of(env, ov)
        cfg = Cfg(env)
        state = {}

        def setup(I):
            this, args = setup_for(f)(I)
            state['this'] = this
            I.set_raw(this.sub(('f', a)), F_('old'))
            I.set_raw(this.sub(('f', s)), ty[was])
            args[0] = I.new_root(F_('new'), 'new')
            return this, args
        for p in Interp(env.prog, cfg).explore(f, setup, 20):
            if not outcome_ok(r, p):
                continue
            v, t = final_field(p, state['this'], a), final_field(p, state['this'], s)
            t = t[1].split('::')[-1] if isinstance(t, tuple) and t[:1] == ('enum',) else None
            if t is None or v not in (F_('old'), F_('new')):
                r.undecided.append('%s: %s, %s' % (r.name, v, t))
                continue
            take = ORDER.index(source) >= ORDER.index(was)
            if v != F_('new' if take else 'old'):
                bad(r, p, 'a value %s is %s by one %s' % (was, 'not replaced' if take else 'replaced', source))
            elif t != (source if take else was):
                bad(r, p, 'the value is then marked %s' % t)
            else:
                r.agree += 1
    return r


def defaults(env):
    """A fresh configuration has the documented default values."""
    r = Result('default values', env.prog.one(CONFIG + '::mutable_precision'))
    m = field_by_name(env)
    want = {'kDefaultPrecision': 'precision', 'kDefaultNloptFtolRel': 'nlopt_ftol_rel', 'kDefaultNloptFtolAbs': 'nlopt_ftol_abs', 'kDefaultNloptMaxEval': 'nlopt_maxeval', 'kDefaultNloptMaxTime': 'nlopt_maxtime'}
    init = {g['name']: g.get('init') for g in env.prog.classes[CONFIG]['fields']}

    def consts(x, out):
        if isinstance(x, dict):
            if x.get('k') == 'ref' and 'cv' in x:
                out[x['n']] = x['cv']
            for v in x.values():
                consts(v, out)
        elif isinstance(x, (list, tuple)):
            for v in x:
                consts(v, out)
        return out
    values = {}
    for i in list(init.values()) + [env.prog.one(MAIN + '::AddOptions').get('body')]:
        consts(i, values)
    for c, e in want.items():
        got = consts(init.get(m.get(e)), {})
        r.paths += 1
        if len(got) == 1 and c in values and list(got.values()) != [values[c]]:
            r.violations.append((r.name, '%s: the default of %s is %s = %s, not %s = %s' % (r.fn, e, list(got)[0], list(got.values())[0], c, values[c])))
        elif len(got) == 1 and c in values:
            r.agree += 1
    return r


def sat_config(env):
    """The SAT solver takes its phase and seed from the entries of those names."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + 'SatSolver::(ctor)(') and len(x['params']) == 1 and CONFIG in x['params'][0]['type'])
    r = Result('configuration of the SAT solver', f)
    cfg = Cfg(env)
    m = field_by_name(env)

    def setup(I):
        this, args = setup_for(f)(I)
        c = I.new_root(stock(env), 'config')
        for k, t in (('random_seed', 'unsigned int'), ('sat_default_phase', CONFIG + '::SatDefaultPhase')):
            I.types[F_('old ' + m[k])] = t
        args[0] = c
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 50):
        if not outcome_ok(r, p):
            continue
        w = None
        for fn, e in (('picosat_set_seed', 'random_seed'), ('picosat_set_global_default_phase', 'sat_default_phase')):
            ev = [x for x in p.events if x[0] == fn]
            if not ev and e == 'sat_default_phase':
                w = 'the default phase is not given to PicoSAT'
            for x in ev:
                others = [k for k in m.values() if "'old %s'" % k in str(x[1:])]
                if others and others != [m[e]]:
                    w = w or '%s gets %s' % (fn, others[0])
                elif not others and is_lit(x[1]) and not (e == 'random_seed' and float(lit(x[1])) == 0):
                    w = w or '%s gets %s' % (fn, show(x[1]))
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def context_config(env):
    """A context, and the solvers in it, use the configuration given."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(CI + '::(ctor)(') and len(x['params']) == 1 and CONFIG in x['params'][0]['type'])
    r = Result('configuration of a context', f)
    field = field_of(env.prog, CI, CONFIG)

    class C(Cfg):
        def build(self, I, cls, args):
            if cls in (DR + 'SatSolver', DR + 'TheorySolver'):
                a = args[0] if args else None
                I.events.append((cls, a.path if isinstance(a, LV) else None, argv(I, a) if a is not None else None))
                I.types[F_(cls)] = cls
                return F_(cls)
            return None

        def prim(self, I, ref):
            for k in ('SatSolver', 'TheorySolver'):
                if ref['fid'].startswith(DR + k + '::(ctor)'):
                    return lambda I, n_, ref, obj, args, k=k: self.build(I, DR + k, args)
            return Cfg.prim(self, I, ref)
    cfg = C(env)
    state = {}

    def setup(I):
        this, args = setup_for(f)(I)
        state['this'] = this
        args[0] = stock(env) if '&' not in f['params'][0]['type'] else I.new_root(stock(env), 'config')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 50):
        if not outcome_ok(r, p):
            continue
        w = None
        ch = changed(env, final_field(p, state['this'], field))
        if ch:
            w = 'the context has another %s' % ', '.join(sorted(ch))
        for e in p.events:
            if e[0] in (DR + 'SatSolver', DR + 'TheorySolver'):
                c = changed(env, e[2]) if e[2] is not None else None
                if c:
                    w = w or '%s gets another %s' % (e[0], ', '.join(sorted(c)))
                elif c is None:
                    r.undecided.append('%s: %s gets %s' % (r.name, e[0], show(e[2])[:80] if e[2] is not None else None))
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def run(env, which):
    """Running a file: the context has the configuration of the command line."""
    f = next(x for q, x in env.prog.functions.items() if q.startswith(DR + which + '('))
    r = Result('configuration of ' + which, f)

    class C(Cfg):
        def prim(self, I, ref):
            cls, n = ref.get('cls') or '', ref['n']
            if ref['fid'].startswith(DR + 'Context::(ctor)'):
                def ctor(I, n_, ref, obj, args):
                    v = argv(I, args[0]) if args else None
                    if isinstance(v, tuple) and v[:2] == ('app', 'x.context'):
                        return v
                    I.events.append(('context', v))
                    I.types[('app', 'x.context', F_('c'))] = DR + 'Context'
                    return ('app', 'x.context', F_('c'))
                return ctor
            if ref['fid'].startswith((DR + 'Smt2Driver::(ctor)', DR + 'DrDriver::(ctor)')):
                return lambda I, n_, ref, obj, args: I.events.append(('driver', argv(I, args[0]) if args else None)) or F_('driver')
            if cls in (DR + 'Smt2Driver', DR + 'DrDriver'):
                return lambda I, n_, ref, obj, args: I.events.append((n,) + tuple(argv(I, a) for a in args)) or FALSE
            return Cfg.prim(self, I, ref)
    cfg = C(env)

    def setup(I):
        this, args = setup_for(f)(I)
        b = iter(('scanning', 'parsing'))
        for i, a in enumerate(f['params']):
            t = strip_type(a['type'])
            if t == CONFIG:
                args[i] = I.new_root(stock(env), 'config')
            elif t == 'bool':
                args[i] = F_(next(b))
            else:
                args[i] = I.new_root(F_('file'), 'file')
        return this, args
    for p in Interp(env.prog, cfg).explore(f, setup, 50):
        if not outcome_ok(r, p):
            continue
        w = None
        made = [e for e in p.events if e[0] == 'context']
        if not made:
            r.undecided.append(r.name + ': no context')
            continue
        for e in made:
            ch = changed(env, e[1]) if e[1] is not None else None
            if e[1] is None:
                w = 'the context has a configuration of its own'
            elif ch:
                w = 'the context has another %s' % ', '.join(sorted(ch))
        for e in p.events:
            if e[0] in ('set_trace_scanning', 'set_trace_parsing') and e[1] in (F_('scanning'), F_('parsing')) and e[1] != F_(e[0][10:]):
                w = w or '%s gets the flag of the other' % e[0]
        if not any(e[0] == 'parse_file' and F_('file') in e[1:] for e in p.events):
            w = w or 'the file is not parsed'
        if w:
            bad(r, p, w)
        else:
            r.agree += 1
    return r


def check_C10(c):
    env = make_env(c)
    jobs = [lambda n=n: access(env, n) for n in names(env)]
    jobs += [lambda: apart(env), lambda: defaults(env), lambda: sat_config(env), lambda: context_config(env)]
    jobs += [lambda w=w: run(env, w) for w in ('RunSmt2', 'RunDr')]
    for ov in sorted(set(entries(env).values())):
        if 'function' in ov:
            continue
        for how in ('set_from_file', 'set_from_command_line', '='):
            if any(q.startswith(ov + '::' + ('operator=' if how == '=' else how) + '(') and not strip_type(x['params'][0]['type']).startswith(OV) and x.get('body') is not None
                   for q, x in env.prog.functions.items()):
                jobs += [lambda o=ov, h=how, w=w: wins(env, o, h, w) for w in ORDER]
    for k, e in FILE_BOOL.items():
        for v, t in (('true', TRUE), ('false', FALSE)):
            jobs.append(lambda k=k, e=e, v=v, t=t: option(env, ':' + k, v, (e, t, 'FROM_FILE')))
            if k in ('worklist-fixpoint', 'produce-models', 'smtlib2-compliant', 'forall-polytope', 'local-optimization'):
                jobs.append(lambda k=k, e=e, v=v, t=t: option(env, ':' + k.replace('-', '_'), v, (e, t, 'FROM_FILE')))
        jobs.append(lambda k=k: option(env, ':' + k, 'perhaps', 'throw'))
    jobs += [lambda v=v: option(env, ':precision', v, ('precision', ('flt', v), 'FROM_FILE')) for v in (0.25, 1e-9, 12.0)]
    jobs += [lambda v=v: option(env, ':precision', v, 'throw') for v in (0.0, -0.25)]
    jobs += [lambda: option(env, ':other', 'true', 'any'), lambda: option(env, ':other', 0.5, 'any')]
    jobs += [lambda n=n, s=s: flag(env, n, s) for n in FLAGS for s in ('DEFAULT', 'FROM_FILE', 'FROM_CODE')] + [lambda: unset(env)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Every accessor of Config reads the entry its mutable accessor gives, different entries are stored apart, and defaults are the documented constants. A value from code wins over the command line, '
                   'which wins over a file, which wins over the default, for every type of option. Every option of a file and every flag of the command line changes exactly the entry of its name, to the value given; '
                   'a value that is not Boolean and a precision that is not positive are refused. Contexts, the SAT solver and the drivers of both file formats get the configuration they are given.')
    c.assumptions += ['ezOptionParser returns the text of the flag asked for', 'options not in the table of this check may set at most one entry']
    return n
