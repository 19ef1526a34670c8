"""S06: equality, ordering and hashing."""
import random
import math

from common import *
from concrete import Bad, CEval, Obj, Summary, hsh
from check import parallel
from sym import SymConfig, ECELL, FCELL
import props_cell as pc
from program import coll_kind

NUMS = [-1.0, 0.0, 1.0, math.nextafter(1.0, 2.0), math.nextafter(math.nextafter(1.0, 2.0), 2.0), 2.0]
N = 900


def gen(rng, ty):
    ty = strip_type(ty)
    if ty == EXPR:
        return ('E', rng.randrange(3))
    if ty == FORM:
        return ('F', rng.randrange(3))
    if ty == VAR:
        return ('V', rng.randrange(1, 4))
    if ty == VARS:
        return tuple(sorted(rng.sample([('V', 1), ('V', 2), ('V', 3)], rng.randrange(0, 3))))
    if ty == 'bool':
        return rng.random() < 0.5
    if ty == 'double':
        return rng.choice(NUMS)
    if ty in ('int', 'unsigned int', 'unsigned long', 'long'):
        return rng.randrange(3)
    if 'basic_string' in ty and not coll_kind(ty):
        return rng.choice(['a', 'b'])
    k = coll_kind(ty)
    a = template_args(ty)
    if k == 'map':
        d = {}
        for _ in range(rng.randrange(0, 3)):
            d[gen(rng, a[0])] = gen(rng, a[1])
        return tuple((x, d[x]) for x in sorted(d))
    if k == 'set':
        return tuple(sorted({gen(rng, a[0]) for _ in range(rng.randrange(0, 3))}))
    if k == 'vec':
        return tuple(gen(rng, a[0]) for _ in range(rng.randrange(0, 3)))
    raise Opaque('sample of ' + ty)


def ctors_of(prog, cls):
    out = []
    for m in prog.classes[cls]['methods']:
        f = prog.functions.get(m['fid'])
        if f is None or not m['fid'].startswith(cls + '::(ctor)') or f.get('defaulted'):
            continue
        if f['params'] and strip_type(f['params'][0]['type']) == cls:
            continue
        out.append(f)
    return out


def explore_ctor(env, cls, f, extra=None, limit=None):
    I = Interp(env.prog, SymConfig(env.prog, env.roles, extra_prims=extra))

    def setup(i):
        return i.new_root(('inst', cls, None, ()), 'obj'), [i.sym_lv('arg%d' % k, p['type']) for k, p in enumerate(f['params'])]
    out = []
    for p in I.explore(f, setup, limit=limit):
        flds = {}
        for v in p.heap.values():
            if isinstance(v, tuple) and v[0] == 'inst' and v[1] == cls:
                flds = {a: canon(b) for a, b in v[3]}
                break
        out.append((p, flds))
    return I, out


def own_fields(prog, cls, base):
    """Fields of a node that hold its content (all but those of the common base)."""
    own = {}
    for c in [cls] + prog.bases(cls):
        if c == base or c in prog.bases(base):
            continue
        for f in prog.classes.get(c, {'fields': []})['fields']:
            own.setdefault(f['name'], f)
    return own


def samples(env, base, cls, rng, n):
    """Objects that a constructor of cls can produce: (fields, hash)."""
    prog = env.prog
    hfield = hash_field(env, base)
    own = own_fields(prog, cls, base)
    kinds = []
    ctors = [(f, explore_ctor(env, cls, f, extra=VARPRIMS, limit=400)[1]) for f in ctors_of(prog, cls)]
    out = []
    why = None
    for _ in range(n):
        f, paths = rng.choice(ctors)
        nary = any(coll_kind(p['type']) == 'set' and strip_type(template_args(p['type'])[0]) == FORM for p in f['params'])
        e = {'arg%d' % i: gen(rng, p['type']) for i, p in enumerate(f['params'])}
        if cls.endswith('ExpressionRealConstant') and rng.random() < 0.9:
            e['arg0'] = rng.choice(NUMS[2:4])
            e['arg1'] = math.nextafter(e['arg0'], 9.0)
        if nary and any(isinstance(x, tuple) and len(x) < 2 for x in e.values()):
            continue    # a conjunction or disjunction has at least two operands
        if any(coll_kind(d['type']) == 'set' for d in own.values()) and any(e['arg%d' % i] > e['arg%d' % (i + 1)] for i in range(len(f['params']) - 1)):
            continue    # the two operands in the order in which their set is walked
        ce = SetEval(e)
        ce.vt = rng.randrange(4)
        for p, flds in paths:
            try:
                if p.outcome[0] != 'ret' or not ce.holds(p):
                    continue
            except Opaque as x:
                why = x
                continue
            try:
                o = {a: ce.ev(flds[a]) for a in own}
                if any(isinstance(x, tuple) and len(x) < 2 and coll_kind(own[a]['type']) == 'set' and 'Formula' in own[a]['type'] for a, x in o.items()):
                    break
                out.append((Obj(cls, o, kind=0), ce.ev(flds[hfield]), p))
            except Opaque as x:
                why = x
            except KeyError as x:
                why = Opaque('field %s is not initialised' % x)
            break
    if not out:
        raise why or Opaque('no constructor applies')
    return out


class SetEval(CEval):
    vt = 0

    def ev(self, t):
        if t[0] == 'kind' and t[1][0] == 'app' and t[1][1] == 'V.type':
            return self.vt
        return CEval.ev(self, t)

    def app(self, t):
        if t[1] == 'S.op':
            a, b = set(self.ev(t[3])), set(self.ev(t[4]))
            return tuple(sorted({'+': a | b, '-': a - b, '&': a & b}[t[2]]))
        if t[1] in ('is_polynomial', 'include_ite'):
            return False
        return CEval.app(self, t)


def hash_field(env, base):
    f = [m for m in env.prog.classes[base]['methods'] if m['name'] == 'get_hash']
    if not f:
        raise AnalysisBroken('no get_hash in ' + base)
    I = Interp(env.prog, SymConfig(env.prog, env.roles))
    g = env.prog.functions[f[0]['fid']]
    p = I.explore(g, lambda i: (i.sym_lv('this', base), []))
    v = p[0].outcome[1] if p[0].outcome[0] == 'ret' else None
    if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'hash':
        # accessor treated as an operation: look at the field it reads
        cands = [x['name'] for x in env.prog.classes[base]['fields'] if 'long' in x['type'] or 'size_t' in x['type']]
        if len(cands) == 1:
            return cands[0]
    if isinstance(v, tuple) and v[0] == 'fld':
        return v[2]
    raise AnalysisBroken('get_hash of %s does not return a stored value' % base)


# value-level operations on sets of variables ------------------------------------------------

def _sop(op, a, b):
    return ('app', 'S.op', op, a, b)


def _setval(I, x, ty):
    v = canon(I.settle(x))
    if isinstance(v, tuple) and v[0] == 'ptr':
        v = canon(I.get(v[1]))
    if strip_type(ty) == VAR:
        return ('coll', 'set', (v,), None)
    return v


def v_mut(op):
    def h(I, n, ref, obj, args):
        if len(args) != 1 or strip_type(ref['pt'][0]) not in (VAR, VARS):
            return None
        cur = canon(I.settle(obj))
        r = _sop(op, cur, _setval(I, args[0], ref['pt'][0]))
        I.types.setdefault(r, VARS)
        I.set(obj, r)
        if op == '-':
            return ('app', 'S.size', _sop('&', cur, _setval(I, args[0], ref['pt'][0])))
        from engine import VOID
        return VOID
    return h


def v_bin(op, assign=False):
    def h(I, n, ref, obj, args):
        if len(args) != 2 or len(ref['pt']) != 2:
            return None
        tys = [strip_type(x) for x in ref['pt']]
        if VARS not in tys or set(tys) - {VAR, VARS}:
            return None
        r = _sop(op, _setval(I, args[0], tys[0]), _setval(I, args[1], tys[1]))
        I.types.setdefault(r, VARS)
        if assign:
            I.set(args[0], r)
        return r
    return h


VARPRIMS = {VARS + '::insert': v_mut('+'), VARS + '::erase': v_mut('-')}
for _o, _op in (('operator+', '+'), ('operator-', '-')):
    VARPRIMS[DS + _o] = v_bin(_op)
    VARPRIMS[DS + _o + '='] = v_bin(_op, True)
VARPRIMS[DS + 'intersect'] = v_bin('&')


# --- obligations -----------------------------------------------------------------------------

def summary(env, f, this_cls=None, inline=()):
    I = Interp(env.prog, SymConfig(env.prog, env.roles, inline=inline))
    return Summary(I.explore(f, pc.setup_for(f, this_cls=this_cls)))


def order_obligation(name, f_eq, f_less, eq, less, objs, what, key=lambda o: o):
    """eq, less: callables on two objects; objs: list of objects."""
    r = Result(name, f_less or f_eq)
    rng = random.Random(7)
    und = None
    seen = set()

    def viol(f, text):
        k = name + ':' + (f['n'] if f else '')
        if k in seen:
            return
        seen.add(k)
        r.violations.append((k, '%s (%s:%s): %s' % (f['q'], f['file'].replace('/repo/', ''), f['line'], text)))

    def run_(fn, f, a, b):
        try:
            return bool(fn(a, b)[1])
        except Bad as e:
            viol(f, '%s on %r and %r' % (e, a, b))
            raise Opaque('bad')
    for i in range(N):
        a, b, c = (rng.choice(objs) for _ in range(3))
        if rng.random() < 0.35:
            b = rng.choice([o for o in objs if key(o) == key(a)])
        try:
            if f_eq is not None:
                got = run_(eq, f_eq, a, b)
                if got != (key(a) == key(b)):
                    viol(f_eq, 'says %s for %r and %r, which %s' % ('equal' if got else 'different', a, b, 'differ' if got else 'are the same ' + what))
            if f_less is not None:
                ab, ba = run_(less, f_less, a, b), run_(less, f_less, b, a)
                if (key(a) == key(b)) != (not ab and not ba) or ab and ba:
                    viol(f_less, '%r and %r: a<b is %s, b<a is %s although the two are %s' %
                         (a, b, ab, ba, 'equal' if key(a) == key(b) else 'different'))
                bc, ac = run_(less, f_less, b, c), run_(less, f_less, a, c)
                if ab and bc and not ac:
                    viol(f_less, 'not transitive: %r < %r < %r' % (a, b, c))
            r.samples += 1
        except Opaque as e:
            und = und or str(e)
            if r.samples == 0 and i > 60:
                break
    for fn in (eq, less):
        if isinstance(fn, tuple):
            pass
    if und and und != 'bad':
        r.undecided.append('%s: %s' % (name, und))
    r.paths = 1
    r.agree = 1 if r.samples else 0
    return r


def check_S06(c):
    env = make_env(c)
    prog = env.prog
    c.add(hashing(env))
    jobs = []
    for base in (ECELL, FCELL):
        lts = {cls: f for _, cls, f in pc.cells(prog, base, 'Less')}
        for kind, cls, f in pc.cells(prog, base, 'EqualTo'):
            jobs.append(lambda base=base, cls=cls, feq=f, flt=lts[cls]: cell_order(env, base, cls, feq, flt))
    for top, base in ((EXPR, ECELL), (FORM, FCELL)):
        jobs.append(lambda top=top: top_order(env, top))
    jobs.append(lambda: var_order(env))
    jobs.append(lambda: vars_order(env))
    jobs += functors(env)
    c.add(parallel(jobs))
    c.rules.append('For every kind of node, and for expressions, formulas, variables and variable sets themselves, the summaries of the equality and ordering '
                   'functions are evaluated on nodes its constructors can produce from a small universe of operands: equality must hold exactly for equal '
                   'components; the ordering must be irreflexive, transitive, and total on different nodes. The hash stored by every constructor must be a '
                   'function of the components.')
    c.assumptions += ['equality and ordering of operands are consistent (induction hypothesis)', 'containers inside a node have up to two entries']
    return len(c.results)


def pair(f, a, b):
    return {'this': a, pc.pname(f, 0): b}


def cell_order(env, base, cls, feq, flt):
    rng = random.Random(11)
    name = pc.short(cls)
    try:
        objs = [o for o, h, p in samples(env, base, cls, rng, 260)]
    except Opaque as e:
        r = Result(name, feq)
        r.undecided.append('%s: %s' % (name, e))
        return r
    key = lambda o: tuple(sorted(o.fields.items()))
    seq, slt = summary(env, feq, cls), summary(env, flt, cls)
    return order_obligation(name, feq, flt, lambda a, b: seq(pair(feq, a, b)), lambda a, b: slt(pair(flt, a, b)), objs, 'content', key)


def top_order(env, top):
    feq = prog_one(env, top, 'EqualTo')
    flt = prog_one(env, top, 'Less')
    seq, slt = summary(env, feq, inline=(feq['fid'],)), summary(env, flt, inline=(flt['fid'],))
    objs = []
    for kind in range(3):
        for rank in range(3):
            for copy in range(2):
                objs.append(Obj(top, {}, ident=(kind, rank, copy), kind=kind, rank=rank, h=(kind * 2 + rank % 2)))
    rs = [order_obligation(pc.short(top), feq, flt, lambda a, b: seq(pair(feq, a, b)), lambda a, b: slt(pair(flt, a, b)), objs, 'term', lambda o: o.content())]
    return rs


def prog_one(env, cls, name):
    fs = env.prog.find(cls + '::' + name)
    if len(fs) != 1:
        raise AnalysisBroken('%s::%s: %d definitions' % (cls, name, len(fs)))
    return fs[0]


def var_order(env):
    prog = env.prog
    idf = [n for n, d in prog.field_types(VAR).items() if 'long' in d['type'] or d['type'].split('::')[-1] == 'Id' or 'size_t' in d['type']]
    feq, flt, fh = (prog_one(env, VAR, n) for n in ('equal_to', 'less', 'get_hash'))
    seq, slt, sh = (summary(env, f, inline=(f['fid'],)) for f in (feq, flt, fh))
    objs = []
    for i in (1, 2, 3, 2 ** 40 + 1):
        for copy in range(2):
            o = Obj(VAR, {n: 'name%d' % copy for n in prog.field_types(VAR)}, ident=(i, copy), kind=copy, rank=i)
            for n in idf[:1]:
                o.fields[n] = i
            o.fields['id_'] = i
            objs.append(o)
    # two variables with one id are one variable; its name and type come with the id
    objs = [o for o in objs if o.kind == 0]

    class VE(Summary):
        pass
    r = order_obligation('Variable', feq, flt, lambda a, b: seq(pair(feq, a, b)), lambda a, b: slt(pair(flt, a, b)), objs, 'variable', lambda o: o.rank)
    return r


def vars_order(env):
    prog = env.prog
    rng = random.Random(3)
    objs = sorted({gen(rng, VARS) for _ in range(60)})
    eqs = [f for f in prog.find(DS + 'operator==') if [strip_type(p['type']) for p in f['params']] == [VARS, VARS]]
    lts = [f for f in prog.find(DS + 'operator<') if [strip_type(p['type']) for p in f['params']] == [VARS, VARS]]
    if len(eqs) != 1 or len(lts) != 1:
        raise AnalysisBroken('comparison of Variables not found')
    feq, flt = eqs[0], lts[0]
    seq, slt = summary(env, feq, inline=(feq['fid'],)), summary(env, flt, inline=(flt['fid'],))

    def two(f, a, b):
        return {pc.pname(f, 0): a, pc.pname(f, 1): b}
    return order_obligation('Variables', feq, flt, lambda a, b: seq(two(feq, a, b)), lambda a, b: slt(two(flt, a, b)), objs, 'set')


def functors(env):
    """std::less, std::equal_to, std::hash and hash_value agree with the methods."""
    jobs = []
    for f in env.prog.functions.values():
        if f.get('n') != 'operator()' or not f.get('body') or not f.get('cls'):
            continue
        head = f['cls'].split('<')[0]
        ts = [strip_type(p['type']) for p in f['params']]
        if not ts or set(ts) - {EXPR, FORM, VAR, VARS} or len(set(ts)) != 1:
            continue
        what = {'std::less': 'less', 'std::equal_to': 'eq', 'std::hash': 'hash', 'dreal::drake::hash_value': 'hash'}.get(head)
        if what is None or (what == 'hash') != (len(ts) == 1):
            continue
        jobs.append(lambda f=f, what=what, ty=ts[0]: functor(env, f, what, ty))
    return jobs


def functor(env, f, what, ty):
    name = '%s::operator()' % f['cls'].replace(DS, '')
    rng = random.Random(5)
    objs = [gen(rng, ty) for _ in range(40)]
    s = summary(env, f)
    if what == 'hash':
        r = Result(name, f)
        r.paths = 1
        for a in objs:
            for b in objs:
                if a == b:
                    try:
                        if s({pc.pname(f, 0): a})[1] != s({pc.pname(f, 0): b})[1]:
                            r.violations.append((name, '%s: equal objects hash differently' % r.fn))
                            return r
                        r.samples += 1
                    except Opaque as e:
                        r.undecided.append('%s: %s' % (name, e))
                        return r
        r.agree = 1
        return r

    def two(a, b):
        return s({pc.pname(f, 0): a, pc.pname(f, 1): b})
    if what == 'eq':
        return order_obligation(name, f, None, two, None, objs, 'object')
    return order_obligation(name, None, f, None, two, objs, 'object')


def hashing(env):
    """Equal components give equal hashes, whichever constructor made the node."""
    out = []
    for base, kinds in ((ECELL, KIND_CLASS_E), (FCELL, KIND_CLASS_F)):
        for kind, kc in kinds.items():
            cls = DS + kc
            fs = ctors_of(env.prog, cls)
            r = Result('hash of ' + kc, fs[0] if fs else None)
            out.append(r)
            try:
                objs = samples(env, base, cls, random.Random(17), 300)
            except Opaque as e:
                r.undecided.append('%s: %s' % (r.name, e))
                continue
            seen = {}
            for o, h, p in objs:
                k = tuple(sorted(o.fields.items()))
                r.samples += 1
                if seen.setdefault(k, h) != h:
                    r.violations.append((r.name, '%s: two nodes with the same components %r get different hashes' % (r.fn, o)))
                    break
            r.paths = r.agree = 1
    return out
