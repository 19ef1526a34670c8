"""Ownership of shared terms (S11): reference counts balance and shared nodes are immutable."""
import re

from check import parallel
from common import *
from engine import walk, canon, LV, NULL, VOID, Config, Unsupported
import props_s
from sym import SymConfig, p_eop, p_fop, p_fun

HANDLES = (DS + 'Expression', DS + 'Formula')


# --- counting -----------------------------------------------------------------------------------

def counter_field(prog, cell):
    """The reference counter of a cell class: its only mutable number."""
    fs = [f for f in prog.classes[cell]['fields'] if f.get('mutable')]
    fs = [f for f in fs if re.search(r'\b(atomic|int|unsigned|long|size_t)\b', f['type'])]
    if len(fs) != 1:
        raise AnalysisBroken('%s: %d candidates for the reference counter' % (cell, len(fs)))
    return fs[0]


def pointer_field(prog, h):
    fs = [f for f in prog.classes[h]['fields'] if f['type'].rstrip().endswith('*') or 'Cell' in f['type']]
    if len(fs) != 1 or not fs[0]['type'].rstrip().endswith('*'):
        raise AnalysisBroken('%s: no plain pointer to a cell' % h)
    return fs[0]['name'], strip_type(fs[0]['type'].rstrip().rstrip('*').replace('const ', ''))


class CountCfg(Config):
    identity_fields = set()
    keep_new_bases = ()

    def __init__(self, fam):
        self.fam = fam

    def keep_new(self, I, cls):
        return None

    def prim(self, I, ref):
        m = re.match(r'(std::)?atomic_(fetch_add|fetch_sub|load|store|exchange)(_explicit)?$', ref['q'])
        if m:
            return lambda I, n, ref, obj, args: self.atomic(I, m.group(2), args[0], args[1:], m.group(3))
        if ref.get('cls', '').startswith(('std::atomic', 'std::__atomic')):
            if ref['n'] in ('fetch_add', 'fetch_sub', 'load', 'store', 'exchange'):
                return lambda I, n, ref, obj, args: self.atomic(I, ref['n'], ('ptr', obj), args, True)
            if ref['n'] in ('operator++', 'operator--'):
                return self.step
            if ref['n'] in ('operator+=', 'operator-='):
                return lambda I, n, ref, obj, args: self.atomic(I, {'operator+=': 'fetch_add', 'operator-=': 'fetch_sub'}[ref['n']], ('ptr', obj), args, False, True)
        if ref['q'] == 'std::atomic_thread_fence':
            return self.fence
        if ref['n'] == 'operator=' and ref.get('cls') == self.fam[0]:
            return self.assign
        if '(ctor)' in ref['fid'] and ref.get('cls') == self.fam[0]:
            return self.build
        return None

    def step(self, I, n, ref, obj, args):
        op = 'fetch_add' if ref['n'] == 'operator++' else 'fetch_sub'
        return self.atomic(I, op, ('ptr', obj), [('int', 1)], False, not args)

    def assign(self, I, n, ref, obj, args):
        f = I.prog.fn(ref['fid'])
        if f is None or f.get('body') is None:
            raise Unsupported('assignment without a body')
        return I.call_function(f, obj, args, this_cls=f['cls'])

    def build(self, I, n, ref, obj, args):
        f = I.prog.fn(ref['fid'])
        if f is None or (f.get('body') is None and not f.get('inits')):
            raise Unsupported('constructor without a body')
        o = I.new_root(('inst', self.fam[0], None, ()), 'obj')
        I.default_fields(self.fam[0], o)
        I.call_function(f, o, args, this_cls=self.fam[0])
        return I.get(o)

    def fence(self, I, n, ref, obj, args):
        I.events.append(('fence', order_of(I.settle(args[0]))))
        return VOID

    def atomic(self, I, op, p, args, explicit, new=False):
        p = I.settle(p)
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            raise Unsupported('atomic object')
        l = I.resolve(p[1])
        v = I.settle(I.get(l))
        if v[0] != 'int':
            if freed(I, l):
                I.events.append(('bad', 'uses the counter of a node that was already deleted'))
                return ('int', 0)
            raise Unsupported('counter value')
        a = [I.settle(x) for x in args]
        order = 'seq_cst'
        if a and isinstance(a[-1], tuple) and a[-1][0] == 'enum':
            order = order_of(a[-1])
            a = a[:-1]
        if op == 'load':
            I.events.append(('load', op, order))
            return v
        d = a[0][1]
        x = {'fetch_add': v[1] + d, 'fetch_sub': v[1] - d}.get(op, d)
        if x < 0:
            I.events.append(('bad', 'decrements the counter of a node nobody refers to'))
            x = 0
        I.set(l, ('int', x))
        I.events.append(('rmw', op, order))
        return ('int', x) if new else v

    def on_delete(self, I, v):
        if not (isinstance(v, tuple) and v[0] == 'ptr'):
            raise Unsupported('delete')
        r = I.resolve(v[1]).root
        if I.heap[r] == ('freed',):
            I.events.append(('bad', 'deletes a node twice'))
            return True
        k = [i for i, e in enumerate(I.events) if e[0] == 'rmw' and e[1] == 'fetch_sub']
        if k:
            o = I.events[k[-1]][2]
            fence = any(e[0] == 'fence' and e[1] in ('acquire', 'acq_rel', 'seq_cst') for e in I.events[k[-1]:])
            if not (o in ('acq_rel', 'seq_cst') or o == 'release' and fence):
                I.events.append(('bad', 'deletes a node after a decrement that does not order the accesses of other threads (memory order %s)' % o))
        I.heap[r] = ('freed',)
        for x in getattr(I, 'inside', {}).get(r, ()):
            I.heap[x] = ('freed',)
        I.events.append(('deleted', r))
        return True


def order_of(t):
    return str(t[1]).split('memory_order_')[-1].split('::')[-1] if isinstance(t, tuple) and t[0] == 'enum' else '?'


def freed(I, l):
    v = I.heap.get(l.root)
    return v == ('freed',)


# scenarios: (what, member, objects {name: cell or None}, cells, object inside a cell or None)
def scenarios(kind):
    if kind == 'copy ctor':
        return [('a copy of an unshared term', {'e': 'P'}, None), ('a copy of a shared term', {'e': 'P', 'x': 'P'}, None)]
    if kind == 'move ctor':
        return [('a moved term', {'e': 'P'}, None), ('a moved shared term', {'e': 'P', 'x': 'P'}, None)]
    if kind == 'dtor':
        return [('the last reference goes', {'this': 'P'}, None), ('one of two references goes', {'this': 'P', 'x': 'P'}, None), ('a moved-from term goes', {'this': None}, None)]
    r = [('different terms', {'this': 'P', 'e': 'Q'}, None), ('the old term is shared', {'this': 'P', 'x': 'P', 'e': 'Q'}, None),
         ('the new term is shared', {'this': 'P', 'e': 'Q', 'x': 'Q'}, None), ('both refer to one node', {'this': 'P', 'e': 'P'}, None),
         ('a moved-from term is assigned to', {'this': None, 'e': 'Q'}, None)]
    if kind == 'copy assignment':
        r += [('self-assignment', {'this': 'P'}, 'self'), ('the new term is a part of the old one', {'this': 'P', 'e': 'Q'}, 'inside')]
    return r


def member_kind(f, h):
    ps = [p['type'] for p in f['params']]
    if f['kind'] == 'dtor':
        return 'dtor'
    if f['kind'] == 'ctor' and len(ps) == 1 and strip_type(ps[0]) == h:
        return 'move ctor' if ps[0].rstrip().endswith('&&') else 'copy ctor'
    if f['n'] == 'operator=' and len(ps) == 1 and strip_type(ps[0]) == h:
        return 'move assignment' if ps[0].rstrip().endswith('&&') else 'copy assignment'
    if f['kind'] == 'ctor' and len(ps) == 1 and re.search(r'\*\s*(const)?$', ps[0]):
        return 'adoption'
    if f['n'] == 'swap' and len(ps) == 2 and all(strip_type(p) == h for p in ps):
        return 'swap'
    return None


def judge_member(env, h, f, kind, sc):
    prog = env.prog
    what, objs, special = sc
    ptr, cell = pointer_field(prog, h)
    rc = counter_field(prog, cell)['name']
    concrete = prog.subclasses(cell)
    concrete = sorted(c for c in concrete if c != cell)
    r = Result('%s %s: %s' % (h.split('::')[-1], kind, what), f)
    cfg = CountCfg((h, cell, rc))
    I = Interp(prog, cfg)
    dtor = [g for g in prog.functions.values() if g['kind'] == 'dtor' and g.get('cls') == h and g.get('body') is not None]
    state = {}

    def obj(I, c, root):
        I.heap[root] = ('inst', h, None, ((ptr, NULL if c is None else ('ptr', LV(('cell', c)))),))
        I.types[I.heap[root]] = h
        return LV(root)

    def setup(I):
        cells = {}
        for o, c in objs.items():
            if c:
                cells[c] = cells.get(c, 0) + 1
        if kind == 'adoption' and what == 'a fresh node':
            cells['P'] = 0
        for c, n in cells.items():
            I.heap[('cell', c)] = ('inst', cell, None, ((rc, ('int', n)),))
        roots = {o: ('obj!', o) for o in objs}
        for o, c in objs.items():
            obj(I, c, roots[o])
        I.inside = {('cell', 'P'): [roots['e']]} if special == 'inside' else {}
        this = None
        if f.get('cls'):
            if 'this' not in objs:
                roots['this'] = ('obj!', 'this')
                obj(I, None, roots['this'])
            this = LV(roots['this'])
        if special == 'inside':     # the node P refers to Q through e
            pass
        args = []
        if kind in ('copy ctor', 'move ctor', 'copy assignment', 'move assignment'):
            args = [this if special == 'self' else LV(roots['e'])]
        elif kind == 'adoption':
            args = [('ptr', LV(('cell', 'P')))]
        elif kind == 'swap':
            args = [LV(roots['this']), LV(roots['e'])]
            if not f.get('cls'):
                this = None
        state.update(roots=roots, cells=cells)
        return this, args

    def finish(I):
        """The automatic objects die."""
        for root in [k for k in I.heap if k[0] in ('tmp', 'v')]:
            v = I.heap[root]
            if isinstance(v, tuple) and v[0] == 'inst' and v[1] == h:
                if not dtor:
                    raise AnalysisBroken('%s has no destructor' % h)
                I.call_function(dtor[0], LV(root), [], this_cls=h)

    I.at_exit = finish
    for p in I.explore(f, setup):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        bad = [e[1] for e in p.events if e[0] == 'bad']
        if p.outcome[0] == 'abort' or p.outcome[0] == 'throw':
            bad.append('ends with %s' % (p.outcome[1],))
        refs = {}
        for o, root in state['roots'].items():
            v = p.heap[root]
            if v == ('freed',):
                continue
            if kind == 'dtor' and o == 'this':
                continue
            if not (isinstance(v, tuple) and v[0] == 'inst'):
                bad.append('leaves an object that is not a term')
                continue
            q = dict((a, b) for a, b in v[3]).get(ptr)
            if q == NULL:
                if kind not in ('move ctor', 'move assignment') and objs.get(o):
                    bad.append('leaves a term without a node')
                continue
            if not (isinstance(q, tuple) and q[0] == 'ptr' and q[1].root[0] == 'cell'):
                bad.append('leaves a term with an unknown node')
                continue
            refs[q[1].root[1]] = refs.get(q[1].root[1], 0) + 1
            if p.heap[q[1].root] == ('freed',):
                bad.append('leaves a term that refers to a deleted node')
        for c in state['cells']:
            v = p.heap[('cell', c)]
            n = refs.get(c, 0)
            if v == ('freed',):
                continue
            k = dict((a, b) for a, b in v[3])[rc]
            if special == 'inside' and c == 'Q' and p.heap[('cell', 'P')] == ('freed',):
                n += 1          # the deletion of P does not run in this scenario
            if k != ('int', n):
                bad.append('the counter is %s where %d terms refer to the node' % (show(k), n))
            elif n == 0:
                bad.append('a node nobody refers to is not deleted')
        want = expected(kind, objs, special)
        for o, c in want.items():
            v = p.heap[state['roots'][o]]
            if isinstance(v, tuple) and v[0] == 'inst':
                q = dict((a, b) for a, b in v[3]).get(ptr)
                if c is not None and not (isinstance(q, tuple) and q[0] == 'ptr' and q[1].root == ('cell', c)):
                    bad.append('%s does not refer to the expected node' % o)
        if bad:
            r.violations.append((r.name, '%s: %s %s' % (r.name, f['fid'].split('::')[-1], '; '.join(sorted(set(bad))))))
        else:
            r.agree += 1
    return r


def expected(kind, objs, special):
    if kind in ('copy ctor', 'move ctor'):
        return {'this': objs['e'], **({'e': objs['e']} if kind == 'copy ctor' else {})}
    if kind == 'copy assignment':
        if special == 'self':
            return {'this': objs['this']}
        return {'this': objs['e'], 'e': objs['e']}
    if kind == 'move assignment':
        return {'this': objs['e']}
    if kind == 'adoption':
        return {'this': 'P'}
    if kind == 'swap':
        return {'this': objs['e'], 'e': objs['this']}
    return {}


def count_jobs(env):
    prog = env.prog
    out = []
    for h in HANDLES:
        out.append(lambda h=h: judge_counter(env, h))
        seen = set()
        for f in sorted(prog.functions.values(), key=lambda f: f['fid']):
            if f.get('cls') != h and f['n'] != 'swap' or f.get('body') is None:
                continue
            k = member_kind(f, h)
            if k is None:
                continue
            seen.add(k)
            if k == 'adoption':
                scs = [('a fresh node', {}, None), ('a node with one reference', {'x': 'P'}, None)]
            elif k == 'swap':
                scs = [('different terms', {'this': 'P', 'e': 'Q'}, None), ('one node', {'this': 'P', 'e': 'P'}, None)]
            else:
                scs = scenarios(k)
            out += [lambda h=h, f=f, k=k, s=s: judge_member(env, h, f, k, s) for s in scs]
        missing = {'copy ctor', 'move ctor', 'dtor', 'copy assignment', 'adoption'} - seen
        if missing:
            raise AnalysisBroken('%s: no %s' % (h, ', '.join(sorted(missing))))
    return out


def literal(n):
    """The integer an initialiser stands for."""
    ls = [x['v'] for x in walk(n) if isinstance(x, dict) and x.get('k') == 'int']
    if len(ls) == 1:
        return ls[0]
    if isinstance(n, dict) and n.get('k') in ('list', 'ctor') and not n.get('a'):
        return 0
    return None


def judge_counter(env, h):
    """A fresh node has no references, its counter is atomic, and deleting it through its base runs the right destructor."""
    prog = env.prog
    _, cell = pointer_field(prog, h)
    fld = counter_field(prog, cell)
    ctors = [f for f in prog.functions.values() if f['kind'] == 'ctor' and f.get('cls') == cell and (f.get('body') is not None or f.get('inits')) and not f.get('copy')]
    r = Result('%s: the counter of a fresh node' % h.split('::')[-1], ctors[0] if ctors else None)
    r.paths = 3
    where = '%s::%s' % (cell.split('::')[-1], fld['name'])

    def bad(t):
        r.violations.append((r.name, '%s %s' % (where, t)))
    if 'atomic' not in fld['type']:
        bad('is shared by all threads that hold the node but is not atomic (%s)' % fld['type'])
    for f in ctors:
        v = fld.get('init')
        for i in f.get('inits') or []:
            if i.get('field') == fld['name']:
                v = i.get('e')
        k = 0 if v is None and 'atomic' not in fld['type'] else literal(v)
        if k is None:
            r.undecided.append('%s: initial value' % r.name)
        elif k != 0:
            bad('starts at %d in a node nobody refers to yet' % k)
    dt = [f for f in prog.functions.values() if f['kind'] == 'dtor' and f.get('cls') == cell]
    if dt and not dt[0].get('virtual') and len(prog.subclasses(cell)) > 1:
        bad('reaches zero and the node is deleted through a base class whose destructor is not virtual')
    # a count that permits a change in place orders the accesses of the threads that dropped their reference
    cfg = CountCfg((h, cell, fld['name']))
    for f in prog.functions.values():
        if f.get('cls') != cell or f['kind'] != 'method' or not f.get('body') or f['params'] or not re.match(r'(const )?(unsigned|int|long|size_t|std::uint|uint)', f.get('ret', '')):
            continue
        if not any(isinstance(n, dict) and n.get('n') == fld['name'] and n.get('k') == 'mem' for n in walk(f['body'])):
            continue
        I = Interp(prog, cfg)

        def setup(I):
            I.heap[('cell', 'P')] = ('inst', cell, None, ((fld['name'], ('int', 3)),))
            return LV(('cell', 'P')), []
        for p in I.explore(f, setup):
            r.paths += 1
            for e in p.events:
                if e[0] == 'load' and e[2] not in ('acquire', 'seq_cst', 'acq_rel') and not any(x[0] == 'fence' for x in p.events):
                    bad('is read by %s without ordering the accesses of other threads (memory order %s)' % (f['n'], e[2]))
            if p.outcome[0] == 'ret' and p.outcome[1] != ('int', 3):
                bad('is not what %s returns' % f['n'])
    if not r.violations:
        r.agree = r.paths
    return r


# --- immutability -------------------------------------------------------------------------------

def cells_of(prog):
    out = {}
    for h in HANDLES:
        _, cell = pointer_field(prog, h)
        for c in prog.subclasses(cell):
            out[c] = h
        out[cell] = h
    return out


def mutates_directly(prog, f, cells):
    """Does the body call a mutator of a node, or cast constness away?"""
    for n in walk(f.get('body')):
        if not isinstance(n, dict):
            continue
        if n.get('constcast'):
            return True
        g = n.get('fn')
        if isinstance(g, dict) and n.get('k') in ('mcall', 'call', 'opcall') and g.get('cls') in cells and not g.get('const') and not g.get('static'):
            d = prog.fn(g.get('fid'))
            if d is not None and d['kind'] == 'method':
                return True
        if n.get('k') == 'assign' and isinstance(n.get('x'), dict) and n['x'].get('k') == 'mem' and n['x'].get('cls') in cells:
            return True
    return False


class WriteCfg(SymConfig):
    def __init__(self, env, cells, inline):
        super().__init__(env.prog, env.roles)
        self.cells = cells
        self.inline = inline
        self.sizes_default = (1,)

    def prim(self, I, ref):
        if ref.get('fid') in self.inline:
            return None
        return super().prim(I, ref)

    def on_write(self, I, lv, x):
        r = lv.root
        if not (isinstance(r, tuple) and r[0] == '*') or not lv.path:
            return
        t = I.typeof(r[1])
        if t is None or strip_type(t).rstrip('* ') not in self.cells and strip_type(t) not in HANDLES:
            return
        old = I.get(lv)
        if canon(old) == canon(x):
            return
        I.events.append(('cell', r[1], lv.path))


def counts_of(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'app' and t[1] == 'use_count':
            out.add(t)
        for x in t:
            counts_of(x, out)


def fold(t, T, k):
    """The truth of a condition on reference counts when the node of T has k references."""
    if t == ('app', 'use_count', T):
        return k
    if not isinstance(t, tuple):
        return None
    if t[0] in ('int', 'num', 'bool'):
        return t[1]
    if t[0] == 'cmp':
        t = ('app',) + t[1:]
    elif t[0] in ('not', 'and', 'or'):
        t = ('app',) + t
    if t[0] == 'app' and len(t) >= 3:
        a = [fold(x, T, k) for x in t[2:]]
        if t[1] == 'not' and a[0] is not None:
            return not a[0]
        if None in a:
            if t[1] in ('and', '&&') and False in a:
                return False
            if t[1] in ('or', '||') and True in a:
                return True
            return None
        ops = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y,
               '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '+': lambda x, y: x + y, '-': lambda x, y: x - y,
               'and': lambda *x: all(x), 'or': lambda *x: any(x), '&&': lambda *x: all(x), '||': lambda *x: any(x)}
        if t[1] in ops:
            return ops[t[1]](*a)
    return None


def unique(p, T, mentioned):
    """Do the conditions of the path rule out a second reference to the node of T?
    None: they mention its count in a way that is not understood."""
    unknown = False
    cs = set()
    for f in p.facts:
        counts_of(f[0], cs)
    if ('app', 'use_count', T) not in cs:
        return False
    for k in (2, 3, 4):
        out = False
        for f in p.facts:
            v = fold(f[0], T, k)
            if v is None:
                s = set()
                counts_of(f[0], s)
                unknown = unknown or ('app', 'use_count', T) in s
            elif bool(v) != f[1]:
                out = True
        if not out:
            return None if unknown else False
    return True


def is_handle(ty):
    return strip_type(ty) in HANDLES


def judge_writes(env, f, cells, alias):
    """Every node a function changes belongs to a term that it alone refers to."""
    prog = env.prog
    name = f['fid'].replace(DS, '').replace('dreal::drake::symbolic::', '')
    r = Result(name + (' on one object' if alias else '') + ': changes no shared node', f)
    cfg = WriteCfg(env, cells, {f['fid']})
    I = Interp(prog, cfg)
    names = [pr.get('name') or 'a%d' % i for i, pr in enumerate(f['params'])]
    if alias:
        def setup(I):
            lv = I.sym_lv(names[0], f['params'][0]['type'])
            return None, [lv] * len(names)
    else:
        setup = setup_for(f, names)
    how = {}
    this_t = None
    if f.get('cls') in HANDLES and not f.get('static'):
        how[('sym', 'this')] = 'const' if f.get('const') else 'lvalue'
        this_t = 'this'
    for nm, pr in zip(names, f['params']):
        ty = pr['type'].rstrip()
        if not is_handle(ty):
            continue
        k = 'value' if not ty.endswith('&') else 'rvalue' if ty.endswith('&&') else 'const' if ty.startswith('const ') else 'lvalue'
        if k == 'const' and alias and how.get(('sym', names[0])):
            k = how[('sym', names[0])]
        how[('sym', names[0] if alias else nm)] = k
    writes = 0
    for p in I.explore(f, setup, 4000):
        r.paths += 1
        ws = sorted({e[1] for e in p.events if e[0] == 'cell'}, key=show)
        if p.outcome[0] == 'unsupported' and not ws:
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        ok = True
        for T in ws:
            writes += 1
            u = unique(p, T, None)
            h = how.get(T)
            nm = T[1] if T[0] == 'sym' else show(T)
            txt = None
            if u is False:
                txt = 'changes the node of %s although other terms may refer to it' % nm
            elif u is None:
                r.undecided.append('%s: condition on the reference count of %s' % (r.name, show(T)))
                ok = False
                continue
            elif h is None:
                r.undecided.append('%s: the node of %s is not that of a parameter' % (r.name, show(T)[:80]))
                ok = False
                continue
            elif h == 'const':
                txt = 'changes the node of %s, which it may only read' % nm
            elif h == 'lvalue' and p.outcome[0] == 'ret' and p.final.get(nm) == T:
                txt = 'leaves %s with a changed node' % nm
            if txt:
                ok = False
                r.violations.append(('%s %s' % (r.name, nm), '%s: %s when %s' % (name, txt, p.describe()[-400:])))
        if ok:
            r.agree += 1
    r.writes = writes
    return r


def write_functions(env):
    """The functions to examine: those that change nodes, where internal helpers and functions on
    nodes are examined through the functions that call them."""
    prog = env.prog
    cells = cells_of(prog)
    callers = {}
    fs = [f for f in prog.functions.values() if f['q'].startswith('dreal::') and f.get('body')]
    for f in fs:
        for g in prog.callees(f):
            callers.setdefault(g, []).append(f)
    todo = [f for f in fs if f.get('cls') not in cells and mutates_directly(prog, f, cells)]
    out, seen = [], set()
    while todo:
        f = todo.pop()
        if f['fid'] in seen:
            continue
        seen.add(f['fid'])
        node = any(strip_type(p['type']).rstrip('* ') in cells for p in f['params'])
        raw = any(not is_handle(p['type']) and p['type'].rstrip().endswith(('&', '*')) and not p['type'].startswith('const ') for p in f['params'])
        inner = f.get('anon') or f.get('storage_static') or node or raw or f.get('access') in (1, 2) and f.get('kind') == 'method'
        cs = callers.get(f['fid'], [])
        if inner and cs:
            todo += cs
        else:
            out.append(f)
    out.sort(key=lambda f: (f['file'], f['line']))
    return out, cells


def check_S11(c):
    env = make_env(c)
    jobs = count_jobs(env)
    fs, cells = write_functions(env)
    for f in fs:
        jobs.append(lambda f=f: judge_writes(env, f, cells, False))
        hs = [p['type'] for p in f['params']]
        if len(hs) == 2 and all(is_handle(t) for t in hs) and strip_type(hs[0]) == strip_type(hs[1]):
            jobs.append(lambda f=f: judge_writes(env, f, cells, True))
    # an operand that is the object that receives the result is still read as it was
    want = {f['fid'] for f in fs}
    fac = props_s.facprims(env.prog)
    for x in props_s.api_functions(env, (p_eop, p_fun, p_fop)):
        pts = [p['type'] for p in x[0]['params']]
        if (x[0]['fid'] in want or x[1].get('op') in ('+=', '-=', '*=', '/=')) and len(pts) == 2 and strip_type(pts[0]) == strip_type(pts[1]) and not any('&&' in t for t in pts):
            jobs.append(lambda x=x: props_s.api_obligation(env, *x, extra=fac, alias=True))
    c.add(parallel(jobs))
    return len(jobs)
