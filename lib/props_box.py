"""Boxes: variables and intervals stay aligned (C11); branching covers the box (C07)."""
import itertools
import math

import extract
import ival
import model as M
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, Infeasible, canon, coll, is_coll, is_lit, lit
from handlers import index as coll_index
from props_c import IvalCfg, argv, nothing, quiet_log, DR
from sym import SymConfig

IVV = 'ibex::IntervalVector'
WHOLE = ('app', 'iv.new', ('flt', -math.inf), ('flt', math.inf))


def whole(I):
    I.types[WHOLE] = ival.IV
    return WHOLE


def vec(xs):
    return ('coll', 'vec', tuple(xs), None)


def vector_prim(I, ref):
    """ibex::IntervalVector as a plain sequence of intervals."""
    if ref['fid'].startswith(IVV + '::(ctor)'):
        def ctor(I, n, ref, obj, args):
            v = [argv(I, x) for x in args]
            if not v:
                return vec([whole(I)])
            if len(v) == 1 and is_coll(v[0]):
                return v[0]
            if len(v) == 1 and v[0][:1] in (('sym',), ('fld',)) and strip_type(ref['pt'][0]) == IVV:
                return v[0]
            if is_lit(v[0]):
                return vec([v[1] if len(v) > 1 else whole(I)] * int(lit(v[0])))
            return DECLINE
        return ctor
    if ref.get('cls') != IVV:
        return None
    name, op = ref['n'], ref.get('op')

    def method(I, n, ref, obj, args):
        v = argv(I, obj)
        if not is_coll(v):
            return DECLINE
        xs = list(v[2])
        if op == '[]':
            i = argv(I, args[0])
            o = I.settle(obj)
            return coll_index(I, obj, i, 'std::vector<%s>' % ival.IV)
        if op == '=':
            I.set(obj, argv(I, args[0]))
            return obj
        if op in ('|=', '&='):
            b = argv(I, args[0])
            if not is_coll(b) or len(b[2]) != len(xs):
                return DECLINE
            I.set(obj, vec([ival.iv(I, ival.OPS[op[0]], x, y) for x, y in zip(xs, b[2])]))
            return obj
        if op in ('==', '!='):
            b = argv(I, args[0])
            if not is_coll(b):
                return DECLINE
            r = len(b[2]) == len(xs) and all(I.decide(('app', 'iv.eq', x, y)) for x, y in zip(xs, b[2]))
            return TRUE if r == (op == '==') else FALSE
        if name == 'size':
            return ('int', len(xs))
        if name == 'resize':
            k = argv(I, args[0])
            if not is_lit(k):
                return DECLINE
            k = int(lit(k))
            I.set(obj, vec((xs + [whole(I)] * k)[:k]))
            return VOID
        if name == 'set_empty':
            e = ('app', 'iv.empty')
            I.types[e] = ival.IV
            I.set(obj, vec([e] * len(xs)))
            return VOID
        if name == 'is_empty':
            t = ('app', 'iv.is_empty', xs[0])
            I.types[t] = 'bool'
            return t
        return DECLINE
    return method


def shared_unique(I, ref):
    """shared_ptr::unique: no other pointer to the object in the heap (dead copies count, which only makes it answer no)."""
    if ref['n'] not in ('unique', 'use_count') or not (ref.get('cls') or '').startswith(('std::shared_ptr', 'std::__shared_ptr')):
        return None

    def count(I, n, ref, obj, args):
        v = argv(I, obj)
        if not (isinstance(v, tuple) and v[0] == 'ptr' and isinstance(v[1], LV)):
            return DECLINE
        k = 0
        for x in I.heap.values():
            todo = [x]
            while todo:
                y = todo.pop()
                if isinstance(y, tuple):
                    if y[:1] == ('ptr',) and isinstance(y[1], LV):
                        k += y[1].root == v[1].root
                    else:
                        todo.extend(y)
        return (TRUE if k <= 1 else FALSE) if ref['n'] == 'unique' else ('int', max(k, 1))
    return count


class BoxCfg(SymConfig):
    def prim(self, I, ref):
        for h in (quiet_log, vector_prim, shared_unique, ival.prim):
            r = h(I, ref)
            if r is not None:
                return r
        return SymConfig.prim(self, I, ref)


OPS = {'a': 'b.Add(v%d);', 'A': 'd.Add(v%d);', 'i': 'b.Add(v%d, -1.0, 1.0);', 'c': 'd = b;', 'r': 'b = d;', 's': 'b[v%d] = dreal::Box::Interval(3.0, 4.0);'}


def reference(h, start):
    """[(position of variable, interval)] of both boxes: lists of (variable index, what set it)."""
    b = [(i, 'dom') for i in range(start)]
    d, k = [], start
    for x in h:
        if x == 'a':
            b, k = b + [(k, 'dom')], k + 1
        elif x == 'i':
            b, k = b + [(k, 'unit')], k + 1
        elif x == 'A':
            d, k = d + [(k, 'dom')], k + 1
        elif x == 'c':
            d = list(b)
        elif x == 'r':
            b = list(d)
        elif x == 's':
            b = [(b[0][0], 'set')] + b[1:]
    return b, d, k


def valid(h, start):
    b = start
    for x in h:
        if x == 's' and not b:
            return False
        b += x in 'ai'
        if x == 'r':
            return 'c' in h[:h.index('r')]      # otherwise b simply becomes the empty box
    return True


def probe_source(hs):
    out, fns = ['#include "dreal/util/box.h"', 'namespace probe {', 'using dreal::Box; using dreal::Variable;'], []
    for start, h in hs:
        b, d, k = reference(h, start)
        body = ['Box b{std::vector<Variable>{%s}};' % ', '.join('v%d' % i for i in range(start)) if start else 'Box b;', 'Box d;']
        j = start
        cur = reference('', start)[0]
        for n, x in enumerate(h):
            cur = reference(h[:n], start)[0]
            if x in 'aiA':
                body.append(OPS[x] % j)
                j += 1
            elif x == 's':
                body.append(OPS[x] % cur[0][0])
            else:
                body.append(OPS[x])
        params = ', '.join('const Variable& v%d' % i for i in range(max(k, 1)))
        for w, box in (('b', b), ('d', d)):
            for o in ('size', 'vars', 'values') + tuple('%s%d' % (q, i) for i in range(k) for q in ('index', 'has', 'at')) + tuple('var%d' % i for i in range(len(box))):
                num = int(o[-1]) if o[-1].isdigit() else None
                q = o.rstrip('0123456789')
                inside = num is not None and any(v == num for v, _ in box)
                if q in ('index', 'at') and not inside:
                    continue
                e = {'size': '%s.size()' % w, 'vars': 'static_cast<int>(%s.variables().size())' % w, 'values': '%s.interval_vector().size()' % w,
                     'index': '%s.index(v%s)' % (w, num), 'has': '%s.has_variable(v%s) ? 1 : 0' % (w, num),
                     'var': '%s.variable(%s).equal_to(v%s) && %s.variables()[%s].equal_to(v%s) ? 1 : 0' % (w, num, box[num][0] if q == 'var' else 0, w, num, box[num][0] if q == 'var' else 0),
                     'at': '%s[v%s]' % (w, num)}[q]
                name = 'h%d%s_%s_%s' % (start, h, w, o)
                ty = 'dreal::Box::Interval' if q == 'at' else 'int'
                out.append('%s %s(%s) {\n  %s\n  return %s;\n}' % (ty, name, params, '\n  '.join(body), e))
                fns.append((name, start, h, w, q, num, box, k))
    out.append('}')
    return '\n'.join(out), fns


INT_MAX = 2147483647.0
DOMAIN = {'CONTINUOUS': (-math.inf, math.inf), 'INTEGER': (-INT_MAX, INT_MAX), 'BINARY': (0.0, 1.0), 'BOOLEAN': (0.0, 1.0)}


def aligned(env, name, start, h, w, q, num, box, k):
    f = env.prog.one('probe::' + name)
    r = Result('%s %s: %s%s of %s' % (start, h, q, num if num is not None else '', w), f)
    cfg = BoxCfg(env.prog, env.roles)
    if q != 'at':
        cfg.kinds_restrict = {('app', 'V.type', ('sym', 'v%d' % i)): {'CONTINUOUS'} for i in range(k)}
    else:
        cfg.kinds_restrict = {('app', 'V.type', ('sym', 'v%d' % i)): {'CONTINUOUS'} for i in range(k) if i != num}
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        same = any(b and a[0] in ('cmp', 'eq') and all(x[:2] == ('app', 'V.id') or x[0] == 'sym' for x in a[-2:]) for a, b in p.facts)
        if same:
            r.vacuous += 1          # a variable is added twice
            continue
        out = p.outcome
        if out[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, out[1]))
            continue
        if out[0] != 'ret':
            r.violations.append((r.name, '%s (%s): %s after %s ends in "%s" [when %s]' % (name, r.fn, q, h, out[1], p.describe()[:200])))
            continue
        v = canon(out[1])
        n = len(box)
        pos = next((i for i, (x, _) in enumerate(box) if x == num), None)
        if q == 'at':
            ty = next((v for (x, _), v in p.kinds.items() if x == ('app', 'V.type', ('sym', 'v%d' % num))), {'CONTINUOUS'})
            what = box[pos][1]
            try:
                m = M.Model(p, I, env.roles, 1)
                m.ext = ival.EXT
                have = ival.value(m, v)
            except (M.Opaque, M.Skip, M.Reject) as e:
                r.undecided.append('%s: %s' % (r.name, e))
                continue
            if ty == {'INTEGER'} and what == 'dom' and have is not None and have[0] == -have[1] and INT_MAX <= have[1] < math.inf:
                r.agree += 1
                continue
            wants = {{'set': (3.0, 4.0), 'unit': (-1.0, 1.0)}.get(what) or DOMAIN[t] for t in ty}
            if wants == {have}:
                r.agree += 1
            else:
                r.violations.append((r.name, '%s (%s): after %s the interval of v%d (%s) in box %s is %s, expected %s' % (name, r.fn, h, num, '/'.join(sorted(ty)), w, have, sorted(wants))))
            continue
        want = {'size': n, 'vars': n, 'values': max(n, 1), 'index': pos, 'has': int(pos is not None), 'var': 1}[q]
        if is_lit(v):
            if int(lit(v)) == want:
                r.agree += 1
            else:
                r.violations.append((r.name, '%s (%s): after %s, %s%s of box %s is %s, expected %s [when %s]' % (name, r.fn, h, q, num if num is not None else '', w, int(lit(v)), want, p.describe()[:200])))
        else:
            r.undecided.append('%s: %s' % (r.name, show(v)[:100]))
    return r


def check_C11(c):
    n = 3 if c.tier == 'quick' else 4
    hs = [(0, ''.join(h)) for k in range(1, n + 1) for h in itertools.product('aAic', repeat=k)]
    hs += [(0, x) for x in ('acrA', 'acAra', 'acrAa', 'asca', 'acsA', 'aacs', 'acas')] + [(2, x) for x in ('', 'a', 'ca', 'cA', 'cs', 'sca', 'cAa')]
    hs = [x for x in hs if valid(x[1], x[0]) and ('A' not in x[1] or 'c' in x[1])]
    src, fns = probe_source(hs)
    env = make_env(c, extract.all_tus() + [extract.probe('box', src)])
    jobs = [lambda a=a: aligned(env, *a) for a in fns]
    m = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('For every history of up to %d additions (to a box or to its copy), copies and interval updates, starting from an empty box or from one built from variables, the summaries '
                   'of the Box operations are composed on symbolic variables; size, number of intervals, index of each variable, variable of each index, membership and initial interval '
                   'of both boxes must be those of two independent lists.' % n)
    c.assumptions += ['shared_ptr, vector and unordered_map behave as specified; ibex::IntervalVector is a sequence of intervals (declared in a stub)', 'longer histories are not composed',
                      'variables added to one box are distinct (the code asserts it)']
    return m


# -- C07: branching ----------------------------------------------------------
SPLIT_PROBE = '''#include "dreal/util/box.h"
#include "dreal/solver/brancher.h"
namespace probe {
using dreal::Box; using dreal::Variable;
using Interval = Box::Interval;
%s
std::pair<double, int> widest(const Variable& v0, const Variable& v1, const Interval& x, const Interval& y) {
  Box b; b.Add(v0); b.Add(v1); b[0] = x; b[1] = y;
  return b.MaxDiam();
}
std::pair<double, int> widest_active(const Variable& v0, const Variable& v1, const Variable& v2, const Interval& x, const Interval& y, const Interval& z, const dreal::DynamicBitset& active) {
  Box b; b.Add(v0); b.Add(v1); b.Add(v2); b[0] = x; b[1] = y; b[2] = z;
  return dreal::FindMaxDiam(b, active);
}
std::pair<int, std::pair<Interval, Interval>> branch0(const Variable& v0, const Variable& v1, const Interval& x, const Interval& y, const dreal::DynamicBitset& active) {
  Box b; b.Add(v0); b.Add(v1); b[0] = x; b[1] = y;
  Box l; Box r;
  const int d{dreal::BranchLargestFirst(b, active, &l, &r)};
  if (d < 0) { return {d, {x, x}}; }
  return {d, {l[0], r[0]}};
}
std::pair<int, std::pair<Interval, Interval>> branch1(const Variable& v0, const Variable& v1, const Interval& x, const Interval& y, const dreal::DynamicBitset& active) {
  Box b; b.Add(v0); b.Add(v1); b[0] = x; b[1] = y;
  Box l; Box r;
  const int d{dreal::BranchLargestFirst(b, active, &l, &r)};
  if (d < 0) { return {d, {y, y}}; }
  return {d, {l[1], r[1]}};
}
}
'''
SPLIT = '''%(ty)s %(name)s(const Variable& v0, const Variable& v1, const Interval& x, const Interval& y) {
  Box b; b.Add(v0); b.Add(v1); b[0] = x; b[1] = y;
  const std::pair<Box, Box> r{b.bisect(%(at)s)};
  return %(ret)s;
}'''
SPLITS = [dict(ty=ty, name='split_%s_%s%s' % (how, what, d), at={'i': d, 'v': 'v%d' % d}[how],
               ret=ret % dict(d=d, o=1 - d)) for how in 'iv' for d in (0, 1) for what, ty, ret in (
    ('cut', 'std::pair<Interval, Interval>', '{r.first[%(d)d], r.second[%(d)d]}'), ('rest', 'std::pair<Interval, Interval>', '{r.first[%(o)d], r.second[%(o)d]}'),
    ('vars', 'int', '(r.first.size() == 2 && r.second.size() == 2 && r.first.variable(0).equal_to(v0) && r.second.variable(0).equal_to(v0) && '
                    'r.first.variable(1).equal_to(v1) && r.second.variable(1).equal_to(v1)) ? 1 : 0'))]


def same_vars(p):
    return any(b and a[0] in ('cmp', 'eq') and all(x[:2] == ('app', 'V.id') or x[0] == 'sym' for x in a[-2:]) for a, b in p.facts)


def integers(z):
    return 0 if z is None else math.floor(z[1]) - math.ceil(z[0]) + 1 if not any(map(math.isinf, z)) else math.inf


def preset(names, integral):
    """Intervals whose bounds lie on, just beside, or far from integers."""
    def pre(m, p):
        for x in names:
            a = m.rng.choice(M.POOL + [0.0, 1.0, 2.0, -3.0])
            near = [a, a, math.nextafter(a, math.inf), math.nextafter(a, -math.inf), a + 0.3]
            w = m.rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0, 5.0, 100.0])
            lo = m.rng.choice(near)
            hi = max(lo, m.rng.choice([lo + w, lo + w, float(math.ceil(lo + w)), float(math.floor(lo + w)), math.nextafter(lo + w, math.inf)]))
            if not integral and m.rng.random() < 0.15:
                lo, hi = m.rng.choice([(lo, math.inf), (-math.inf, hi), (-math.inf, math.inf)])
            if not integral and m.rng.random() < 0.3:       # wide, but no number in between
                lo = m.rng.choice([1.0, 1e16, 1e18, 1e20])
                hi = math.nextafter(lo, math.inf)
            for a, b in p.facts:          # what the path says about this interval
                if not b and a == ('app', 'iv.is_bisectable', ('sym', x)) and m.rng.random() < 0.8:
                    lo = m.rng.choice([1.0, 1e16, 1e18, 1e20])
                    hi = math.nextafter(lo, math.inf)
                if not b and a[0] == 'cmp' and ('app', 'iv.diam', ('sym', x)) in a and ('flt', 0.0) in a and m.rng.random() < 0.8:
                    hi = lo = 1.0
            m.memo[('L', ('ival', m.rep(('sym', x))))] = (lo, hi)
        for a, b in p.facts:
            if a[:2] == ('app', 'x.active'):
                m.memo[('L', m.rep(a))] = b
    return pre


def decide_or_assert(env, r, I, p, *a, **k):
    """A failing assertion that nothing can reach is no path."""
    decide_path(env, r, I, p, *a, **k)
    if p.outcome == ('abort', 'assertion') and r.undecided and 'no interpretation satisfies' in r.undecided[-1]:
        r.undecided.pop()
        r.vacuous += 1


def cover(z, a, b, integral):
    """Are a and b smaller parts of z that lose no point of it?"""
    inside = lambda x, i: i is not None and i[0] <= x <= i[1]
    pts = set()
    for i in (a, b, z):
        for x in i or ():
            pts |= {x, math.nextafter(x, -math.inf), math.nextafter(x, math.inf)} | ({math.floor(x), math.ceil(x), math.floor(x) - 1, math.ceil(x) + 1} if not math.isinf(x) else set())
    pts = [x for x in pts if not math.isinf(x) and (not integral or x == int(x))]
    for x in pts:
        if inside(x, z) and not inside(x, a) and not inside(x, b):
            return 'the point %r of %s is in neither part %s, %s' % (x, z, a, b)
    for i in (a, b):
        if i is not None and not (z[0] <= i[0] and i[1] <= z[1]):
            return 'the part %s leaves %s' % (i, z)
        if i == z:
            return 'the part %s is the whole interval' % (i,)
    return 'fine'


def split(env, name):
    f = env.prog.one('probe::' + name)
    d = int(name[-1])
    what = name.split('_')[2][:-1]
    r = Result(name, f)
    cfg = SplitCfg(env.prog, env.roles)
    cfg.kinds_restrict = {('app', 'V.type', ('sym', 'v%d' % (1 - d))): {'CONTINUOUS'}}
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        if same_vars(p):
            r.vacuous += 1
            continue
        out = p.outcome
        types = next((v for (x, _), v in p.kinds.items() if x == ('app', 'V.type', ('sym', 'v%d' % d))), {'CONTINUOUS', 'INTEGER', 'BINARY', 'BOOLEAN'})
        if out[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, out[1]))
            continue
        if out[0] in ('abort', 'throw') and types <= {'BOOLEAN'}:
            r.vacuous += 1
            continue
        integral = types <= {'INTEGER', 'BINARY'}

        def cut(m):
            return m.leaf(('ival', m.rep(('sym', 'xy'[d]))), None)

        def splittable(m, p, *_):
            z = cut(m)
            return z is not None and z[0] < ival.query(m, ('app', 'iv.mid', ('sym', 'xy'[d]))) < z[1] and not (integral and integers(z) < 2)

        def result(m, p):
            v = canon(out[1])
            if what == 'vars':
                return 'fine' if int(M.val(m.num(v))) == 1 else 'the variables of the parts are not those of the box'
            a, b = ival.value(m, v[1]), ival.value(m, v[2])
            if what == 'rest':
                z = m.leaf(('ival', m.rep(('sym', 'xy'[1 - d]))), None)
                return 'fine' if a == z and b == z else 'the other interval %s becomes %s and %s' % (z, a, b)
            z = cut(m)
            return cover(z, a, b, integral)
        decide_or_assert(env, r, I, p, lambda m, p: 'fine', result, ival.EXT, pre=preset('xy', integral),
                    allow_throw=lambda m, p, t: not splittable(m, p), allow_abort=lambda m, p: not splittable(m, p))
    return r


def bitset_prim(n_bits):
    """Queries of a set of dimensions: membership of each index is opaque."""
    def make(I, ref):
        cls = ref.get('cls') or ''
        if 'dynamic_bitset' not in cls:
            return None
        n, op = ref['n'], ref.get('op')

        def first(I, obj, i):
            while i < n_bits:
                t = ('app', 'x.active', ('int', i))
                I.types[t] = 'bool'
                if I.decide(t):
                    return ('int', i)
                i += 1
            return ('int', 2 ** 64 - 1)

        def h(I, n_, ref, obj, args):
            if n == 'find_first' or n in ('none', 'any'):
                x = first(I, obj, 0)
                if n == 'find_first':
                    return x
                return TRUE if (x[1] == 2 ** 64 - 1) == (n == 'none') else FALSE
            if n == 'find_next':
                v = argv(I, args[0])
                return first(I, obj, int(lit(v)) + 1) if is_lit(v) else DECLINE
            if n in ('test',) or op == '[]':
                v = argv(I, args[0])
                if is_lit(v):
                    t = ('app', 'x.active', v)
                    I.types[t] = 'bool'
                    return t
            if n == 'size':
                return ('int', n_bits)
            if n == 'count':
                return ('int', sum(1 for i in range(n_bits) if I.decide(('app', 'x.active', ('int', i)))))
            return DECLINE
        return h
    return make


class SplitCfg(BoxCfg):
    bits = 3
    asserts_abort = True

    def prim(self, I, ref):
        r = bitset_prim(self.bits)(I, ref)
        return r if r is not None else BoxCfg.prim(self, I, ref)


def widest(env, name):
    """FindMaxDiam, MaxDiam: an index of an active interval that can be split, unless there is none."""
    f = env.prog.one('probe::' + name)
    r = Result(name, f)
    n = 3 if name.endswith('active') else 2
    cfg = SplitCfg(env.prog, env.roles)
    cfg.kinds_restrict = {('app', 'V.type', ('sym', 'v%d' % i)): {'CONTINUOUS'} for i in range(n)}
    I = Interp(env.prog, cfg)
    active = lambda m, i: n == 2 or m.B(('app', 'x.active', ("int", i)), C0)
    ext = dict(ival.EXT, **{'x.active': lambda m, t, c: m.leaf(m.rep(t), lambda: m.rng.random() < 0.6)})
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        if same_vars(p):
            r.vacuous += 1
            continue

        def result(m, p):
            v = canon(p.outcome[1])
            i = int(M.val(m.num(v[2])))
            ok = [j for j in range(n) if active(m, j) and (ival.query(m, ('app', 'iv.is_bisectable', ('sym', 'xyz'[j])))) and ival.query(m, ('app', 'iv.diam', ('sym', 'xyz'[j]))) > 0]
            at = [m.leaf(('ival', m.rep(('sym', 'xyz'[j]))), None) for j in range(n)]
            if i < 0:
                return 'fine' if not ok else 'no dimension is found although %s can be split (intervals %s)' % (ok, at)
            if i not in ok:
                return 'dimension %d is chosen although only %s can be split (intervals %s)' % (i, ok, at)
            d = M.val(m.num(v[1]))
            return 'fine' if d == at[i][1] - at[i][0] else 'the width %r is reported for %s' % (d, at[i])
        decide_or_assert(env, r, I, p, lambda m, p: 'fine', result, ext, pre=preset('xyz'[:n], False), allow_abort=lambda m, p: not any(active(m, j) for j in range(n)))
    return r


def branch(env, name):
    """BranchLargestFirst on a box of two variables."""
    f = env.prog.one('probe::' + name)
    k = int(name[-1])
    r = Result(name, f)
    cfg = SplitCfg(env.prog, env.roles)
    cfg.bits = 2
    cfg.kinds_restrict = {('app', 'V.type', ('sym', 'v%d' % i)): {'CONTINUOUS'} for i in range(2)}
    I = Interp(env.prog, cfg)
    ext = dict(ival.EXT, **{'x.active': lambda m, t, c: m.leaf(m.rep(t), lambda: m.rng.random() < 0.6)})
    active = lambda m, i: m.B(('app', 'x.active', ('int', i)), C0)
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        if same_vars(p):
            r.vacuous += 1
            continue

        def result(m, p):
            v = canon(p.outcome[1])
            i = int(M.val(m.num(v[1])))
            at = [m.leaf(('ival', m.rep(('sym', 'xy'[j]))), None) for j in range(2)]
            ok = [j for j in range(2) if active(m, j) and ival.query(m, ('app', 'iv.is_bisectable', ('sym', 'xy'[j])))]
            a, b = ival.value(m, v[2][1]), ival.value(m, v[2][2])
            if i < 0:
                return 'fine' if not ok else 'no dimension is split although %s can be (intervals %s)' % (ok, at)
            if i not in ok:
                return 'dimension %d is split although only %s can be (intervals %s)' % (i, ok, at)
            if i == k:
                return cover(at[k], a, b, False)
            return 'fine' if a == b == at[k] else 'dimension %d is reported as split, but the interval %s of the other becomes %s and %s' % (i, at[k], a, b)
        decide_or_assert(env, r, I, p, lambda m, p: 'fine', result, ext, pre=preset('xy', False), allow_abort=lambda m, p: not any(active(m, j) for j in range(2)))
    return r


BOX, CS = DR + 'Box', DR + 'ContractorStatus'


class Enough(Exception):
    pass


class SearchCfg(IvalCfg):
    """The search loop over opaque boxes: what pruning, evaluation and branching answer is arbitrary."""
    max_loop = 40

    def __init__(self, prog, roles, limit):
        IvalCfg.__init__(self, prog, roles)
        self.limit = limit

    def slot(self, I, v):
        """The location an argument of type Box* or ContractorStatus* points to."""
        return I.deref(v)

    def fresh(self, I, name, box, ty='bool'):
        t = ('app', 'x.' + name, box)
        I.types[t] = ty
        return t

    def prim(self, I, ref):
        n, cls, op, q = ref['n'], ref.get('cls') or '', ref.get('op'), ref['q']
        if cls == BOX and n == 'empty':
            return lambda I, n_, ref, obj, args: self.fresh(I, 'empty', argv(I, obj))
        if cls == BOX and n == 'set_empty':
            def set_empty(I, n_, ref, obj, args):
                I.set(obj, ('app', 'x.nothing'))
                return VOID
            return set_empty
        if ref['fid'].startswith(BOX + '::(ctor)'):
            def ctor(I, n_, ref, obj, args):
                return argv(I, args[0]) if args else ('app', 'x.default')
            return ctor
        if cls == BOX and op == '=':
            def assign(I, n_, ref, obj, args):
                I.set(obj, argv(I, args[0]))
                return obj
            return assign
        if cls == BOX and n == 'bisect':
            def bisect(I, n_, ref, obj, args):
                v = argv(I, obj)
                return ('pair', self.fresh(I, 'left', v, BOX), self.fresh(I, 'right', v, BOX))
            return bisect
        if cls == CS and n in ('box', 'mutable_box'):
            return lambda I, n_, ref, obj, args: self.box_of(I, obj)
        if cls == CS and n in ('branching_point', 'mutable_branching_point'):
            return lambda I, n_, ref, obj, args: self.point
        if cls == DR + 'Contractor' and n == 'Prune':
            def prune(I, n_, ref, obj, args):
                at = self.box_of(I, args[0])
                v = argv(I, at)
                I.events.append(('prune', v))
                if sum(1 for e in I.events if e[0] == 'prune') > self.limit:
                    raise AbortEx('enough boxes')
                I.set(at, self.fresh(I, 'pruned', v, BOX))
                return VOID
            return prune
        if q == DR + 'EvaluateBox':
            def evaluate(I, n_, ref, obj, args):
                v = argv(I, args[1])
                I.events.append(('evaluate', argv(I, args[0]), v, argv(I, args[2])))
                if I.decide(self.fresh(I, 'refuted', v)):
                    return ('none',)
                return ('some', self.fresh(I, 'candidates', v, DR + 'DynamicBitset'))
            return evaluate
        if cls.startswith('tl::optional<') and n in ('operator bool', 'has_value'):
            def full(I, n_, ref, obj, args):
                v = argv(I, obj)
                return TRUE if v[0] == 'some' and not nothing(v) else FALSE if nothing(v) else DECLINE
            return full
        if 'dynamic_bitset' in cls and n in ('none', 'any'):
            def none(I, n_, ref, obj, args):
                t = self.fresh(I, 'none', argv(I, obj))
                return t if n == 'none' else ('not', t)
            return none
        if (cls.startswith('std::function') and op == '()' or q == DR + 'BranchLargestFirst') and len(ref['pt']) == 4 or cls.startswith('std::function') and 'dynamic_bitset' in cls and op == '()':
            def branch(I, n_, ref, obj, args):
                v, c = argv(I, args[0]), argv(I, args[1])
                t = self.fresh(I, 'dim', v, 'int')
                I.events.append(('branch', v, c))
                if I.decide(I.cmpop('>=', t, ('int', 0))):
                    I.set(I.deref(args[2]), self.fresh(I, 'left', v, BOX))
                    I.set(I.deref(args[3]), self.fresh(I, 'right', v, BOX))
                return t
            return branch
        if q == DR + 'FindMaxDiam':
            def dim(I, n_, ref, obj, args):
                v, c = argv(I, args[0]), argv(I, args[1])
                I.events.append(('branch', v, c))
                return ('pair', self.fresh(I, 'diam', v, 'double'), self.fresh(I, 'dim', v, 'int'))
            return dim
        if cls.startswith(DR + 'Config') and n == 'brancher':
            return lambda I, n_, ref, obj, args: I.new_root(('sym', 'brancher'), 'brancher')
        if cls.startswith(DR + 'Config') and not op:
            def option(I, n_, ref, obj, args):
                t = ('app', 'x.config', ('str', n))
                I.types[t] = strip_type(ref['ret'])
                return t
            return option
        if cls in (DR + 'TimerGuard', DR + 'IcpStat', DR + 'Timer', DR + 'Stat') or q.startswith(DR + 'Timer'):
            return lambda I, n_, ref, obj, args: FALSE if ref['ret'] == 'bool' else VOID
        if ref['fid'].startswith((DR + 'TimerGuard::', DR + 'IcpStat::', DR + 'Timer::')):
            return lambda I, n_, ref, obj, args: ('sym', 'timer')
        return IvalCfg.prim(self, I, ref)

    def box_of(self, I, cs):
        return self.current


def decided(p, t):
    """What the path has decided about a Boolean term, or None."""
    return next((b for a, b in p.facts if a == t), None)


def at_least_0(p, t):
    for a, b in p.facts:
        if a[0] == 'cmp' and t in a and a[2] == t and is_lit(a[3]):
            k = lit(a[3])
            v = {'>=': k == 0, '>': k == -1, '<': k == 0, '<=': k == -1, '==': k == -1, '!=': k == -1}.get(a[1])
            if v:
                return b if a[1] in ('>=', '>', '!=') else not b
        if a[0] == 'cmp' and t in a and a[3] == t and is_lit(a[2]):
            k = lit(a[2])
            v = {'<=': k == 0, '<': k == -1, '>': k == 0, '>=': k == -1, '==': k == -1, '!=': k == -1}.get(a[1])
            if v:
                return b if a[1] in ('<=', '<', '!=') else not b
        if a[0] == 'eq' and t in a and any(is_lit(x) and lit(x) == -1 for x in a[1:]):
            return not b
    return None


def fate(p, box):
    """What became of a box that was pruned: empty, refuted, accepted, split or None (unknown)."""
    v = ('app', 'x.pruned', box)
    if decided(p, ('app', 'x.empty', v)):
        return 'empty'
    if decided(p, ('app', 'x.refuted', v)):
        return 'refuted'
    if decided(p, ('app', 'x.refuted', v)) is None:
        return None
    if decided(p, ('app', 'x.none', ('app', 'x.candidates', v))):
        return 'accepted'
    d = at_least_0(p, ('app', 'x.dim', v))
    return None if d is None else 'split' if d else 'accepted'


def search(env):
    f = env.prog.one(DR + 'IcpSeq::CheckSat')
    r = Result('sequential search', f)
    start = ('sym', 'B0')
    n = 3 if env.tier == 'quick' else 4
    cfg = SearchCfg(env.prog, env.roles, n)
    I = Interp(env.prog, cfg)

    def setup(I):
        cfg.current, cfg.point = I.new_root(start, 'box'), I.new_root(('int', -1), 'point')
        I.types[start] = BOX
        return setup_for(f)(I)
    for p in I.explore(f, setup):
        r.paths += 1
        out = p.outcome
        if out[0] == 'unsupported':
            r.undecided.append('%s: %s [%s]' % (r.name, out[1], p.describe()[:200]))
            continue

        def bad(text):
            r.violations.append((r.name, '%s: %s [when %s; events %s]' % (r.fn, text, p.describe()[:300], [show(e[1])[:60] for e in p.events if e[0] == 'prune'])))
        work, done, wrong = [start], [], None
        for e in p.events:
            if e[0] == 'prune':
                if e[1] not in work:
                    wrong = 'the box %s is searched, which is not one of the remaining %s' % (show(e[1])[:80], [show(w)[:60] for w in work])
                    break
                work.remove(e[1])
                done.append(e[1])
                if fate(p, e[1]) == 'split':
                    v = ('app', 'x.pruned', e[1])
                    work += [('app', 'x.left', v), ('app', 'x.right', v)]
            elif e[0] == 'evaluate':
                if e[2] != ('app', 'x.pruned', done[-1] if done else None):
                    wrong = 'evaluates %s, not the box just pruned' % show(e[2])[:80]
                elif e[1] != ('sym', f['params'][1]['name']):
                    wrong = 'evaluates %s, not the given constraints' % show(e[1])[:80]
                elif e[3] != ('app', 'x.config', ('str', 'precision')):
                    wrong = 'evaluates with the precision %s' % show(e[3])[:80]
        last = fate(p, done[-1]) if done else None
        if wrong:
            bad(wrong)
        elif out == ('abort', 'enough boxes') or out[0] == 'abort' and 'enough boxes' in str(out[1]):
            r.agree += 1
        elif out[0] != 'ret' or canon(out[1]) not in (TRUE, FALSE):
            bad('ends in %s' % (show(out[1])[:80],))
        elif any(fate(p, x) is None for x in done):
            bad('the box %s is neither refuted, split nor accepted' % [show(x) for x in done if fate(p, x) is None][0])
        elif canon(out[1]) == TRUE:
            now = canon(p.heap.get(cfg.current.root))
            if last != 'accepted':
                bad('a solution is reported although the last box was %s' % last)
            elif now != ('app', 'x.pruned', done[-1]):
                bad('the box reported is %s, not the one accepted' % show(now)[:80])
            else:
                r.agree += 1
        elif 'accepted' in [fate(p, x) for x in done]:
            bad('no solution is reported although a box was accepted')
        elif work:
            bad('no solution is reported although %s was not searched' % [show(w)[:80] for w in work])
        else:
            r.agree += 1
    return r


def check_C07(c):
    src = SPLIT_PROBE % '\n'.join(SPLIT % x for x in SPLITS)
    env = make_env(c, extract.all_tus() + [extract.probe('split', src)])
    jobs = [lambda x=x: split(env, x['name']) for x in SPLITS] + [lambda x=x: widest(env, x) for x in ('widest', 'widest_active')] + [lambda x=x: branch(env, x) for x in ('branch0', 'branch1')] + [lambda: search(env)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Splitting a box of two variables (each kind of variable, arbitrary intervals): every point (every integer for an integral variable) of the split interval is in one of '
                   'the two parts, both parts are smaller and inside it, and nothing else changes; it is refused only if the interval cannot be split. The widest dimension is an active one '
                   'that can be split unless there is none; BranchLargestFirst splits the dimension it reports. Every path of the sequential search with up to %d boxes, with arbitrary '
                   'answers of pruning, evaluation and branching: each box searched is the initial one or a half of a box that was split, no solution is reported only when '
                   'none remains and all were refuted, and a solution only for the box just accepted.' % (3 if c.tier == 'quick' else 4))
    c.assumptions += ['ibex::Interval::bisect gives two parts that share their end point', 'the search is examined on a bounded number of boxes', 'parallel search: C08']
    return n
