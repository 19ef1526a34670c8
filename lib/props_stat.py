"""U04: counters and timers."""
import itertools
import re

import extract
from check import parallel
from common import *
from engine import LV, Unsupported, mkbool, walk
from equiv import viol
from props_guard import cell, guard_cfg, p_nop, viol_text
from sym import SymConfig

STAT = 'dreal::Stat'
TIMER = 'dreal::Timer'

PROBE = r'''
#include <atomic>
#include <sstream>
#include "dreal/util/stat.h"
#include "dreal/util/timer.h"
namespace probe {
void at(int now);                        // the clock shows this from here on
void others(std::atomic<int>* counter);  // other threads may add to the counter from here on
class S : public dreal::Stat {
 public:
  explicit S(bool on) : dreal::Stat{on} {}
  void up() { increase(&a); }
  void up2() { increase(&b); }
  std::atomic<int> a{0};
  std::atomic<int> b{0};
};
'''


# --- timers ---------------------------------------------------------------------------------

OPS = {'s': 't.start();', 'p': 't.pause();', 'r': 't.resume();'}


def timer_ref(h, T):
    """Total of the running periods; start begins a new measurement."""
    run_, since, tot = 0, 0, 0
    for i, x in enumerate(h):
        now = T(i)
        if x == 's':
            tot, run_, since = 0, 1, now
        elif x == 'r' and not run_:
            run_, since = 1, now
        elif x == 'p' and run_:
            run_, tot = 0, tot + now - since
    return run_, tot + (T(len(h)) - since if run_ else 0)


def source(n):
    out, obs = [PROBE], []
    for k in range(0, n + 1):
        for h in itertools.product('spr', repeat=k):
            h = ''.join(h)
            params = ', '.join('int t%d' % i for i in range(k + 1))
            body = 'at(b0); dreal::Timer t; ' + ' '.join('at(t%d); %s' % (i, OPS[x]) for i, x in enumerate(h)) + ' at(t%d); ' % k
            T = lambda m: (lambda i: m.num(('sym', 't%d' % i), C0))
            for o, e, spec in (('elapsed', 't.elapsed().count()', lambda m, p, h=h: timer_ref(h, T(m))[1]),
                               ('running', 't.is_running()', lambda m, p, h=h: timer_ref(h, T(m))[0]),
                               ('seconds', 't.seconds()', lambda m, p, h=h: timer_ref(h, T(m))[1] * 1e-9))[:3 if k < 4 else 1]:
                name = 'timer_%s_%s' % (h, o)
                out.append('%s %s(int b0, %s) { %s return %s; }' % ({'elapsed': 'long', 'seconds': 'double'}.get(o, 'int'), name, params, body, e))
                obs.append((name, spec))
            if k == 2:
                name = 'timer_%s_again' % h
                out.append('long %s(int b0, %s) { %s long x = t.elapsed().count(); long y = t.elapsed().count(); double z = t.seconds(); return x * 1000 + y + (z > 1e18 ? 1 : 0); }' %
                           (name, params, body))
                obs.append((name, lambda m, p, h=h: timer_ref(h, T(m))[1] * 1001))
    for k, body, spec in (
            ('one', 's.up();', lambda m: m), ('two', 's.up(); s.up();', lambda m: 2 * m), ('other', 's.up2();', lambda m: 0),
            ('mixed', 's.up2(); s.up(); s.up2();', lambda m: m), ('none', '', lambda m: 0), ('ten', 'for (int i = 0; i < 10; ++i) { s.up(); }', lambda m: 10 * m)):
        out.append('int stat_%s(bool on) { S s{on}; others(&s.a); %s return s.a.load(); }' % (k, body))
        obs.append(('stat_' + k, lambda m, p, spec=spec: spec(int(bool(m.num(('sym', 'on'), C0)))) + others_sum(m, p)))
    out.append('int stat_on(bool on) { S s{on}; return s.enabled(); }')
    obs.append(('stat_on', lambda m, p: int(bool(m.num(('sym', 'on'), C0)))))
    out.append('}')
    return '\n'.join(out), obs


def others_sum(m, p):
    v = p.heap.get(('g', 'others'))
    return 0 if v is None else m.num(canon(v), C0)


def interfere(I, lv):
    w = I.heap.get(('g', 'watch'))
    if w is None or I.resolve(lv) != w:
        return
    I.nroot += 1
    t = ('app', 'others', ('int', I.nroot))
    I.types[t] = 'int'
    I.heap[w.root] = I.heap[w.root]
    I.set(w, I.arith('+', canon(I.settle(I.get(w))), t, 'int'))
    s = cell(I, 'others', ('int', 0))
    I.set(s, I.arith('+', I.get(s), t, 'int'))


RMW = {'fetch_add': ('+', 'old'), 'fetch_sub': ('-', 'old'), 'operator++': ('+', 'new'), 'operator--': ('-', 'new'), 'operator+=': ('+', 'new'), 'operator-=': ('-', 'new'),
       'exchange': (None, 'old'), 'store': (None, None), 'operator=': (None, 'new')}


def atomic_op(I, lv, name, args):
    interfere(I, lv)
    old = canon(I.settle(I.get(lv)))
    if name == 'load' or name.startswith('operator ') or name in ('operator int', 'is_lock_free'):
        return old
    if name not in RMW:
        return DECLINE
    op, res = RMW[name]
    if name in ('operator++', 'operator--'):
        res = 'old' if args else 'new'
        x = ('int', 1)
    else:
        x = canon(I.settle(args[0]))
    new = x if op is None else I.arith(op, old, x, 'int')
    I.set(lv, new)
    return {'old': old, 'new': new, None: ('void',)}[res]


def p_atomic(I, n, ref, obj, args):
    if obj is not None:
        return atomic_op(I, obj, ref['n'], args)
    m = re.match(r'std::atomic_(\w+?)(_explicit)?$', ref['q'])
    if m and args:
        return atomic_op(I, I.resolve(I.deref(args[0])), m.group(1), args[1:])
    return DECLINE


def p_at(I, n, ref, obj, args):
    I.set(cell(I, 'now', ('int', 0)), canon(I.settle(args[0])))
    return ('void',)


def p_others(I, n, ref, obj, args):
    I.heap[('g', 'watch')] = I.resolve(I.deref(args[0]))
    return ('void',)


def stat_cfg(cfg):
    guard_cfg(cfg)
    base = cfg.prim

    def prim(I, ref):
        c = ref.get('cls') or ''
        if c.startswith(('std::atomic', 'std::__atomic')) or ref['q'].startswith('std::atomic_'):
            return p_atomic
        if ref['q'] == 'probe::at':
            return p_at
        if ref['q'] == 'probe::others':
            return p_others
        return base(I, ref)
    cfg.prim = prim


def probe_ob(env, name, spec):
    f = env.prog.one('probe::' + name)

    def cmp_(a, b):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9)
    return run(env, name, f, setup_for(f), spec, ret_num, cfg_mod=stat_cfg, compare=cmp_)


# --- the statistics of the solver ----------------------------------------------------------

def stat_classes(prog):
    out = []
    for q, c in prog.classes.items():
        if not q.startswith('dreal::'):
            continue
        todo, seen = list(c.get('bases', [])), set()
        while todo:
            b = todo.pop()
            if b == STAT:
                out.append(q)
                break
            if b in prog.classes and b not in seen:
                seen.add(b)
                todo += prog.classes[b].get('bases', [])
    return sorted(out)


def counters(prog, cls):
    return [f for f in prog.classes[cls]['fields'] if not f['type'].startswith('const ') and re.search(r'\b(int|long|size_t|unsigned|atomic\w*)\b', f['type'])]


def report(env, cls):
    """The destructor reports each counter and timer once when enabled, and nothing when not."""
    prog = env.prog
    d = [f for f in prog.functions.values() if f['kind'] == 'dtor' and f.get('cls') == cls and f.get('body') is not None]
    r = Result('%s reports what it counted' % cls)
    if not d:
        r.undecided.append('%s: no destructor' % cls)
        return r
    r.fn = '%s (%s:%s)' % (d[0]['q'], d[0]['file'].replace('/repo/', ''), d[0]['line'])
    cfg = SymConfig(prog, None)
    stat_cfg(cfg)
    I = Interp(prog, cfg)
    cs = [f['name'] for f in counters(prog, cls)]
    timers = [f['name'] for f in prog.classes[cls]['fields'] if strip_type(f['type']) == TIMER]
    shown = set()
    this = ('sym', 'this')
    for p in I.explore(d[0], setup_for(d[0]), limit=100):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        prints = [e for e in p.events if e[0] == 'print']
        on = [t for c, t in path_bools(p) if c[0] == 'fld' and c[2].startswith('enabled')]
        if on and not on[0] and prints:
            viol_text(r, p, 'something is printed although the statistics are disabled')
            return r
        bad = None
        for e in prints:
            vals = e[1:]
            fm = [v[1] for v in vals if isinstance(v, tuple) and v[0] == 'str' and '{' in v[1]]
            if fm and len(re.findall(r'\{[^{}]*\}', fm[0])) > len(vals) - 1 - vals.index(('str', fm[0])):
                bad = 'the report "%s" has more fields than values' % fm[0].strip()
        if bad:
            viol_text(r, p, bad)
            return r
        if on and on[0]:
            for c in cs:
                t = ('fld', this, c)
                k = sum(1 for e in prints for v in e[1:] if v == t)
                if k != 1:
                    viol_text(r, p, 'the counter %s is reported %s although the statistics are enabled' % (c, 'not at all' if not k else '%d times' % k))
                    return r
            for tname in timers:
                if any(tname in repr(v) for e in prints for v in e[1:]):
                    shown.add(tname)
        r.agree += 1
    for t in timers:
        if t not in shown and not r.undecided:
            r.violations.append((r.name, '%s: %s: the timer %s is never reported' % (r.name, r.fn, t)))
    return r


def path_bools(p):
    """(condition, truth) of the path."""
    out = []
    for f in p.facts:
        t = True
        while isinstance(f, tuple) and f and f[0] == 'not':
            f, t = f[1], not t
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], bool) and isinstance(f[0], tuple):
            f, t = f[0], f[1]
            while isinstance(f, tuple) and f and f[0] == 'not':
                f, t = f[1], not t
        if isinstance(f, tuple):
            out.append((f, t))
    return out


def increments(env, cls):
    """Every method that counts adds exactly one to one counter, atomically."""
    prog = env.prog
    out = []
    cs = [f['name'] for f in counters(prog, cls)]
    for f in prog.functions.values():
        if f.get('cls') != cls or f.get('body') is None or f['kind'] != 'method' or f['params'] or f.get('const') or f.get('static'):
            continue
        r = Result('%s counts once' % f['q'], f)
        cfg = SymConfig(prog, None)
        stat_cfg(cfg)
        I = Interp(prog, cfg)
        this = ('sym', 'this')
        for p in I.explore(f, setup_for(f), limit=60):
            r.paths += 1
            if p.outcome[0] != 'ret':
                r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
                continue
            on = [t for c, t in path_bools(p) if c[0] == 'fld' and c[2].startswith('enabled')]
            d = deltas(I, p.final['this'], cs, this)
            if d is None:
                r.undecided.append('%s: the counters end with %s' % (r.name, show(p.final['this'])[:200]))
                continue
            want = 1 if not on or on[0] else 0
            total = sum(d.values())
            if sorted(d.values()) != [0] * (len(cs) - 1) + [want] if cs else total != 0:
                viol_text(r, p, 'the counters change by %s' % ', '.join('%s: %+d' % x for x in sorted(d.items())))
                break
            r.agree += 1
        out.append(r)
    return out


def deltas(I, fin, cs, base):
    """How much each counter grew, or None."""
    d = {}
    for c in cs:
        try:
            v = canon(I.settle(I.comp(fin, ('f', c))))
        except (Unsupported, KeyError):
            return None
        n = offset(v, ('fld', base, c))
        if n is None:
            return None
        d[c] = n
    return d


def offset(v, t):
    if v == t:
        return 0
    if isinstance(v, tuple) and v[0] in ('op', 'app', 'bin') and len(v) == 4 and v[1] in ('+', '-'):
        a, b = v[2], v[3]
        if isinstance(b, tuple) and b[0] == 'int':
            o = offset(a, t)
            return None if o is None else o + (b[1] if v[1] == '+' else -b[1])
        if isinstance(a, tuple) and a[0] == 'int' and v[1] == '+':
            o = offset(b, t)
            return None if o is None else o + a[1]
    return None


# --- who records ---------------------------------------------------------------------------

def recorders(prog, classes):
    for f in prog.functions.values():
        if f.get('body') is None or '/test/' in f['file'] or not f['file'].startswith(extract.REPO):
            continue
        for n in walk(f['body']):
            if n.get('k') == 'decl':
                for d in n.get('d', []):
                    if strip_type(d['type']) in classes and not d['type'].rstrip().endswith(('*',)):
                        yield f, d


PAIRED = {'IcpStat': {'num_prune_': 'Contractor::Prune'}}
MAYBE = {'ContractorIbexFwdbwdStat': ['num_zero_effect_pruning_'], 'IcpStat': None}


def opaque_cfg(prog, classes):
    cfg = SymConfig(prog, None, sizes=(0, 1))
    stat_cfg(cfg)
    base = cfg.prim
    keep = set(classes) | {STAT, TIMER, 'dreal::TimerGuard'}

    def prim(I, ref):
        if ref.get('cls') in keep or (ref.get('cls') or '').startswith('std::') or not ref['q'].startswith('dreal::'):
            return base(I, ref)
        return lambda I, n, ref, obj, args: I.opaque_call(ref, obj, args)
    cfg.prim = prim
    return cfg


def recording(env, f, d, classes):
    """A call of a recording function counts one event on every path."""
    prog = env.prog
    cls = strip_type(d['type'])
    short = cls.split('::')[-1]
    r = Result('%s counts its calls in %s' % (f['q'], short), f)
    cfg = opaque_cfg(prog, classes)
    cfg.max_paths = 300
    I = Interp(prog, cfg)
    cs = [x['name'] for x in counters(prog, cls)]
    maybe = MAYBE.get(short, [])
    if maybe is None:
        return None
    base = ('sym', 'static ' + d['name']) if d.get('static') else None
    anyinc = False
    done = []
    for p in I.explore(f, setup_for(f), limit=300):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        if p.outcome[0] != 'ret':
            r.agree += 1
            continue
        roots = [k for k in p.heap if isinstance(k, tuple) and k[0] == 'v' and k[-1] == d['id']]
        if len(roots) != 1 or base is None:
            r.undecided.append('%s: the statistics object is not found' % r.name)
            continue
        dl = deltas(I, p.heap[roots[0]], cs, base)
        if dl is None:
            r.undecided.append('%s: the counters end with %s' % (r.name, show(canon(p.heap[roots[0]]))[:200]))
            continue
        on = [t for c, t in path_bools(p) if c[0] == 'fld' and c[2].startswith('enabled')]
        anyinc = anyinc or any(dl.values())
        done.append((p, dl, not on or on[0]))
    if not anyinc:
        r.undecided.append('%s: nothing is counted here' % r.name) if escapes(f, d) else viol_plain(r, 'no path counts anything')
        return r
    for p, dl, on in done:
        bad = [c for c in cs if (dl[c] != (1 if on else 0) if c not in maybe else not 0 <= dl[c] <= (1 if on else 0))]
        if bad:
            viol_text(r, p, 'a call changes the counter %s by %d%s' % (bad[0], dl[bad[0]], '' if on else ' although the statistics are disabled'))
            break
        r.agree += 1
    return r


def viol_plain(r, text):
    r.violations.append((r.name, '%s: %s: %s' % (r.name, r.fn, text)))


def escapes(f, d):
    """Is the object handed to somebody else?"""
    for n in walk(f['body']):
        if n.get('k') == 'return' and isinstance(n.get('e'), dict):
            for m in walk(n['e']):
                if m.get('k') == 'ref' and m.get('id') == d['id']:
                    return True
        if n.get('k') in ('call', 'ctor'):
            for a in n.get('a', []):
                if isinstance(a, dict) and a.get('k') == 'un':
                    a = a.get('e', a)
                if isinstance(a, dict) and a.get('k') == 'ref' and a.get('id') == d['id']:
                    return True
        if n.get('k') == 'lambda':
            for m in walk(n):
                if m.get('k') == 'ref' and m.get('id') == d['id']:
                    return True
    return False


def sharing(env, classes):
    """A counter of an object that several threads can reach is atomic, and is not written by separate load and store."""
    r = Result('counters shared between threads are atomic')
    prog = env.prog
    for f, d in recorders(prog, classes):
        cls = strip_type(d['type'])
        r.paths += 1
        shared = d.get('static') and not d.get('tls') or not d.get('static') and d['type'].rstrip().endswith('&')
        for c in counters(prog, cls):
            if shared and 'atomic' not in c['type']:
                r.violations.append((cls + '::' + c['name'], '%s:%s: %s: the statistics object %s is shared by all threads but its counter %s is a plain %s: concurrent increments are lost' %
                                     (f['file'].replace('/repo/', ''), d.get('line', f['line']), f['q'], d['name'], c['name'], c['type'])))
        r.agree += 1
    for f in prog.functions.values():
        if f.get('body') is None or '/test/' in f['file'] or not f['file'].startswith(extract.REPO):
            continue
        for n in walk(f['body']):
            if n.get('k') in ('opcall', 'mcall') and (n.get('fn') or {}).get('n') in ('operator=', 'store') and 'atomic' in ((n['fn'].get('cls') or '') + n['fn']['q']):
                tgt = (n.get('a') or [None])[0] if n['k'] == 'opcall' else n.get('o')
                src = (n.get('a') or [None, None])[1:] if n['k'] == 'opcall' else n.get('a')
                m = member_of(tgt, classes)
                if m and any(member_of(x, classes) == m for y in src if isinstance(y, dict) for x in walk(y)):
                    r.violations.append((f['q'], '%s:%s: %s: the counter %s is read and written in two steps: an increment by another thread in between is lost' %
                                         (f['file'].replace('/repo/', ''), n.get('l'), f['q'], m)))
    return r


def member_of(n, classes):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren') and isinstance(n.get('e'), dict):
        n = n['e']
    if isinstance(n, dict) and n.get('k') == 'mem' and n.get('cls') in classes:
        return '%s::%s' % (n['cls'], n['n'])
    return None


def check_U04(c):
    src, obs = source(4 if c.tier == 'quick' else 5)
    env = Env(program(extract.all_tus() + [extract.probe('stats', src)]), None, c.tier, c.seed)
    classes = stat_classes(env.prog)
    classes = [k for k in classes if not k.startswith('probe::')]
    jobs = [lambda a=a: probe_ob(env, *a) for a in obs]
    for k in classes:
        jobs.append(lambda k=k: report(env, k))
    c.add(parallel(jobs))
    for k in classes:
        c.add(increments(env, k))
    c.add(sharing(env, classes))
    rec = list(recorders(env.prog, classes))
    c.add([r for r in parallel([lambda a=a: recording(env, a[0], a[1], classes) for a in rec]) if r])
    c.rules.append('Timers: the summaries of start, pause and resume are composed over every history with a symbolic clock; elapsed() must be the total of the running '
                   'periods since the last start, seconds() the same in seconds, and observing must change nothing.')
    c.rules.append('Counters: increase() is summarised with other threads adding to the counter before every atomic step (rely-guarantee); nothing may be lost, and a '
                   'disabled object must not change. A counter of an object with static storage must be atomic and not written in two steps. Every counting method adds '
                   'one to one counter; every function that owns a statistics object counts each of its calls once on every path; the destructor reports every counter '
                   'once when enabled and nothing otherwise.')
    c.assumptions += ['the clock is monotone and stands still during an operation', 'timers of objects shared between threads are not analysed for races']
    return len(jobs) + len(rec)
