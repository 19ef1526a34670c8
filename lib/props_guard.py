"""U03: scoped guards put process-wide state back on every exit."""
import re

import extract
from check import parallel
from common import *
from engine import LV, Unsupported, lit, is_lit, mkbool, NULL, walk
from equiv import viol
from sym import SymConfig

GUARDS = ('RoundingModeGuard', 'PrecisionGuard', 'SignalHandlerGuard', 'TimerGuard', 'PrefixPrinter')
PROBE = r'''
#include <atomic>
#include <cfenv>
#include <csignal>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "dreal/symbolic/prefix_printer.h"
#include "dreal/util/precision_guard.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/util/signal_handler_guard.h"
#include "dreal/util/timer.h"
namespace probe {
using dreal::PrecisionGuard; using dreal::PrefixPrinter; using dreal::RoundingModeGuard; using dreal::SignalHandlerGuard; using dreal::Timer; using dreal::TimerGuard;
using handler = void (*)(int);
bool same_action(int sig);            // the action in force is the one at the start
bool handler_is(int sig, handler h);  // the action in force calls h
void signals_may_set(volatile std::atomic_bool* flag);
void leave(int how);
'''


def scopes(decl, inside, havoc):
    """The ways a scope with a guard can be left.  decl/inside/havoc: code; every function returns the observation after the scope."""
    return [
        ('plain', '{ %s %s }' % (decl, havoc)),
        ('none', '{ %s }' % decl),
        ('throw', 'try { %s %s throw std::runtime_error("x"); } catch (const std::runtime_error&) { }' % (decl, havoc)),
        ('break', 'for (int i = 0; i < 3; ++i) { %s %s if (i == 0) { break; } }' % (decl, havoc)),
        ('loop', 'for (int i = 0; i < 3; ++i) { %s %s continue; }' % (decl, havoc)),
        ('nested', '{ %s { %s %s } %s }' % (decl, decl.replace(' g{', ' g2{').replace('sb', 'sc'), havoc, havoc)),
        ('nestthrow', 'try { %s { %s throw std::runtime_error("x"); } } catch (const std::runtime_error&) { }' % (decl, decl.replace(' g{', ' g2{'))),
        ('cond', 'if (c > 0) { %s %s } else { %s }' % (decl, havoc, havoc if False else '')),
        ('return', '[&]() { %s if (c > 0) { return 1; } %s return 2; }();' % (decl, havoc)),
        ('twice', '{ %s } { %s %s }' % (decl, decl, havoc)),
    ]


def source():
    out, obs = [PROBE], []

    def fun(name, params, body, spec, **kw):
        out.append('int %s(%s) {\n  %s\n}' % (name, params, body))
        obs.append((name, spec, kw))

    same = lambda m, p: 1
    # rounding mode
    rm = 'int a, int b, int c'
    for w, s in scopes('RoundingModeGuard g{b};', '', 'fesetround(c);'):
        fun('rm_' + w, rm, 'const int before = fegetround(); %s return fegetround() == before;' % s, same)
    fun('rm_inside', rm, 'fesetround(a); RoundingModeGuard g{b}; return fegetround();', lambda m, p: m.num(('sym', 'b'), C0))
    fun('rm_value', rm, 'fesetround(a); { RoundingModeGuard g{b}; } return fegetround();', lambda m, p: m.num(('sym', 'a'), C0))
    fun('rm_order', rm, 'fesetround(a); { RoundingModeGuard g{b}; { RoundingModeGuard h{c}; } return fegetround(); }', lambda m, p: m.num(('sym', 'b'), C0))
    # stream precision
    pg = 'std::ostream& os, int a, int b, int c'
    for w, s in scopes('PrecisionGuard g{&os, b};', '', 'os.precision(c);'):
        fun('pg_' + w, pg, 'const auto before = os.precision(); %s return os.precision() == before;' % s, same)
    fun('pg_value', pg, 'os.precision(a); { PrecisionGuard g{&os, b}; } return os.precision();', lambda m, p: m.num(('sym', 'a'), C0))
    fun('pg_inside', pg, 'os.precision(a); PrecisionGuard g{&os, b}; return os.precision();', lambda m, p: m.num(('sym', 'b'), C0))
    fun('pg_flags', pg, 'const auto f = os.flags(); { PrecisionGuard g{&os, b}; } return os.flags() == f;', same)
    fun('pg_fill', pg, 'const auto f = os.fill(); { PrecisionGuard g{&os, b}; } return os.fill() == f;', same)
    for w, s in scopes('PrefixPrinter g{os};', '', 'os.precision(c);'):
        fun('pp_' + w, pg, 'const auto before = os.precision(); %s return os.precision() == before;' % s, same)
    fun('pp_value', pg, 'os.precision(a); { PrefixPrinter g{os}; } return os.precision();', lambda m, p: m.num(('sym', 'a'), C0))
    fun('pp_exact', pg, 'PrefixPrinter g{os}; return os.precision() >= 17;', same)
    fun('pp_flags', pg, 'const auto f = os.flags(); { PrefixPrinter g{os}; } return os.flags() == f;', same)
    # signal handlers
    sg = 'int sa, int b, int c, handler h, volatile std::atomic_bool* flag'
    decl = 'SignalHandlerGuard g{sa, h, flag};'
    for w, s in scopes(decl, '', ''):
        fun('sg_' + w, sg, '%s return same_action(sa);' % s, same, throws=True)
        fun('sgflag_' + w, sg, 'signals_may_set(flag); *flag = false; %s return *flag ? 0 : 1;' % s, same, throws=True)
    fun('sg_inside', sg, decl + ' return handler_is(sa, h);', same, throws=True)
    fun('sg_fail', sg, 'try { %s return 1; } catch (const std::runtime_error&) { return same_action(sa); }' % decl, same)
    fun('sg_failed', sg, 'try { %s return handler_is(sa, h); } catch (const std::runtime_error&) { return 1; }' % decl, same)
    fun('sg_two', sg + ', int sb, handler k', '{ %s SignalHandlerGuard g2{sb, k, flag}; } return same_action(sa) && same_action(sb);' % decl, same, throws=True)
    # timers
    tg = 'bool on, bool st, int c'
    for run_ in ('', 't.start();', 't.start(); t.pause();'):
        tag = {'': 'fresh', 't.start();': 'running', 't.start(); t.pause();': 'paused'}[run_]
        was = int(tag == 'running')
        for hv in ('', 'g.pause();', 'g.resume();', 'g.pause(); g.resume();', 't.pause();', 't.resume();', 'g.resume(); g.pause();'):
            hn = re.sub(r'\W+', '', hv)
            for w, s in scopes('TimerGuard g{&t, on, st};', '', hv):
                if w in ('nested', 'nestthrow', 'twice', 'break', 'loop') and hv:
                    continue
                direct = {'t.pause();': 0, 't.resume();': 1}.get(hv)
                if direct is not None and w not in ('plain', 'throw'):
                    continue

                def spec(m, p, was=was, direct=direct):
                    return 0 if m.num(('sym', 'on'), C0) else was if direct is None else direct
                if w == 'cond':
                    def spec(m, p, was=was):
                        return 0 if m.num(('sym', 'on'), C0) and m.num(('sym', 'c'), C0) > 0 else was
                fun('tg_%s_%s_%s' % (tag, hn, w), tg, 'Timer t; %s %s return t.is_running();' % (run_, s), spec)
        fun('tgin_' + tag, tg, 'Timer t; %s TimerGuard g{&t, on, st}; return t.is_running();' % run_,
            lambda m, p, was=was: int(bool(was or (m.num(('sym', 'on'), C0) and m.num(('sym', 'st'), C0)))))
        fun('tginr_' + tag, tg, 'Timer t; %s TimerGuard g{&t, on, st}; g.resume(); return t.is_running();' % run_,
            lambda m, p, was=was: int(bool(was or m.num(('sym', 'on'), C0))))
        fun('tginp_' + tag, tg, 'Timer t; %s TimerGuard g{&t, on, st}; g.pause(); return t.is_running();' % run_,
            lambda m, p, was=was: int(bool(was and not m.num(('sym', 'on'), C0))))
    out.append('}')
    return '\n'.join(out), obs


# --- the state outside the program ------------------------------------------------------

def cell(I, name, init):
    root = ('g', name)
    if root not in I.heap:
        I.heap[root] = init
    return LV(root)


def fe(I):
    return cell(I, 'fe', ('sym', 'rounding mode'))


def p_fegetround(I, n, ref, obj, args):
    I.types.setdefault(('sym', 'rounding mode'), 'int')
    return I.get(fe(I))


def p_fesetround(I, n, ref, obj, args):
    I.set(fe(I), canon(I.settle(args[0])))
    return ('int', 0)


def action(I, sig):
    return cell(I, ('act', canon(I.settle(sig))), ('sym', 'action', canon(I.settle(sig))))


def arrive(I):
    """A signal may arrive while a handler is in force."""
    w = I.heap.get(('g', 'flag'))
    if w is None:
        return
    I.nroot += 1
    t = ('app', 'arrived', ('int', I.nroot))
    I.types[t] = 'bool'
    I.set(w, t)


def changed(I, root):
    v = I.heap.get(root)
    return v is not None and v != ('sym', 'action', root[1][1])


def p_sigaction(I, n, ref, obj, args):
    sig, new, old = [I.settle(a) for a in args]
    if changed(I, ('g', ('act', canon(sig)))):
        arrive(I)
    if not isinstance(new, tuple) or new != NULL:
        I.nroot += 1
        ok = ('app', 'sigaction.ok', ('int', I.nroot)) if not changed(I, ('g', ('act', canon(sig)))) else None
        if ok is not None:
            I.types[ok] = 'bool'
            if not I.decide(ok):
                return ('int', -1)
    a = action(I, sig)
    cur = I.get(a)
    if old != NULL:
        I.set(I.deref(old), cur)
    if new != NULL:
        I.set(a, canon(I.settle(I.get(I.deref(new)))))
    return ('int', 0)


def p_signal(I, n, ref, obj, args):
    sig, h = [I.settle(a) for a in args]
    if changed(I, ('g', ('act', canon(sig)))):
        arrive(I)
    a = action(I, sig)
    cur = I.get(a)
    I.set(a, ('app', 'simple action', canon(h)))
    return handler_of(I, cur)


def handler_of(I, v):
    return v[2] if isinstance(v, tuple) and v[:2] == ('app', 'simple action') else ('app', 'handler of', canon(v))


def p_same(I, n, ref, obj, args):
    s = canon(I.settle(args[0]))
    v = canon(I.settle(I.get(action(I, s))))
    return mkbool(v == ('sym', 'action', s))


def p_handler_is(I, n, ref, obj, args):
    v = canon(I.settle(I.get(action(I, args[0]))))
    h = canon(I.settle(args[1]))
    def has(t):
        return t == h or (isinstance(t, tuple) and any(has(x) for x in t))
    return mkbool(has(v))


def p_watch(I, n, ref, obj, args):
    I.heap[('g', 'flag')] = I.resolve(I.deref(args[0]))
    return ('void',)


def p_nop(I, n, ref, obj, args):
    return ('int', 0)


def p_now(I, n, ref, obj, args):
    return I.get(cell(I, 'now', ('sym', 'now')))


STATE = {'fegetround': p_fegetround, 'fesetround': p_fesetround, 'sigaction': p_sigaction, 'std::signal': p_signal, 'signal': p_signal, 'sigemptyset': p_nop,
         'sigfillset': p_nop, 'sigaddset': p_nop, 'probe::same_action': p_same, 'probe::handler_is': p_handler_is, 'probe::signals_may_set': p_watch,
         'std::fegetround': p_fegetround, 'std::fesetround': p_fesetround}
STATE_CALLS = ('fesetround', 'sigaction', 'signal', 'feholdexcept', 'fesetenv', 'setlocale')


def guard_cfg(cfg):
    cfg.dtor_cls = re.compile(r'(^|::)(%s|\w+Guard)$' % '|'.join(GUARDS))
    cfg.ignore_cls = re.compile(r'(^|::)(logger|lock_guard|unique_lock)(<.*)?$')
    base = cfg.prim

    def prim(I, ref):
        if ref['q'] in STATE:
            return STATE[ref['q']]
        if ref['n'] == 'now' and 'chrono' in ref['q']:
            return p_now
        if 'chrono' in ref['q'] or 'chrono' in (ref.get('cls') or ''):
            return p_time
        return base(I, ref)
    cfg.prim = prim


def p_time(I, n, ref, obj, args):
    """Times are numbers: the count of ticks of their type."""
    a = [canon(I.settle(x)) for x in args]
    if ref['n'] in ('duration_cast', 'time_point_cast'):
        return ticks(I, a[0], ref['pt'][0], ref.get('ret', ''))
    if ref['n'] in ('count', 'time_since_epoch') and obj is not None:
        return canon(I.settle(I.get(obj)))
    if '(ctor)' in ref['fid']:
        if not a:
            return ('int', 0)
        if 'duration' in ref['pt'][0] or 'time_point' in ref['pt'][0]:
            return ticks(I, a[0], ref['pt'][0], ref['cls'])
        return a[0] if len(a) == 1 else DECLINE
    op = ref['n'][8:] if ref['n'].startswith('operator') else None
    if op in ('+', '-') and obj is None and len(a) == 2 and ticks(I, ('int', 1), ref['pt'][0], ref['pt'][1]) == ('int', 1):
        return I.arith(op, a[0], a[1], 'double')
    if op in ('+=', '-=') and obj is not None and len(a) == 1:
        I.set(obj, I.arith(op[0], canon(I.settle(I.get(obj))), a[0], 'double'))
        return obj
    if op in ('<', '>', '<=', '>=', '==', '!=') and obj is None and len(a) == 2:
        return I.cmpop(op, a[0], a[1])
    return DECLINE


PERIODS = {'nanoseconds': 1e-9, 'microseconds': 1e-6, 'milliseconds': 1e-3, 'seconds': 1.0, 'minutes': 60.0, 'hours': 3600.0}


def period(ty):
    """Seconds per tick of a time type, and whether it holds whole ticks."""
    m = re.search(r'duration<\s*([\w ]+?)\s*(?:,\s*(?:std::)?(?:ratio<\s*(\d+)[lLuU]*\s*(?:,\s*(\d+)[lLuU]*\s*)?>|(\w+)))?\s*>', ty)
    if m:
        rep, a, b, name = m.groups()
        scale = {'nano': 1e-9, 'micro': 1e-6, 'milli': 1e-3}.get(name) if name else (int(a) / int(b or 1) if a else 1.0)
        return scale, 'double' not in rep and 'float' not in rep
    for k, v in PERIODS.items():
        if re.search(r'\b%s\b' % k, ty):
            return v, True
    return 1e-9, True


def ticks(I, v, src, dst):
    (a, _), (b, whole) = period(src), period(dst)
    if a is None or b is None or 'template-parameter' in src + dst:
        return DECLINE
    if abs(a / b - 1) < 1e-9:
        return v
    v = I.arith('*' if a > b else '/', v, ('flt', a / b if a > b else b / a), 'double')
    if whole and b > a:
        v = ('app', 'm.trunc', v)
        I.types.setdefault(v, 'double')
    return v


def check_U03(c):
    src, obs = source()
    import props_cell
    tus = extract.all_tus() + [extract.probe('guards', src)]
    env = Env(program(tus), None, c.tier, c.seed)
    jobs = [lambda a=a: guard_probe(env, *a) for a in obs]
    rules = []
    for f in env.prog.functions.values():
        if f.get('body') is not None and f['file'].startswith(extract.REPO) and '/test/' not in f['file']:
            w = touches_state(f)
            if w and not in_guard(f) and f['q'] != 'main' and not f['q'].startswith('probe::'):
                rules.append(f)
    jobs += [lambda f=f: state_rule(env, f) for f in rules]
    jobs += [lambda: guard_objects(env)]
    c.add(parallel(jobs))
    c.rules.append('The constructor and destructor of each guard are summarised over a model of the state outside the program (rounding mode, stream precision and flags, '
                   'signal actions, running timers), and composed for every way a scope can be left: end, return, exception, break, continue, nested and repeated guards, '
                   'with the state changed inside the scope. A failing sigaction is a path of its own, and a signal may arrive whenever the new handler is in force.')
    c.rules.append('Outside the guards, a function that changes such state must put it back on every path. A guard must be a named automatic object or a member, not a '
                   'temporary, a static or a heap object.')
    c.assumptions += ['fesetround succeeds', 'restoring a signal action that was in force succeeds']
    return len(jobs)


def in_guard(f):
    return (f.get('cls') or '').split('::')[-1] in GUARDS


def touches_state(f):
    for n in walk(f['body']):
        r = n.get('fn') or {}
        q = r.get('q', '') if isinstance(r, dict) else ''
        if q.split('::')[-1] in STATE_CALLS and (q.count('::') == 0 or q.startswith('std::')):
            return q
        if n.get('k') == 'mcall' and isinstance(r, dict) and r.get('n') in ('precision', 'flags', 'setf', 'unsetf', 'fill') and 'ios' in (r.get('cls') or ''):
            if r['n'] == 'setf' or r['n'] == 'unsetf' or n.get('a'):
                return q
    return None


def guard_probe(env, name, spec, kw):
    f = env.prog.one('probe::' + name)
    allow = None
    if kw.get('throws'):
        allow = lambda m, p, t: 'runtime_error' in t and any('sigaction.ok' in repr(x) for x in p.facts)
    return run(env, name, f, setup_for(f), spec, ret_num, cfg_mod=guard_cfg, allow_throw=allow)


def stream_end(v, dim):
    """Formatting state written at the end, or None when untouched."""
    old = None
    if is_coll(v):
        for p in v[2]:
            if p[0] == 'setp' and p[1] == dim:
                old = p[2]
    return old


def state_rule(env, f):
    """A function that changes process-wide state leaves it as it was, on every path."""
    r = Result('%s leaves the state outside it unchanged' % f['q'], f)
    cfg = SymConfig(env.prog, None)
    guard_cfg(cfg)
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f), limit=200):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        bad = None
        for root, v in p.heap.items():
            if root == ('g', 'fe') and canon(v) != ('sym', 'rounding mode'):
                bad = 'the rounding mode is left at %s' % show(v)
            elif isinstance(root, tuple) and root[0] == 'g' and isinstance(root[1], tuple) and root[1][0] == 'act' and canon(v) != ('sym', 'action', root[1][1]):
                bad = 'the handler of signal %s is left changed' % show(root[1][1])
            elif is_coll(v) and v[1] == 'stream' and not (isinstance(root, tuple) and root[0] == 'v' and local_stream(f, root)):
                for dim in ('precision', 'flags', 'fill'):
                    e = stream_end(v, dim)
                    first = v[2][0] if v[2] and v[2][0][0] not in ('setp', 'piece') else None
                    if e is not None and (first is None or canon(e) != ('app', 'st.' + dim, first)):
                        bad = 'the %s of the stream is left at %s' % (dim, show(e))
        if bad:
            viol_text(r, p, bad)
            return r
        r.agree += 1
    return r


def viol_text(r, p, text):
    r.violations.append((r.name, '%s: %s: when %s: %s' % (r.name, r.fn, p.describe()[:500], text)))


def local_stream(f, root):
    for n in walk(f['body']):
        if n.get('k') == 'decl':
            for d in n.get('d', []):
                if d.get('id') == root[-1]:
                    return not d['type'].rstrip().endswith(('&', '*'))
    return False


def guard_objects(env):
    """Guards are named automatic objects or members, so that their scope is the block they stand in."""
    r = Result('guards are automatic objects')
    for f in env.prog.functions.values():
        if f.get('body') is None or '/test/' in f['file'] or not f['file'].startswith(extract.REPO):
            continue
        named = set()
        for n in walk(f['body']):
            if n.get('k') == 'decl':
                for d in n.get('d', []):
                    if is_guard(d['type']) and d.get('init') is not None:
                        e = d['init']
                        while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'bind', 'tmp') and isinstance(e.get('e'), dict):
                            e = e['e']
                        named.add(id(e))
                        r.paths += 1
                        if d.get('static'):
                            r.violations.append((f['q'], '%s:%s: %s: the guard %s is static: it ends with the program' % (f['file'], d.get('line', f['line']), f['q'], d['name'])))
                        else:
                            r.agree += 1
        for n in walk(f['body']):
            if n.get('k') == 'new' and is_guard(n.get('type', '') or n.get('cls', '')):
                r.violations.append((f['q'], '%s:%s: %s: a guard on the heap' % (f['file'], n.get('line', f['line']), f['q'])))
            elif n.get('k') == 'ctor' and is_guard(n.get('cls', '')) and id(n) not in named and not n.get('elide') and not n.get('copy') and not n.get('move'):
                r.paths += 1
                r.temps = getattr(r, 'temps', []) + [(f['q'], f['file'], n.get('line'), n)]
    if not r.paths:
        r.agree += 1
    return r


def is_guard(t):
    return strip_type(t).split('::')[-1] in GUARDS and not t.rstrip().endswith(('*', '&'))
