"""U05: the thread pool.  Each thread's code is summarised against what the other threads may do
whenever the pool's lock is not held (rely-guarantee), and accesses are checked against the lock set."""
import re

import extract
from check import parallel
from common import *
from engine import LV, AbortEx, Infeasible, Thrown, Unsupported, VOID, mkbool, walk
from sym import SymConfig

POOL = 'ThreadPool'
LOCKS = re.compile(r'^std::(unique_lock|lock_guard|scoped_lock)\b')
SYNC = re.compile(r'^(std::(__)?(mutex|recursive_mutex|timed_mutex|condition_variable\w*))\b')
TRUE = ('bool', True)

PROBE = r'''
#include <stdexcept>
#include <string>
#include "ThreadPool/ThreadPool.h"
namespace probe {
void note(int x);
int task1(int a) { note(a); return a * 10 + 1; }
int task2(int a, int b) { note(b); return a * 10 + b; }
int bad(int a) { note(a); throw std::out_of_range("x"); }
int enq1(ThreadPool& p, int x) { auto r = p.enqueue(task1, x); return r.get(); }
int enq2(ThreadPool& p, int x, int y) { auto r = p.enqueue(task2, x, y); return r.get(); }
int enqlam(ThreadPool& p, int x, int y) { auto r = p.enqueue([](int a, int b) { note(a); return a * 7 - b; }, x, y); return r.get(); }
int enqcap(ThreadPool& p, int x, int y) { auto r = p.enqueue([x](int b) { note(b); return x * 7 - b; }, y); return r.get(); }
int enqbad(ThreadPool& p, int x) { auto r = p.enqueue(bad, x); try { return r.get(); } catch (const std::out_of_range&) { return -5; } }
int enqtwo(ThreadPool& p, int x, int y) { auto r = p.enqueue(task1, x); auto s = p.enqueue(task1, y); const int v = s.get(); return v * 100 + r.get(); }
int make(int n) { ThreadPool p(n); return 0; }
}
'''


# --- the world ----------------------------------------------------------------------------

def g(I, k, init=None):
    v = I.heap.get(('g', k))
    return init if v is None else v


def gset(I, k, v):
    I.heap[('g', k)] = v


def ev(I, *e):
    I.events.append(('pool',) + e + (I.curline,))


def bad(I, text):
    ev(I, 'bad', text)
    raise AbortEx('bad')


def held(I):
    return g(I, 'held', frozenset())


def others_run(I):
    """The lock is free: other threads may push, pop and stop the pool."""
    gset(I, 'head', g(I, 'head', 0) + 100)
    gset(I, 'acq', g(I, 'acq', 0) + 1)
    if g(I, 'acq') > 3 and g(I, 'role') == 'worker':
        raise AbortEx('enough')
    this = g(I, 'this')
    if this is None:
        return
    fld = g(I, 'stopfld')
    if not fld:
        return
    cur = canon(I.settle(I.get(this.sub(('f', fld)))))
    if cur == TRUE or I.bools.get(I.key(cur)) is True:
        return
    if g(I, 'role') == 'dtor':
        return
    t = ('app', 'stop', ('int', g(I, 'acq')))
    I.types[t] = 'bool'
    I.set(this.sub(('f', fld)), t)


def empty_term(I):
    t = ('app', 'empty', ('int', g(I, 'head', 0)))
    I.types[t] = 'bool'
    return t


def mutex_name(I, lv):
    lv = I.resolve(lv)
    return lv.path[-1][1] if lv.path else str(lv.root)


def acquire(I, name):
    if name in held(I):
        bad(I, 'the mutex %s is locked again while it is held: the thread waits for itself' % name)
    gset(I, 'held', held(I) | {name})
    ev(I, 'acquire', name)
    others_run(I)


def release(I, name):
    if name not in held(I):
        bad(I, 'the mutex %s is released although it is not held' % name)
    gset(I, 'held', held(I) - {name})
    ev(I, 'release', name)


def p_lock(I, n, ref, obj, args):
    name = ref['n']
    if '(ctor)' in ref['fid']:
        if not args:
            return ('lock', None, False)     # owns nothing, e.g. `std::unique_lock<std::mutex>(m);`
        if len(args) != 1 or not isinstance(args[0], LV):
            raise Unsupported('lock with a policy')
        m = mutex_name(I, args[0])
        acquire(I, m)
        return ('lock', m, True)
    v = I.get(obj)
    if not (isinstance(v, tuple) and v[0] == 'lock'):
        raise Unsupported('lock object')
    if name == 'unlock':
        if not v[2]:
            bad(I, 'unlock of a lock that is not owned')
        release(I, v[1])
        I.set(obj, ('lock', v[1], False))
        return VOID
    if name == 'lock':
        acquire(I, v[1])
        I.set(obj, ('lock', v[1], True))
        return VOID
    if name in ('owns_lock', 'operator bool'):
        return mkbool(v[2])
    raise Unsupported('lock.' + name)


def p_mutex(I, n, ref, obj, args):
    if obj is None:
        return ('mutex',)
    m = mutex_name(I, obj)
    if ref['n'] == 'lock':
        acquire(I, m)
    elif ref['n'] == 'unlock':
        release(I, m)
    else:
        raise Unsupported('mutex.' + ref['n'])
    return VOID


def on_destroy(I, lv, cls):
    if LOCKS.match(cls):
        v = I.get(lv)
        if isinstance(v, tuple) and v[0] == 'lock' and v[2]:
            release(I, v[1])
        return True
    return False


def stopped(I):
    fld = g(I, 'stopfld')
    return bool(fld) and I.decide(canon(I.settle(I.get(g(I, 'this').sub(('f', fld))))))


def p_cond(I, n, ref, obj, args):
    name = ref['n']
    if obj is None:
        return ('cond',)
    if name in ('notify_one', 'notify_all'):
        fld = g(I, 'stopfld')
        st = canon(I.settle(I.get(g(I, 'this').sub(('f', fld))))) if fld and g(I, 'this') is not None else None
        ev(I, name, st, len(held(I)))
        return VOID
    if name != 'wait':
        raise Unsupported('condition_variable::' + name)
    l = I.settle(args[0])
    if not (isinstance(l, tuple) and l[0] == 'lock' and l[2]):
        bad(I, 'waits without holding the lock')
    m = l[1]
    if len(args) == 1:
        idle(I)
        release(I, m)
        acquire(I, m)
        return VOID
    if not I.decide(I.settle(I.call_value(args[1], []))):
        idle(I)
        release(I, m)
        acquire(I, m)
        if not I.decide(I.settle(I.call_value(args[1], []))):
            idle(I)
            raise Infeasible()
    return VOID


def idle(I):
    """The thread goes to sleep in the current state."""
    if g(I, 'role') != 'worker':
        return
    if g(I, 'stopfld') and stopped(I):
        bad(I, 'a worker sleeps although the pool is stopping: it is never woken again, and the destructor waits for it forever')
    if not I.decide(empty_term(I)):
        bad(I, 'a worker sleeps although a task is queued')


def p_queue(I, n, ref, obj, args):
    name = ref['n']
    if obj is None:
        return ('queue',)
    h = g(I, 'head', 0)
    if name == 'empty':
        if g(I, 'pushed'):
            return mkbool(False)
        return empty_term(I)
    if name == 'size':
        return I.h.mm(I, '+', ('int', 0), ('int', 0)) if False else size_of(I)
    if name in ('front', 'pop'):
        if I.decide(empty_term(I)):
            bad(I, 'takes a task from an empty queue')
        if name == 'front':
            return I.new_root(('task', h))
        ev(I, 'pop', h)
        gset(I, 'head', h + 1)
        return VOID
    if name in ('emplace', 'push'):
        if len(args) != 1:
            raise Unsupported('emplace')
        gset(I, 'pushed', (g(I, 'pushed') or ()) + (I.settle(args[0]),))
        ev(I, 'push', len(held(I)))
        return VOID
    raise Unsupported('queue.' + name)


def size_of(I):
    """The size is only compared with zero here."""
    return ('int', 0) if I.decide(empty_term(I)) else ('int', 1)


def p_thread(I, n, ref, obj, args):
    name = ref['n']
    if '(ctor)' in ref['fid']:
        if len(args) == 1 and isinstance(I.settle(args[0]), tuple) and I.settle(args[0])[0] in ('thread', 'elem'):
            return I.settle(args[0])
        return spawn(I, args)
    v = canon(I.settle(I.get(obj)))
    if name == 'join':
        fld = g(I, 'stopfld')
        ev(I, 'join', v, len(held(I)), canon(I.settle(I.get(g(I, 'this').sub(('f', fld))))) if fld else None)
        return VOID
    if name == 'joinable':
        return mkbool(True)
    if name == 'detach':
        bad(I, 'a worker is detached: nobody waits for it')
    if name == 'get_id':
        return ('app', 'id', v)
    raise Unsupported('thread.' + name)


def spawn(I, args):
    ev(I, 'spawn')
    gset(I, 'spawned', g(I, 'spawned', 0) + 1)
    if g(I, 'role') == 'start':
        gset(I, 'role', 'worker')
        gset(I, 'held', frozenset())
        f = I.settle(args[0])
        if isinstance(f, tuple) and f[0] == 'memfn':
            fn = I.prog.fn(f[1])
            obj = args[1] if isinstance(args[1], LV) else I.deref(args[1])
            I.call_function(fn, I.resolve(obj), args[2:], this_cls=fn['cls'])
        elif isinstance(f, tuple) and f[0] == 'bound':
            apply(I, f)
        else:
            I.call_value(f, args[1:])
        if held(I):
            bad(I, 'a worker ends while it holds the lock')
        if not stopped(I):
            bad(I, 'a worker ends although the pool is not stopping')
        if not I.decide(empty_term(I)):
            bad(I, 'a worker ends although tasks are queued')
        ev(I, 'exit')
        raise AbortEx('exit')
    return ('thread', g(I, 'spawned'))


def p_workers(I, n, ref, obj, args):
    """vector<thread>: what is put in is a worker."""
    if ref['n'] == 'emplace_back':
        v = I.settle(args[0])
        if not (isinstance(v, tuple) and v[0] == 'thread'):
            spawn(I, args)
        return VOID
    if ref['n'] in ('push_back', 'reserve'):
        return VOID
    if ref['n'] == '(ctor)' or obj is None:
        return DECLINE
    return DECLINE


def apply(I, f, extra=()):
    f = I.settle(f)
    while isinstance(f, tuple) and f[0] == 'ptr' and not isinstance(f[1], str):
        f = I.settle(I.get(f[1]))
    if isinstance(f, tuple) and f[0] == 'bound':
        t = f[1]
        if isinstance(t, tuple) and t[0] == 'memfn':
            fn = I.prog.fn(t[1])
            obj = f[2][0] if isinstance(f[2][0], LV) else I.deref(f[2][0])
            return I.call_function(fn, I.resolve(obj), list(f[2][1:]) + list(extra), this_cls=fn['cls'])
        return apply(I, t, tuple(f[2]) + tuple(extra)) if isinstance(t, tuple) and t[0] == 'bound' else I.call_value(t, list(f[2]) + list(extra))
    if isinstance(f, tuple) and f[0] == 'new' and f[1].startswith('std::packaged_task'):
        f = ('ptask', f, f[2])
    if isinstance(f, tuple) and f[0] == 'ptask':
        return run_ptask(I, f)
    return I.call_value(f, list(extra))


def p_bind(I, n, ref, obj, args):
    return ('bound', I.settle(args[0]), tuple(I.settle(a) for a in args[1:]))


def run_ptask(I, p):
    k = p[1]
    done = g(I, 'done', {})
    if k in done:
        bad(I, 'a task runs twice')
    done = dict(done)
    try:
        done[k] = ('value', I.settle(apply(I, p[2])))
    except Thrown as e:
        done[k] = ('throw', e)
    gset(I, 'done', done)
    return VOID


def p_ptask(I, n, ref, obj, args):
    if '(ctor)' in ref['fid']:
        if not args:
            raise Unsupported('empty packaged_task')
        v = I.settle(args[0])
        if isinstance(v, tuple) and v[0] == 'ptask':
            return v
        I.nroot += 1
        return ('ptask', I.nroot, v)
    v = I.settle(I.get(obj))
    if isinstance(v, tuple) and v[0] == 'new' and len(v) == 3:
        v = ('ptask', v, v[2])
    if not (isinstance(v, tuple) and v[0] == 'ptask'):
        raise Unsupported('packaged_task')
    if ref['n'] == 'get_future':
        return ('future', v[1])
    if ref['n'] == 'operator()':
        return run_ptask(I, v)
    raise Unsupported('packaged_task::' + ref['n'])


def p_promise(I, n, ref, obj, args):
    if '(ctor)' in ref['fid']:
        I.nroot += 1
        return ('promise', I.nroot)
    v = I.settle(I.get(obj))
    if ref['n'] == 'get_future':
        return ('future', v[1])
    done = dict(g(I, 'done', {}))
    if v[1] in done:
        bad(I, 'a result is delivered twice')
    if ref['n'] == 'set_value':
        done[v[1]] = ('value', I.settle(args[0]) if args else VOID)
    else:
        raise Unsupported('promise::' + ref['n'])
    gset(I, 'done', done)
    return VOID


def p_future(I, n, ref, obj, args):
    if '(ctor)' in ref['fid'] or ref['n'] == 'operator=':
        return I.settle(args[0]) if args else ('future', None)
    v = I.settle(I.get(obj))
    if ref['n'] != 'get' or not (isinstance(v, tuple) and v[0] == 'future'):
        raise Unsupported('future::' + ref['n'])
    # by now the workers have run everything that was queued
    pushed = g(I, 'pushed', ())
    at = g(I, 'ran', 0)
    gset(I, 'ran', len(pushed))
    for t in pushed[at:]:
        t = I.settle(t)
        if isinstance(t, tuple) and t[0] == 'lam':
            for c in I.lams[t][0].get('caps', []):
                if c.get('byref') and not c.get('this'):
                    bad(I, 'the queued task refers to a local variable of enqueue, which is gone when it runs')
        try:
            apply(I, t)
        except Thrown:
            bad(I, 'an exception of the task escapes into the worker')
    done = g(I, 'done', {})
    if v[1] not in done:
        bad(I, 'the future is never given a result')
    k, x = done[v[1]]
    if k == 'throw':
        raise Thrown(x.type, x.term)
    return x


def p_note(I, n, ref, obj, args):
    ev(I, 'note', canon(I.settle(args[0])))
    return VOID


def p_function(I, n, ref, obj, args):
    """std::function<void()>: the queued task."""
    if '(ctor)' in ref['fid']:
        return I.settle(args[0]) if args else ('none',)
    v = I.settle(I.get(obj))
    if ref['n'] == 'operator=':
        I.set(obj, I.settle(args[0]))
        return obj
    if ref['n'] == 'operator bool':
        return mkbool(v != ('none',))
    if ref['n'] == 'operator()':
        if isinstance(v, tuple) and v[0] == 'task':
            ev(I, 'run', v[1], len(held(I)))
            return VOID
        if v == ('none',):
            bad(I, 'an empty task is called')
        return apply(I, v, args)
    raise Unsupported('function::' + ref['n'])


def pool_cfg(cfg, role):
    cfg.dtor_cls = re.compile(r'^(std::(unique_lock|lock_guard|scoped_lock)\b.*|ThreadPool)$')
    cfg.ignore_cls = re.compile(r'(^|::)logger$')
    cfg.on_destroy = on_destroy
    cfg.max_paths = 400
    base = cfg.prim

    def prim(I, ref):
        c = ref.get('cls') or ''
        if LOCKS.match(c):
            return p_lock
        if c.startswith(('std::mutex', 'std::__mutex')):
            return p_mutex
        if c.startswith(('std::condition_variable', 'std::_V2::condition_variable')):
            return p_cond
        if re.match(r'std::(queue|deque)<std::function', c):
            return p_queue
        if c.startswith('std::thread') and not c.startswith('std::thread::id'):
            return p_thread
        if c.startswith('std::vector<std::thread'):
            return p_workers
        if c.startswith('std::packaged_task'):
            return p_ptask
        if c.startswith('std::promise'):
            return p_promise
        if re.match(r'std::(__basic_)?(shared_)?future\b', c):
            return p_future
        if c.startswith('std::function<'):
            return p_function
        if ref['q'] == 'std::bind':
            return p_bind
        if ref['q'] == 'probe::note':
            return p_note
        if ref['q'] == 'ThreadPool::get_thread_id':
            return lambda I, n, ref, obj, args: ('app', 'thread id')
        return base(I, ref)
    cfg.prim = prim

    def on_mem(I, n):
        if n.get('cls') == POOL and n['n'] in cfg.shared:
            ev(I, 'access', n['n'], tuple(sorted(held(I))), n.get('l'))
    cfg.on_mem = on_mem


def shape(prog):
    """The fields of the pool: (flag that stops it, fields shared between threads)."""
    c = prog.classes[POOL]
    stop = [f['name'] for f in c['fields'] if re.match(r'^(volatile )?(bool|std::atomic<bool>|std::atomic_bool)$', f['type'])]
    shared = [f['name'] for f in c['fields'] if re.match(r'std::(queue|deque|list)<std::function', f['type'])] + stop
    return (stop[0] if len(stop) == 1 else None), shared, {f['name']: f['type'] for f in c['fields']}


def pool_setup(fn, role, stop, this_name='this'):
    base = setup_for(fn)

    def setup(I):
        this, args = base(I)
        gset(I, 'role', role)
        gset(I, 'stopfld', stop)
        gset(I, 'this', this)
        if this is None:
            for i, p in enumerate(fn['params']):
                if strip_type(p['type']) == POOL:
                    gset(I, 'this', I.resolve(args[i]))
        return this, args
    return setup


def events(p, *names):
    return [e[1:] for e in p.events if e[0] == 'pool' and e[1] in names]


def explore(env, fn, role, sizes=(0, 1, 2)):
    stop, shared, _ = shape(env.prog)
    cfg = SymConfig(env.prog, None, sizes=sizes)
    cfg.shared = shared
    pool_cfg(cfg, role)
    I = Interp(env.prog, cfg)
    return I, I.explore(fn, pool_setup(fn, role, stop), limit=400)


def judge(r, p, complaint):
    r.paths += 1
    if p.outcome[0] == 'unsupported':
        r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
        return
    b = events(p, 'bad')
    w = (b[0][1], b[0][-1]) if b else complaint(p)
    if w:
        line = None
        if isinstance(w, tuple):
            w, line = w
        r.violations.append((r.name, '%s: %s: when %s: %s%s' % (r.name, r.fn, p.describe()[:500], w, ' [line %s]' % line if line else '')))
    else:
        r.agree += 1


def ctor_of(prog):
    fs = [f for f in prog.functions.values() if f.get('cls') == POOL and f['kind'] == 'ctor' and f.get('body') is not None and f['params']]
    return fs[0]


def dtor_of(prog):
    return [f for f in prog.functions.values() if f.get('cls') == POOL and f['kind'] == 'dtor' and f.get('body') is not None][0]


ACC = []


def worker(env):
    f = ctor_of(env.prog)
    r = Result('a worker runs each task it takes exactly once and ends only when the pool is drained', f)
    r.fnkind = 'ctor'
    I, paths = explore(env, f, 'start')

    def complaint(p):
        pops = [e[1] for e in events(p, 'pop')]
        runs = [e for e in events(p, 'run')]
        if any(e[2] for e in runs):
            return 'a task runs while the lock is held: a task that submits work waits for itself', runs[0][-1]
        ran = [e[1] for e in runs]
        for h in pops:
            if ran.count(h) != 1:
                return 'a task taken from the queue runs %d times' % ran.count(h)
        for h in ran:
            if h not in pops:
                return 'a task runs but stays in the queue: it runs again'
        if p.outcome[0] == 'throw':
            return 'the worker throws'
    n = 0
    for p in paths:
        if p.outcome[0] == 'ret':
            continue      # no worker at all
        n += 1
        judge(r, p, complaint)
    if not n:
        r.undecided.append('%s: no worker is started' % r.name)
    access(env, r, paths)
    return r


def access(env, r, paths):
    """Lock sets of the accesses to shared state (the constructor runs alone until it starts a thread)."""
    types = shape(env.prog)[2]
    for p in paths:
        alone = True
        for e in p.events:
            if e[0] != 'pool':
                continue
            if e[1] == 'spawn':
                alone = False
            if e[1] == 'access' and not e[3] and not (alone and 'ctor' in r.fnkind):
                if 'atomic' in types.get(e[2], ''):
                    continue
                r.violations.append((r.name, '%s: %s: when %s: the shared member %s is accessed without the lock [line %s]' % (r.name, r.fn, p.describe()[:300], e[2], e[4])))
                return


def destructor(env):
    f = dtor_of(env.prog)
    stop = shape(env.prog)[0]
    r = Result('the destructor stops the pool, wakes every worker and joins it', f)
    r.fnkind = 'dtor'
    I, paths = explore(env, f, 'dtor')

    def complaint(p):
        joins = events(p, 'join')
        who = [e[1] for e in joins]
        k = 0
        ks = [n for t, n in p.shapes.items() if 'workers' in repr(t)] or [n for t, n in p.shapes.items()]
        k = ks[0] if ks else 0
        if len(set(who)) != len(who):
            return 'a worker is joined twice'
        if len(who) != k:
            return '%d of %d workers are joined' % (len(who), k)
        if any(e[2] for e in joins):
            return 'a worker is joined while the lock is held: it cannot finish', joins[0][-1]
        if k and stop:
            if any(e[3] != TRUE for e in joins):
                return 'a worker is joined before the pool is told to stop', joins[0][-1]
            order = [e[1] for e in p.events if e[0] == 'pool']
            woken = [e for e in events(p, 'notify_all', 'notify_one') if e[1] == TRUE]
            if not any(e[0] == 'notify_all' for e in woken) and len(woken) < k:
                return 'not every worker is woken after the pool is told to stop'
            first = min(i for i, e in enumerate(p.events) if e[:2] == ('pool', 'join'))
            n = [e for e in p.events[:first] if e[0] == 'pool' and e[1] in ('notify_all', 'notify_one') and e[2] == TRUE]
            if not any(e[1] == 'notify_all' for e in n) and len(n) < k:
                return 'the workers are woken only after the destructor waits for them'
        # the flag must change under the lock, or a worker between its test and its sleep misses the notification
        if stop and not any(e[2] == stop and e[3] for e in p.events if e[0] == 'pool' and e[1] == 'access'):
            return 'the pool is told to stop without the lock: a worker about to sleep misses it'
        if p.outcome[0] == 'throw':
            return 'the destructor throws'
    for p in paths:
        judge(r, p, complaint)
    access(env, r, paths)
    return r


def start(env):
    f = ctor_of(env.prog)
    r = Result('the constructor starts as many workers as asked, with the pool running', f)
    r.fnkind = 'ctor'
    stop = shape(env.prog)[0]
    I, paths = explore(env, f, 'ctor')
    for p in paths:
        if p.outcome[0] == 'unsupported':
            r.paths += 1
            if 'loop bound' in p.outcome[1]:
                r.vacuous += 1
            else:
                r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue

        def result(m, p):
            return len(events(p, 'spawn'))
        name = f['params'][0].get('name') or 'a0'
        b = events(p, 'bad')
        if b:
            judge(r, p, lambda p: None)
            continue
        r.paths += 1
        decide_path(env, r, I, p, lambda m, p: nonneg(int(m.num(('sym', name), C0))), result, None, pre=lambda m, p: None)
        if stop:
            fin = p.final.get('this')
            v = canon(I.settle(I.comp(fin, ('f', stop)))) if fin is not None else None
            if v == TRUE or (isinstance(v, tuple) and v[0] not in ('bool', 'int') and 'uninit' in repr(v)):
                r.violations.append((r.name, '%s: %s: the pool starts with %s = %s' % (r.name, r.fn, stop, show(v))))
    access(env, r, paths)
    return r


def nonneg(k):
    if k < 0:
        raise Skip()
    return k


ENQ = {'enq1': (lambda m: m.num(('sym', 'x'), C0) * 10 + 1, 1), 'enq2': (lambda m: m.num(('sym', 'x'), C0) * 10 + m.num(('sym', 'y'), C0), 1),
       'enqlam': (lambda m: m.num(('sym', 'x'), C0) * 7 - m.num(('sym', 'y'), C0), 1), 'enqcap': (lambda m: m.num(('sym', 'x'), C0) * 7 - m.num(('sym', 'y'), C0), 1),
       'enqbad': (lambda m: -5, 1), 'enqtwo': (lambda m: (m.num(('sym', 'y'), C0) * 10 + 1) * 100 + m.num(('sym', 'x'), C0) * 10 + 1, 2)}


def enqueue(env, name):
    f = env.prog.one('probe::' + name)
    want, n = ENQ[name]
    r = Result('enqueue (%s): an accepted task runs once and its result reaches the future, a stopped pool refuses' % name, f)
    r.fnkind = 'method'
    I, paths = explore(env, f, 'client')
    for p in paths:
        if p.outcome[0] == 'unsupported' or events(p, 'bad'):
            judge(r, p, lambda p: None)
            continue
        stops = [t for t in p.facts if False]
        refused = p.outcome[0] == 'throw'
        pushes = events(p, 'push')

        def complaint(p):
            seen = stop_seen(p)
            if refused:
                if 'runtime_error' not in p.outcome[1]:
                    return 'throws %s' % p.outcome[1]
                if True not in seen:
                    return 'refuses a task although the pool is running'
                if len(pushes) >= n:
                    return 'queues a task and refuses it'
                return None
            if True in seen or len(seen) < len(pushes):
                return 'a task is queued although the pool is %s' % ('stopping' if True in seen else 'perhaps stopping: the flag is not tested under the lock')
            if len(pushes) != n:
                return '%d tasks are queued for %d submissions' % (len(pushes), n)
            if any(not e[1] for e in pushes):
                return 'a task is queued without the lock', pushes[0][-1]
            if len(events(p, 'note')) != n:
                return 'a task runs %d times' % len(events(p, 'note'))
            # somebody is woken for each task, not before the queue is locked for it
            idx = [(i, e) for i, e in enumerate(p.events) if e[0] == 'pool' and e[1] in ('acquire', 'push', 'notify_one', 'notify_all')]
            woken = 0
            since = None
            for i, e in idx:
                if e[1] == 'acquire':
                    since = i
                elif e[1] in ('notify_one', 'notify_all') and since is not None:
                    woken += 1
            if woken < n:
                return 'no worker is woken for the task'
        r.paths += 1
        w = complaint(p)
        if w:
            r.paths -= 1
            judge(r, p, lambda p: w)
            continue
        if refused:
            r.agree += 1
            continue
        decide_path(env, r, I, p, lambda m, p: want(m), ret_num, None)
    access(env, r, paths)
    return r


def stop_seen(p):
    """Truth values the path learnt about the stop flag."""
    out = []
    from props_stat import path_bools
    for c, t in path_bools(p):
        if isinstance(c, tuple) and c[:2] == ('app', 'stop'):
            out.append(t)
    return out


def check_U05(c):
    tu = extract.probe('pool', PROBE)
    env = Env(program([tu]), None, c.tier, c.seed)

    def w():
        return worker(env)
    jobs = [w, lambda: destructor(env), lambda: start(env)] + [lambda k=k: enqueue(env, k) for k in ENQ]
    c.add(parallel(jobs))
    c.rules.append('The worker loop, enqueue (instantiated for functions, lambdas and throwing tasks), the constructor and the destructor are summarised over a model of mutex, '
                   'condition variable, queue, threads, packaged tasks and futures. Whenever the lock is free, other threads may push, pop and stop the pool. Rules: shared '
                   'members only under the lock; never sleep while a task is queued or the pool is stopping; a task that is taken is removed and run exactly once, outside the '
                   'lock; a worker ends only when the pool is stopping and the queue is empty; every submission queues one task under the lock, after testing the stop flag '
                   'there, and wakes somebody; result and exception reach the future; the destructor sets the flag under the lock, then wakes all, then joins all.')
    c.assumptions += ['mutex, condition variable, packaged_task and future behave as the standard says', 'a pool is not destroyed while another thread is inside enqueue']
    return len(jobs)
