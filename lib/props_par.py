"""Parallel search (C08): every box is accounted for, whatever the other workers do."""
import extract
from check import parallel
from common import *
from engine import AbortEx, LV, NULL, TRUE, FALSE, VOID, DECLINE, canon, is_coll, is_lit, lit
from props_box import BOX, CS, SearchCfg, fate
from props_c import argv, DR


class ParCfg(SearchCfg):
    """One worker (the main thread's) is followed; with more than one job, the stack, the flag and the counter answer as the others please."""
    max_loop = 60
    asserts_abort = True

    def __init__(self, prog, roles, limit, jobs):
        SearchCfg.__init__(self, prog, roles, limit)
        self.jobs = jobs
        self.box_field = next(f['name'] for f in prog.classes[CS]['fields'] if strip_type(f['type']) == BOX)

    def reset(self):
        self.stack, self.counter, self.flag, self.stored, self.final, self.seen, self.k, self.helpers, self.idle = [], None, None, None, None, False, 0, 0, 0
        self.started = False

    def box_of(self, I, cs):
        lv = self.place(I, cs)
        return lv.sub(('f', self.box_field))

    def ask(self, I, name):
        self.k += 1
        t = ('app', 'x.' + name, ('int', self.k))
        I.types[t] = 'bool'
        if self.k > 12 * self.limit:
            raise AbortEx('enough boxes')
        return I.decide(t)

    def load(self, I, lv):
        v = canon(I.get(lv))
        if not is_lit(v):
            return DECLINE
        if lv.root == self.flag:
            if self.final is not None:
                v = ('int', self.final)
            elif self.jobs == 1 or not self.started:
                pass
            elif self.stored is not None:
                v = ('int', self.stored) if self.ask(I, 'own_result_last') else ('int', 0)
            elif self.seen or self.ask(I, 'other_found'):
                self.seen = True
                v = ('int', 0)
            else:
                v = ('int', -1)
            if self.started and sum(1 for e in I.events if e[0] == 'wait') >= self.helpers:
                self.final = int(lit(v))        # nobody else is running any more
            I.events.append(('flag', int(lit(v))))
            return v
        if self.jobs > 1 and self.started and self.final is None:
            v = ('int', 2) if self.ask(I, 'boxes_left') else ('int', 0)
        I.events.append(('count', int(lit(v))))
        return v

    def add(self, I, lv, d, post=True):
        old = I.get(lv)
        I.set(lv, I.arith('+', old, d))
        if lv.root == self.flag:
            I.events.append(('store', argv(I, lv)))
        else:
            I.events.append(('add', int(lit(canon(d))) if is_lit(canon(d)) else None))
        return old if post else I.get(lv)

    def prim(self, I, ref):
        n, cls, op, q = ref['n'], ref.get('cls') or '', ref.get('op'), ref['q']
        if ref['fid'].startswith('std::atomic<int>::(ctor)'):
            def ctor(I, n_, ref, obj, args):
                return argv(I, args[0]) if args else ('int', 0)
            return ctor
        if cls.startswith(('std::atomic<int', 'std::__atomic_base<int')):
            neg = lambda I, x: I.arith('-', ('int', 0), I.settle(x))
            at = lambda I, obj: self.where(I, obj)
            if n == 'load' or n.startswith('operator ') and not op:
                return lambda I, n_, ref, obj, args: self.load(I, at(I, obj))
            if n in ('store', 'exchange') or op == '=':
                def store(I, n_, ref, obj, args):
                    lv = at(I, obj)
                    v = argv(I, args[0])
                    I.set(lv, v)
                    if lv.root == self.flag:
                        self.stored = int(lit(v)) if is_lit(v) else None
                        I.events.append(('store', v))
                    else:
                        I.events.append(('count_set', v))
                    return v
                return store
            if n == 'fetch_add' or op == '+=':
                return lambda I, n_, ref, obj, args: self.add(I, at(I, obj), I.settle(args[0]), not op)
            if n == 'fetch_sub' or op == '-=':
                return lambda I, n_, ref, obj, args: self.add(I, at(I, obj), neg(I, args[0]), not op)
            if op in ('++', '--'):
                return lambda I, n_, ref, obj, args: self.add(I, at(I, obj), ('int', 1 if op == '++' else -1), bool(args))
        if 'TreiberStack' in cls and not op:
            def stack(I, n_, ref, obj, args):
                if n == 'push':
                    v = argv(I, args[0])
                    self.stack.append(v)
                    I.events.append(('push', v))
                    return TRUE
                if n == 'pop':
                    if self.jobs > 1:
                        ok = self.ask(I, 'popped')
                        v = ('sym', 'P%d' % self.k)
                        I.types[v] = BOX
                    else:
                        ok = bool(self.stack)
                        v = self.stack.pop() if ok else None
                    if ok:
                        I.set(args[0], v)
                        I.events.append(('pop', v))
                        return TRUE
                    I.events.append(('no_box',))
                    self.idle += 1
                    if self.idle > (2 if self.jobs > 1 else 6):
                        raise AbortEx('enough boxes' if self.jobs > 1 else 'waits for ever')
                    return FALSE
                if n == 'empty':
                    return (TRUE if self.ask(I, 'stack_empty') else FALSE) if self.jobs > 1 else FALSE if self.stack else TRUE
                if n == '(ctor)':
                    return ('sym', 'stack')
                return DECLINE
            return stack
        if '(ctor)' in ref['fid'] and ('TreiberStack' in ref['fid'] or ref['fid'].startswith((DR + 'CdsInit', DR + 'CdsScopeGuard'))):
            return lambda I, n_, ref, obj, args: ('sym', 'cds')
        if n == 'enqueue' and 'ThreadPool' in cls:
            def enqueue(I, n_, ref, obj, args):
                vals = [argv(I, a) for a in args]
                I.events.append(('enqueue', [v for v in vals], self.counts(I)))
                self.started = True
                for a in vals:
                    if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(a[1], LV):
                        x = I.get(a[1])
                        if isinstance(x, tuple) and x[:2] == ('inst', CS):
                            t = ('sym', 'W%d' % self.helpers)
                            I.types[t] = BOX
                            I.set(a[1].sub(('f', self.box_field)), t)
                self.helpers += 1
                return ('app', 'future', ('int', self.helpers))
            return enqueue
        if cls.startswith('std::future') or cls.startswith('std::__basic_future') or cls.startswith('std::shared_future'):
            def future(I, n_, ref, obj, args):
                if n in ('get', 'wait'):
                    I.events.append(('wait', argv(I, obj)))
                return VOID
            return future
        if cls == CS and n == 'InplaceJoin':
            def join(I, n_, ref, obj, args):
                I.events.append(('join', argv(I, self.box_of(I, args[0])), sum(1 for e in I.events if e[0] == 'wait')))
                I.set(self.box_of(I, obj), ('app', 'x.joined'))
                return obj
            return join
        if cls == CS and n in ('box', 'mutable_box'):
            return lambda I, n_, ref, obj, args: self.box_of(I, obj)
        if cls == CS and n == 'Explanation' or cls == CS and n.startswith('AddU'):
            return lambda I, n_, ref, obj, args: VOID
        if cls.startswith(DR + 'Config') and n == 'number_of_jobs':
            return lambda I, n_, ref, obj, args: ('int', self.jobs)
        if cls.startswith(DR + 'Config') and n == 'stack_left_box_first':
            return lambda I, n_, ref, obj, args: TRUE
        r = SearchCfg.prim(self, I, ref)
        return r

    def place(self, I, x):
        """The location a reference or pointer leads to."""
        while True:
            if not isinstance(x, LV):
                return I.follow(I.deref(x))
            v = I.get(x)
            if not (isinstance(v, LV) or isinstance(v, tuple) and v[:1] == ('ptr',)):
                return I.follow(x)
            x = v if isinstance(v, LV) else v[1]

    def where(self, I, obj):
        lv = self.place(I, obj)
        v = I.get(lv)
        if self.flag is None and is_lit(canon(v)) and lit(canon(v)) < 0:
            self.flag = lv.root
        return lv

    def counts(self, I):
        return sum(e[1] or 0 for e in I.events if e[0] == 'add'), sum(1 for e in I.events if e[0] == 'push')


def explore_search(env, jobs, n):
    f = env.prog.one(DR + 'IcpParallel::CheckSat')
    cfg = ParCfg(env.prog, env.roles, n, jobs)
    I = Interp(env.prog, cfg)
    start = ('sym', 'B0')
    state = {}

    def setup(I):
        cfg.reset()
        I.types[start] = BOX
        this, args = setup_for(f)(I)
        k = next(i for i, q in enumerate(f['params']) if 'ContractorStatus' in q['type'])
        fields = tuple((x['name'], start if x['name'] == cfg.box_field else ('sym', 'cs.' + x['name'])) for x in env.prog.classes[CS]['fields'])
        root = I.new_root(('inst', CS, None, fields), 'cs')
        state['cs'] = root
        args = list(args)
        args[k] = ('ptr', root)
        return this, args
    return f, cfg, I, state, setup


def protocol(p, jobs, main_id):
    """What is wrong with the events of one worker, or None."""
    work, hold, seen, credit, stored, idle = [], None, False, 0, None, 0
    started = False
    since = True                    # the flag was read since the last box
    count = pushed = 0
    for k, e in enumerate(p.events):
        if e[0] == 'add':
            if e[1] is None:
                raise Undecided('a change of the counter by an unknown amount')
            count += e[1]
            if started:
                credit += e[1]
        elif e[0] == 'push':
            pushed += 1
            if not started and e[1] != ('app', 'x.pruned', START) and e[1] != START:
                return 'the search starts with %s' % show(e[1])[:80]
            if started:
                if hold is None or fate(p, hold) != 'split':
                    return 'pushes %s although no box was split' % show(e[1])[:80]
                v = ('app', 'x.pruned', hold)
                halves = [('app', 'x.left', v), ('app', 'x.right', v)]
                if e[1] not in halves:
                    return 'pushes %s, which is no half of the box it split' % show(e[1])[:80]
                if credit < 1:
                    return 'makes a box visible to the others before counting it'
                credit -= 1
                halves.remove(e[1])
                hold = halves[0]
                since = True
        elif e[0] == 'enqueue':
            if count < pushed or not pushed:
                return 'a worker is started when %d boxes are on the stack and %d are counted' % (pushed, count)
        elif e[0] in ('pop', 'no_box'):
            if not started:
                started, credit = True, 0
            if seen:
                return 'takes another box after a result was found'
            if hold is not None:
                what = fate(p, hold)
                if what in ('empty', 'refuted'):
                    if credit > -1:
                        return 'a box that was refuted is still counted'
                    credit += 1
                    hold = None
                else:
                    return 'takes another box although the box %s is %s' % (show(hold)[:80], {None: 'unfinished', 'split': 'split'}.get(what, what))
            if credit:
                return 'the counter is off by %d' % credit
            if e[0] == 'no_box':
                idle += 1
                if not since:
                    return 'waits for a box without checking whether a result was found'
                since = False
            else:
                hold = e[1]
        elif e[0] == 'prune' and started:
            if e[1] != hold:
                return 'works on %s, not on %s' % (show(e[1])[:80], show(hold)[:80])
            if seen:
                return 'works on a box after a result was found'
            if credit:
                return 'the counter is off by %d' % credit
            if not since:
                return 'works on one box after another without checking whether a result was found'
            since = False
        elif e[0] == 'evaluate' and started:
            if e[2] != ('app', 'x.pruned', hold):
                return 'evaluates %s, not the box it holds' % show(e[2])[:80]
            if e[3] != ('app', 'x.config', ('str', 'precision')):
                return 'evaluates with the precision %s' % show(e[3])[:80]
        elif e[0] == 'flag':
            since = True
            seen = seen or e[1] >= 0
        elif e[0] == 'store':
            if hold is None or fate(p, hold) != 'accepted':
                return 'a result is reported although the box %s was %s' % (show(hold)[:80] if hold else '-', fate(p, hold) if hold else 'not taken')
            if e[1] != ('int', main_id):
                return 'the result is attributed to worker %s, not %d' % (show(e[1]), main_id)
            stored = hold
        elif e[0] == 'count_set':
            return 'the counter is overwritten'
    # how the worker ended
    if p.outcome[0] == 'abort':
        if 'waits for ever' in str(p.outcome[1]):
            return 'no box is left but the counter is %d: the worker waits for ever' % count
        return None
    if hold is not None:
        what = fate(p, hold)
        if what == 'accepted' and stored is None:
            return 'a box was accepted but is not reported'
        if what in ('empty', 'refuted') and credit != -1:
            return 'a box that was refuted is still counted' if credit > -1 else 'the counter is lowered %d times for one box' % -credit
        if what in (None, 'split') and not seen and jobs == 1:
            return 'stops although the box %s is %s' % (show(hold)[:80], 'unfinished' if what is None else 'split')
        if what in (None, 'split') and not seen and not any(e == ('count', 0) for e in p.events):
            return 'stops although the box %s is unfinished and no result was found' % show(hold)[:80]
    elif credit:
        return 'the counter is off by %d' % credit
    elif jobs > 1 and started and not seen and not any(e == ('count', 0) for e in p.events):
        return 'stops although boxes are left and no result was found'
    if jobs == 1 and pushed > sum(1 for e in p.events if e[0] == 'pop') and stored is None and started:
        return 'stops although boxes are left and no result was found'
    return None


class Undecided(Exception):
    pass


START = ('sym', 'B0')


def parallel_search(env, jobs):
    n = 3 if env.tier == 'quick' else 4
    f, cfg, I, state, setup = explore_search(env, jobs, {1: n + 1, 2: n, 3: n - 1}[jobs])
    r = Result('search with %d jobs' % jobs, f)
    for p in I.explore(f, setup):
        r.paths += 1
        out = p.outcome

        def bad(text):
            r.violations.append((r.name, '%s (%d jobs): %s [when %s; events %s]' % (r.fn, jobs, text, p.describe()[:250], ' '.join(e[0] for e in p.events)[:300])))
        if out[0] == 'unsupported' or out[0] == 'throw':
            r.undecided.append('%s: %s [%s]' % (r.name, out[1], p.describe()[:200]))
            continue
        cut = out[0] == 'abort' and 'enough boxes' in str(out[1])
        if out[0] == 'abort' and not cut and 'waits for ever' not in str(out[1]):
            bad('ends in "%s"' % out[1])
            continue
        first = next((e for e in p.events if e[0] == 'prune'), None)
        try:
            w = protocol(p, jobs, jobs - 1)
        except Undecided as e:
            r.undecided.append('%s: %s' % (r.name, e))
            continue
        if w:
            bad(w)
            continue
        if cut:
            r.agree += 1
            continue
        if out[0] != 'ret' or canon(out[1]) not in (TRUE, FALSE):
            r.undecided.append('%s: result %s' % (r.name, show(out[1])[:80]))
            continue
        said = canon(out[1]) == TRUE
        cs = p.heap.get(state['cs'].root)
        box = dict(cs[3]).get(cfg.box_field) if isinstance(cs, tuple) and cs[:1] == ('inst',) else None
        box = canon(box) if box is not None else None
        if not any(e[0] == 'pop' or e[0] == 'no_box' or e[0] == 'enqueue' for e in p.events):
            # decided by the first pruning
            gone = next((b for a, b in p.facts if a == ('app', 'x.empty', ('app', 'x.pruned', START))), None)
            if said or not gone:
                bad('answers %s without a search' % said)
            else:
                r.agree += 1
            continue
        enq = [e for e in p.events if e[0] == 'enqueue']
        joins = [e for e in p.events if e[0] == 'join']
        waits = [e for e in p.events if e[0] == 'wait']
        flags = [e[1] for e in p.events if e[0] == 'flag']
        stored = [e for e in p.events if e[0] == 'store']
        if len(enq) != jobs - 1:
            bad('starts %d workers beside the main one' % len(enq))
            continue
        if any(isinstance(v, tuple) and v[:1] == ('lam',) for e in enq for v in e[1]):
            r.undecided.append('%s: what the workers run' % r.name)
            continue
        w = None
        for k, e in enumerate(enq):
            ints = [v for v in e[1] if isinstance(v, tuple) and v[0] == 'int']
            if ('int', k) not in ints:
                w = 'worker %d is started with the number %s' % (k, [show(v) for v in ints])
        if len(waits) < len(enq):
            w = 'does not wait for %d workers' % (len(enq) - len(waits))
        got = {e[1] for e in joins}
        for k in range(len(enq)):
            if ('sym', 'W%d' % k) not in got:
                w = 'the status of worker %d is not joined' % k
        if len(joins) < jobs:
            w = 'only %d of %d statuses are joined' % (len(joins), jobs)
        if any(e[2] < len(enq) for e in joins):
            w = 'a status is joined before its worker has finished'
        if w:
            bad(w)
            continue
        last = flags[-1] if flags else -1
        mine = [e for e in p.events if e[0] == 'prune'][-1][1]
        if said != bool(last >= 0):
            bad('answers %s although the result flag is %d' % (said, last))
        elif stored and not said:
            bad('a worker accepted a box, but the answer is no')
        elif not said and box != ('app', 'x.nothing'):
            bad('answers no, but the box is %s' % show(box)[:80])
        elif said and box != (('sym', 'W%d' % last) if last < len(enq) else ('app', 'x.pruned', mine)):
            bad('worker %d found the result, but the box is %s' % (last, show(box)[:80]))
        else:
            r.agree += 1
    return r


def check_C08(c):
    env = make_env(c, extract.all_tus())
    jobs = [lambda k=k: parallel_search(env, k) for k in (1, 2, 3)]
    n = len(jobs)
    c.add(parallel(jobs))
    c.rules.append('Every path of the parallel search in which one worker is followed and pruning, evaluation and (with 2 or 3 jobs) the shared stack, the counter and the result flag answer '
                   'arbitrarily, as other workers can make them: a box taken is pruned, evaluated and then refuted (counted off exactly once), reported (only if accepted, under the '
                   'number of the worker) or split (counted before one half becomes visible, the other half is kept); another box is taken only if the flag was read as unset since the last; '
                   'a worker stops only when a result was found or no box is counted. With one job the search is run to its end on a bounded number of boxes. Every worker is started after the '
                   'first box is counted, with its own number, status and the shared state; all are waited for before every status is joined, and the box reported is that of the '
                   'worker that found it.')
    c.assumptions += ['the stack is a linearizable stack, the atomics are atomic; memory orders are not examined', 'bounded number of boxes per worker']
    return n
