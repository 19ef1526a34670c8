"""Utilities: containers, options, guards, statistics, thread pool (U01-U05)."""
import itertools

import extract
from check import parallel
from common import *
from sym import SymConfig

HEAD = '''#include <stdexcept>
#include <utility>
#include "dreal/util/option_value.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
'''


# --- U01 ---------------------------------------------------------------------------------

def histories(n, maxpush):
    """Sequences of insert/push/pop in which every pop has a push."""
    out = []

    def go(h, d):
        if h:
            out.append(h)
        if len(h) == n:
            return
        go(h + 'i', d)
        if h.count('p') < maxpush:
            go(h + 'p', d + 1)
        if d:
            go(h + 'o', d - 1)
    go('', 0)
    return out


def interesting(h):
    return h[-1] == 'o' and 'i' in h


KINDS = {
    'map': ('ScopedUnorderedMap<int, int>', 'c.insert(k%d, v%d);', ('k', 'v')),
    'set': ('ScopedUnorderedSet<int>', 'c.insert(k%d);', ('k',)),
    'vec': ('ScopedVector<int>', 'c.push_back(k%d);', ('k',)),
}
OBS = {
    'map': [('size', 'c.size()'), ('empty', 'c.empty()'), ('count', 'c.count(q)'), ('find', '(c.find(q) == c.end()) ? -77 : c.find(q)->second'), ('at', 'c[q]'),
            ('all', 'sum')],
    'set': [('size', 'c.size()'), ('empty', 'c.empty()'), ('count', 'c.count(q)'), ('find', '(c.find(q) == c.end()) ? -77 : *c.find(q)'), ('all', 'sum')],
    'vec': [('size', 'c.size()'), ('empty', 'c.empty()'), ('at', 'c[%d]'), ('first', 'c.first()'), ('last', 'c.last()'), ('all', 'sum'), ('rev', 'rev')],
}


def ref_run(kind, h, ks, vs):
    """What the container must hold, by taking a copy at each push."""
    cur, st, i = {} if kind != 'vec' else [], [], 0
    for x in h:
        if x == 'i':
            if kind == 'map':
                cur[ks[i]] = vs[i]
            elif kind == 'set':
                cur[ks[i]] = 1
            else:
                cur.append(ks[i])
            i += 1
        elif x == 'p':
            st.append(cur.copy())
        elif x == 'o':
            cur = st.pop()
        elif x == 'c':
            cur, st = {} if kind != 'vec' else [], []
    return cur


def probe_source(hs):
    out, fns = [HEAD, 'namespace probe {'], []
    for kind, (ty, op, ps) in KINDS.items():
        for h in hs:
            n = h.count('i')
            params = ['int %s%d' % (a, i) for i in range(n) for a in ps] + ['int q']
            body, i, d = [], 0, 0
            for x in h:
                if x == 'i':
                    body.append(op % ((i,) * len(ps)))
                    i += 1
                elif x == 'p':
                    body.append('c.push();')
                    d += 1
                elif x == 'o':
                    body.append('c.pop();')
                    d -= 1
                elif x == 'x':
                    body.append('try { c.pop(); return -999; } catch (const std::runtime_error&) {}')
                elif x == 'c':
                    body.append('c.clear();')
                    d = 0
            size = len(ref_run('vec', h, [0] * n, [0] * n))
            for o, e in OBS[kind]:
                if kind == 'vec' and o in ('at', 'first', 'last') and size == 0:
                    continue
                if kind == 'vec' and 'c' in h:
                    continue
                name = '%s_%s_%s' % (kind, h, o)
                if o == 'all':
                    item = {'map': 'e.first * 1000 + e.second', 'set': 'e', 'vec': '(e * ++w)'}[kind]
                    ret = 'int s = 0; int w = 0; for (const auto& e : c) { s += %s; } return s;' % item
                elif o == 'rev':
                    ret = 'int s = 0; int w = 0; for (const auto& e : c.get_reverse()) { s += e * ++w; } return s;'
                else:
                    ret = 'return %s;' % (e % (size - 1) if '%d' in e else e)
                out.append('int %s(%s) {\n  dreal::%s c;\n  %s\n  %s\n}' % (name, ', '.join(params), ty, '\n  '.join(body), ret))
                fns.append((name, kind, h, o))
    out.append('}')
    return '\n'.join(out), fns


def check_U01(c):
    n = 4 if c.tier == 'quick' else 6
    hs = [h for h in histories(n, 2 if c.tier == 'quick' else 3) if 'i' in h]
    hs += ['x', 'ix', 'ipox', 'ipiox', 'xpio', 'ipicxi', 'ipici', 'ippoo', 'ippio', 'ippioio', 'ippioo', 'pipioo', 'ppioio', 'ipippoio', 'pppiooo']
    hs = list(dict.fromkeys(hs))
    src, fns = probe_source(hs)
    env = make_env_u(c, [extract.probe('scoped', src)])
    prog = env.prog
    jobs = []
    for name, kind, h, o in fns:
        jobs.append(lambda a=(name, kind, h, o): scoped(env, *a))
    c.add(parallel(jobs))
    c.rules.append('For every history of up to %d insertions, pushes and pops (and some with clear and with an unmatched pop) the summaries of the operations are '
                   'composed on symbolic keys and values; every way the keys can coincide is a path, and what each observer reports must be what a container that '
                   'copies itself at every push would hold.' % n)
    c.assumptions += ['std containers behave as specified', 'longer histories are not composed']
    return len(jobs)


def make_env_u(c, tus):
    return Env(program(tus), None, c.tier, c.seed)


def scoped(env, name, kind, h, o):
    f = env.prog.one('probe::' + name)
    n = h.count('i')

    def spec(m, p):
        ks = [m.num(('sym', 'k%d' % i), C0) for i in range(n)]
        vs = [m.num(('sym', 'v%d' % i), C0) for i in range(n)] if kind == 'map' else None
        q = m.num(('sym', 'q'), C0)
        c = ref_run(kind, h, ks, vs)
        if o == 'size':
            return len(c)
        if o == 'empty':
            return int(not c)
        if o == 'count':
            return int(q in c)
        if o == 'find':
            return -77 if q not in c else (c[q] if kind == 'map' else q)
        if o == 'at':
            if kind == 'vec':
                return c[len(c) - 1]
            if q not in c:
                raise Skip()
            return c[q]
        if o == 'first':
            return c[0]
        if o == 'last':
            return c[-1]
        if o == 'all':
            return sum(k * 1000 + v for k, v in c.items()) if kind == 'map' else sum(c) if kind == 'set' else sum((i + 1) * x for i, x in enumerate(c))
        if o == 'rev':
            return sum((i + 1) * x for i, x in enumerate(reversed(c)))

    def undefined(m, p):
        if o == 'at' and p.outcome[0] == 'ret':
            return 'returns %s for a key that is not there' % show(p.outcome[1])[:100]
    return run(env, name, f, setup_for(f), spec, ret_num, undefined=undefined)


# --- U02 ---------------------------------------------------------------------------------

SETTERS = {'C': ('o = a%d;', 3), 'M': ('o = std::move(a%d);', 3), 'L': ('o.set_from_command_line(a%d);', 2), 'F': ('o.set_from_file(a%d);', 1)}


def check_U02(c):
    hs = [''.join(h) for n in range(0, 4 if c.tier == 'quick' else 6) for h in itertools.product('CMLF', repeat=n)]
    out = [HEAD, 'namespace probe {']
    for h in hs:
        for cp in ('', 'copy', 'move', 'assign'):
            if cp and len(h) > 2:
                continue
            body = [SETTERS[x][0] % i for i, x in enumerate(h)]
            if cp:
                extra = {'copy': 'dreal::OptionValue<int> q{o};', 'move': 'dreal::OptionValue<int> q{std::move(o)};',
                         'assign': 'dreal::OptionValue<int> q{77}; q = o;'}[cp]
                body.append(extra)
                body.append('q.set_from_file(last);')
            out.append('int opt%s_%s(int d, int last%s) { dreal::OptionValue<int> o{d}; %s return %s.get(); }' %
                       (cp, h, ''.join(', int a%d' % i for i in range(len(h))), ' '.join(body), 'q' if cp else 'o'))
    out.append('}')
    env = make_env_u(c, [extract.probe('options', '\n'.join(out))])
    jobs = []

    def ref(h, m):
        v, w = m.num(('sym', 'd'), C0), 0
        for i, x in enumerate(h):
            if SETTERS[x][1] >= w:
                v, w = m.num(('sym', 'a%d' % i), C0), SETTERS[x][1]
        return v, w

    for f in env.prog.functions.values():
        if f['q'].startswith('probe::opt'):
            cp, h = f['n'][3:].split('_')

            def spec(m, p, h=h, cp=cp):
                v, w = ref(h, m)
                return m.num(('sym', 'last'), C0) if cp and w <= 1 else v
            jobs.append(lambda f=f, spec=spec: run(env, f['n'], f, setup_for(f), spec, ret_num))
    c.add(parallel(jobs))
    c.rules.append('For every sequence of settings from code, command line and file the summaries of the setters are composed; the option must hold the last value of '
                   'the most authoritative source seen, also after copying and moving the option.')
    return len(jobs)


from props_guard import check_U03  # noqa: E402,F401
from props_stat import check_U04  # noqa: E402,F401
from props_pool import check_U05  # noqa: E402,F401
