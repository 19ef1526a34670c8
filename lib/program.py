"""The extracted program: functions, classes and enums of the requested units."""
import re

import extract


class Program:
    def __init__(self, tus=None):
        raw = extract.extract(tus)
        self.tus = sorted(raw)
        self.functions = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.by_q = {}
        self.where = {}
        for tu in self.tus:
            j = raw[tu]
            for f in j['functions']:
                key = f['fid']
                if key in self.functions and not (f.get('anon') or f.get('storage_static')):
                    # headers are seen many times: keep the first with a body
                    if self.functions[key].get('body') is not None:
                        continue
                if key in self.functions and (f.get('anon') or f.get('storage_static')):
                    # internal linkage: the same id may name different functions
                    self.functions.setdefault(key + '@' + tu, f)
                    f['tu'] = tu
                if f.get('err') and f.get('body') is not None:
                    # parts of it are missing from the tree
                    f['body'] = {'k': '?does not type-check', 'l': f.get('line')}
                    self.by_q.setdefault(f['q'], []).append(f)
                    continue
                f['tu'] = tu
                self.functions[key] = f
                self.by_q.setdefault(f['q'], []).append(f)
            for c in j['classes']:
                self.classes.setdefault(c['q'], c)
            for e in j['enums']:
                self.enums.setdefault(e['q'], e)
            for g in j['globals']:
                self.globals.setdefault(g['q'], g)
        self._sub = None

    def fn(self, fid, tu=None):
        if tu is not None:
            f = self.functions.get(fid + '@' + tu)
            if f is not None:
                return f
        return self.functions.get(fid)

    def find(self, q, pred=None, nparams=None):
        """Functions by qualified name."""
        r = [f for f in self.by_q.get(q, []) if f.get('body') is not None]
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if pred:
            r = [f for f in r if pred(f)]
        return r

    def one(self, q, pred=None, nparams=None):
        r = self.find(q, pred, nparams)
        if len(r) != 1:
            raise extract.AnalysisBroken('anchor %s: %d definitions found' % (q, len(r)))
        return r[0]

    def bases(self, cls):
        """All base classes, nearest first."""
        out, todo = [], [cls]
        while todo:
            c = self.classes.get(todo.pop(0))
            if not c:
                continue
            for b in c['bases']:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.bases(cls)

    def subclasses(self, base):
        return [c for c in self.classes if c != base and base in self.bases(c)]

    def callees(self, fn):
        """fids of the functions called in the body of fn (static callees)."""
        r = fn.get('_callees')
        if r is None:
            from engine import walk
            r = []
            for part in (fn.get('body'), fn.get('inits')):
                for n in walk(part):
                    if isinstance(n, dict) and isinstance(n.get('fn'), dict) and n['fn'].get('fid'):
                        r.append(n['fn']['fid'])
            fn['_callees'] = r
        return r

    def reach(self, roots, cut=None):
        """fid -> function for everything statically reachable; cut(fn) stops the walk."""
        out, todo = {}, list(roots)
        while todo:
            f = todo.pop()
            if f['fid'] in out:
                continue
            out[f['fid']] = f
            for c in self.callees(f):
                g = self.fn(c, f.get('tu'))
                if g is not None and g.get('body') is not None and g['fid'] not in out and not (cut and cut(g)):
                    todo.append(g)
        return out

    def cycles(self, fns):
        """Recursive groups (strongly connected components with a cycle) among fns (fid -> function)."""
        index, low, on, st, out = {}, {}, set(), [], []
        succ = {k: [c for c in (self.fn(x, f.get('tu')) for x in self.callees(f)) if c is not None and c['fid'] in fns] for k, f in fns.items()}

        def go(v):
            index[v] = low[v] = len(index)
            st.append(v)
            on.add(v)
            for w in succ[v]:
                w = w['fid']
                if w not in index:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or any(x['fid'] == v for x in succ[v]):
                    out.append(comp)
        for v in sorted(fns):
            if v not in index:
                go(v)
        return out, succ

    def field_types(self, cls):
        r = {}
        for c in [cls] + self.bases(cls):
            ci = self.classes.get(c)
            if ci:
                for f in ci['fields']:
                    r.setdefault(f['name'], f)
        return r

    def method_on(self, cls, fid, name):
        """Resolve a virtual call of method `fid` on dynamic class cls."""
        tail = fid[fid.index('('):] if '(' in fid else ''
        m = re.match(r'.*::([^:()]*(?:\(\))?[^:()]*)\(', fid)
        for c in [cls] + self.bases(cls):
            ci = self.classes.get(c)
            if not ci:
                continue
            for me in ci['methods']:
                if me['name'] == name and me['fid'].endswith(tail) and len(me['fid']) - len(tail) == len(c) + 2 + len(name):
                    f = self.functions.get(me['fid'])
                    if f is not None:
                        return f
        return None


def strip_type(t):
    t = t.strip()
    while True:
        u = t
        t = re.sub(r'\s*&+$', '', t)
        t = re.sub(r'\s*\bconst$', '', t)
        t = re.sub(r'^const\s+', '', t)
        t = t.strip()
        if t == u:
            return t


def template_args(t):
    """['A', 'B'] of X<A, B>."""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for ch in t[i:]:
        if ch in '<([{':
            depth += 1
            if depth == 1:
                continue
        elif ch in '>)]}':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


def coll_kind(t):
    t = strip_type(t)
    for pre, k in (('std::vector<', 'vec'), ('std::deque<', 'vec'), ('std::list<', 'vec'),
                   ('std::initializer_list<', 'vec'), ('std::array<', 'vec'), ('std::queue<', 'vec'),
                   ('std::stack<', 'vec'),
                   ('std::set<', 'set'), ('std::unordered_set<', 'set'), ('std::multiset<', 'vec'),
                   ('std::map<', 'map'), ('std::unordered_map<', 'map'), ('std::multimap<', 'map')):
        if t.startswith(pre):
            return k
    return None
