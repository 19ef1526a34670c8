"""Path-sensitive abstract interpreter over the type-resolved tree.

A run of `Interp.explore(fn, ...)` returns one `Path` per abstract path of the
function: the facts assumed, the outcome and the final abstract store.  Values are
immutable terms (tuples); containers are k-limited; helpers are inlined.
"""
import re

from program import coll_kind, strip_type, template_args


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    """This abstract path cannot happen (contradicting facts, failed assert)."""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    def __init__(self, type_, term):
        self.type = type_
        self.term = term


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class AbortEx(Exception):
    def __init__(self, why):
        self.why = why


class LV:
    """An abstract location: a root and an access path."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def sub(self, *p):
        return LV(self.root, self.path + p)

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return 'LV(%r,%r)' % (self.root, self.path)


TRUE = ('bool', True)
FALSE = ('bool', False)
NULL = ('null',)
DECLINE = ('declined',)     # a primitive that does not apply to this call
VOID = ('void',)


def mkbool(b):
    return TRUE if b else FALSE


SCALAR = re.compile(r'(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|long double|std::u?int\d+_t|u?int\d+_t|size_t|std::size_t|ptrdiff_t)( int)?$')


def is_lit(t):
    return isinstance(t, tuple) and t[0] in ('int', 'flt', 'bool', 'chr')


def lit(t):
    return t[1]


def mknum(x):
    if isinstance(x, bool):
        return mkbool(x)
    if isinstance(x, int):
        return ('int', x)
    return ('flt', x)


def coll(kind, items, base=None):
    return ('coll', kind, tuple(items), base)


def is_coll(v):
    return isinstance(v, tuple) and v[0] == 'coll'


def canon(v):
    """Value used as an operand of a term."""
    if isinstance(v, tuple):
        if v[0] == 'coll' and v[3] is not None and v[1] != 'stream':
            return v[3]
        if v[0] == 'inst' and v[2] is not None:
            fs = tuple((a, b) for a, b in v[3] if canon(b) != ('fld', v[2], a))
            if not fs:
                return v[2]
            if len(fs) != len(v[3]):
                return v[:3] + (fs,)
    return v


def show(t, depth=0):
    """Readable form of a term."""
    if isinstance(t, LV):
        return '&%s%s' % (t.root[-1] if isinstance(t.root, tuple) else t.root, ''.join('.%s' % (p[1],) for p in t.path))
    if not isinstance(t, tuple):
        return repr(t)
    if depth > 9:
        return '..'
    k = t[0]
    d = depth + 1
    if k == 'sym':
        return str(t[1])
    if k in ('int', 'flt', 'bool', 'str', 'chr'):
        return repr(t[1]) if k != 'bool' else ('true' if t[1] else 'false')
    if k == 'enum':
        return t[1].split('::')[-1]
    if k == 'fld':
        return '%s.%s' % (show(t[1], d), t[2])
    if k == 'elem':
        return '%s[%s]%s' % (show(t[1], d), t[2], {'k': '.key', 'v': '.val'}.get(t[3], '') if len(t) > 3 else '')
    if k in ('op', 'cmp'):
        if len(t) == 4:
            return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
        return '(%s%s)' % (t[1], show(t[2], d))
    if k == 'not':
        return '!%s' % show(t[1], d)
    if k == 'eq':
        return '(%s == %s)' % (show(t[1], d), show(t[2], d))
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'new':
        return 'new %s(%s)' % (t[1].split('::')[-1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'coll':
        return '%s{%s}' % (t[1], ', '.join(show(x, d) for x in t[2]))
    if k == 'pair':
        return '<%s, %s>' % (show(t[1], d), show(t[2], d))
    if k == 'ptr':
        return 'ptr(%s)' % show(t[1], d)
    if k == 'inst':
        return '%s{%s}' % (t[1].split('::')[-1], ', '.join('%s=%s' % (a, show(b, d)) for a, b in t[3]))
    return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))


class Frame:
    __slots__ = ('fn', 'id', 'this', 'this_cls', 'tu', 'parent')

    def __init__(self, fn, fid, this, this_cls, tu, parent=None):
        self.fn = fn
        self.id = fid
        self.this = this
        self.this_cls = this_cls
        self.tu = tu
        self.parent = parent


class Path:
    def __init__(self):
        self.facts = []        # [(atom, bool)]
        self.outcome = None    # ('ret', v) | ('throw', type, term) | ('abort', why) | ('unsupported', why)
        self.events = []
        self.final = {}        # name -> final value of this / reference parameters
        self.interp = None
        self.shapes = {}
        self.kinds = {}
        self.lines = []

    def describe(self):
        out = []
        for (t, en), ks in self.kinds.items():
            if len(ks) == 1:
                out.append('kind(%s) = %s' % (show(t), next(iter(ks))))
            elif len(ks) < 6:
                out.append('kind(%s) in {%s}' % (show(t), ', '.join(sorted(ks))))
        for a, b in self.facts:
            if a[0] == 'cmp' and a[2][0] == 'kind':
                continue
            out.append(('' if b else 'not ') + show(a))
        for t, n in self.shapes.items():
            out.append('|%s| = %d' % (show(t), n))
        return ' and '.join(out) if out else 'always'


def walk(n):
    """All nodes of a syntax tree."""
    todo = [n]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            yield n
            todo.extend(n.values())
        elif isinstance(n, list):
            todo.extend(n)


INTEGRAL = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'std::size_t', 'size_t',
            'char', 'unsigned char', 'signed char', 'std::int64_t', 'std::int32_t', 'int64_t', 'int32_t', 'uint64_t', 'uint32_t'}


class Config:
    """What an analysis treats as primitive, and the bounds it uses."""
    max_paths = 6000
    max_depth = 40
    max_steps = 200000
    max_loop = 12
    asserts_abort = False       # a failing assertion is an outcome, not an assumption
    sizes_default = (0, 1, 2)
    # classes whose objects carry no information for the analysis
    on_destroy = None          # on_destroy(interp, lv, class) -> handled
    on_delete = None           # on_delete(interp, pointer) -> handled
    on_write = None            # on_write(interp, lv, value): a value is stored
    on_mem = None              # on_mem(interp, node): a member is named
    dtor_cls = None             # classes whose objects are destroyed at the end of their scope
    ignore_cls = re.compile(r'(^|::)(\w*Stat|Timer|TimerGuard|logger|lock_guard|unique_lock)(<.*)?$')
    identity_fields = {'ptr_'}
    keep_new_bases = ('dreal::drake::symbolic::ExpressionCell', 'dreal::drake::symbolic::FormulaCell')

    def sizes(self, interp, term, kind):
        return self.sizes_default

    def prim(self, interp, fn):
        """Returns a handler(interp, node, fn, obj, args)->value or None."""
        return None

    def build(self, interp, cls, args):
        """A value for an object whose construction is not followed."""
        return None

    def known_kind(self, interp, term):
        """The kind enumerator (short name) of a term, if known."""
        return None

    def type_of_opaque(self, interp, term):
        return interp.types.get(term)


class Interp:
    def __init__(self, prog, config):
        self.prog = prog
        self.cfg = config
        self.types = {}
        self.at_exit = None        # called with the final state of every path
        self.expanding = False
        import handlers
        self.h = handlers

    def cfg_piece(self, ref):
        """Is the output of this operator<< a single piece of the printed text?"""
        h = getattr(self.cfg, 'piece', None)
        return bool(h and h(self, ref))

    # -- exploration ---------------------------------------------------------
    def explore(self, fn, setup, limit=None):
        """setup(interp) -> (this LV or None, [argument values or LVs]).
        Explores every abstract path of fn."""
        paths = []
        script, widths = [], []
        self.truncated = False
        while True:
            self.reset(script, widths)
            p = Path()
            self.path = p
            try:
                this, args = setup(self)
                v = self.call_function(fn, this, args, this_cls=fn.get('cls'))
                if self.at_exit is not None:
                    self.at_exit(self)
                if isinstance(v, LV):
                    p.out_lv = v
                    v = self.get(v)
                p.outcome = ('ret', canon(self.settle(v)))
            except Thrown as e:
                p.outcome = ('throw', e.type, e.term)
            except AbortEx as e:
                p.outcome = ('abort', e.why)
            except Infeasible:
                p = None
            except Unsupported as e:
                p.outcome = ('unsupported', str(e))
            except (BreakEx, ContinueEx):
                p.outcome = ('unsupported', 'stray break')
            except RecursionError:
                p.outcome = ('unsupported', 'recursion')
            if p is not None:
                p.facts = list(self.facts)
                p.shapes = dict(self.shapes)
                p.kinds = dict(self.kinds)
                p.events = list(self.events)
                p.heap = self.heap
                p.lines = self.lines
                p.rel = self.rel
                p.setup_roots = self.roots
                p.final = {n: self.value_at(lv) for n, lv in self.roots.items()}
                paths.append(p)
            # next script
            script, widths = self.script, self.widths
            del script[self.pos:]
            del widths[self.pos:]
            while script and script[-1] + 1 >= widths[-1]:
                script.pop()
                widths.pop()
            if not script:
                break
            script[-1] += 1
            if len(paths) >= (limit or self.cfg.max_paths):
                self.truncated = True
                break
        return paths

    def reset(self, script, widths):
        self.script, self.widths, self.pos = script, widths, 0
        self.heap = {}
        self.facts = []
        self.bools = {}
        self.rel = {}      # term -> [(op, literal, truth)]
        self.rels = {}     # (a, b) -> set of '<', '=', '>'
        self.eqs = []      # [(a, b, bool)]
        self.kinds = {}    # term -> frozenset of kind names (enum short names) still possible
        self.shapes = {}
        self.events = []
        self.roots = {}
        self.frames = []
        self.stack = []
        self.nframe = 0
        self.scopes = []
        self.nroot = 0
        self.steps = 0
        self.lams = {}
        self.lines = []
        self.curline = None

    def choose(self, n, label=None):
        if n <= 1:
            return 0
        if self.pos >= len(self.script):
            self.script.append(0)
            self.widths.append(n)
        else:
            self.widths[self.pos] = n
        d = self.script[self.pos]
        self.pos += 1
        return d

    # -- store ---------------------------------------------------------------
    def new_root(self, value, tag='tmp'):
        self.nroot += 1
        r = (tag, self.nroot)
        self.heap[r] = value
        return LV(r)

    def sym(self, name, type_=None):
        t = ('sym', name)
        if type_:
            self.types[t] = strip_type(type_)
        return t

    def sym_lv(self, name, type_=None):
        t = self.sym(name, type_)
        lv = LV(('sym', name))
        self.heap[lv.root] = t
        self.roots[name] = lv
        return lv

    def typeof(self, t):
        if isinstance(t, tuple):
            if t[0] == 'inst':
                return t[1]
            if t[0] == 'new':
                return t[1]
            r = self.types.get(t)
            if r is None and t[0] == 'coll' and t[3] is not None:
                r = self.types.get(t[3])
            return r
        return None

    def comp(self, v, p):
        """Component p of value v."""
        if p[0] == 'f':
            return self.field(v, p[1], p[2] if len(p) > 2 else None)
        if p[0] == 'i':
            if is_coll(v):
                return v[2][p[1]] if 0 <= p[1] < len(v[2]) else ('app', 'out_of_range', canon(v), ('int', p[1]))
            if isinstance(v, tuple) and v[0] == 'str' and 0 <= p[1] <= len(v[1]):
                return ('chr', ord((v[1] + chr(0))[p[1]]))
            return ('app', 'at', canon(v), ('int', p[1]))
        if p[0] == 'p':
            if isinstance(v, tuple) and v[0] in ('pair', 'tuple'):
                return v[1 + p[1]]
            return self.mkfld(v, ('first', 'second')[p[1]] if p[1] < 2 else 'get%d' % p[1], p[2] if len(p) > 2 else None)
        if p[0] == 'key':   # value of an opaque map at a key
            if isinstance(v, tuple) and v[0] == 'kv':
                for k, x in v[2]:
                    if k == p[1]:
                        return x
                v = v[1]
            return ('pair', p[1], ('app', 'at', canon(v), p[1]))
        raise Unsupported('component %r' % (p,))

    def mkfld(self, v, name, type_=None):
        v = canon(v)
        if name in self.cfg.identity_fields:
            return v
        t = ('fld', v, name)
        r = self.cfg.rewrite_field(self, v, name) if hasattr(self.cfg, 'rewrite_field') else None
        if r is not None:
            t = r
        if type_ and t not in self.types:
            self.types[t] = strip_type(type_)
        return t

    def field(self, v, name, type_=None):
        if isinstance(v, tuple):
            if v[0] == 'inst':
                for a, b in v[3]:
                    if a == name:
                        return b
                if v[2] is not None:
                    return self.mkfld(v[2], name, type_)
                return ('uninit', name)
            if v[0] == 'ptr':
                return self.field(self.get(v[1]), name, type_)
            if v[0] == 'new' and name not in self.cfg.identity_fields:
                r = self.h.new_field(self, v, name)
                if r is not None:
                    return r
        return self.mkfld(v, name, type_)

    def setcomp(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, tuple) and v[0] == 'inst':
                fs = dict(v[3])
                old = fs.get(p[1])
                if old is None:
                    old = self.field(v, p[1])
                fs[p[1]] = self.setcomp(old, path[1:], x)
                return ('inst', v[1], v[2], tuple(sorted(fs.items(), key=lambda kv: kv[0])))
            if isinstance(v, tuple) and v[0] == 'ptr':
                lv = v[1]
                self.set(LV(lv.root, lv.path + path), x)
                return v
            if p[1] in self.cfg.identity_fields:
                return self.setcomp(v, path[1:], x)
            old = self.field(v, p[1])
            return ('inst', self.typeof(v) or '?', canon(v), ((p[1], self.setcomp(old, path[1:], x)),))
        if p[0] == 'i':
            if isinstance(v, tuple) and v[0] == 'str' and 0 <= p[1] < len(v[1]) and is_lit(x):
                return ('str', v[1][:p[1]] + chr(int(lit(x))) + v[1][p[1] + 1:])
            if not is_coll(v):
                return ('app', 'update', canon(v), ('int', p[1]), x if not path[1:] else ('app', 'part', x))
            items = list(v[2])
            if not 0 <= p[1] < len(items):
                raise Unsupported('store out of range')
            items[p[1]] = self.setcomp(items[p[1]], path[1:], x)
            return coll(v[1], items)
        if p[0] == 'p':
            if isinstance(v, tuple) and v[0] in ('pair', 'tuple'):
                l = list(v)
                l[1 + p[1]] = self.setcomp(l[1 + p[1]], path[1:], x)
                return tuple(l)
            a = self.comp(v, ('p', 0))
            b = self.comp(v, ('p', 1))
            return self.setcomp(('pair', a, b), path, x)
        if p[0] == 'key':
            base, upd = (v[1], v[2]) if isinstance(v, tuple) and v[0] == 'kv' else (canon(v), ())
            old = self.comp(v, p)
            new = self.setcomp(old, path[1:], x)
            return ('kv', base, tuple(kv for kv in upd if kv[0] != p[1]) + ((p[1], new),))
        raise Unsupported('store %r' % (p,))

    def get(self, lv):
        v = self.heap.get(lv.root)
        if v is None:
            raise Unsupported('read of unknown location %r' % (lv.root,))
        for p in lv.path:
            while isinstance(v, LV):
                v = self.get(v)
            v = self.comp(v, p)
        while isinstance(v, LV):
            v = self.get(v)
        return v

    def set(self, lv, x):
        lv = self.resolve(lv)
        x = self.settle(x)
        if lv.root[0] == 'view':
            raise Unsupported('store into an element that is not tracked')
        if self.cfg.on_write and not self.expanding:
            self.cfg.on_write(self, lv, x)
        if not lv.path:
            self.heap[lv.root] = x
        else:
            self.heap[lv.root] = self.setcomp(self.heap[lv.root], lv.path, x)

    def resolve(self, lv):
        """Follows references and pointers stored along the path."""
        v = self.heap.get(lv.root)
        if v is None:
            raise Unsupported('unknown location %r' % (lv.root,))
        cur = LV(lv.root)
        for i, p in enumerate(lv.path):
            while isinstance(v, LV):
                cur = self.resolve(v)
                v = self.get(cur)
            if isinstance(v, tuple) and v[0] == 'ptr' and p[0] == 'f':
                cur = self.resolve(v[1])
                v = self.get(cur)
            cur = LV(cur.root, cur.path + (p,))
            v = self.comp(v, p)
        if isinstance(v, LV):
            return self.resolve(v)
        return cur

    def value_at(self, lv):
        try:
            return self.settle(self.get(lv))
        except Unsupported:
            return None

    def settle(self, v):
        while isinstance(v, LV):
            v = self.get(v)
        return v

    def deref(self, v):
        """Pointer value -> location."""
        v = self.settle(v)
        if isinstance(v, tuple):
            if v[0] == 'ptr':
                return v[1]
            if v == NULL:
                raise Infeasible()
            if v[0] in ('it', 'fit'):
                return self.h.iter_deref(self, v)
            root = ('*', canon(v))
            if root not in self.heap:
                self.heap[root] = canon(v)
            return LV(root)
        raise Unsupported('deref %r' % (v,))

    # -- collections ---------------------------------------------------------
    def as_coll(self, lv, type_=None):
        """Expands the container at lv to a k-limited list of items."""
        v = self.get(lv)
        if isinstance(v, tuple) and v[0] == 'ptr':
            return self.as_coll(v[1], type_)
        if is_coll(v):
            return v
        if isinstance(v, tuple) and v[0] == 'inst' and v[2] is None:
            raise Unsupported('iteration over an object %s' % v[1])
        if isinstance(v, tuple) and v[0] == 'kv':
            raise Unsupported('iteration over a partially updated map')
        c = self.expand(canon(v), type_)
        self.expanding = True
        try:
            self.set(lv, c)
        finally:
            self.expanding = False
        return c

    def expand(self, t, type_=None):
        ty = self.types.get(t) or (strip_type(type_) if type_ else None)
        if ty is None:
            ty = ''
        kind = self.h.container_kind(ty) or 'vec'
        if t not in self.shapes:
            opts = self.cfg.sizes(self, t, kind)
            n = opts[self.choose(len(opts), 'shape')]
            self.shapes[t] = n
        n = self.shapes[t]
        if t not in self.types and ty:
            self.types[t] = ty
        items = []
        args = template_args(ty)
        for i in range(n):
            if kind == 'map':
                k, x = ('elem', t, i, 'k'), ('elem', t, i, 'v')
                if len(args) >= 2:
                    self.types.setdefault(k, strip_type(args[0]))
                    self.types.setdefault(x, strip_type(args[1]))
                else:
                    kt = self.h.ELEM_TYPES.get(ty)
                    if kt:
                        self.types.setdefault(k, kt[0])
                        self.types.setdefault(x, kt[1])
                items.append(('pair', k, x))
            else:
                e = ('elem', t, i)
                et = strip_type(args[0]) if args else self.h.ELEM_TYPES.get(ty)
                if et:
                    self.types.setdefault(e, et)
                items.append(e)
        return coll(kind, items, t)

    # -- facts ---------------------------------------------------------------
    def decide(self, c):
        c = self.settle(c)
        if not isinstance(c, tuple):
            raise Unsupported('condition %r' % (c,))
        k = c[0]
        if k == 'bool':
            return c[1]
        if k in ('int', 'flt', 'chr'):
            return bool(c[1])
        if k == 'null':
            return False
        if k in ('ptr', 'new', 'lam', 'inst', 'coll', 'str'):
            return True
        if k == 'not':
            return not self.decide(c[1])
        if k == 'cmp':
            return self.decide_cmp(c[1], c[2], c[3])
        if k == 'eq':
            return self.decide_eq(c[1], c[2])
        if k == 'op' and c[1] in ('&', '&&') and len(c) == 4 and self.boolish(c[2]) and self.boolish(c[3]):
            return self.decide(c[2]) and self.decide(c[3])
        if k == 'op' and c[1] in ('|', '||') and len(c) == 4 and self.boolish(c[2]) and self.boolish(c[3]):
            return self.decide(c[2]) or self.decide(c[3])
        if k == 'op' and c[1] == '^' and self.boolish(c[2]) and self.boolish(c[3]):
            return self.decide(c[2]) != self.decide(c[3])
        r = self.cfg.decide_atom(self, c) if hasattr(self.cfg, 'decide_atom') else None
        if r is not None:
            return r
        c = self.key(c)
        if c in self.bools:
            return self.bools[c]
        b = self.choose(2) == 0
        self.bools[c] = b
        self.facts.append((c, b))
        return b

    def boolish(self, t):
        return isinstance(t, tuple) and (t[0] in ('bool', 'cmp', 'eq', 'not') or self.types.get(t) == 'bool' or
                                         (t[0] == 'op' and t[1] in ('&', '|', '&&', '||', '^')))

    def key(self, t):
        return t

    def kind_name(self, e):
        return e[1].split('::')[-1]

    def decide_kind(self, t, enum):
        """kind of t == enum?"""
        name = self.kind_name(enum)
        r = self.cfg.known_kind(self, t)
        if r is not None:
            return r == name
        key = (t, enum[2])
        ks = self.kinds.get(key)
        if ks is None:
            e = self.prog.enums.get(enum[2])
            ks = frozenset(c['name'] for c in e['consts']) if e else None
            if ks is None:
                return None
            ks = self.cfg.restrict_kinds(self, t, ks) if hasattr(self.cfg, 'restrict_kinds') else ks
        if name not in ks:
            self.kinds[key] = ks
            return False
        if len(ks) == 1:
            self.kinds[key] = ks
            return True
        if self.choose(2) == 0:
            self.kinds[key] = frozenset([name])
            self.facts.append((('cmp', '==', ('kind', t), enum), True))
            return True
        self.kinds[key] = ks - {name}
        self.facts.append((('cmp', '==', ('kind', t), enum), False))
        return False

    def decide_eq(self, a, b):
        a, b = canon(a), canon(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and a[0] in ('int', 'flt', 'chr', 'bool') and len(a) == len(b) == 2:
            return a[1] == b[1]
        if a == b:
            return True
        if a[0] == 'str' and b[0] == 'str':
            return False
        r = self.cfg.known_eq(self, a, b) if hasattr(self.cfg, 'known_eq') else None
        if r is not None:
            return r
        # union-find over decided equalities
        ra, rb = self.rep(a), self.rep(b)
        if ra == rb:
            return True
        for x, y, v in self.eqs:
            if not v and {self.rep(x), self.rep(y)} == {ra, rb}:
                return False
        v = self.choose(2) == 0
        self.eqs.append((a, b, v))
        self.facts.append((('eq', a, b), v))
        return v

    def rep(self, a):
        changed = True
        seen = {a}
        while changed:
            changed = False
            for x, y, v in self.eqs:
                if v and ((x in seen) != (y in seen)):
                    seen |= {x, y}
                    changed = True
        return min(seen, key=repr)

    _SAT = {'<': {'<'}, '<=': {'<', '='}, '==': {'='}, '!=': {'<', '>'}, '>': {'>'}, '>=': {'>', '='}}
    _SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}

    def decide_cmp(self, op, a, b):
        a, b = canon(a), canon(b)
        if is_lit(a) and is_lit(b):
            x, y = lit(a), lit(b)
            return {'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y, '>': x > y, '>=': x >= y}[op]
        if a == b:
            return op in ('<=', '==', '>=')
        if a[0] == 'str' and b[0] == 'str':
            return {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1]}.get(op, a[1] <= b[1] if op == '<=' else a[1] >= b[1])
        # enumerators
        if b[0] == 'enum' and a[0] != 'enum':
            pass
        elif a[0] == 'enum' and b[0] != 'enum':
            a, b, op = b, a, self._SWAP[op]
        if a[0] == 'enum' and b[0] == 'enum':
            return {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[3] < b[3], '>': a[3] > b[3], '<=': a[3] <= b[3], '>=': a[3] >= b[3]}[op]
        if b[0] == 'enum' and op in ('==', '!='):
            t = a[1] if a[0] == 'kind' else a
            r = self.decide_kind(t, b)
            if r is not None:
                return r if op == '==' else not r
        if a == NULL or b == NULL:
            x = b if a == NULL else a
            if x[0] in ('ptr', 'new', 'coll', 'inst', 'lam', 'str'):
                r = False
            else:
                r = not self.decide(('nonnull', x))
            return r if op == '==' else not r
        if a[0] == 'ptr' and b[0] == 'ptr' and op in ('==', '!='):
            return (a[1] == b[1]) == (op == '==')
        if (a[0] in ('ptr', 'new')) != (b[0] in ('ptr', 'new')) and op in ('==', '!='):
            x = a if a[0] in ('ptr', 'new') else b
            if x[0] == 'ptr':
                return op == '!='
        if op in ('==', '!=') and self.boolish(a) and self.boolish(b) and 'bool' not in (a[0], b[0]):
            return (self.decide(a) == self.decide(b)) == (op == '==')
        if a[0] == 'bool' or b[0] == 'bool':
            x, y = (a, b) if b[0] == 'bool' else (b, a)
            if op in ('==', '!='):
                return (self.decide(x) == y[1]) == (op == '==')
        # literal on one side
        if is_lit(a):
            a, b, op = b, a, self._SWAP[op]
        if is_lit(b):
            return self.decide_lit(op, a, lit(b), b)
        if repr(b) < repr(a):
            a, b, op = b, a, self._SWAP[op]
        r = self.rels.get((a, b), frozenset('<=>'))
        sat = self._SAT[op]
        if r <= sat:
            return True
        if not (r & sat):
            return False
        v = self.choose(2) == 0
        self.rels[(a, b)] = frozenset(r & sat if v else r - sat)
        self.facts.append((('cmp', op, a, b), v))
        return v

    def decide_lit(self, op, a, y, bterm):
        cons = self.rel.setdefault(a, [])
        integral = self.types.get(a) in ('int', 'long', 'unsigned int', 'unsigned long', 'char', 'unsigned char', 'short', 'bool', 'long long')
        unsigned = (self.types.get(a) or '').startswith('unsigned')
        lits = sorted({c[1] for c in cons} | {y})
        pts = set()
        for i, l in enumerate(lits):
            pts.add(l)
            pts.add(l - 1)
            pts.add(l + 1)
            if not integral:
                if i + 1 < len(lits):
                    pts.add((l + lits[i + 1]) / 2.0)
        def ok(x, op_, l):
            return {'<': x < l, '<=': x <= l, '==': x == l, '!=': x != l, '>': x > l, '>=': x >= l}[op_]
        feas = [x for x in pts if all(ok(x, o, l) == t for o, l, t in cons) and not (unsigned and x < 0)]
        res = {ok(x, op, y) for x in feas}
        if res == {True}:
            return True
        if res == {False}:
            return False
        if not feas:
            raise Infeasible()
        v = self.choose(2) == 0
        cons.append((op, y, v))
        self.facts.append((('cmp', op, a, bterm), v))
        return v

    # -- functions -----------------------------------------------------------
    def call_function(self, fn, this, args, this_cls=None, node=None):
        if len(self.stack) > self.cfg.max_depth:
            raise Unsupported('call depth')
        self.nframe += 1
        fr = Frame(fn, self.nframe, this, this_cls or fn.get('cls'), fn.get('tu'))
        self.bind_params(fn['params'], args, fr)
        self.frames.append(fr)
        self.stack.append(fn['fid'])
        try:
            if fn['kind'] == 'ctor':
                self.run_ctor_inits(fn, fr)
            if fn.get('body') is None:
                return VOID
            self.exec(fn['body'])
            if fn['kind'] != 'ctor' and fn.get('ret') not in ('void', None, '') and fn['kind'] != 'dtor':
                # flowing off the end of a value-returning function
                if fn['n'] != 'main':
                    raise AbortEx('falls off the end of %s' % fn['q'])
            return VOID
        except Return as r:
            v = r.v
            if not isinstance(v, LV):
                return v
            rt = fn.get('ret', '')
            if rt.endswith('&'):
                return v
            return self.settle(v)
        finally:
            self.stack.pop()
            self.frames.pop()

    def bind_params(self, params, args, fr):
        for i, p in enumerate(params):
            a = args[i] if i < len(args) else ('app', 'default_arg', ('int', i))
            root = ('v', fr.id, p['id'])
            ty = p['type']
            if ty.endswith('&'):
                if isinstance(a, LV):
                    self.heap[root] = self.resolve_ref(a)
                else:
                    self.heap[root] = self.new_root(a)
            else:
                v = self.settle(a)
                self.heap[root] = v
            v = self.heap[root]
            if isinstance(v, tuple) and v[0] in ('sym', 'fld', 'app', 'elem') and v not in self.types:
                self.types[v] = strip_type(ty)

    def resolve_ref(self, lv):
        v = self.heap.get(lv.root)
        if isinstance(v, LV):
            return LV(v.root, v.path + lv.path)
        return lv

    def run_ctor_inits(self, fn, fr):
        obj = fr.this
        if obj is None:
            raise Unsupported('constructor without object')
        self.run_inits(fn, fr, obj)

    def run_inits(self, fn, fr, obj):
        inits = fn.get('inits') or []
        for i in inits:
            if i.get('delegate'):
                e = i['e']
                self.construct_at(obj, e)
                return
        done = set()
        for i in inits:
            if 'base' in i:
                e = i['e']
                if e and e.get('k') == 'ctor':
                    self.construct_at(obj, e)
            elif 'field' in i:
                done.add(i['field'])
                if not i.get('e'):
                    continue
                ft = self.field_decl(fn['cls'], i['field'])
                is_ref = ft and ft['type'].endswith('&')
                v = self.ev(i['e'])
                if is_ref and isinstance(v, LV):
                    v = self.resolve_ref(v)
                else:
                    v = self.settle(v)
                self.set_raw(obj.sub(('f', i['field'])), v)

    def set_raw(self, lv, x):
        """Store without following a reference held in the target itself."""
        v = self.heap.get(lv.root)
        if v is None:
            raise Unsupported('unknown location')
        self.heap[lv.root] = self.setcomp(v, lv.path, x)

    def field_decl(self, cls, name):
        return self.prog.field_types(cls).get(name)

    def construct_at(self, obj, node):
        """Runs constructor expression `node` on the object at obj."""
        fid = node['fn']['fid']
        f = self.prog.fn(fid, self.frames[-1].tu)
        args = [self.ev(a) for a in node['a']]
        if node.get('copy') or node.get('move'):
            if f is None or f.get('defaulted') or f.get('body') is None:
                self.set(obj, self.settle(args[0]))
                return
        if f is None or (f.get('body') is None and not f.get('inits')):
            return
        self.call_function(f, obj, args, this_cls=node['cls'])

    # -- statements ----------------------------------------------------------
    def exec(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unsupported('step limit')
        k = s['k']
        if 'l' in s:
            self.curline = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (k, s.get('l')))
        m(s)

    def s_block(self, s):
        if self.cfg.dtor_cls is None:
            for c in s['s']:
                self.exec(c)
            return
        scope = []
        self.scopes.append(scope)
        try:
            for c in s['s']:
                self.exec(c)
        except (Return, Thrown, BreakEx, ContinueEx):
            self.leave(scope)
            raise
        self.leave(scope)

    def leave(self, scope):
        """Destroys the automatic objects of a scope, last first."""
        self.scopes.pop()
        for lv, cls in reversed(scope):
            self.destroy(lv, cls)

    def destroy(self, lv, cls):
        if self.cfg.on_destroy is not None and self.cfg.on_destroy(self, lv, cls):
            return
        for f in self.prog.functions.values():
            if f['kind'] == 'dtor' and f.get('cls') == cls and f.get('body') is not None:
                self.call_function(f, lv, [], this_cls=cls)
                break
        for name, d in reversed(list(self.prog.field_types(cls).items())):
            t = d['type']
            if not t.endswith('&') and self.cfg.dtor_cls.search(strip_type(t)) and not t.rstrip().endswith('*'):
                self.destroy(lv.sub(('f', name)), strip_type(t))

    def no_temporary(self, e):
        if self.cfg.dtor_cls is not None and e is not None:
            todo = [e]
            while todo:
                n = todo.pop()
                if isinstance(n, list):
                    todo += n
                    continue
                if not isinstance(n, dict) or n.get('k') == 'lambda':
                    continue
                todo += list(n.values())
                if n.get('k') == 'ctor' and self.cfg.dtor_cls.search(strip_type(n.get('cls', ''))):
                    raise Unsupported('temporary of type %s' % n['cls'])

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        root = ('v', fr.id, d['id'])
        ty = d['type']
        if self.cfg.dtor_cls is not None and self.scopes and not d.get('static') and not ty.endswith(('&', '*')) and self.cfg.dtor_cls.search(strip_type(ty)):
            self.declare_(d, fr, root, ty)
            self.scopes[-1].append((LV(root, ()), strip_type(ty)))
            return
        self.declare_(d, fr, root, ty)

    def declare_(self, d, fr, root, ty):
        if self.cfg.ignore_cls.search(strip_type(ty)):
            self.heap[root] = ('ignored',)
            return
        if d.get('init') is None:
            self.heap[root] = self.h.default_value(self, ty, d['name'])
            return
        if d.get('static') and not ty.endswith('&') and not self.static_value(d, ty):
            # the value an earlier call left behind
            t = ('sym', 'static ' + d['name'])
            self.types.setdefault(t, strip_type(ty))
            self.heap[root] = t
            return
        v = self.ev(d['init'])
        if ty.endswith('&'):
            if isinstance(v, LV):
                self.heap[root] = self.resolve_ref(v)
            else:
                self.heap[root] = self.new_root(v)
            return
        v = self.settle(v)
        if isinstance(v, tuple) and v[0] in ('app', 'fld', 'op') and v not in self.types:
            self.types[v] = strip_type(ty)
        v = self.h.coerce(self, v, ty)
        self.heap[root] = v

    def static_value(self, d, ty):
        """Is the initial value of a static local its value in every call, whatever the arguments?"""
        if not ty.strip().startswith('const '):
            return False
        for n in walk(d['init']):
            if n.get('k') == 'this' or (n.get('k') == 'ref' and n.get('dk') in ('parm', 'local') and 'cv' not in n):
                return False
            if n.get('k') == 'ctor' and n.get('cls', '').endswith('::Variable') and n.get('a') and not n.get('copy'):
                return False
        return True

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('var'):
            self.declare(s['var'])
        if self.decide(self.rv(s['c'])):
            self.exec(s['t'])
        else:
            self.exec(s['f'])

    def loop(self, cond, body, inc=None, first=True):
        n = 0
        while True:
            if not (n == 0 and not first):
                if cond is not None and not self.decide(self.rv(cond)):
                    return
            n += 1
            if n > self.cfg.max_loop:
                raise Unsupported('loop bound')
            try:
                self.exec(body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc is not None:
                self.ev(inc)

    def s_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        self.loop(s.get('c'), s['b'], s.get('inc'))

    def s_while(self, s):
        if s.get('var'):
            n = 0
            while True:
                self.declare(s['var'])
                if not self.decide(self.rv(s['c'])):
                    return
                n += 1
                if n > self.cfg.max_loop:
                    raise Unsupported('loop bound')
                try:
                    self.exec(s['b'])
                except BreakEx:
                    return
                except ContinueEx:
                    pass
        self.loop(s['c'], s['b'])

    def s_do(self, s):
        if s['c'].get('k') == 'bool' and s['c']['v'] is False:
            try:
                self.exec(s['b'])
            except (BreakEx, ContinueEx):
                pass
            return
        self.loop(s['c'], s['b'], first=False)

    def s_range(self, s):
        r = self.ev(s['r'])
        if not isinstance(r, LV):
            r = self.new_root(r)
        r = self.resolve_ref(r)
        ty = strip_type(s.get('rt') or '')
        if ty in self.prog.classes and not self.h.container_kind(ty):
            for b in self.prog.find(ty + '::begin', nparams=0):
                if b.get('body'):
                    it = self.settle(self.call_function(b, r, [], ty))
                    if isinstance(it, tuple) and it[0] == 'it' and it[2] == 0:
                        r = it[1]
                    break
        c = self.as_coll(r, s.get('rt'))
        fr = self.frames[-1]
        d = s['var']
        root = ('v', fr.id, d['id'])
        r = self.resolve(r)
        i = 0
        while True:
            cur = self.get(r)
            if not is_coll(cur) or i >= len(cur[2]):
                break
            if i > 40:
                raise Unsupported('loop bound')
            if d['type'].endswith('&'):
                self.heap[root] = r.sub(('i', i))
            else:
                self.heap[root] = cur[2][i]
            i += 1
            try:
                self.exec(s['b'])
            except BreakEx:
                break
            except ContinueEx:
                continue

    def s_return(self, s):
        self.lines.append(s.get('l'))
        fr = self.frames[-1]
        if s.get('e') is None:
            raise Return(VOID)
        v = self.ev(s['e'])
        rt = fr.fn.get('ret', '')
        if isinstance(v, LV) and not rt.endswith('&'):
            v = self.settle(v)
        if isinstance(v, tuple):
            v = self.h.coerce(self, v, rt)
        raise Return(v)

    def s_switch(self, s):
        v = self.rv(s['c'])
        body = s['b']
        stmts = body['s'] if body and body['k'] == 'block' else [body]
        # flatten labels: [(labels, stmt)]
        flat = []
        for st in stmts:
            labels = []
            while st is not None and st['k'] in ('case', 'default'):
                labels.append(st)
                st = st['s']
            flat.append((labels, st))
        start = None
        dflt = None
        for i, (labels, st) in enumerate(flat):
            for l in labels:
                if l['k'] == 'default':
                    dflt = i
                else:
                    cv = self.rv(l['v'])
                    if self.decide(('cmp', '==', v, cv)):
                        start = i
                        break
            if start is not None:
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for labels, st in flat[start:]:
                if st is not None:
                    self.exec(st)
        except BreakEx:
            pass

    def s_break(self, s):
        raise BreakEx()

    def s_continue(self, s):
        raise ContinueEx()

    def s_try(self, s):
        nf = len(self.frames)
        try:
            self.exec(s['b'])
        except Thrown as t:
            del self.frames[nf:]
            for h in s['h']:
                ht = strip_type(h['type'])
                if h['type'] == '...' or self.catches(ht, t.type):
                    if h.get('var'):
                        self.heap[('v', self.frames[-1].id, h['var']['id'])] = t.term
                    self.exec(h['b'])
                    return
            raise

    def catches(self, handler, thrown):
        if handler == thrown:
            return True
        std = {'std::runtime_error': ['std::exception'], 'std::domain_error': ['std::logic_error', 'std::exception'],
               'std::logic_error': ['std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
               'std::invalid_argument': ['std::logic_error', 'std::exception']}
        return handler in std.get(thrown, ['std::exception'] if thrown.startswith('std::') else [])

    _SKIP_MACROS = re.compile(r'^(DREAL_LOG_|SPDLOG|static_assert)')

    def s_expr(self, s):
        mac = s.get('mac', '')
        if mac and self._SKIP_MACROS.match(mac):
            return
        e = s['e']
        if e is None:
            return
        self.stmt_level = e
        if self.cfg.dtor_cls is not None:
            t = e
            while isinstance(t, dict) and t.get('k') in ('cast', 'paren', 'tmp', 'bind') and isinstance(t.get('e'), dict):
                t = t['e']
            if t.get('k') == 'ctor' and self.cfg.dtor_cls.search(strip_type(t.get('cls', ''))):
                # an object that lives for this statement only
                self.destroy(self.new_root(self.ev(t)), strip_type(t['cls']))
                return
        self.no_temporary(e)
        self.ev(e)

    # -- expressions ---------------------------------------------------------
    def rv(self, n):
        return self.settle(self.ev(n))

    def lv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            return v
        return self.new_root(v)

    def ev(self, n):
        if n is None:
            return VOID
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unsupported('step limit')
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k.startswith('?'):
                return ('app', k)
            raise Unsupported('expression %s' % k)
        return m(n)

    def e_int(self, n):
        return ('int', n['v'])

    def e_float(self, n):
        return ('flt', float(n['v']))

    def e_bool(self, n):
        return mkbool(n['v'])

    def e_str(self, n):
        return ('str', n['v'])

    def e_char(self, n):
        return ('chr', n['v'])

    def e_nullptr(self, n):
        return NULL

    def e_typeid(self, n):
        return ('app', 'typeid')

    def e_pseudodtor(self, n):
        return VOID

    def e_zero(self, n):
        return self.h.default_value(self, n['t'], '')

    def e_enum(self, n):
        return ('enum', n['q'], n['t'], n['v'])

    def e_this(self, n):
        fr = self.frames[-1]
        if fr.this is None:
            raise Unsupported('this')
        return ('ptr', fr.this)

    def e_ref(self, n):
        fr = self.frames[-1]
        if n['dk'] == 'global' and not n.get('static'):
            if 'cv' in n:
                return mknum(n['cv'] + 2 ** 64 if n['cv'] == -1 and 'unsigned long' in str(n.get('t')) else n['cv'])
            root = ('g', n['q'])
            if root not in self.heap:
                t = ('sym', n['q'])
                self.types.setdefault(t, strip_type(n['t']))
                self.heap[root] = t
            return self.resolve_ref(LV(root))
        f = fr
        while f is not None:
            root = ('v', f.id, n['id'])
            if root in self.heap:
                if self.heap[root] == ('ignored',):
                    return ('ignored',)
                return self.resolve_ref(LV(root))
            f = f.parent
        if 'cv' in n:
            return mknum(n['cv'] + 2 ** 64 if n['cv'] == -1 and 'unsigned long' in str(n.get('t')) else n['cv'])
        if n.get('static') or n['dk'] == 'global':
            root = ('g', n.get('q', n['n']))
            if root not in self.heap:
                t = ('sym', n.get('q', n['n']))
                self.types.setdefault(t, strip_type(n['t']))
                self.heap[root] = t
            return LV(root)
        raise Unsupported('unbound %s' % n['n'])

    def e_fn(self, n):
        return ('fnref', n['fn']['fid'], n['fn']['q'])

    def e_memfn(self, n):
        return ('memfn', n['fn']['fid'], n['fn']['q'])

    def e_mem(self, n):
        if self.cfg.on_mem is not None:
            self.cfg.on_mem(self, n)
        b = self.ev(n['b'])
        if n.get('arrow'):
            b = self.deref(self.settle(b))
        if b == ('ignored',):
            return ('ignored',)
        name = n['n']
        if isinstance(b, LV):
            if name in ('first', 'second') and (n.get('cls', '').startswith('std::pair') or n.get('cls', '').startswith('std::__pair_base')):
                p = ('p', 0 if name == 'first' else 1, strip_type(n['t']))
            else:
                p = ('f', name, strip_type(n['t']))
                if name in self.cfg.identity_fields:
                    w = self.get(b)
                    if not (isinstance(w, tuple) and w[0] == 'inst' and any(k == name for k, _ in w[3])):
                        return b
            r = b.sub(p[:2])
            # register the type of an opaque component
            self.note_type(r, p, n['t'])
            return self.follow(r)
        b = self.settle(b)
        if name in ('first', 'second') and isinstance(b, tuple) and b[0] in ('pair', 'tuple'):
            return b[1 + (0 if name == 'first' else 1)]
        if name in ('first', 'second') and n.get('cls', '').startswith('std::pair'):
            return self.mkfld(b, name, n['t'])
        return self.field(b, name, n['t'])

    def note_type(self, lv, p, t):
        try:
            v = self.get(lv)
        except Unsupported:
            return
        if isinstance(v, tuple) and v[0] in ('fld', 'elem', 'app') and v not in self.types:
            self.types[v] = strip_type(t)

    def follow(self, lv):
        """If the location holds a reference, return what it refers to."""
        v = self.heap.get(lv.root)
        if v is None:
            return lv
        cur = lv
        x = v
        for i, p in enumerate(lv.path):
            while isinstance(x, LV):
                cur2 = LV(x.root, x.path + lv.path[i:])
                return self.follow(cur2)
            if isinstance(x, tuple) and x[0] == 'ptr' and p[0] == 'f':
                return self.follow(LV(x[1].root, x[1].path + lv.path[i:]))
            x = self.comp(x, p)
        if isinstance(x, LV):
            return self.follow(x)
        return cur

    def e_cast(self, n):
        ck = n['ck']
        if ck in ('ToVoid',):
            self.ev(n['e'])
            return VOID
        v = self.ev(n['e'])
        if ck in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BitCast', 'LValueBitCast', 'Dynamic', 'LValueToRValue', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            if ck == 'Dynamic':
                raise Unsupported('dynamic_cast')
            return v
        v = self.settle(v)
        if v == ('ignored',):
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if is_lit(v):
                return mkbool(bool(lit(v)))
            if self.boolish(v):
                return v
            return ('cmp', '!=', v, ('int', 0))
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            if v == NULL:
                return FALSE
            if v[0] in ('ptr', 'new', 'lam', 'inst', 'coll', 'str', 'fnref'):
                return TRUE
            return ('nonnull', v)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'IntegralToFloating':
            if is_lit(v):
                return ('flt', float(lit(v)))
            return v
        if ck in ('FloatingCast', 'IntegralCast'):
            if is_lit(v) and v[0] == 'bool':
                return ('int', int(v[1]))
            if is_lit(v) and v[0] == 'int' and strip_type(n['t']).startswith('unsigned') and v[1] < 0:
                return ('int', v[1] + 2 ** (64 if 'long' in n['t'] else 32))
            if v[0] == 'enum':
                return ('int', v[3])
            return v
        if ck == 'FloatingToIntegral':
            if is_lit(v):
                return ('int', int(lit(v)))
            return ('app', 'trunc', canon(v))
        return v

    def arith(self, op, a, b, type_=None):
        a, b = canon(a), canon(b)
        if is_lit(a) and is_lit(b):
            x, y = lit(a), lit(b)
            try:
                if op == '+':
                    return mknum(x + y)
                if op == '-':
                    return mknum(x - y)
                if op == '*':
                    return mknum(x * y)
                if op == '/':
                    if isinstance(x, int) and isinstance(y, int):
                        return mknum(int(x / y))
                    return mknum(x / y)
                if op == '%':
                    return mknum(int(x - y * int(x / y)))
                if op == '&':
                    return mknum(x & y)
                if op == '|':
                    return mknum(x | y)
                if op == '^':
                    return mknum(x ^ y)
                if op == '<<':
                    return mknum(x << y)
                if op == '>>':
                    return mknum(x >> y)
            except (ZeroDivisionError, TypeError, ValueError, OverflowError):
                pass
        if op == '+' and b == ('int', 0):
            return a
        if op == '/' and type_ and strip_type(type_) in INTEGRAL:
            op = 'i/'
        t = ('op', op, a, b)
        if type_ and t not in self.types:
            self.types[t] = strip_type(type_)
        return t

    def cmpop(self, op, a, b):
        a, b = canon(a), canon(b)
        if is_lit(a) and is_lit(b):
            return mkbool(self.decide_cmp(op, a, b))
        return ('cmp', op, a, b)

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['x'])
            return self.ev(n['y'])
        if op == '&&':
            if not self.decide(self.rv(n['x'])):
                return FALSE
            return self.rv(n['y'])
        if op == '||':
            if self.decide(self.rv(n['x'])):
                return TRUE
            return self.rv(n['y'])
        a = self.rv(n['x'])
        b = self.rv(n['y'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return mkbool({'==': a[2] == b[2], '!=': a[2] != b[2], '<': a[2] < b[2]}.get(op, a[2] >= b[2]))
            return self.cmpop(op, a, b)
        if a[0] == 'it' and is_lit(b):
            return ('it', a[1], a[2] + (lit(b) if op == '+' else -lit(b)))
        return self.arith(op, a, b, n.get('t'))

    def e_un(self, n):
        op = n['op']
        if op == '!':
            v = self.rv(n['e'])
            if v[0] == 'bool':
                return mkbool(not v[1])
            if v[0] == 'not':
                return v[1]
            return ('not', v)
        if op == '&':
            v = self.ev(n['e'])
            if isinstance(v, LV):
                return ('ptr', self.follow(v))
            if isinstance(v, tuple) and v[0] in ('fnref', 'memfn'):
                return v
            return ('ptr', self.new_root(v))
        if op == '*':
            v = self.rv(n['e'])
            if v[0] == 'fnref':
                return v
            return self.deref(v)
        if op in ('++', '--'):
            l = self.lv(n['e'])
            old = self.settle(l)
            if old == ('ignored',):
                return old
            if old[0] == 'it':
                new = ('it', old[1], old[2] + (1 if op == '++' else -1))
            else:
                new = self.arith('+' if op == '++' else '-', old, ('int', 1), n.get('t'))
            self.set(l, new)
            return old if n.get('post') else l
        v = self.rv(n['e'])
        if op == '-':
            if v[0] in ('int', 'flt'):
                return (v[0], -v[1])
            t = ('op', 'neg', canon(v))
            if n.get('t'):
                self.types.setdefault(t, strip_type(n['t']))
            return t
        if op == '+':
            return v
        return ('op', op, canon(v))

    def e_asg(self, n):
        op = n['op']
        if op == '=':
            b = self.rv(n['y'])
            l = self.lv(n['x'])
            if self.settle(l) == ('ignored',):
                return l
            self.set(l, b)
            return l
        l = self.lv(n['x'])
        b = self.rv(n['y'])
        a = self.settle(l)
        if a == ('ignored',):
            return l
        o = op[:-1]
        if o in ('|', '&') and (self.boolish(a) or self.types.get(a) == 'bool' or strip_type(n.get('t', '')) == 'bool'):
            r = self.boolop(o, a, b)
        else:
            r = self.arith(o, a, b, n.get('t'))
        self.set(l, r)
        return l

    def boolop(self, o, a, b):
        if o == '&':
            if a == FALSE or b == FALSE:
                return FALSE
            if a == TRUE:
                return b
            if b == TRUE:
                return a
        else:
            if a == TRUE or b == TRUE:
                return TRUE
            if a == FALSE:
                return b
            if b == FALSE:
                return a
        return ('op', o, a, b)

    def e_cond(self, n):
        if self.decide(self.rv(n['c'])):
            return self.ev(n['x'])
        return self.ev(n['y'])

    def e_idx(self, n):
        b = self.ev(n['x'])
        i = self.rv(n['y'])
        return self.h.index(self, b, i)

    def e_list(self, n):
        items = [self.rv(a) for a in n['a']]
        t = strip_type(n['t'])
        if t.startswith('std::') and not t.startswith('std::pair') and not t.startswith('std::initializer_list') and len(items) == 1:
            return items[0]
        if t in self.prog.classes:
            fs = self.prog.classes[t]['fields']
            return ('inst', t, None, tuple(sorted((f['name'], v) for f, v in zip(fs, items))))
        if SCALAR.match(t) and len(items) < 2:
            return items[0] if items else self.h.default_value(self, n['t'], '')
        return coll('vec', items)

    def e_lambda(self, n):
        fr = self.frames[-1]
        key = ('lam', id(n), fr.id, len(self.lams))
        # by-copy captures are frozen
        env = {}
        for c in n.get('caps', []):
            if c.get('this'):
                continue
            if 'init' in c:
                env[c['id']] = self.rv(c['init'])
            elif not c.get('byref') and 'id' in c:
                f = fr
                while f is not None:
                    root = ('v', f.id, c['id'])
                    if root in self.heap:
                        env[c['id']] = self.settle(self.heap[root]) if self.heap[root] != ('ignored',) else ('ignored',)
                        break
                    f = f.parent
        self.lams[key] = (n, fr, env)
        return key

    def call_lambda(self, lam, args):
        n, fr, env = self.lams[lam]
        if n.get('dependent'):
            raise Unsupported('generic lambda without instantiation')
        self.nframe += 1
        f = Frame({'q': 'lambda', 'fid': 'lambda', 'ret': n.get('ret', ''), 'kind': 'function', 'n': 'lambda', 'params': n['params']},
                  self.nframe, fr.this, fr.this_cls, fr.tu, parent=fr)
        for i, v in env.items():
            self.heap[('v', f.id, i)] = v
        self.bind_params(n['params'], args, f)
        if len(self.stack) > self.cfg.max_depth:
            raise Unsupported('call depth')
        self.frames.append(f)
        self.stack.append('lambda%d' % id(n))
        try:
            self.exec(n['b'])
            return VOID
        except Return as r:
            v = r.v
            if isinstance(v, LV) and not n.get('ret', '').endswith('&'):
                v = self.settle(v)
            return v
        finally:
            self.stack.pop()
            self.frames.pop()

    def call_value(self, f, args):
        """Call of a lambda, function reference or std::function value."""
        f = self.settle(f)
        if f[0] == 'lam':
            return self.call_lambda(f, args)
        if f[0] == 'ptr':
            return self.call_value(self.get(f[1]), args)
        if f[0] in ('fnref', 'memfn'):
            fn = self.prog.fn(f[1], self.frames[-1].tu if self.frames else None)
            ref = {'fid': f[1], 'q': f[2], 'n': f[2].split('::')[-1], 'pt': [p['type'] for p in fn['params']] if fn else [], 'ret': fn['ret'] if fn else ''}
            if fn and fn.get('cls'):
                ref['cls'] = fn['cls']
            return self.do_call(ref, None, args, None)
        if f[0] == 'inst':
            ms = [m for m in self.prog.classes.get(f[1], {'methods': []})['methods'] if m['name'] == 'operator()']
            for m in ms:
                fn = self.prog.functions.get(m['fid'])
                if fn is not None:
                    return self.call_function(fn, self.new_root(f), args, this_cls=f[1])
        t = ('app', 'call', canon(f)) + tuple(canon(self.settle(a)) for a in args)
        return t

    def e_throw(self, n):
        self.lines.append(n.get('l'))
        if n.get('e') is None:
            raise Thrown('rethrow', VOID)
        try:
            v = self.rv(n['e'])
        except Unsupported:
            v = ('app', 'message')
        raise Thrown(strip_type(n.get('t', '')), v)

    def e_stmtexpr(self, n):
        raise Unsupported('statement expression')

    def e_new(self, n):
        t = strip_type(n['t'])
        e = n.get('e')
        if e is None:
            return ('ptr', self.new_root(self.h.default_value(self, t, ''), 'new'))
        if e['k'] == 'ctor':
            args = [self.ev(a) for a in e['a']]
            return self.make_object(t, args, e['fn']['fid'])
        v = self.rv(e)
        return ('ptr', self.new_root(v, 'new'))

    def make_object(self, cls, args, fid=None):
        """A freshly allocated object; returns a pointer value."""
        if self.keep_new(cls):
            v = ('new', cls) + tuple(canon(self.settle(a)) for a in args)
            return v
        v = self.construct(cls, args, fid)
        return ('ptr', self.new_root(v, 'new'))

    def keep_new(self, cls):
        if hasattr(self.cfg, 'keep_new'):
            r = self.cfg.keep_new(self, cls)
            if r is not None:
                return r
        return any(self.prog.is_a(cls, b) for b in self.cfg.keep_new_bases) or cls not in self.prog.classes

    def construct(self, cls, args, fid=None):
        v = self.cfg.build(self, cls, args)
        if v is not None:
            return v
        f = self.prog.fn(fid, self.frames[-1].tu if self.frames else None) if fid else None
        if f is None:
            cands = [m for m in self.prog.classes.get(cls, {'methods': []})['methods']
                     if m['name'] == cls.split('::')[-1].split('<')[0] and m['fid'].startswith(cls + '::(ctor)')]
            for m in cands:
                g = self.prog.functions.get(m['fid'])
                if g is not None and len(g['params']) == len(args):
                    f = g
                    break
        obj = self.new_root(('inst', cls, None, ()), 'obj')
        self.default_fields(cls, obj)
        if f is None or (f.get('body') is None and not f.get('inits')):
            if args and f is None and fid is not None and not fid.endswith('()'):
                return ('new', cls) + tuple(canon(self.settle(a)) for a in args)
            return self.get(obj)
        self.call_function(f, obj, args, this_cls=cls)
        return self.get(obj)

    def default_fields(self, cls, obj):
        for c in reversed([cls] + self.prog.bases(cls)):
            ci = self.prog.classes.get(c)
            if not ci:
                continue
            for f in ci['fields']:
                if 'init' in f and f['init'] is not None:
                    try:
                        self.nframe += 1
                        self.frames.append(Frame({'q': c, 'fid': c, 'ret': '', 'kind': 'function', 'n': c, 'params': []}, self.nframe, obj, c, None))
                        v = self.rv(f['init'])
                    except Unsupported:
                        v = ('app', 'init', ('str', f['name']))
                    finally:
                        self.frames.pop()
                    v = self.h.coerce(self, v, f['type'])
                else:
                    if f['type'].endswith('&') or f['type'].endswith('*'):
                        continue
                    v = self.h.default_value(self, f['type'], f['name'])
                self.set_raw(obj.sub(('f', f['name'])), v)

    def e_ctor(self, n):
        return self.h.ctor(self, n)

    def e_delete(self, n):
        v = self.rv(n['e'])
        if self.cfg.on_delete is not None and self.cfg.on_delete(self, v):
            return VOID
        self.events.append(('delete', canon(v)))
        return VOID

    def e_call(self, n):
        if 'fn' not in n:
            f = self.ev(n['callee'])
            return self.call_value(f, [self.ev(a) for a in n['a']])
        return self.h.call(self, n)

    def e_opcall(self, n):
        return self.h.opcall(self, n)

    def e_mcall(self, n):
        return self.h.mcall(self, n)

    # -- calls after argument evaluation --------------------------------------
    def do_call(self, ref, obj, args, node):
        """obj: LV of the object or None; args: values or LVs."""
        hdl = self.cfg.prim(self, ref)
        if hdl is not None:
            r = hdl(self, node, ref, obj, args)
            if r is not DECLINE:
                return r
        if ref.get('noreturn'):
            raise AbortEx(ref['n'])
        fn = self.prog.fn(ref['fid'], self.frames[-1].tu if self.frames else None)
        cls = ref.get('cls')
        this_cls = cls
        if obj is not None and ref.get('virtual') and not (node or {}).get('qualified'):
            dyn = self.dynamic_class(obj)
            if dyn:
                g = self.prog.method_on(dyn, ref['fid'], ref['n'])
                if g is not None:
                    fn = g
                    this_cls = dyn
            else:
                fn = None
        deep = getattr(self.cfg, 'unfold', 0)
        if fn is not None and fn.get('body') is not None and self.stack.count(ref['fid']) <= deep and self.stack.count(fn['fid']) <= deep:
            return self.call_function(fn, obj, args, this_cls=this_cls)
        if fn is not None and fn.get('body') is not None:
            # recursion
            r = self.cfg.recursion(self, ref, obj, args) if hasattr(self.cfg, 'recursion') else None
            if r is not None:
                return r
        return self.opaque_call(ref, obj, args)

    def dynamic_class(self, obj):
        v = self.get(obj)
        if isinstance(v, tuple):
            if v[0] == 'inst':
                return v[1] if v[1] != '?' else None
            if v[0] == 'new':
                return v[1]
            if v[0] == 'ptr':
                return self.dynamic_class(v[1])
        r = self.cfg.dynamic_class(self, v) if hasattr(self.cfg, 'dynamic_class') else None
        if r:
            return r
        # the object under analysis has the class of the analysed method
        if isinstance(v, tuple) and v[0] == 'sym' and v[1] == 'this':
            return self.types.get(v)
        return None

    def opaque_call(self, ref, obj, args):
        name = ref['n']
        if ref.get('cls') and not ref.get('virtual'):
            name = ref['cls'].split('::')[-1].split('<')[0] + '::' + name
        vals = tuple(self.arg_value(a) for a in args)
        if obj is None and ref.get('q', '').startswith('std::') and any(isinstance(a, tuple) and a and a[0] in ('it', 'rit') for a in vals):
            raise Unsupported(ref['q'] + ' on iterators')
        o = () if obj is None else (self.arg_value(obj),)
        t = ('app', name) + o + vals
        if ref.get('ret'):
            self.types.setdefault(t, strip_type(ref['ret']))
        mut = False
        if obj is not None and not ref.get('const') and not ref.get('static'):
            mut = True
        outs = []
        for i, a in enumerate(args):
            pt = ref.get('pt', [])
            ty = pt[i] if i < len(pt) else ''
            if isinstance(a, LV) and ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '):
                outs.append((i, a))
        self.events.append(('call', name, o + vals, self.curline))
        if mut:
            try:
                self.set(obj, ('app', 'after', t))
                old = self.types.get(o[0])
                if old:
                    self.types.setdefault(('app', 'after', t), old)
            except Unsupported:
                pass
        for i, a in outs:
            nt = ('app', 'out', t, ('int', i))
            try:
                old = self.typeof(self.get(a))
                if old:
                    self.types.setdefault(nt, old)
                self.set(a, nt)
            except Unsupported:
                pass
        if ref.get('ret', '').endswith('&') and not isinstance(t, LV):
            return self.new_root(t)
        return t

    def arg_value(self, a):
        v = self.settle(a)
        if isinstance(v, tuple) and v[0] == 'ptr':
            try:
                w = self.get(v[1])
            except Unsupported:
                return v
            return canon(w)
        return canon(v)
