"""Models of the standard library and of language operations for the interpreter."""
import math
import re

import engine
from engine import (DECLINE, LV, NULL, TRUE, FALSE, VOID, Infeasible, Thrown, Unsupported, AbortEx,
                    canon, coll, is_coll, is_lit, lit, mkbool)
from program import coll_kind, strip_type, template_args

DS = 'dreal::drake::symbolic::'
ELEM_TYPES = {
    DS + 'Variables': DS + 'Variable',
    'dreal::ScopedVector<dreal::drake::symbolic::Formula>': DS + 'Formula',
    DS + 'Environment': (DS + 'Variable', 'double'),
}
EXPR, FORM, VAR = DS + 'Expression', DS + 'Formula', DS + 'Variable'


def base_name(q):
    """std::vector<X>::push_back -> std::vector::push_back (keeps operator<)."""
    out, depth = [], 0
    i = 0
    while i < len(q):
        if q.startswith('operator', i) and depth == 0:
            m = re.match(r'operator(<=|>=|<<|>>|->|<|>|\(\)|[^<\w]*)', q[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        ch = q[i]
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def container_kind(ty):
    return coll_kind(ty) if ty else None


def default_value(I, ty, name):
    t = strip_type(ty)
    k = coll_kind(t)
    if k:
        return coll(k, [])
    if t.startswith('std::basic_string<') or t == 'std::string':
        return ('str', '')
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::function<')):
        return NULL
    if t.startswith(('tl::optional<', 'std::optional<', 'std::experimental::optional<')):
        return ('none',)
    if t.startswith('std::basic_ostringstream') or t.startswith('std::basic_stringstream'):
        return coll('stream', [])
    if t == 'bool':
        return ('uninit', name) if name else FALSE
    if t in ('int', 'unsigned int', 'unsigned long', 'long', 'double', 'float'):
        return ('uninit', name) if name else (('flt', 0.0) if t in ('double', 'float') else ('int', 0))
    if t in I.prog.classes:
        cls = I.prog.classes[t]
        if I.keep_new(t):
            return ('new', t)
        obj = I.new_root(('inst', t, None, ()), 'obj')
        I.default_fields(t, obj)
        return I.get(obj)
    return ('uninit', name)


def coerce(I, v, ty):
    if not isinstance(v, tuple):
        return v
    t = strip_type(ty or '')
    if v[0] == 'coll' and v[3] is None:
        k = coll_kind(t)
        if k and k != v[1] and v[1] == 'vec':
            return fill(I, k, v[2])
    return v


def fill(I, kind, items):
    c = coll(kind, [])
    for x in items:
        c = insert_item(I, c, x)[0]
    return c


def insert_item(I, c, x):
    """(new coll, index, inserted) -- keeps keys unique."""
    kind, items = c[1], list(c[2])
    if kind == 'vec' or kind == 'stream':
        return coll(kind, items + [x]), len(items), True
    if kind == 'set':
        for i, y in enumerate(items):
            if I.decide_eq(y, x):
                return c, i, False
        return coll(kind, items + [x]), len(items), True
    k = pair0(I, x)
    for i, y in enumerate(items):
        if I.decide_eq(pair0(I, y), k):
            return c, i, False
    return coll(kind, items + [x]), len(items), True


def pair0(I, x):
    return I.comp(x, ('p', 0))


def pair1(I, x):
    return I.comp(x, ('p', 1))


# -- constructors -------------------------------------------------------------

def ctor(I, n):
    cls = n['cls']
    ref = n['fn']
    t = strip_type(cls)
    if I.cfg.ignore_cls.search(t):
        for a in n['a']:
            pass
        return ('ignored',)
    if t in ('std::runtime_error', 'std::domain_error', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument') or t.startswith('fmt::'):
        return ('app', 'message')
    args = [I.ev(a) for a in n['a'] if a.get('k') != 'defaultarg']
    nargs = n.get('a', [])
    # drop defaulted trailing allocator / comparator / hash arguments
    args = [a for a, m in zip(args, nargs) if not default_functor(m)]
    if args and I.settle(args[0]) == ('ignored',) and len(args) == 1:
        return ('ignored',)
    hdl = I.cfg.prim(I, ref)
    if hdl is not None:
        r = hdl(I, n, ref, None, args)
        if r is not DECLINE:
            return r
        hdl = None
    if (n.get('copy') or n.get('move')) and len(args) == 1:
        v = I.settle(args[0])
        if n.get('move') and not n.get('elide') and isinstance(args[0], LV) and coll_kind(t):
            try:
                I.set(args[0], coll(coll_kind(t), []))
            except Unsupported:
                pass
        return canon_copy(v)
    k = coll_kind(t)
    if k:
        return container_ctor(I, k, t, args)
    if t.startswith('std::pair<'):
        if len(args) == 2:
            return ('pair', I.settle(args[0]), I.settle(args[1]))
        if len(args) == 1:
            return I.settle(args[0])
        ta = template_args(t)
        return ('pair', default_value(I, ta[0], ''), default_value(I, ta[1], ''))
    if t.startswith('std::tuple<'):
        if len(args) == 1 and isinstance(I.settle(args[0]), tuple) and I.settle(args[0])[0] in ('tuple', 'pair'):
            return I.settle(args[0])
        if not args:
            return ('tuple',) + tuple(default_value(I, a, '') for a in template_args(t))
        return ('tuple',) + tuple(keepref(I, a) for a in args)
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
        if not args:
            return NULL
        return I.settle(args[0])
    if t.startswith('std::function<'):
        if not args:
            return NULL
        return I.settle(args[0])
    if t.startswith(('tl::optional<', 'std::optional<')):
        if not args:
            return ('none',)
        v = I.settle(args[0])
        if v == ('none',) or (isinstance(v, tuple) and v[0] in ('some', 'none')):
            return v
        return ('some', v)
    if t.startswith('tl::nullopt_t'):
        return ('none',)
    if t.startswith('std::basic_string<'):
        if not args:
            return ('str', '')
        return I.settle(args[0])
    if re.match(r'std::basic_[io]?stringstream|std::basic_ostringstream', t):
        return coll('stream', [])
    if 'iterator' in t.split('<')[0] or t.startswith('std::_Rb_tree') or t.startswith('std::__detail::_Node') or t.startswith('__gnu_cxx::__normal'):
        if len(args) == 1:
            v = I.settle(args[0])
            if t.startswith('std::reverse_iterator') and v[0] == 'it':
                return ('rit', v[1], v[2] - 1)
            return v
        return ('uninit', 'iterator')
    if t.startswith(('std::hash<', 'std::less<', 'std::equal_to<', 'std::allocator<', 'std::plus<', 'std::multiplies<', 'dreal::drake::hash_value<')):
        return ('functor', t)
    if t.startswith('std::atomic<') or t.startswith('std::reference_wrapper<'):
        if len(args) == 1:
            return args[0] if t.startswith('std::reference') else I.settle(args[0])
        return ('uninit', 'atomic')
    if t in (EXPR, FORM, VAR) and hdl is None and len(args) == 1:
        v = I.settle(args[0])
        if isinstance(v, tuple) and (v[0] == 'new' or I.types.get(v) == t):
            return v
        if isinstance(v, tuple) and v[0] == 'ptr':
            return v
        if t == FORM and I.types.get(v, '').startswith(DS + 'Formula') and I.types.get(v) != FORM:
            return v
        if t == EXPR and I.types.get(v, '').startswith(DS + 'Expression') and I.types.get(v) != EXPR:
            return v
    if I.keep_new(t):
        return ('new', t) + tuple(canon(I.settle(a)) for a in args)
    return I.construct(t, args, ref['fid'])


def default_functor(m):
    if m.get('k') == 'cast':
        return default_functor(m['e'])
    if m.get('k') != 'ctor':
        return False
    c = m['cls']
    return not m['a'] and c.startswith(('std::less<', 'std::allocator<', 'std::hash<', 'std::equal_to<', 'dreal::drake::hash_value<', 'dreal::drake::DefaultHash'))


def canon_copy(v):
    return v


def keepref(I, a):
    return a if isinstance(a, LV) else I.settle(a)


def container_ctor(I, k, t, args):
    if not args:
        return coll(k, [])
    a0 = I.settle(args[0])
    if isinstance(a0, tuple) and a0[0] in ('it', 'rit') and len(args) >= 2:
        items = [I.get(x) for x in rng(I, a0, I.settle(args[1]))]
        if k == 'vec':
            return coll(k, items)
        return fill(I, k, items)
    if k == 'vec' and isinstance(a0, tuple) and a0[0] == 'int' and t.startswith('std::vector') and len(args) <= 2:
        ta = template_args(t)
        x = I.settle(args[1]) if len(args) == 2 else default_value(I, ta[0], '')
        if a0[1] > 40:
            raise Unsupported('large vector')
        return coll(k, [x] * a0[1])
    if k != 'vec' and isinstance(a0, tuple) and a0[0] == 'int':
        return coll(k, [])
    if is_coll(a0):
        if a0[1] == k:
            return coll(k, a0[2])
        return fill(I, k, a0[2])
    if isinstance(a0, tuple) and a0[0] in ('sym', 'fld', 'app', 'elem') and (len(args) == 1):
        ty = I.types.get(a0, '')
        if k == 'vec' and ty and not coll_kind(ty):
            return ('app', 'filled_vector', canon(a0))
        return a0
    if k == 'vec':
        return ('app', 'filled_vector') + tuple(canon(I.settle(a)) for a in args)
    raise Unsupported('container constructor')


# -- ranges -------------------------------------------------------------------

def rng(I, first, last):
    first, last = I.settle(first), I.settle(last)
    if first[0] == 'fend':
        first = ('it', first[1], len(I.as_coll(first[1])[2]))
    if last[0] == 'fend':
        last = ('it', last[1], len(I.as_coll(last[1])[2]))
    if first[0] == 'it' and last[0] == 'it' and first[1] == last[1]:
        return [first[1].sub(('i', i)) for i in range(first[2], last[2])]
    if first[0] == 'rit' and last[0] == 'rit' and first[1] == last[1]:
        return [first[1].sub(('i', i)) for i in range(first[2], last[2], -1)]
    raise Unsupported('range')


def iter_deref(I, v):
    if v[0] in ('it', 'rit'):
        c = I.get(v[1])
        if is_coll(c) and not 0 <= v[2] < len(c[2]):
            raise AbortEx('dereference of an end iterator')
        return v[1].sub(('i', v[2]))
    if v[0] == 'fit':
        return v[1].sub(('key', v[2]))
    if v[0] == 'fend':
        raise AbortEx('dereference of an end iterator')
    raise Unsupported('iterator')


def emit(I, out, x):
    """Writes x through an output iterator; returns the advanced iterator."""
    if out[0] in ('ins', 'back'):
        c = I.as_coll(out[1])
        I.set(out[1], insert_item(I, c, x)[0])
        return out
    if out[0] == 'it':
        c = I.get(out[1])
        if not 0 <= out[2] < len(c[2]):
            raise AbortEx('write past the end')
        I.set(out[1].sub(('i', out[2])), x)
        return ('it', out[1], out[2] + 1)
    raise Unsupported('output iterator')


def truth(I, f, xs):
    return I.decide(I.settle(I.call_value(f, xs)))


def binop(I, op, a, b, node=None):
    a, b = I.settle(a), I.settle(b)
    h = getattr(I.cfg, 'plus', None)
    ty = I.typeof(a) or I.typeof(b)
    if h and op in ('+', '*') and ty in (EXPR,):
        return h(I, op, a, b)
    return I.arith(op, a, b)


def less(I, a, b):
    """a < b as a condition."""
    a, b = I.settle(a), I.settle(b)
    h = getattr(I.cfg, 'less', None)
    if h:
        r = h(I, a, b)
        if r is not None:
            return r
    if isinstance(a, tuple) and a[0] in ('pair',):
        raise Unsupported('pair order')
    return I.cmpop('<', a, b)


# -- calls --------------------------------------------------------------------

def call(I, n):
    ref = n['fn']
    if ref['n'] == '__assert_fail':
        if I.cfg.asserts_abort:
            raise AbortEx('assertion')
        raise Infeasible()
    q = base_name(ref['q'])
    h = STD.get(q)
    if h is not None:
        return h(I, n, ref)
    if q.startswith('std::numeric_limits::'):
        return limits(ref)
    args = [I.ev(a) for a in n['a']]
    if q.startswith('fmt::'):
        if ref['n'] == 'print':
            I.events.append(('print',) + tuple(canon(I.settle(a)) for a in args))
        return ('app', 'message')
    if q.startswith('picosat_'):
        return I.do_call(ref, None, args, n)
    return I.do_call(ref, None, args, n)


def limits(ref):
    name = ref['n']
    t = template_args(ref['q'])
    t = t[0] if t else 'double'
    if t in ('double', 'float'):
        v = {'max': 1.7976931348623157e308, 'lowest': -1.7976931348623157e308, 'min': 2.2250738585072014e-308,
             'infinity': math.inf, 'quiet_NaN': math.nan, 'epsilon': 2.220446049250313e-16, 'signaling_NaN': math.nan}.get(name)
        if v is None:
            if name == 'max_digits10' or name == 'digits10':
                return ('int', 17)
            raise Unsupported('numeric_limits::' + name)
        return ('flt', v)
    bits = {'int': 31, 'unsigned int': 32, 'long': 63, 'unsigned long': 64}.get(t)
    if bits is None:
        raise Unsupported('numeric_limits<%s>' % t)
    signed = not t.startswith('unsigned')
    return ('int', {'max': 2 ** bits - 1, 'min': -2 ** bits if signed else 0, 'lowest': -2 ** bits if signed else 0}[name])


def _evs(I, n):
    return [I.ev(a) for a in n['a']]


def s_move(I, n, ref):
    return I.ev(n['a'][0])


def s_get(I, n, ref):
    v = I.ev(n['a'][0])
    m = re.search(r'get<(\d+)', ref['fid'])
    if not m:
        m = re.search(r'<(\d+)', ref['fid'])
    i = int(m.group(1)) if m else None
    if i is None:
        raise Unsupported('std::get')
    if isinstance(v, LV):
        return I.follow(v.sub(('p', i)))
    return I.comp(v, ('p', i))


def s_tie(I, n, ref):
    return ('tuple',) + tuple(_evs(I, n))


def s_make_pair(I, n, ref):
    a = [I.settle(x) for x in _evs(I, n)]
    return ('pair', a[0], a[1])


def s_make_tuple(I, n, ref):
    return ('tuple',) + tuple(I.settle(x) for x in _evs(I, n))


def s_make_shared(I, n, ref):
    args = _evs(I, n)
    ta = template_args(ref['ret'])
    cls = strip_type(ta[0])
    if cls in I.prog.classes or not coll_kind(cls):
        return I.make_object(cls, args)
    return ('ptr', I.new_root(container_ctor(I, coll_kind(cls), cls, args), 'new'))


def s_identity(I, n, ref):
    return I.settle(I.ev(n['a'][0]))


def s_swap(I, n, ref):
    a, b = _evs(I, n)
    x, y = I.settle(a), I.settle(b)
    I.set(a, y)
    I.set(b, x)
    return VOID


def s_minmax(op):
    def f(I, n, ref):
        a = _evs(I, n)
        if len(a) == 1:
            xs = list(I.settle(a[0])[2])
            r = xs[0]
            for x in xs[1:]:
                r = mm(I, op, r, x)
            return r
        if len(a) == 3:
            c = I.call_value(a[2], [a[1], a[0]] if op == 'min' else [a[0], a[1]])
            return a[1] if I.decide(I.settle(c)) else a[0]
        return mm(I, op, I.settle(a[0]), I.settle(a[1]))
    return f


def mm(I, op, a, b):
    if is_lit(a) and is_lit(b):
        return a if (lit(a) <= lit(b)) == (op == 'min') else b
    t = ('app', op, canon(a), canon(b))
    ty = I.typeof(a) or I.typeof(b)
    if ty:
        I.types.setdefault(t, ty)
    return t


MATH1 = {'isnan', 'isfinite', 'isinf', 'fabs', 'abs', 'floor', 'ceil', 'trunc', 'round', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan',
         'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'signbit'}


def s_math(name):
    def f(I, n, ref):
        a = [canon(I.settle(x)) for x in _evs(I, n)]
        if all(is_lit(x) for x in a):
            try:
                v = mathval(name, [float(lit(x)) for x in a])
                if v is not None:
                    return mkbool(v) if isinstance(v, bool) else ('flt', v)
            except (ValueError, OverflowError):
                pass
        t = ('app', 'm.' + name) + tuple(a)
        I.types.setdefault(t, 'bool' if name.startswith('is') or name == 'signbit' else 'double')
        return t
    return f


def mathval(name, a):
    if name == 'isnan':
        return math.isnan(a[0])
    if name == 'isfinite':
        return math.isfinite(a[0])
    if name == 'isinf':
        return math.isinf(a[0])
    if name in ('fabs', 'abs'):
        return abs(a[0])
    if name == 'floor':
        return float(math.floor(a[0])) if math.isfinite(a[0]) else a[0]
    if name == 'ceil':
        return float(math.ceil(a[0])) if math.isfinite(a[0]) else a[0]
    if name == 'trunc':
        return float(math.trunc(a[0])) if math.isfinite(a[0]) else a[0]
    if name == 'round':
        return None
    if name == 'pow':
        r = a[0] ** a[1]
        return r if not isinstance(r, complex) else math.nan
    if name == 'atan2':
        return math.atan2(a[0], a[1])
    if name == 'nextafter':
        return math.nextafter(a[0], a[1])
    if name == 'fmod':
        return math.fmod(a[0], a[1])
    if name == 'signbit':
        return math.copysign(1, a[0]) < 0
    return getattr(math, name)(a[0])


def s_modf(I, n, ref):
    a = _evs(I, n)
    v = canon(I.settle(a[0]))
    p = I.settle(a[1])
    if is_lit(v):
        f, i = math.modf(lit(v))
        I.set(I.deref(p), ('flt', i))
        return ('flt', f)
    I.set(I.deref(p), ('app', 'm.trunc', v))
    return ('app', 'm.frac', v)


def s_quant(kind):
    def f(I, n, ref):
        a = _evs(I, n)
        for x in rng(I, a[0], a[1]):
            b = truth(I, a[2], [x])
            if kind == 'all' and not b:
                return FALSE
            if kind == 'any' and b:
                return TRUE
            if kind == 'none' and b:
                return FALSE
        return mkbool(kind != 'any')
    return f


def s_accumulate(I, n, ref):
    a = _evs(I, n)
    acc = I.settle(a[2])
    for x in rng(I, a[0], a[1]):
        if len(a) == 4:
            acc = I.settle(I.call_value(a[3], [acc if not isinstance(acc, LV) else acc, x]))
        else:
            acc = binop(I, '+', acc, I.get(x))
    return acc


def s_for_each(I, n, ref):
    a = _evs(I, n)
    for x in rng(I, a[0], a[1]):
        I.call_value(a[2], [x])
    return I.settle(a[2])


def s_transform(I, n, ref):
    a = _evs(I, n)
    if len(a) == 5:
        xs, ys = rng(I, a[0], a[1]), I.settle(a[2])
        out = I.settle(a[3])
        for i, x in enumerate(xs):
            y = iter_deref(I, ('it', ys[1], ys[2] + i))
            out = emit(I, out, I.settle(I.call_value(a[4], [x, y])))
        return out
    out = I.settle(a[2])
    for x in rng(I, a[0], a[1]):
        out = emit(I, out, I.settle(I.call_value(a[3], [x])))
    return out


def s_copy(cond):
    def f(I, n, ref):
        a = _evs(I, n)
        out = I.settle(a[2])
        for x in rng(I, a[0], a[1]):
            if cond is None or truth(I, a[3], [x]) == cond:
                out = emit(I, out, I.get(x))
        return out
    return f


def s_find_if(neg):
    def f(I, n, ref):
        a = _evs(I, n)
        first = I.settle(a[0])
        for i, x in enumerate(rng(I, a[0], a[1])):
            if truth(I, a[2], [x]) != neg:
                return (first[0], first[1], first[2] + (i if first[0] == 'it' else -i))
        return I.settle(a[1])
    return f


def s_find(I, n, ref):
    a = _evs(I, n)
    first = I.settle(a[0])
    for i, x in enumerate(rng(I, a[0], a[1])):
        if I.decide_eq(I.get(x), I.settle(a[2])):
            return (first[0], first[1], first[2] + (i if first[0] == 'it' else -i))
    return I.settle(a[1])


def s_count_if(I, n, ref):
    a = _evs(I, n)
    return ('int', sum(1 for x in rng(I, a[0], a[1]) if truth(I, a[2], [x])))


def s_distance(I, n, ref):
    a = _evs(I, n)
    return ('int', len(rng(I, a[0], a[1])))


def s_equal(I, n, ref):
    a = _evs(I, n)
    xs = rng(I, a[0], a[1])
    y0 = I.settle(a[2])
    four = len(a) >= 4 and I.settle(a[3])[0] in ('it', 'rit', 'fend')
    pred = a[-1] if len(a) in (4, 5) and not (len(a) == 4 and four) else None
    if four:
        ys = rng(I, a[2], a[3])
        if len(ys) != len(xs):
            return FALSE
    else:
        if xs and y0[0] == 'fend':
            raise AbortEx('std::equal reads past the end')
        ys = None
    for i, x in enumerate(xs):
        if ys is not None:
            y = ys[i]
        else:
            y = iter_deref(I, (y0[0], y0[1], y0[2] + (i if y0[0] == 'it' else -i)))
        if pred is not None:
            if not truth(I, pred, [x, y]):
                return FALSE
        elif not I.decide(eq(I, I.get(x), I.get(y))):
            return FALSE
    return TRUE


def s_lex(I, n, ref):
    a = _evs(I, n)
    xs, ys = rng(I, a[0], a[1]), rng(I, a[2], a[3])
    for x, y in zip(xs, ys):
        if len(a) == 5:
            if truth(I, a[4], [x, y]):
                return TRUE
            if truth(I, a[4], [y, x]):
                return FALSE
        else:
            if I.decide(less(I, I.get(x), I.get(y))):
                return TRUE
            if I.decide(less(I, I.get(y), I.get(x))):
                return FALSE
    return mkbool(len(xs) < len(ys))


def s_includes(I, n, ref):
    a = _evs(I, n)
    xs, ys = rng(I, a[0], a[1]), rng(I, a[2], a[3])
    for y in ys:
        if not any(I.decide_eq(I.get(x), I.get(y)) for x in xs):
            return FALSE
    return TRUE


def s_setop(op):
    def f(I, n, ref):
        a = _evs(I, n)
        xs = [I.get(x) for x in rng(I, a[0], a[1])]
        ys = [I.get(x) for x in rng(I, a[2], a[3])]
        out = I.settle(a[4])

        def isin(v, l):
            return any(I.decide_eq(v, w) for w in l)
        if op == 'union':
            r = xs + [y for y in ys if not isin(y, xs)]
        elif op == 'inter':
            r = [x for x in xs if isin(x, ys)]
        elif op == 'diff':
            r = [x for x in xs if not isin(x, ys)]
        else:
            r = [x for x in xs if not isin(x, ys)] + [y for y in ys if not isin(y, xs)]
        for v in r:
            out = emit(I, out, v)
        return out
    return f


def s_inserter(I, n, ref):
    return ('ins', I.resolve(I.lv(n['a'][0])))


def s_back_inserter(I, n, ref):
    return ('back', I.resolve(I.lv(n['a'][0])))


def s_begin(I, n, ref):
    c = I.lv(n['a'][0])
    c = I.resolve(c)
    I.as_coll(c)
    return ('it', c, 0)


def s_end(I, n, ref):
    c = I.resolve(I.lv(n['a'][0]))
    return ('it', c, len(I.as_coll(c)[2]))


def s_next(d):
    def f(I, n, ref):
        a = _evs(I, n)
        v = I.settle(a[0])
        k = lit(I.settle(a[1])) if len(a) > 1 and is_lit(I.settle(a[1])) else 1
        return (v[0], v[1], v[2] + d * k)
    return f


def s_to_string(I, n, ref):
    v = canon(I.settle(I.ev(n['a'][0])))
    if v[0] == 'int':
        return ('str', str(v[1]))
    t = ('app', 'to_string', v)
    I.types.setdefault(t, 'std::string')
    return t


def s_uninterpreted(I, n, ref):
    a = _evs(I, n)
    return I.opaque_call(ref, None, a)


def s_exit(I, n, ref):
    raise AbortEx(ref['n'])


def s_hash_combine(I, n, ref):
    a = [canon(I.settle(x)) for x in _evs(I, n)]
    return ('app', ref['n']) + tuple(a)


def s_sort(I, n, ref):
    a = _evs(I, n)
    first = I.settle(a[0])
    if first[0] == 'it':
        I.events.append(('sort', canon(I.get(first[1]))))
    return VOID


def s_reverse(I, n, ref):
    a = _evs(I, n)
    x, y = I.settle(a[0]), I.settle(a[1])
    if x[0] != 'it' or y[0] not in ('it', 'fend'):
        raise Unsupported('std::reverse')
    v = I.settle(I.get(x[1]))
    if not is_coll(v) or v[3] is not None:
        raise Unsupported('std::reverse of a symbolic container')
    j = len(v[2]) if y[0] == 'fend' else y[2]
    items = list(v[2])
    items[x[2]:j] = reversed(items[x[2]:j])
    I.set(x[1], ('coll', v[1], tuple(items), v[3]))
    return VOID


STD = {
    'std::reverse': s_reverse,
    'std::move': s_move, 'std::forward': s_move, 'std::as_const': s_move, 'std::ref': s_move, 'std::cref': s_move,
    'std::get': s_get, 'std::tie': s_tie, 'std::make_pair': s_make_pair, 'std::make_tuple': s_make_tuple,
    'std::forward_as_tuple': s_tie,
    'std::make_shared': s_make_shared, 'std::make_unique': s_make_shared,
    'std::static_pointer_cast': s_identity, 'std::const_pointer_cast': s_identity, 'std::dynamic_pointer_cast': s_identity,
    'std::swap': s_swap, 'std::min': s_minmax('min'), 'std::max': s_minmax('max'),
    'std::modf': s_modf, 'modf': s_modf,
    'std::all_of': s_quant('all'), 'std::any_of': s_quant('any'), 'std::none_of': s_quant('none'),
    'std::accumulate': s_accumulate, 'std::for_each': s_for_each, 'std::transform': s_transform,
    'std::copy': s_copy(None), 'std::copy_if': s_copy(True), 'std::remove_copy_if': s_copy(False),
    'std::find_if': s_find_if(False), 'std::find_if_not': s_find_if(True), 'std::find': s_find,
    'std::count_if': s_count_if, 'std::distance': s_distance,
    'std::equal': s_equal, 'std::lexicographical_compare': s_lex, 'std::includes': s_includes,
    'std::set_union': s_setop('union'), 'std::set_intersection': s_setop('inter'), 'std::set_difference': s_setop('diff'),
    'std::set_symmetric_difference': s_setop('sym'),
    'std::inserter': s_inserter, 'std::back_inserter': s_back_inserter,
    'std::begin': s_begin, 'std::cbegin': s_begin, 'std::end': s_end, 'std::cend': s_end,
    'std::next': s_next(1), 'std::prev': s_next(-1),
    'std::to_string': s_to_string, 'exit': s_exit, 'std::exit': s_exit, 'abort': s_exit, 'std::abort': s_exit,
    'std::sort': s_sort, 'std::stable_sort': s_sort,
}
for _m in MATH1 | {'pow', 'atan2', 'nextafter', 'fmod'}:
    STD['std::' + _m] = s_math(_m)
    STD[_m] = s_math(_m)


def eq(I, a, b):
    """a == b as a condition."""
    a, b = I.settle(a), I.settle(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] in ('pair', 'tuple') and b[0] == a[0] and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                if not I.decide(eq(I, x, y)):
                    return FALSE
            return TRUE
        if is_coll(a) and is_coll(b):
            if len(a[2]) != len(b[2]):
                return FALSE
            if a[1] == 'vec':
                for x, y in zip(a[2], b[2]):
                    if not I.decide(eq(I, x, y)):
                        return FALSE
                return TRUE
    ca, cb = canon(a), canon(b)
    ty = I.typeof(ca) or I.typeof(cb) or ''
    if ca == cb:
        return TRUE
    if ty in ('int', 'unsigned int', 'double', 'unsigned long', 'long', 'bool', 'char') or is_lit(ca) or is_lit(cb) or ca[0] == 'enum' or cb[0] == 'enum' or ca[0] in ('op', 'null') or cb[0] == 'null':
        return I.cmpop('==', ca, cb)
    if ca[0] == 'str' and cb[0] == 'str':
        return mkbool(ca[1] == cb[1])
    return ('eq', ca, cb)


# -- operators ----------------------------------------------------------------

STREAMCLS = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ofstream')


def opcall(I, n):
    ref = n['fn']
    op = n['op']
    q = base_name(ref['q'])
    hdl = I.cfg.prim(I, ref)
    isdreal = ref['q'].startswith('dreal::')
    at0 = strip_type(n['at'][0]) if n.get('at') else ''
    if op == '<<' and (at0.startswith(STREAMCLS) or (len(n['a']) == 2 and strip_type(ref.get('ret', '')).startswith('std::basic_ostream'))):
        return stream_out(I, n, ref, hdl)
    args = [I.ev(a) for a in n['a']]
    if args and not isinstance(args[0], LV) and I.settle(args[0]) == ('ignored',):
        return ('ignored',)
    if hdl is not None:
        if n.get('member'):
            obj = args[0] if isinstance(args[0], LV) else I.new_root(args[0])
            r = hdl(I, n, ref, obj, args[1:])
        else:
            r = hdl(I, n, ref, None, args)
        if r is not DECLINE:
            return r
    a0 = I.settle(args[0])
    if a0 == ('ignored',):
        return ('ignored',)
    if op == '()' and not isdreal:
        if a0[0] == 'functor':
            return functor(I, a0, args[1:])
        return I.call_value(args[0], args[1:])
    if op == '()' and isinstance(a0, tuple) and a0[0] in ('lam', 'fnref'):
        return I.call_value(args[0], args[1:])
    r = iter_op(I, n, op, args, a0)
    if r is not None:
        return r
    if isdreal:
        return dreal_op(I, n, ref, op, args)
    # standard library operators
    if op == '=':
        return assign(I, n, args, at0)
    if op == '[]':
        return index(I, args[0], I.settle(args[1]), at0)
    if op == '*':
        if at0.startswith(('tl::optional<', 'std::optional<')):
            return optval(I, args[0])
        return I.deref(a0)
    if op == '->':
        if at0.startswith(('tl::optional<', 'std::optional<')):
            v = optval(I, args[0])
            return ('ptr', v if isinstance(v, LV) else I.new_root(v))
        return a0
    if op in ('==', '!='):
        b0 = I.settle(args[1])
        if at0.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::function')) or a0 == NULL or b0 == NULL:
            return I.cmpop(op, a0, b0)
        if at0.startswith(('tl::optional',)):
            if a0 == b0:
                return mkbool(op == '==')
            if 'none' in (a0[0], b0[0]) and {'some'} & {a0[0], b0[0]}:
                return mkbool(op != '==')
        e = eq(I, a0, b0)
        return e if op == '==' else I_not(e)
    if op in ('<', '>', '<=', '>='):
        b0 = I.settle(args[1])
        if op == '<':
            return less(I, a0, b0)
        if op == '>':
            return less(I, b0, a0)
        return I_not(less(I, b0, a0) if op == '<=' else less(I, a0, b0))
    if op == '+':
        b0 = I.settle(args[1])
        if a0[0] == 'str' and b0[0] == 'str':
            return ('str', a0[1] + b0[1])
        t = ('app', 'concat', canon(a0), canon(b0))
        I.types.setdefault(t, 'std::string')
        return t
    if op == '+=' and isinstance(args[0], LV):
        b0 = I.settle(args[1])
        if 'string' in at0:
            I.set(args[0], ('app', 'concat', canon(a0), canon(b0)))
            return args[0]
        I.set(args[0], I.arith('+', a0, b0))
        return args[0]
    if op in ('++', '--') and isinstance(args[0], LV):
        new = I.arith('+' if op == '++' else '-', a0, ('int', 1))
        I.set(args[0], new)
        return a0 if len(args) == 2 else new
    if op == '!':
        return ('not', a0)
    if n.get('member'):
        obj = args[0] if isinstance(args[0], LV) else I.new_root(args[0])
        return I.do_call(ref, obj, args[1:], n)
    return I.do_call(ref, None, args, n)


def I_not(e):
    if e[0] == 'bool':
        return mkbool(not e[1])
    if e[0] == 'not':
        return e[1]
    return ('not', e)


def functor(I, f, args):
    t = f[1]
    a = [I.settle(x) for x in args]
    if t.startswith('std::less<'):
        return less(I, a[0], a[1])
    if t.startswith('std::equal_to<'):
        return eq(I, a[0], a[1])
    if t.startswith('std::plus<'):
        return binop(I, '+', a[0], a[1])
    if t.startswith('std::multiplies<'):
        return binop(I, '*', a[0], a[1])
    return ('app', 'hash', canon(a[0]))


def optval(I, x):
    v = I.settle(x)
    if v[0] == 'some':
        return v[1]
    if v[0] == 'none':
        raise AbortEx('value of an empty optional')
    return ('app', 'value', canon(v))


def assign(I, n, args, at0):
    l = args[0]
    v = I.settle(args[1]) if not (isinstance(args[1], tuple) and args[1] == ('ignored',)) else args[1]
    if at0.startswith('std::tuple<') or (isinstance(I.settle(l), tuple) and I.settle(l)[0] == 'tuple'):
        t = I.settle(l)
        if t[0] == 'tuple' and any(isinstance(x, LV) for x in t[1:]):
            for i, x in enumerate(t[1:]):
                if isinstance(x, LV):
                    I.set(x, I.comp(v, ('p', i)))
            return l
    if not isinstance(l, LV):
        return v
    if I.settle(l) == ('ignored',):
        return l
    if isinstance(v, tuple) and at0.startswith(('tl::optional<', 'std::optional<')) and v[0] not in ('some', 'none') and not (I.typeof(v) or '').startswith('tl::optional'):
        v = ('some', v)
    v = coerce(I, v, at0)
    I.set(l, v)
    ref = n['fn']
    if isinstance(args[1], LV) and coll_kind(at0) and ref.get('pt') and ref['pt'][0].endswith('&&'):
        try:
            if args[1] != l:
                I.set(args[1], coll(coll_kind(at0), []))
        except Unsupported:
            pass
    return l


def iter_op(I, n, op, args, a0):
    if not isinstance(a0, tuple) or a0[0] not in ('it', 'rit', 'fit', 'fend', 'ins', 'back'):
        return None
    if a0[0] in ('ins', 'back'):
        if op in ('*', '++'):
            return a0
        if op == '=':
            return emit(I, a0, I.settle(args[1]))
        return None
    sgn = 1 if a0[0] == 'it' else -1
    if op in ('==', '!='):
        b0 = I.settle(args[1])
        if {a0[0], b0[0]} == {'fit', 'fend'}:
            return mkbool(op == '!=')
        if a0[0] == b0[0] == 'fend':
            return mkbool(op == '==')
        if 'fend' in (a0[0], b0[0]):
            x = b0 if a0[0] == 'fend' else a0
            return mkbool((x[2] >= len(I.as_coll(x[1])[2])) == (op == '=='))
        if a0[0] == b0[0] and a0[1] == b0[1]:
            return mkbool((a0[2] == b0[2]) == (op == '=='))
        raise Unsupported('iterator comparison')
    if op in ('<', '>', '<=', '>='):
        b0 = I.settle(args[1])
        x, y = sgn * a0[2], sgn * b0[2]
        return mkbool({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
    if op in ('++', '--'):
        if a0[0] not in ('it', 'rit'):
            raise Unsupported('increment of a lookup iterator')
        new = (a0[0], a0[1], a0[2] + (sgn if op == '++' else -sgn))
        if isinstance(args[0], LV):
            I.set(args[0], new)
            return a0 if len(args) == 2 else args[0]
        return a0 if len(args) == 2 else new
    if op == '*':
        return I.follow(iter_deref(I, a0))
    if op == '->':
        return ('ptr', I.follow(iter_deref(I, a0)))
    if op in ('+', '-'):
        b0 = I.settle(args[1])
        if b0[0] in ('it', 'rit'):
            return ('int', sgn * (a0[2] - b0[2]))
        if not is_lit(b0):
            raise Unsupported('iterator arithmetic')
        d = lit(b0) if op == '+' else -lit(b0)
        return (a0[0], a0[1], a0[2] + sgn * d)
    if op in ('+=', '-='):
        b0 = I.settle(args[1])
        d = lit(b0) if op == '+=' else -lit(b0)
        I.set(args[0], (a0[0], a0[1], a0[2] + sgn * d))
        return args[0]
    if op == '=':
        I.set(args[0], I.settle(args[1]))
        return args[0]
    if op == '[]':
        b0 = I.settle(args[1])
        return I.follow(iter_deref(I, (a0[0], a0[1], a0[2] + sgn * lit(b0))))
    return None


def dreal_op(I, n, ref, op, args):
    if op == '=' and n.get('member'):
        # assignment of a value class
        fn = I.prog.fn(ref['fid'])
        cls = ref.get('cls', '')
        pt = strip_type(ref['pt'][0]) if ref.get('pt') else ''
        if pt == cls:
            if isinstance(args[0], LV):
                I.set(args[0], I.settle(args[1]))
            return args[0]
    if n.get('member'):
        obj = args[0] if isinstance(args[0], LV) else I.new_root(args[0])
        return I.do_call(ref, obj, args[1:], n)
    return I.do_call(ref, None, args, n)


STREAM_STATE = {'precision': 'precision', 'flags': 'flags', 'setf': 'flags', 'unsetf': 'flags', 'fill': 'fill', 'width': 'width'}


def stream_state(I, s, name, args):
    """Formatting state of a stream: setters are pieces, getters read the last one."""
    s = I.resolve(s)
    cur = I.get(s)
    if not is_coll(cur):
        cur = ('coll', 'stream', (canon(cur),), None)
    dim = STREAM_STATE[name]
    old = None
    for p in cur[2]:
        if p[0] == 'setp' and p[1] == dim:
            old = p[2]
        elif p[0] not in ('setp', 'piece'):
            old = ('app', 'st.' + dim, p)
    if old is None:
        old = {'precision': ('int', 6), 'width': ('int', 0)}.get(dim, ('app', 'st.' + dim))
    if isinstance(old, tuple) and old[:1] == ('app',):
        I.types[old] = 'long'
    if args:
        new = args[0] if name == dim else ('app', 'st.' + name, old) + tuple(args)
        I.set(s, ('coll', 'stream', cur[2] + (('setp', dim, new),), None))
    return old


def stream_out(I, n, ref, hdl):
    s = I.lv(n['a'][0])
    if I.settle(s) == ('ignored',):
        return s
    s = I.resolve(s)
    m = n['a'][1]
    x = I.ev(m)
    v = I.settle(x)
    if hdl is not None:
        r = hdl(I, n, ref, None, [s, x])
        if r is not DECLINE:
            return r
    if isinstance(v, tuple) and v[0] == 'fnref':
        v = ('manip', v[2].split('::')[-1])
    if ref['q'].startswith('dreal::') and not I.cfg_piece(ref):
        fn = I.prog.fn(ref['fid'])
        if fn is not None and fn.get('body') is not None and fn['fid'] not in I.stack:
            r = I.do_call(ref, None, [s, x], n)
            return r if isinstance(r, LV) else s
    cur = I.get(s)
    if not is_coll(cur):
        cur = coll('stream', [], None) if False else ('coll', 'stream', (canon(cur),), None)
    at = n.get('at') or ['', '']
    if isinstance(v, tuple) and v[:2] == ('app', 'setprecision') and len(v) == 3:
        I.set(s, ('coll', 'stream', cur[2] + (('setp', 'precision', canon(v[2])),), None))
        return s
    I.set(s, ('coll', 'stream', cur[2] + (('piece', canon(v), strip_type(at[1]) if len(at) > 1 else ''),), None))
    return s


def index(I, b, i, ty=''):
    l = b if isinstance(b, LV) else I.new_root(b)
    v = I.get(l)
    if isinstance(v, tuple) and v[0] == 'ptr':
        l = I.resolve(v[1])
        v = I.get(l)
    k = None
    if is_coll(v):
        k = v[1]
    else:
        k = coll_kind(I.types.get(v, '') or '') or coll_kind(ty)
    if k == 'map':
        return map_index(I, l, i, ty)
    if v[0] == 'pair':
        raise Unsupported('index')
    if v[0] == 'str':
        if is_lit(i) and 0 <= int(lit(i)) <= len(v[1]):
            return l.sub(('i', int(lit(i))))
        return I.new_root(('app', 'at', v, canon(i)), 'view')
    if is_lit(i):
        idx = int(lit(i))
        if is_coll(v):
            if not 0 <= idx < len(v[2]):
                raise AbortEx('index out of range')
            return I.follow(l.sub(('i', idx)))
    if is_coll(v) and v[3] is None:
        for j in range(len(v[2])):
            if I.decide(I.cmpop('==', canon(i), ('int', j))):
                return I.follow(l.sub(('i', j)))
        raise Infeasible()
    t = ('app', 'at', canon(v), canon(i))
    ta = template_args(I.types.get(canon(v), '') or ty)
    if ta:
        I.types.setdefault(t, strip_type(ta[0]))
    root = ('at', canon(v), canon(i))
    return I.new_root(t, 'view')


def opaque_map(I, v):
    """Keep this (unexpanded) map opaque and look keys up by atoms?"""
    h = getattr(I.cfg, 'lookup', None)
    if h is None:
        return False
    if is_coll(v):
        return False
    return h(I, v)


def map_index(I, l, key, ty=''):
    l = I.resolve(l)
    v = I.get(l)
    if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
        return I.follow(l.sub(('key', canon(key)), ('p', 1)))
    c = I.as_coll(l, ty)
    l = I.resolve(l)
    for i, x in enumerate(c[2]):
        if I.decide_eq(pair0(I, x), key):
            return I.follow(l.sub(('i', i), ('p', 1)))
    ta = template_args(I.types.get(canon(v), '') or ty)
    d = default_value(I, ta[1], '') if len(ta) > 1 else ('uninit', '')
    if isinstance(d, tuple) and d[0] == 'new' and len(d) == 2 and d[1] == EXPR:
        d = I.cfg.expr_zero() if hasattr(I.cfg, 'expr_zero') else d
    I.set(l, coll(c[1], c[2] + (('pair', key, d),)))
    return I.follow(l.sub(('i', len(c[2])), ('p', 1)))


# -- method calls ---------------------------------------------------------------

def mcall(I, n):
    ref = n['fn']
    o = I.ev(n['o'])
    if n.get('arrow'):
        o = I.settle(o)
        if o == ('ignored',):
            return o
        o = I.deref(o)
    if not isinstance(o, LV):
        if o == ('ignored',):
            return o
        o = I.new_root(o)
    if I.heap.get(o.root) == ('ignored',):
        return ('ignored',)
    o = I.resolve(o)
    v = I.get(o)
    if v == ('ignored',):
        return v
    args = [I.ev(a) for a in n['a']]
    cls = ref.get('cls', '')
    hdl = I.cfg.prim(I, ref)
    if hdl is not None:
        r = hdl(I, n, ref, o, args)
        if r is not DECLINE:
            return r
    if n['fn']['n'].startswith('~'):
        if I.cfg.dtor_cls is not None and I.cfg.dtor_cls.search(strip_type(cls)):
            I.destroy(o, strip_type(cls))
        return VOID
    ot = strip_type(n.get('ot', '') or '')
    if isinstance(v, tuple) and v[0] in ('sym', 'fld', 'app', 'elem') and v not in I.types and ot and not ot.endswith('*'):
        I.types[v] = ot
    if cls.startswith('dreal::') or cls in I.prog.classes and not cls.startswith('std::'):
        return I.do_call(ref, o, args, n)
    k = (v[1] if is_coll(v) else None) or coll_kind(cls) or coll_kind(ot)
    name = ref['n']
    if k == 'stream' or cls.startswith(('std::basic_ios', 'std::ios_base')) or 'stream' in cls.split('<')[0]:
        if name == 'str':
            c = I.get(o)
            return ('app', 'str') + tuple(c[2]) if is_coll(c) else ('app', 'str', canon(c))
        if name in STREAM_STATE:
            return stream_state(I, o, name, [canon(I.settle(a)) for a in args])
        return ('ignored',)
    if k:
        m = CONT.get(name)
        if m is None:
            raise Unsupported('%s::%s' % (k, name))
        return m(I, n, ref, o, args, k, ot or cls)
    base = cls.split('<')[0]
    if base in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', '__shared_ptr'):
        if name == 'get':
            return v
        if name == 'reset':
            I.set(o, I.settle(args[0]) if args else NULL)
            return VOID
        if name == 'release':
            I.set(o, NULL)
            return v
        if name == 'use_count':
            return ('app', 'use_count', canon(v))
        if name == 'operator bool':
            return I.cmpop('!=', v, NULL)
        if name == 'swap':
            b = I.settle(args[0])
            I.set(args[0], v)
            I.set(o, b)
            return VOID
        if name == 'operator=':
            I.set(o, I.settle(args[0]))
            return o
    if base in ('tl::optional', 'std::optional') or base.startswith('tl::detail::optional'):
        if name in ('operator bool', 'has_value'):
            if v[0] == 'some':
                return TRUE
            if v[0] == 'none':
                return FALSE
            return ('app', 'has_value', canon(v))
        if name in ('value',):
            return optval(I, v)
        if name == 'value_or':
            if v[0] == 'some':
                return v[1]
            if v[0] == 'none':
                return I.settle(args[0])
        if name in ('emplace',):
            I.set(o, ('some', I.settle(args[0])))
            return VOID
        if name == 'reset':
            I.set(o, ('none',))
            return VOID
    if base == 'std::function':
        if name == 'operator bool':
            return I.cmpop('!=', v, NULL)
        if name == 'operator()':
            return I.call_value(v, args)
    if base.startswith('std::atomic') or base.startswith('std::__atomic'):
        if name in ('load',) or name.startswith('operator ') and not args:
            return v
        if name == 'store':
            I.set(o, I.settle(args[0]))
            return VOID
        if name == 'fetch_add':
            I.set(o, I.arith('+', v, I.settle(args[0])))
            return v
        if name == 'fetch_sub':
            I.set(o, I.arith('-', v, I.settle(args[0])))
            return v
    if name == 'operator=' and base.startswith('std::'):
        I.set(o, I.settle(args[0]))
        return o
    if base in ('std::basic_string', 'std::__cxx11::basic_string'):
        if name == 'c_str' or name == 'data':
            return v
        if name in ('empty',) and v[0] == 'str':
            return mkbool(not v[1])
        if name in ('size', 'length') and v[0] == 'str':
            return ('int', len(v[1]))
        if name == 'substr' and v[0] == 'str':
            a = [I.settle(x) for x in args]
            if all(x[0] == 'int' for x in a) and 0 <= (a[0][1] if a else 0) <= len(v[1]):
                b = a[0][1] if a else 0
                c = a[1][1] if len(a) > 1 else -1
                return ('str', v[1][b:] if c < 0 or c > len(v[1]) else v[1][b:b + c])
    if base in ('std::reverse_iterator',) and name == 'base' and v[0] == 'rit':
        return ('it', v[1], v[2] + 1)
    if base == 'std::reference_wrapper' and (name == 'get' or name.startswith('operator')):
        return o
    return I.do_call(ref, o, args, n)


def c_begin(I, n, ref, o, args, k, ty):
    I.as_coll(o, ty)
    return ('it', I.resolve(o), 0)


def c_end(I, n, ref, o, args, k, ty):
    v = I.get(o)
    if not is_coll(v) and k != 'vec' and (v[0] == 'kv' or opaque_map(I, v)):
        return ('fend', I.resolve(o))
    return ('it', I.resolve(o), len(I.as_coll(o, ty)[2]))


def c_rbegin(I, n, ref, o, args, k, ty):
    return ('rit', I.resolve(o), len(I.as_coll(o, ty)[2]) - 1)


def c_rend(I, n, ref, o, args, k, ty):
    I.as_coll(o, ty)
    return ('rit', I.resolve(o), -1)


def c_size(I, n, ref, o, args, k, ty):
    v = I.get(o)
    if not is_coll(v) and getattr(I.cfg, 'opaque_size', None) and I.cfg.opaque_size(I, v):
        t = ('app', 'size', canon(v))
        I.types.setdefault(t, 'unsigned long')
        return t
    return ('int', len(I.as_coll(o, ty)[2]))


def c_empty(I, n, ref, o, args, k, ty):
    v = I.get(o)
    if not is_coll(v) and getattr(I.cfg, 'opaque_size', None) and I.cfg.opaque_size(I, v):
        t = ('app', 'size', canon(v))
        I.types.setdefault(t, 'unsigned long')
        return ('cmp', '==', t, ('int', 0))
    return mkbool(not I.as_coll(o, ty)[2])


def c_push_back(I, n, ref, o, args, k, ty):
    ta = template_args(strip_type(ty))
    et = strip_type(ta[0]) if ta else ''
    if ref['n'].startswith('emplace'):
        if len(args) == 1 and not (et in I.prog.classes and needs_ctor(I, et, args[0])):
            x = I.settle(args[0])
        else:
            x = emplace_value(I, et, args)
    else:
        x = I.settle(args[0])
    v = I.get(o)
    if not is_coll(v) and getattr(I.cfg, 'opaque_push', None) and I.cfg.opaque_push(I, v):
        I.set(o, ('app', 'pushed', canon(v), canon(x)))
        return VOID
    c = I.as_coll(o, ty)
    if ref['n'].endswith('front'):
        I.set(o, coll(c[1], (x,) + c[2]))
    else:
        I.set(o, coll(c[1], c[2] + (x,)))
    return I.resolve(o).sub(('i', len(c[2]))) if ref['n'].startswith('emplace') else VOID


def needs_ctor(I, et, a):
    v = I.settle(a)
    return I.typeof(v) is not None and I.typeof(v) != et and et not in (I.typeof(v),)


def emplace_value(I, et, args):
    if et.startswith('std::pair<') and len(args) == 2:
        return ('pair', I.settle(args[0]), I.settle(args[1]))
    if et.startswith('std::tuple<'):
        return ('tuple',) + tuple(I.settle(a) for a in args)
    if et.startswith(('std::unique_ptr<', 'std::shared_ptr<')) and len(args) == 1:
        return I.settle(args[0])
    if et in I.prog.classes:
        conv = getattr(I.cfg, 'convert', None)
        if conv:
            r = conv(I, et, args)
            if r is not None:
                return r
        if I.keep_new(et):
            return ('new', et) + tuple(canon(I.settle(a)) for a in args)
        return I.construct(et, args)
    if len(args) == 1:
        return I.settle(args[0])
    return ('new', et) + tuple(canon(I.settle(a)) for a in args)


def c_pop_back(I, n, ref, o, args, k, ty):
    v = I.get(o)
    if not is_coll(v) and v[0] == 'app' and v[1] == 'pushed':
        I.set(o, v[2])
        return VOID
    c = I.as_coll(o, ty)
    if not c[2]:
        raise AbortEx('pop of an empty container')
    if ref['n'] in ('pop_front',) or (ref['n'] == 'pop' and strip_type(ty).startswith('std::queue')):
        I.set(o, coll(c[1], c[2][1:]))
    else:
        I.set(o, coll(c[1], c[2][:-1]))
    return VOID


def c_back(I, n, ref, o, args, k, ty):
    v = I.get(o)
    if not is_coll(v) and v[0] == 'app' and v[1] == 'pushed':
        return I.new_root(v[3])
    c = I.as_coll(o, ty)
    if not c[2]:
        raise AbortEx('%s of an empty container' % ref['n'])
    i = 0 if ref['n'] == 'front' else len(c[2]) - 1
    return I.follow(I.resolve(o).sub(('i', i)))


def c_at(I, n, ref, o, args, k, ty):
    key = I.settle(args[0])
    if k == 'map':
        v = I.get(o)
        l = I.resolve(o)
        if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
            if not I.decide(contains(I, v, key)):
                raise Thrown('std::out_of_range', VOID)
            return I.follow(l.sub(('key', canon(key)), ('p', 1)))
        c = I.as_coll(o, ty)
        for i, x in enumerate(c[2]):
            if I.decide_eq(pair0(I, x), key):
                return I.follow(l.sub(('i', i), ('p', 1)))
        raise Thrown('std::out_of_range', VOID)
    return index(I, o, key, ty)


def contains(I, v, key):
    key = canon(key)
    while isinstance(v, tuple) and v[0] == 'kv':
        for k2, x in v[2]:
            if k2 == key:
                return TRUE if x is not None else FALSE
        v = v[1]
    t = ('app', 'contains', canon(v), key)
    I.types.setdefault(t, 'bool')
    return t


def c_find(I, n, ref, o, args, k, ty):
    v = I.get(o)
    key = I.settle(args[0])
    l = I.resolve(o)
    if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
        if I.decide(contains(I, v, key)):
            return ('fit', l, canon(key))
        return ('fend', l)
    c = I.as_coll(o, ty)
    for i, x in enumerate(c[2]):
        if I.decide_eq(pair0(I, x) if k == 'map' else x, key):
            return ('it', l, i)
    return ('it', l, len(c[2]))


def c_count(I, n, ref, o, args, k, ty):
    v = I.get(o)
    key = I.settle(args[0])
    if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
        return ('int', 1 if I.decide(contains(I, v, key)) else 0)
    c = I.as_coll(o, ty)
    for x in c[2]:
        if I.decide_eq(pair0(I, x) if k == 'map' else x, key):
            return ('int', 1)
    return ('int', 0)


def used(I, n):
    return getattr(I, 'stmt_level', None) is not n


def c_insert(I, n, ref, o, args, k, ty):
    vals = [I.settle(a) for a in args]
    l = I.resolve(o)
    name = ref['n']
    ta = template_args(strip_type(ty))
    # range insertion
    if name == 'insert' and len(vals) >= 2 and vals[-1][0] in ('it', 'rit', 'fend') and vals[-2][0] in ('it', 'rit', 'fend'):
        xs = [I.get(x) for x in rng(I, vals[-2], vals[-1])]
        c = I.as_coll(o, ty)
        if k == 'vec':
            pos = vals[0][2] if len(vals) == 3 else len(c[2])
            I.set(o, coll(c[1], c[2][:pos] + tuple(xs) + c[2][pos:]))
            return ('it', l, pos)
        for x in xs:
            c = insert_item(I, c, x)[0]
        I.set(o, c)
        return VOID
    if name == 'insert' and len(vals) == 1 and is_coll(vals[0]) and vals[0][3] is None and 'initializer_list' in ref['fid'].split('(')[-1]:
        c = I.as_coll(o, ty)
        for x in vals[0][2]:
            c = insert_item(I, c, x)[0]
        I.set(o, c)
        return VOID
    if k == 'map':
        if name in ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
            if name == 'emplace_hint' or (name == 'insert' and len(vals) == 2 and vals[0][0] in ('it', 'fend', 'fit')):
                vals = vals[1:]
            if len(vals) == 2:
                kv = ('pair', vals[0], vals[1])
            elif len(vals) == 1:
                kv = vals[0]
            elif len(vals) == 3:
                kv = ('pair', vals[1], vals[2])
            else:
                raise Unsupported('map insertion')
            if len(ta) > 1 and isinstance(kv, tuple) and kv[0] == 'pair':
                conv = getattr(I.cfg, 'convert', None)
                if conv:
                    kk = conv(I, strip_type(ta[0]), [kv[1]]) or kv[1]
                    vv = conv(I, strip_type(ta[1]), [kv[2]]) or kv[2]
                    kv = ('pair', kk, vv)
            v = I.get(o)
            if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
                key = canon(pair0(I, kv))
                if I.decide(contains(I, v, key)):
                    if name == 'insert_or_assign':
                        I.set(l.sub(('key', key)), kv)
                    return ('pair', ('fit', l, key), FALSE)
                I.set(l, ('kv', v, ((key, kv),)) if v[0] != 'kv' else ('kv', v[1], v[2] + ((key, kv),)))
                return ('pair', ('fit', l, key), TRUE)
            c = I.as_coll(o, ty)
            c2, i, ins = insert_item(I, c, kv)
            if not ins and name == 'insert_or_assign':
                c2 = coll(c[1], c[2][:i] + (kv,) + c[2][i + 1:])
            I.set(o, c2)
            it = ('it', I.resolve(o), i)
            return it if name == 'emplace_hint' else ('pair', it, mkbool(ins))
    if k == 'set':
        if len(vals) == 2 and vals[0][0] in ('it', 'fend') and name != 'emplace':
            vals = vals[1:]
            hint = True
        else:
            hint = False
        x = vals[0] if len(vals) == 1 else None
        if x is None:
            x = emplace_value(I, strip_type(ta[0]), args)
        elif name == 'emplace' and ta:
            conv = getattr(I.cfg, 'convert', None)
            if conv:
                x = conv(I, strip_type(ta[0]), [x]) or x
        v = I.get(o)
        if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
            if I.decide(contains(I, v, x)):
                return ('pair', ('fit', l, canon(x)), FALSE)
            I.set(l, ('kv', v, ((canon(x), x),)) if v[0] != 'kv' else ('kv', v[1], v[2] + ((canon(x), x),)))
            return ('pair', ('fit', l, canon(x)), TRUE)
        c = I.as_coll(o, ty)
        if not used(I, n) and getattr(I.cfg, 'lazy_sets', True):
            # the result is unused: duplicates are harmless for the reader of a set
            if any(canon(y) == canon(x) for y in c[2]):
                return VOID
            if getattr(I.cfg, 'exact_sets', False):
                c2, i, ins = insert_item(I, c, x)
                I.set(o, c2)
                return VOID
            I.set(o, coll('set', c[2] + (x,)))
            return VOID
        c2, i, ins = insert_item(I, c, x)
        I.set(o, c2)
        it = ('it', I.resolve(o), i)
        return it if hint else ('pair', it, mkbool(ins))
    # vector insert(pos, value)
    c = I.as_coll(o, ty)
    pos = vals[0][2]
    I.set(o, coll(c[1], c[2][:pos] + (vals[-1],) + c[2][pos:]))
    return ('it', I.resolve(o), pos)


def c_erase(I, n, ref, o, args, k, ty):
    vals = [I.settle(a) for a in args]
    l = I.resolve(o)
    if vals[0][0] in ('fit',):
        v = I.get(o)
        key = vals[0][2]
        base, upd = (v[1], v[2]) if v[0] == 'kv' else (v, ())
        I.set(l, ('kv', base, tuple(kv for kv in upd if kv[0] != key) + ((key, None),)))
        return VOID
    if vals[0][0] == 'it':
        c = I.as_coll(o, ty)
        i = vals[0][2]
        j = i + 1 if len(vals) == 1 else (vals[1][2] if vals[1][0] == 'it' else len(c[2]))
        if len(vals) == 1 and not 0 <= i < len(c[2]):
            raise AbortEx('erase of an end iterator')
        I.set(o, coll(c[1], c[2][:i] + c[2][j:]))
        return ('it', I.resolve(o), i)
    v = I.get(o)
    if not is_coll(v) and (v[0] == 'kv' or opaque_map(I, v)):
        key = canon(vals[0])
        if not I.decide(contains(I, v, key)):
            return ('int', 0)
        base, upd = (v[1], v[2]) if v[0] == 'kv' else (v, ())
        I.set(l, ('kv', base, tuple(kv for kv in upd if kv[0] != key) + ((key, None),)))
        return ('int', 1)
    c = I.as_coll(o, ty)
    for i, x in enumerate(c[2]):
        if I.decide_eq(pair0(I, x) if k == 'map' else x, vals[0]):
            I.set(o, coll(c[1], c[2][:i] + c[2][i + 1:]))
            return ('int', 1)
    return ('int', 0)


def c_clear(I, n, ref, o, args, k, ty):
    I.set(o, coll(k, []))
    return VOID


def c_nop(I, n, ref, o, args, k, ty):
    return VOID


def c_swap(I, n, ref, o, args, k, ty):
    v, w = I.get(o), I.settle(args[0])
    I.set(o, w)
    I.set(args[0], v)
    return VOID


def c_assign(I, n, ref, o, args, k, ty):
    I.set(o, container_ctor(I, k, strip_type(ty), args))
    return VOID


def c_opeq(I, n, ref, o, args, k, ty):
    v = coerce(I, I.settle(args[0]), ty)
    I.set(o, v)
    if isinstance(args[0], LV) and ref.get('pt') and ref['pt'][0].endswith('&&') and args[0] != o:
        try:
            I.set(args[0], coll(k, []))
        except Unsupported:
            pass
    return o


def c_resize(I, n, ref, o, args, k, ty):
    c = I.as_coll(o, ty)
    m = I.settle(args[0])
    if not is_lit(m):
        raise Unsupported('resize')
    m = int(lit(m))
    if m <= len(c[2]):
        I.set(o, coll(c[1], c[2][:m]))
        return VOID
    ta = template_args(strip_type(ty))
    x = I.settle(args[1]) if len(args) > 1 else default_value(I, ta[0], '')
    I.set(o, coll(c[1], c[2] + (x,) * (m - len(c[2]))))
    return VOID


CONT = {
    'begin': c_begin, 'cbegin': c_begin, 'end': c_end, 'cend': c_end,
    'rbegin': c_rbegin, 'crbegin': c_rbegin, 'rend': c_rend, 'crend': c_rend,
    'size': c_size, 'empty': c_empty, 'push_back': c_push_back, 'emplace_back': c_push_back, 'push': c_push_back,
    'push_front': c_push_back, 'emplace_front': c_push_back,
    'pop_back': c_pop_back, 'pop': c_pop_back, 'pop_front': c_pop_back, 'back': c_back, 'front': c_back, 'top': c_back,
    'at': c_at, 'find': c_find, 'count': c_count, 'insert': c_insert, 'emplace': c_insert, 'emplace_hint': c_insert,
    'insert_or_assign': c_insert, 'try_emplace': c_insert,
    'erase': c_erase, 'clear': c_clear, 'reserve': c_nop, 'shrink_to_fit': c_nop, 'swap': c_swap, 'assign': c_assign,
    'operator=': c_opeq, 'resize': c_resize, 'rehash': c_nop,
}


# -- fields of kept constructions ------------------------------------------------

def new_field(I, v, name):
    """Field of ('new', cls, args...) obtained through the constructor."""
    cls = v[1]
    if cls not in I.prog.classes:
        return None
    key = (v, name)
    cache = getattr(I, '_newinst', None)
    if cache is None or cache[0] is not I.facts:
        cache = (I.facts, {})
        I._newinst = cache
    inst = cache[1].get(v)
    if inst is None:
        args = [I.new_root(a) for a in v[2:]]
        f = None
        for m in I.prog.classes[cls]['methods']:
            if m['fid'].startswith(cls + '::(ctor)'):
                g = I.prog.functions.get(m['fid'])
                if g is not None and len(g['params']) == len(args) and not (len(args) == 1 and strip_type(g['params'][0]['type']) == cls):
                    f = g
                    break
        if f is None or f['fid'] in I.stack:
            return None
        obj = I.new_root(('inst', cls, None, ()), 'obj')
        I.default_fields(cls, obj)
        I.call_function(f, obj, args, this_cls=cls)
        inst = I.get(obj)
        cache[1][v] = inst
    for a, b in inst[3]:
        if a == name:
            return I.settle(b)
    return None
