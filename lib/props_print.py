"""Printing of terms (S13)."""
import re

import extract
import model as M
from common import *
from engine import is_lit, lit
from check import parallel
from sym import SymConfig, ECELL, FCELL
from props_cell import cells, this_setup, THIS

TERM = (EXPR, FORM, VAR, VARS)
DIGITS = 17     # decimal digits that identify a double
STR = 'std::basic_string<char'
RELOP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
         '>=': lambda a, b: a >= b}
QUIET_MANIP = {'endl', 'flush', 'ends'}


# --- what is written ---------------------------------------------------------------------

def add_piece(I, s, v, ty):
    cur = I.get(s)
    ps = cur[2] if is_coll(cur) else (canon(cur),)
    I.set(s, ('coll', 'stream', ps + (('piece', v, ty),), None))


def printer_stream(I, obj):
    v = I.get(obj)
    cls = v[1] if isinstance(v, tuple) and v[0] == 'inst' else None
    for n, d in I.prog.field_types(cls or '').items():
        if 'ostream' in d['type']:
            return I.resolve(obj.sub(('f', n)))
    return None


def piece_cfg(prog, roles, prefix_root=None, display=False):
    """Terms written to a stream are pieces of the text, not inlined."""
    cfg = SymConfig(prog, roles)
    cfg.dtor_cls = re.compile(r'(^|::)(PrefixPrinter|\w*Guard)$')
    base = cfg.prim

    def prim(I, ref):
        if ref['n'] == 'operator<<' and len(ref['pt']) == 2 and strip_type(ref['pt'][1]) in TERM:
            ty = strip_type(ref['pt'][1])

            def hh(I, n, ref, obj, args):
                v = canon(I.settle(args[1]))
                if display and v == display:
                    return DECLINE
                add_piece(I, args[0], v, ty)
                return args[0]
            return hh
        if prefix_root and ref['n'] == 'Print' and ref.get('cls') and strip_type(ref['pt'][-1]) in (EXPR, FORM):
            def hp(I, n, ref, obj, args):
                v = canon(I.settle(args[-1]))
                if v == prefix_root:
                    return DECLINE
                s = printer_stream(I, obj)
                if s is None:
                    return DECLINE
                add_piece(I, s, v, 'prefix')
                return s
            return hp
        if display and ref['n'] == 'Display' and len(ref['pt']) == 1:
            def hd(I, n, ref, obj, args):
                add_piece(I, args[0], canon(I.settle(obj)), 'display')
                return args[0]
            return hd
        return base(I, ref)
    cfg.prim = prim
    return cfg


class Text(Exception):
    """The text is not a faithful form."""


class Unread(Exception):
    """The text is outside what the reader models."""


def flatten(pieces, out, prec, top):
    """Splits recorded pieces into (kind, value) and checks the digits in force. Returns the precision at the end."""
    for p in pieces:
        if p[0] == 'setp':
            if p[1] == 'precision':
                prec = p[2]
            elif p[1] == 'flags' and p[2][:2] != ('app', 'st.flags'):
                raise Text('the format flags of the stream are changed')
            continue
        if p[0] != 'piece':
            if p == ('sym', 'os'):
                continue
            raise Unread('unknown text %s' % show(p)[:80])
        v, ty = p[1], p[2]
        if v[0] == 'manip':
            if v[1] not in QUIET_MANIP:
                raise Text('the stream is switched to %s' % v[1])
            out.append(('lit', '\n'))
        elif v[0] == 'str':
            out.append(('lit', v[1]))
        elif v[0] == 'chr':
            out.append(('lit', chr(v[1])))
        elif v[0] == 'app' and v[1] == 'str':
            flatten(v[2:], out, ('int', 6), False)
        elif ty in ('double', 'float'):
            if not is_lit(v):
                if prec is None or not is_lit(prec):
                    raise Text('%s is written with whatever precision the stream has' % show(v))
                if lit(prec) < DIGITS:
                    raise Text('%s is written with %s significant digits, which do not identify it' % (show(v), lit(prec)))
                if ty == 'float':
                    raise Text('%s is written as a float' % show(v))
            out.append(('num', v))
        elif v[0] == 'app' and 'to_string' in v[1]:
            raise Text('%s writes six decimals' % show(v)[:60])
        elif ty in ('char', 'int', 'long', 'unsigned int', 'unsigned long'):
            out.append(('num', v))
        elif ty in TERM or ty in ('prefix', 'display'):
            out.append((ty, v))
        elif ty.startswith(STR):
            out.append(('name', v))
        else:
            raise Unread('text of type %s' % ty)
    return prec


IDENT = re.compile(r'[A-Za-z_]\w*')
SYM = re.compile(r'==|!=|<=|>=|=>|&&|\|\||[-+*/^()<>=!,.\[\]{}]')
NUM = re.compile(r'\d+(\.\d+)?')


def tokens(parts):
    """Atoms and symbols; a word must not run into what follows it."""
    text, atoms = '', []
    for k, v in parts:
        if k == 'lit':
            text += v
        else:
            text += chr(0xE000 + len(atoms))
            atoms.append((k, v))
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if ord(c) >= 0xE000:
            if i and (text[i - 1].isalnum() or text[i - 1] in '_.' or ord(text[i - 1]) >= 0xE000) or i + 1 < len(text) and (text[i + 1].isalnum() or text[i + 1] == '_'):
                raise Text('the text runs together around %s' % show(atoms[ord(c) - 0xE000][1]))
            out.append(atoms[ord(c) - 0xE000])
            i += 1
            continue
        for rx, k in ((IDENT, 'id'), (NUM, 'n'), (SYM, 'sym')):
            m = rx.match(text, i)
            if m:
                out.append((k, m.group(0)))
                i = m.end()
                break
        else:
            raise Text('unreadable text %r' % text[i:i + 10])
    return out


def render(parts):
    return ''.join(v if k == 'lit' else '<%s>' % show(v) for k, v in parts)[:300]


# --- the infix form ----------------------------------------------------------------------

class Infix:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end', None)

    def take(self, *want):
        p = self.peek()
        if want and p[1] not in want:
            raise Text('"%s" expected, "%s" found' % (want[0], p[1] if isinstance(p[1], str) else show(p[1]) if p[1] else 'the end'))
        self.i += 1
        return p

    def at(self, *s):
        p = self.peek()
        return p[0] in ('sym', 'id') and p[1] in s

    def top(self):
        r = self.unit()
        if self.peek()[0] != 'end':
            raise Text('the text is not closed by brackets: it would be read differently inside a larger term')
        return r

    def disj(self):
        r = self.conj()
        while self.at('or', '||'):
            self.take()
            r = ('or', r, self.conj())
        return r

    def conj(self):
        r = self.rel()
        while self.at('and', '&&'):
            self.take()
            r = ('and', r, self.rel())
        return r

    def rel(self):
        r = self.sum()
        if self.peek()[0] == 'sym' and self.peek()[1] in RELOP:
            op = self.take()[1]
            r = ('rel', op, r, self.sum())
        return r

    def sum(self):
        if self.at('-'):
            self.take()
            r = ('neg', self.prod())
        else:
            r = self.prod()
        while self.at('+', '-'):
            r = (self.take()[1], r, self.prod())
        return r

    def prod(self):
        r = self.unit()
        while self.at('*', '/'):
            r = (self.take()[1], r, self.unit())
        return r

    def unit(self):
        k, v = self.peek()
        if k == 'sym' and v == '!':
            self.take()
            return ('not', self.unit())
        if k == 'sym' and v == '-':
            self.take()
            return ('neg', self.unit())
        if k == 'sym' and v == '(':
            self.take()
            if self.at('if'):
                self.take()
                c = self.disj()
                self.take('then')
                a = self.disj()
                self.take('else')
                r = ('ite', c, a, self.disj())
            else:
                r = self.disj()
            self.take(')')
            return r
        if k == 'sym' and v == '[':
            self.take()
            a = self.sum()
            self.take(',')
            r = ('interval', a, self.sum())
            self.take(']')
            return r
        if k == 'id' and v in ('True', 'False'):
            self.take()
            return ('bool', v == 'True')
        if k == 'id' and v == 'NaN':
            self.take()
            return ('nan',)
        if k == 'id' and v == 'forall':
            self.take()
            self.take('(')
            x = self.take()
            self.take('.')
            r = ('forall', x, self.disj())
            self.take(')')
            return r
        if k == 'id' and (v in UNARY or v in BINARY):
            self.take()
            self.take('(')
            a = [self.disj()]
            while self.at(','):
                self.take()
                a.append(self.disj())
            self.take(')')
            return ('fun', v) + tuple(a)
        if k == 'n':
            self.take()
            return ('num', ('flt', float(v)))
        if k == 'name':
            self.take()
            self.take('(')
            x = self.take()
            self.take(')')
            return ('uf', v, x)
        if k in TERM or k == 'num':
            self.take()
            return (k, v)
        raise Text('"%s" where a term is expected' % (v if isinstance(v, str) else show(v) if v else 'the end'))


class Mismatch(Exception):
    pass


def value(m, t, sort):
    """The value of a parsed text."""
    k = t[0]
    if k == EXPR or k == 'prefix' and sort == 'E':
        if sort != 'E':
            raise Mismatch('a term where a formula is expected')
        return m.E(t[1], C0)
    if k == FORM or k == 'prefix':
        if sort != 'F':
            raise Mismatch('a formula where a term is expected')
        return m.F(t[1], C0)
    if k == VAR:
        v = ('app', 'E.var' if sort == 'E' else 'F.var', t[1])
        return m.E(v, C0) if sort == 'E' else m.F(v, C0)
    if (k in ('num', '+', '-', '*', '/', 'neg', 'fun', 'interval')) != (sort == 'E') and k != 'ite':
        raise Mismatch('%s where a %s is expected' % (k, 'term' if sort == 'E' else 'formula'))
    if k == 'num':
        return m.num(t[1], C0)
    if k in '+-*/':
        f = {'+': M.add, '-': M.sub, '*': M.mul, '/': M.div}[k]
        return f(value(m, t[1], 'E'), value(m, t[2], 'E'))
    if k == 'neg':
        return M.neg(value(m, t[1], 'E'))
    if k == 'fun':
        a = [value(m, x, 'E') for x in t[2:]]
        if len(a) != (1 if t[1] in UNARY else 2):
            raise Mismatch('%s with %d arguments' % (t[1], len(a)))
        return M.fun1(t[1], a[0]) if len(a) == 1 else M.fun2(t[1], a[0], a[1])
    if k == 'ite':
        return value(m, t[2], sort) if value(m, t[1], 'F') else value(m, t[3], sort)
    if k == 'bool':
        return t[1]
    if k == 'not':
        return not value(m, t[1], 'F')
    if k in ('and', 'or'):
        a, b = value(m, t[1], 'F'), value(m, t[2], 'F')
        return (a and b) if k == 'and' else (a or b)
    if k == 'rel':
        for s in (('E', 'F') if t[1] in ('==', '!=') else ('E',)):
            try:
                return RELOP[t[1]](value(m, t[2], s), value(m, t[3], s))
            except Mismatch:
                if s == 'F' or t[1] not in ('==', '!='):
                    raise
    raise Mismatch('%s has no value' % k)


def balanced(pieces, prec):
    """Is the caller's stream left with the precision it had?"""
    return prec is None or prec[:2] == ('app', 'st.precision')


def leaf_kinds(kind, t, root, roles, prefix):
    """Kinds that are not compared by value. Returns a complaint, '' when fine, or None when the value decides."""
    fld = lambda c, n: ('fld', root, roles.field.get((c, n)))
    if kind == 'NaN':
        return '' if t == ('nan',) else 'NaN is printed as %s' % (t,)
    if kind == 'RealConstant' and not prefix:
        a, b = fld('ExpressionRealConstant', 'lb'), fld('ExpressionRealConstant', 'ub')
        if t == ('interval', ('num', a), ('num', b)):
            return ''
        if t[0] == 'interval':
            return 'a constant between lb and ub is printed as the interval from %s to %s' % (show(t[1][1]) if t[1][0] == 'num' else t[1], show(t[2][1]) if t[2][0] == 'num' else t[2])
        return None
    if kind == 'Forall':
        if t[0] == 'forall' and t[1] == (VARS, fld('FormulaForall', 'vars')) and t[2] == (FORM, fld('FormulaForall', 'f')):
            return ''
        return 'the quantified formula is printed with other variables or another body'
    if kind == 'UninterpretedFunction':
        if t[0] == 'uf' and t[2] == (VARS, fld('ExpressionUninterpretedFunction', 'variables')) and t[1] == fld('ExpressionUninterpretedFunction', 'name'):
            return ''
        return 'the uninterpreted function is printed with another name or other variables'
    return None


def judge(env, r, I, p, kind, stream, root, is_e, read, prefix=False):
    """Compares what a path wrote with the term."""
    r.paths += 1
    key = '%s:%s' % (r.name, kind)
    where = '%s, for a term of kind %s [when %s]' % (r.fn, kind, p.describe()[:300])
    if p.outcome[0] == 'unsupported':
        r.undecided.append('%s %s: %s' % (r.name, kind, p.outcome[1]))
        return
    if p.outcome[0] in ('throw', 'abort'):
        if prefix and p.outcome[0] == 'throw' and kind in ('NaN', 'UninterpretedFunction', 'Forall'):
            if is_coll(stream):
                prec = flatten_state(stream[2])
                if not balanced(stream[2], prec):
                    r.violations.append((key, '%s: the error leaves the stream with precision %s' % (where, show(prec))))
                    return
            r.agree += 1
            return
        r.violations.append((key, '%s: printing ends in "%s"' % (where, p.outcome[1])))
        return
    if not is_coll(stream):
        r.violations.append((key, '%s: nothing is printed' % where))
        return
    parts = []
    try:
        prec = flatten(stream[2], parts, None, True)
        if not balanced(stream[2], prec):
            raise Text("the caller's stream is left with precision %s" % show(prec))
        t = read(tokens(parts))
    except Text as e:
        r.violations.append((key, '%s: %s (text: %s)' % (where, e, render(parts))))
        return
    except Unread as e:
        r.undecided.append('%s %s: %s' % (r.name, kind, e))
        return
    w = leaf_kinds(kind, t, root, env.roles, prefix)
    if w:
        r.violations.append((key, '%s: %s (text: %s)' % (where, w, render(parts))))
        return
    if w == '':
        r.agree += 1
        return
    r.paths -= 1
    s = Result(r.name, None)
    s.fn = r.fn
    s.paths = 1
    sort = 'E' if is_e else 'F'

    def spec(m, p):
        return m.E(root, C0) if is_e else m.F(root, C0)

    def result(m, p):
        try:
            x = value(m, t, sort)
        except Mismatch as e:
            return 'nothing: ' + str(e)
        if kind == 'RealConstant' and prefix:
            f = env.roles.field
            lo, hi = m.num(('fld', root, f[('ExpressionRealConstant', 'lb')]), C0), m.num(('fld', root, f[('ExpressionRealConstant', 'ub')]), C0)
            if min(lo, hi) - 1e-9 <= x <= max(lo, hi) + 1e-9:
                return spec(m, p)
        return x
    decide_path(env, s, I, p, spec, result, None, key=lambda p, m: key, compare=lambda a, b: not isinstance(b, str) and M.same(a, b))
    s.violations = [(k, '%s (text: %s)' % (x, render(parts))) for k, x in s.violations]
    r.merge(s)


def flatten_state(pieces):
    prec = None
    for p in pieces:
        if p[0] == 'setp' and p[1] == 'precision':
            prec = p[2]
    return prec


def display(env, kind, cls, f, is_e):
    r = Result('Display of %s' % kind, f)
    I = Interp(env.prog, piece_cfg(env.prog, env.roles))
    for p in I.explore(f, this_setup(f, cls)):
        judge(env, r, I, p, kind, p.final.get('os') if 'os' in p.final else list(p.final.values())[0], THIS, is_e, lambda toks: Infix(toks).top())
    return r


# --- the prefix form ---------------------------------------------------------------------

TOKEN = dict(TK_PLUS='+', TK_MINUS='-', TK_TIMES='*', TK_DIV='/', TK_EQ='==', TK_LTE='<=', TK_GTE='>=', TK_LT='<', TK_GT='>', TK_AND='and', TK_OR='or',
             TK_NOT='not', TK_ITE='ite', TK_POW='pow', TK_TRUE='true', TK_FALSE='false', TK_IMPLIES='=>',
             **{'TK_' + x.upper(): x for x in ('exp', 'log', 'abs', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'min', 'max', 'sqrt')})


def reader_table():
    """The words of the SMT-LIB scanner of /repo."""
    src = open(extract.REPO + '/dreal/smt2/scanner.ll').read()
    out = {}
    for m in re.finditer(r'^((?:"[^"\n]+"\|?)+)\s*\{[^\n]*token::(TK_\w+)', src, re.M):
        for w in re.findall(r'"([^"]+)"', m.group(1)):
            out.setdefault(w, TOKEN.get(m.group(2), m.group(2)))
    if len(out) < 30:
        raise AnalysisBroken('scanner.ll: words not found')
    return out


class Prefix:
    def __init__(self, toks, table):
        self.t, self.i, self.tab = toks, 0, table

    def take(self):
        if self.i >= len(self.t):
            raise Text('the text ends early')
        self.i += 1
        return self.t[self.i - 1]

    def top(self):
        r = self.term()
        if self.i < len(self.t):
            raise Text('text follows the term')
        return r

    def term(self):
        k, v = self.take()
        if (k, v) == ('sym', '('):
            op = self.take()
            if op[0] not in ('sym', 'id') or op[1] not in self.tab:
                raise Text('the SMT-LIB reader has no operator "%s"' % (op[1] if isinstance(op[1], str) else show(op[1])))
            f, a = self.tab[op[1]], []
            while not (self.i < len(self.t) and self.t[self.i] == ('sym', ')')):
                a.append(self.term())
            self.take()
            return self.apply(op[1], f, a)
        if k == 'id' and self.tab.get(v) in ('true', 'false'):
            return ('bool', self.tab[v] == 'true')
        if k in ('prefix', VAR, 'num'):
            return (k, v)
        if k == 'n':
            return ('num', ('flt', float(v)))
        if k in (EXPR, FORM):
            raise Text('an operand is written in infix form')
        raise Text('"%s" where a term is expected' % (v if isinstance(v, str) else show(v)))

    def apply(self, w, f, a):
        n = len(a)
        if f == '+' and n == 1:
            return a[0]
        if f == '-' and n == 1:
            return ('neg', a[0])
        if f in '+-*/' and n >= 2:
            r = a[0]
            for x in a[1:]:
                r = (f, r, x)
            return r
        if f in RELOP and n == 2:
            return ('rel', f, a[0], a[1])
        if f in ('and', 'or') and n >= 1:
            r = a[0]
            for x in a[1:]:
                r = (f, r, x)
            return r
        if f == 'not' and n == 1:
            return ('not', a[0])
        if f == '=>' and n == 2:
            return ('or', ('not', a[0]), a[1])
        if f == 'ite' and n == 3:
            return ('ite',) + tuple(a)
        if f in UNARY and n == 1 or f in BINARY and n == 2:
            return ('fun', f) + tuple(a)
        raise Text('the SMT-LIB reader does not accept "%s" with %d operands' % (w, n))


PROBE = '''#include "dreal/symbolic/prefix_printer.h"
namespace dreal { namespace probe {
void prefixE(std::ostream& os, const Expression& e) { PrefixPrinter p{os}; p.Print(e); }
void prefixF(std::ostream& os, const Formula& e) { PrefixPrinter p{os}; p.Print(e); }
}}
'''


def prefix(env, f, kind, is_e, table):
    root = ('sym', 'e')
    r = Result('prefix form of %s' % kind, f)
    cfg = piece_cfg(env.prog, env.roles, root)
    cfg.kinds_restrict = {root: {kind}}
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f)):
        if never_built(env, kind, p, root):
            continue
        judge(env, r, I, p, kind, p.final.get('os'), root, is_e, lambda toks: Prefix(toks, table).top(), True)
    return r


def never_built(env, kind, p, root):
    """A sum or product without operands, or a product of one factor and constant 1, is never built (S02)."""
    if kind not in ('Add', 'Mul'):
        return False
    f = env.roles.field
    n = p.shapes.get(('fld', root, f[('Expression' + kind, 'm')]))
    if n == 0 or kind == 'Add' or n != 1:
        return n == 0
    c = ('fld', root, f[('ExpressionMul', 'c')])
    return any(b == (a[1] == '==') and a[0] == 'cmp' and a[1] in ('==', '!=') and c in a[2:] and any(is_lit(x) and lit(x) == 1 for x in a[2:]) for a, b in p.facts)


def to_text(env, f, is_e, pre):
    """ToPrefix, to_string and operator<< print exactly the term they are given."""
    r = Result('%s(%s)' % (f['n'], 'expression' if is_e else 'formula'), f)
    meth = bool(f.get('cls'))
    root = THIS if meth else ('sym', [q.get('name') or 'a%d' % i for i, q in enumerate(f['params']) if strip_type(q['type']) in (EXPR, FORM)][0])
    cfg = piece_cfg(env.prog, env.roles, ('none',) if pre else None, display=None if pre else root)
    I = Interp(env.prog, cfg)
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        x = p.outcome[1]
        if f['n'] == 'operator<<':
            x = next((v for v in p.final.values() if is_coll(v)), None)
            ps = x[2] if x else ()
        else:
            ps = x[2:] if p.outcome[0] == 'ret' and isinstance(x, tuple) and x[:2] == ('app', 'str') else None
        if p.outcome[0] != 'ret' or ps is None:
            r.violations.append((r.name, '%s: ends in %s' % (r.fn, str(p.outcome)[:200])))
            continue
        ps = [q for q in ps if q[0] == 'piece']
        if len(ps) == 1 and ps[0][1] == root and ps[0][2] == ('prefix' if pre else 'display'):
            r.agree += 1
        else:
            r.violations.append((r.name, '%s: the text is %s, not the %s form of the argument' %
                                 (r.fn, [show(q[1])[:60] for q in ps], 'prefix' if pre else 'infix')))
    return r


def check_S13(c):
    env = make_env(c, extract.all_tus() + [extract.probe('prefix', PROBE)])
    prog = env.prog
    jobs = []
    for b, is_e in ((ECELL, True), (FCELL, False)):
        for kind, cls, f in cells(prog, b, 'Display'):
            jobs.append(lambda a=(kind, cls, f, is_e): display(env, *a))
    table = reader_table()
    for n, is_e in (('prefixE', True), ('prefixF', False)):
        f = prog.one('dreal::probe::' + n)
        from props_visit import kinds
        for k in kinds(prog, is_e):
            jobs.append(lambda a=(f, k, is_e, table): prefix(env, *a))
    for f in prog.functions.values():
        if not f.get('body'):
            continue
        ts = [strip_type(q['type']) for q in f['params']]
        if f['q'] == 'dreal::ToPrefix' and len(ts) == 1 and ts[0] in (EXPR, FORM):
            jobs.append(lambda f=f, e=ts[0] == EXPR: to_text(env, f, e, True))
        elif f['n'] == 'to_string' and f.get('cls') in (EXPR, FORM):
            jobs.append(lambda f=f, e=f['cls'] == EXPR: to_text(env, f, e, False))
        elif f['n'] == 'operator<<' and len(ts) == 2 and ts[1] in (EXPR, FORM) and 'ostream' in ts[0]:
            jobs.append(lambda f=f, e=ts[1] == EXPR: to_text(env, f, e, False))
    c.add(parallel(jobs))
    c.rules.append('What every kind of term writes to the stream is computed as a sequence of literal text and operands; the sequence is parsed as an infix (or SMT-LIB) '
                   'term, whose value must be that of the printed term in random interpretations. The text must be closed, constants must be written with at least '
                   '17 significant digits, words of the SMT-LIB form must be in scanner.ll of /repo with the same meaning, and the stream must keep its formatting state.')
    c.assumptions += ['operands print faithfully (induction)', 'connectives, sums and products are unrolled to two operands', 'the iostream library formats as specified']
    return len(jobs)
