"""Canonical vocabulary of symbolic terms: API calls become named term operations."""
import re

import handlers
from engine import (Config, Interp, LV, NULL, TRUE, FALSE, VOID, Infeasible, Thrown, Unsupported, AbortEx,
                    canon, coll, is_coll, is_lit, lit, mkbool)
from extract import AnalysisBroken
from program import coll_kind, strip_type, template_args

DS = 'dreal::drake::symbolic::'
EXPR, FORM, VAR, VARS, ENV = DS + 'Expression', DS + 'Formula', DS + 'Variable', DS + 'Variables', DS + 'Environment'
ECELL, FCELL = DS + 'ExpressionCell', DS + 'FormulaCell'
EKIND, FKIND = DS + 'ExpressionKind', DS + 'FormulaKind'

UNARY = {'log': 'Log', 'abs': 'Abs', 'exp': 'Exp', 'sqrt': 'Sqrt', 'sin': 'Sin', 'cos': 'Cos', 'tan': 'Tan', 'asin': 'Asin',
         'acos': 'Acos', 'atan': 'Atan', 'sinh': 'Sinh', 'cosh': 'Cosh', 'tanh': 'Tanh'}
BINARY = {'pow': 'Pow', 'atan2': 'Atan2', 'min': 'Min', 'max': 'Max'}
EFUN = set(UNARY) | set(BINARY) | {'if_then_else', 'uninterpreted_function', 'real_constant', 'Sum', 'Prod'}
RELKIND = {'Eq': '==', 'Neq': '!=', 'Gt': '>', 'Geq': '>=', 'Lt': '<', 'Leq': '<='}

# class -> {role: accessor}
ROLES = {
    'ExpressionConstant': {'v': 'get_value'},
    'ExpressionRealConstant': {'lb': 'get_lb', 'ub': 'get_ub'},
    'ExpressionVar': {'var': 'get_variable'},
    'ExpressionAdd': {'c': 'get_constant', 'm': 'get_expr_to_coeff_map'},
    'ExpressionMul': {'c': 'get_constant', 'm': 'get_base_to_exponent_map'},
    'UnaryExpressionCell': {'a': 'get_argument'},
    'BinaryExpressionCell': {'a': 'get_first_argument', 'b': 'get_second_argument'},
    'ExpressionIfThenElse': {'f': 'get_conditional_formula', 'a': 'get_then_expression', 'b': 'get_else_expression'},
    'ExpressionUninterpretedFunction': {'name': 'get_name'},
    'FormulaVar': {'var': 'get_variable'},
    'RelationalFormulaCell': {'a': 'get_lhs_expression', 'b': 'get_rhs_expression'},
    'NaryFormulaCell': {'s': 'get_operands'},
    'FormulaNot': {'f': 'get_operand'},
    'FormulaForall': {'vars': 'get_quantified_variables', 'f': 'get_quantified_formula'},
}
KIND_CLASS_E = {'Constant': 'ExpressionConstant', 'RealConstant': 'ExpressionRealConstant', 'Var': 'ExpressionVar', 'Add': 'ExpressionAdd',
                'Mul': 'ExpressionMul', 'Div': 'ExpressionDiv', 'Log': 'ExpressionLog', 'Abs': 'ExpressionAbs', 'Exp': 'ExpressionExp',
                'Sqrt': 'ExpressionSqrt', 'Pow': 'ExpressionPow', 'Sin': 'ExpressionSin', 'Cos': 'ExpressionCos', 'Tan': 'ExpressionTan',
                'Asin': 'ExpressionAsin', 'Acos': 'ExpressionAcos', 'Atan': 'ExpressionAtan', 'Atan2': 'ExpressionAtan2',
                'Sinh': 'ExpressionSinh', 'Cosh': 'ExpressionCosh', 'Tanh': 'ExpressionTanh', 'Min': 'ExpressionMin', 'Max': 'ExpressionMax',
                'IfThenElse': 'ExpressionIfThenElse', 'UninterpretedFunction': 'ExpressionUninterpretedFunction', 'NaN': 'ExpressionNaN'}
KIND_CLASS_F = {'True': 'FormulaTrue', 'False': 'FormulaFalse', 'Var': 'FormulaVar', 'Eq': 'FormulaEq', 'Neq': 'FormulaNeq',
                'Gt': 'FormulaGt', 'Geq': 'FormulaGeq', 'Lt': 'FormulaLt', 'Leq': 'FormulaLeq', 'And': 'FormulaAnd', 'Or': 'FormulaOr',
                'Not': 'FormulaNot', 'Forall': 'FormulaForall'}


class Roles:
    """Where each cell class keeps each component (derived from the accessors)."""

    def __init__(self, prog):
        self.prog = prog
        self.field = {}     # (cls short, role) -> field name
        self.arg = {}       # (cls short, role) -> constructor argument index
        self.problems = []
        for base, roles in ROLES.items():
            for role, acc in roles.items():
                fs = [f for f in prog.find(DS + base + '::' + acc) if not f['params']]
                if not fs:
                    raise AnalysisBroken('accessor %s::%s not found' % (base, acc))
                f = fs[0]
                cfg = Config()
                I = Interp(prog, cfg)
                paths = I.explore(f, lambda i: (i.sym_lv('this', DS + base), []))
                v = paths[0].outcome[1] if len(paths) == 1 and paths[0].outcome[0] == 'ret' else None
                if not (isinstance(v, tuple) and v[0] == 'fld' and v[1] == ('sym', 'this')):
                    raise AnalysisBroken('accessor %s::%s does not return a stored component' % (base, acc))
                for c in [DS + base] + prog.subclasses(DS + base):
                    self.field[(c.split('::')[-1], role)] = v[2]
        for kc in list(KIND_CLASS_E.values()) + list(KIND_CLASS_F.values()):
            if DS + kc not in prog.classes:
                raise AnalysisBroken('class %s not found' % kc)
        uf = 'ExpressionUninterpretedFunction'
        fs = [f['name'] for f in prog.classes[DS + uf]['fields'] if strip_type(f['type']) == VARS]
        if len(fs) == 1:
            self.field[(uf, 'variables')] = fs[0]
        self._args()

    def _args(self):
        """Constructor argument positions."""
        for kc in list(KIND_CLASS_E.values()) + list(KIND_CLASS_F.values()):
            cls = DS + kc
            roles = [r for (c, r) in self.field if c == kc]
            if not roles:
                continue
            ctors = [self.prog.functions[m['fid']] for m in self.prog.classes[cls]['methods']
                     if m['fid'].startswith(cls + '::(ctor)') and m['fid'] in self.prog.functions]
            ctors = [f for f in ctors if f['params'] and strip_type(f['params'][0]['type']) != cls and not f.get('defaulted')]
            for f in ctors:
                cfg = SymConfig(self.prog, None)
                I = Interp(self.prog, cfg)
                n = len(f['params'])

                def setup(i, f=f, cls=cls):
                    return i.new_root(('inst', cls, None, ()), 'obj'), [i.sym_lv('arg%d' % k, p['type']) for k, p in enumerate(f['params'])]
                paths = I.explore(f, setup, limit=60)
                for r in roles:
                    fld = self.field[(kc, r)]
                    vals = set()
                    for p in paths:
                        if p.outcome[0] != 'ret':
                            continue
                        obj = [v for k, v in p.heap.items() if isinstance(v, tuple) and v[0] == 'inst' and v[1] == cls]
                        if obj:
                            for a, b in obj[0][3]:
                                if a == fld:
                                    vals.add(canon(b))
                    for k in range(n):
                        if vals == {('sym', 'arg%d' % k)} or (vals and all(canon(v) == ('sym', 'arg%d' % k) for v in vals)):
                            self.arg.setdefault((kc, r, n), k)


def E(op, *a):
    return ('app', 'E.' + op) + a


def F(op, *a):
    return ('app', 'F.' + op) + a


class SymConfig(Config):
    """Primitives of the symbolic library.  `inline` lists qualified names that are
    inlined although they are primitives."""

    def __init__(self, prog, roles, inline=(), kinds_e=None, sizes=(0, 1, 2), extra_prims=None):
        self.prog = prog
        self.roles = roles
        self.inline = set(inline)
        self.sizes_default = sizes
        self.extra = extra_prims or {}
        self.kinds_restrict = {}
        self.default_kinds = None

    # -- facts about terms -----------------------------------------------------
    def known_kind(self, I, t):
        if not isinstance(t, tuple):
            return None
        if t[0] == 'app':
            k = {'E.c': 'Constant', 'E.var': 'Var', 'F.var': 'Var', 'F.true': 'True', 'F.false': 'False'}.get(t[1])
            if k == 'Constant' and len(t) > 2 and is_lit(t[2]) and lit(t[2]) != lit(t[2]):
                return 'NaN'
            return k
        if t[0] == 'new':
            c = t[1].split('::')[-1]
            for k, v in list(KIND_CLASS_E.items()) + list(KIND_CLASS_F.items()):
                if v == c:
                    return k
        return None

    def restrict_kinds(self, I, t, ks):
        r = self.kinds_restrict.get(t)
        if t[0] == 'fld' and self.roles is not None and t[2] == self.roles.field.get(('FormulaNot', 'f')):
            # S09: a negation node is only built over a formula that is none of these
            own = I.kinds.get((t[1], FKIND))
            if own == frozenset(['Not']):
                ks = ks - {'True', 'False', 'Not'}
        if t[0] == 'elem' and len(t) == 3 and t[1][0] == 'fld' and self.roles is not None:
            # S09: operands of a connective are never of the same connective, nor constants
            own = I.kinds.get((t[1][1], FKIND))
            if own and len(own) == 1 and own <= {'And', 'Or'}:
                ks = ks - own - {'True', 'False'}
        if r is None and self.default_kinds is not None:
            r = self.default_kinds(I, t)
        if r is not None:
            return frozenset(r) & ks
        ty = I.types.get(t, '')
        if ty.startswith(DS):
            c = ty[len(DS):]
            for k, v in list(KIND_CLASS_E.items()) + list(KIND_CLASS_F.items()):
                if v == c and k in ks:
                    return frozenset([k])
        # operation results of known shape
        return ks

    def known_eq(self, I, a, b):
        ka, kb = self.known_kind(I, a), self.known_kind(I, b)
        ty = I.typeof(a)
        if ty in (EXPR, FORM):
            en = EKIND if ty == EXPR else FKIND
            sa = frozenset([ka]) if ka else I.kinds.get((a, en))
            sb = frozenset([kb]) if kb else I.kinds.get((b, en))
            if sa and sb and not (sa & sb):
                return False
        if ka and kb:
            if ka != kb:
                return False
            if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'E.c' and is_lit(a[2]) and is_lit(b[2]):
                return lit(a[2]) == lit(b[2])
            if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and a[1] in ('E.var', 'F.var'):
                return I.decide_eq(a[2], b[2])
        return None

    def rewrite_field(self, I, v, name):
        if isinstance(v, tuple) and v[0] == 'app':
            c = {'E.c': 'ExpressionConstant', 'E.var': 'ExpressionVar', 'F.var': 'FormulaVar'}.get(v[1])
            if c and self.roles:
                for (k, r), f in self.roles.field.items():
                    if k == c and f == name:
                        return v[2]
        return None

    def expr_zero(self):
        return E('c', ('flt', 0.0))

    def plus(self, I, op, a, b):
        t = E(op, canon(a), canon(b))
        I.types.setdefault(t, EXPR)
        return t

    def less(self, I, a, b):
        ty = I.typeof(canon(a)) or I.typeof(canon(b)) or ''
        if ty in (EXPR, FORM, VAR) or ty.startswith(DS):
            return ('app', 'less', canon(a), canon(b))
        return None

    def decide_atom(self, I, t):
        # a fresh variable is in no container that existed before it was created
        if t[0] == 'app' and t[1] == 'contains' and t[3][0] == 'app' and t[3][1] == 'V.fresh':
            return False
        return None

    def lookup(self, I, v):
        ty = I.types.get(v, '')
        if ty.startswith('std::set<' + VAR) or ty == VARS:
            return True
        if ty.startswith('std::unordered_map<' + VAR):
            return True
        if ty.startswith(('std::unordered_map<' + FORM, 'std::unordered_map<int', 'std::unordered_map<unsigned', 'std::unordered_map<std')):
            return True
        return False

    def convert(self, I, et, args):
        if et == EXPR and len(args) == 1:
            v = canon(I.settle(args[0]))
            ty = I.typeof(v)
            if ty == VAR:
                return self.mk(I, E('var', v), EXPR)
            if is_lit(v) and v[0] in ('flt', 'int'):
                return self.mk(I, E('c', ('flt', float(lit(v)))), EXPR)
            if ty in ('double', 'int'):
                return self.mk(I, E('c', v), EXPR)
            return v
        if et == FORM and len(args) == 1:
            v = canon(I.settle(args[0]))
            if I.typeof(v) == VAR:
                return self.mk(I, F('var', v), FORM)
            return v
        return None

    def mk(self, I, t, ty):
        I.types.setdefault(t, ty)
        return t

    def sizes(self, I, t, kind):
        # S09: connectives have at least two operands
        if t[0] == 'fld' and self.roles is not None and t[2] == self.roles.field.get(('NaryFormulaCell', 's')):
            return tuple(x for x in self.sizes_default if x >= 2) or (2,)
        return self.sizes_default

    # -- primitive calls -------------------------------------------------------
    def prim(self, I, ref):
        q = ref['q']
        x = self.extra.get(q) or self.extra.get(ref['fid'])
        if x is not None:
            return x
        if not q.startswith(DS):
            return None
        if q in self.inline or ref['fid'] in self.inline:
            return None
        name = q[len(DS):]
        h = METHODS.get(name)
        if h is not None:
            return h
        cls = ref.get('cls')
        if cls:
            if ref['fid'].startswith(cls + '::(ctor)'):
                return CTORS.get(cls)
            sh = cls[len(DS):] if cls.startswith(DS) else ''
            if sh in ('Expression', 'ExpressionCell') and name.split('::')[-1] in E_METHODS:
                return E_METHODS[name.split('::')[-1]]
            if sh in ('Formula', 'FormulaCell') and name.split('::')[-1] in F_METHODS:
                return F_METHODS[name.split('::')[-1]]
            return None
        ret = strip_type(ref.get('ret', ''))
        if ret == EXPR:
            if name in EFUN:
                return p_fun
            if ref.get('op'):
                return p_eop
            if name in ('to_expression',):
                return None
        if ret == FORM:
            if ref.get('op'):
                return p_fop
            if name in ('forall',):
                return p_forall
            if name in ('make_conjunction', 'make_disjunction'):
                return p_nary
        return None


def now(I, v):
    """The cell v refers to, as it is now (cells can be changed in place)."""
    if isinstance(v, tuple) and v[0] in ('sym', 'fld', 'elem', 'new', 'app'):
        x = I.heap.get(('*', v))
        if x is not None and isinstance(x, tuple) and x[0] == 'inst':
            x = canon(x)
            if x != v and x[0] == 'inst':
                I.types.setdefault(x, I.types.get(v, EXPR))
                return x
    return v


def vals(I, args):
    return [now(I, canon(I.settle(a))) for a in args]


def as_expr(I, v, ty):
    return I.cfg.convert(I, EXPR, [v]) if ty != EXPR else v


def p_fun(I, n, ref, obj, args):
    a = vals(I, args)
    name = ref['n']
    t = E(name, *a)
    return I.cfg.mk(I, t, EXPR)


def p_eop(I, n, ref, obj, args):
    op = ref['op']
    a = vals(I, args)
    a = [I.cfg.convert(I, EXPR, [x]) if strip_type(p) == VAR else x for x, p in zip(a, ref['pt'])]
    if op in ('+=', '-=', '*=', '/='):
        t = I.cfg.mk(I, E(op[0], *a), EXPR)
        if isinstance(args[0], LV):
            I.set(args[0], t)
            return args[0]
        return t
    if len(a) == 1:
        if op == '+':
            return a[0]
        return I.cfg.mk(I, E('neg', a[0]), EXPR)
    return I.cfg.mk(I, E(op, *a), EXPR)


def p_fop(I, n, ref, obj, args):
    op = ref['op']
    a = vals(I, args)
    pts = [strip_type(p) for p in ref['pt']]
    logical = op in ('&&', '||', '!') or FORM in pts
    out = []
    for x, p in zip(a, pts):
        if p == VAR:
            x = I.cfg.convert(I, FORM if logical or (op in ('==', '!=') and pts == [VAR, VAR] and I.cfg_varvar(x)) else EXPR, [x])
        out.append(x)
    if op == '==' and logical:
        t = F('iff', *out)
    elif op == '!=' and logical:
        t = F('xor', *out)
    elif op == '==' and pts == [VAR, VAR]:
        t = F('vareq', *a)
    elif op == '!=' and pts == [VAR, VAR]:
        t = F('varneq', *a)
    else:
        t = F(op, *out)
    return I.cfg.mk(I, t, FORM)


def p_forall(I, n, ref, obj, args):
    return I.cfg.mk(I, F('forall', *vals(I, args)), FORM)


def p_nary(I, n, ref, obj, args):
    a = vals(I, args)
    if len(a) == 1:
        return I.cfg.mk(I, F('all' if ref['n'] == 'make_conjunction' else 'any', a[0]), FORM)
    t = I.cfg.mk(I, F('&&' if ref['n'] == 'make_conjunction' else '||', *a), FORM)
    if isinstance(args[0], LV):
        I.set(args[0], t)
        return args[0]
    return t


# constructors

def c_expr(I, n, ref, obj, args):
    if not args:
        return I.cfg.mk(I, E('c', ('flt', 0.0)), EXPR)
    pt = strip_type(ref['pt'][0])
    v = canon(I.settle(args[0]))
    if pt == VAR:
        return I.cfg.mk(I, E('var', v), EXPR)
    if pt in ('double', 'int'):
        if is_lit(v):
            v = ('flt', float(lit(v)))
        return I.cfg.mk(I, E('c', v), EXPR)
    if isinstance(v, tuple) and v[0] == 'ptr':
        v = canon(I.get(v[1]))
    if isinstance(v, tuple) and v[0] == 'new':
        I.types.setdefault(v, EXPR)
    return v


def c_form(I, n, ref, obj, args):
    if not args:
        return I.cfg.mk(I, F('true'), FORM)
    pt = strip_type(ref['pt'][0])
    v = canon(I.settle(args[0]))
    if pt == VAR:
        return I.cfg.mk(I, F('var', v), FORM)
    if isinstance(v, tuple) and v[0] == 'ptr':
        v = canon(I.get(v[1]))
    if isinstance(v, tuple) and v[0] == 'new':
        I.types.setdefault(v, FORM)
    return v


def c_var(I, n, ref, obj, args):
    if not args:
        return I.cfg.mk(I, ('app', 'dummy_variable'), VAR)
    pt = strip_type(ref['pt'][0])
    v = canon(I.settle(args[0]))
    if pt == VAR:
        return v
    k = getattr(I, '_fresh', 0)
    I._fresh = k + 1
    rest = vals(I, args[1:])
    t = ('app', 'V.fresh', ('int', len([1 for e in I.events if e[0] == 'newvar'])), v) + tuple(rest)
    I.events.append(('newvar', t))
    return I.cfg.mk(I, t, VAR)


CTORS = {EXPR: c_expr, FORM: c_form, VAR: c_var}


# methods

def self_val(I, obj):
    v = canon(I.get(obj))
    if isinstance(v, tuple) and v[0] == 'ptr':
        v = canon(I.get(v[1]))
    return now(I, v)


def meth(op, ty):
    def f(I, n, ref, obj, args):
        e = self_val(I, obj)
        t = ('app', op, e) + tuple(vals(I, args))
        return I.cfg.mk(I, t, ty) if ty else t
    return f


def m_kind(I, n, ref, obj, args):
    e = self_val(I, obj)
    k = I.cfg.known_kind(I, e)
    cls = ref.get('cls', '')
    en = EKIND if 'Expression' in cls else FKIND
    if k:
        return ('enum', en + '::' + k, en, enum_val(I, en, k))
    return I.cfg.mk(I, ('kind', e), en)


def enum_val(I, en, k):
    for c in I.prog.enums[en]['consts']:
        if c['name'] == k:
            return c['val']
    return -1


def m_equal(I, n, ref, obj, args):
    a, b = self_val(I, obj), vals(I, args)[0]
    if a == b:
        return TRUE
    r = I.cfg.known_eq(I, a, b)
    if r is not None:
        return mkbool(r)
    return ('eq', a, b)


def m_subst(op, ty):
    def f(I, n, ref, obj, args):
        e = self_val(I, obj)
        pts = [strip_type(p) for p in ref['pt']]
        a = vals(I, args)
        es, fs = coll('map', []), coll('map', [])
        if pts and pts[0] == VAR:
            m = coll('map', [('pair', a[0], a[1])])
            if pts[1] == EXPR:
                es = m
            else:
                fs = m
        else:
            for p, v in zip(pts, a):
                ta = template_args(p)
                if len(ta) > 1 and strip_type(ta[1]) == EXPR:
                    es = v
                else:
                    fs = v
        return I.cfg.mk(I, ('app', op, e, es, fs), ty)
    return f


def m_static(v, ty):
    def f(I, n, ref, obj, args):
        return I.cfg.mk(I, v, ty)
    return f


import math as _math
METHODS = {
    'Expression::Zero': m_static(E('c', ('flt', 0.0)), EXPR), 'Expression::One': m_static(E('c', ('flt', 1.0)), EXPR),
    'Expression::Pi': m_static(E('c', ('flt', _math.pi)), EXPR), 'Expression::E': m_static(E('c', ('flt', _math.e)), EXPR),
    'Expression::NaN': m_static(E('c', ('flt', _math.nan)), EXPR),
    'Formula::True': m_static(F('true'), FORM), 'Formula::False': m_static(F('false'), FORM),
}


def m_opeq_inc(op):
    def f(I, n, ref, obj, args):
        old = self_val(I, obj)
        new = I.cfg.mk(I, E(op, old, E('c', ('flt', 1.0))), EXPR)
        I.set(obj, new)
        return old if ref['pt'] else obj
    return f


E_METHODS = {
    'get_kind': m_kind, 'EqualTo': m_equal, 'Less': meth('less', 'bool'), 'get_hash': meth('hash', 'unsigned long'),
    'GetVariables': meth('vars', VARS), 'Evaluate': meth('E.eval', 'double'), 'EvaluatePartial': meth('E.partial', EXPR),
    'Expand': meth('E.expand', EXPR), 'Differentiate': meth('E.diff', EXPR), 'Substitute': m_subst('E.subst', EXPR),
    'to_string': meth('to_string', 'std::string'), 'is_polynomial': meth('is_polynomial', 'bool'), 'include_ite': meth('include_ite', 'bool'),
    'operator++': m_opeq_inc('+'), 'operator--': m_opeq_inc('-'),
    'GetExpression': lambda I, n, ref, obj, args: self_val(I, obj),
    'use_count': meth('use_count', 'unsigned int'),
}
F_METHODS = {
    'get_kind': m_kind, 'EqualTo': m_equal, 'Less': meth('less', 'bool'), 'get_hash': meth('hash', 'unsigned long'),
    'GetFreeVariables': meth('vars', VARS), 'Evaluate': meth('F.eval', 'bool'), 'Substitute': m_subst('F.subst', FORM),
    'to_string': meth('to_string', 'std::string'), 'include_ite': meth('include_ite', 'bool'),
    'make_conjunction': p_nary, 'make_disjunction': p_nary,
    'GetFormula': lambda I, n, ref, obj, args: self_val(I, obj),
    'use_count': meth('use_count', 'unsigned int'),
}


def v_equal(I, n, ref, obj, args):
    return ('eq', self_val(I, obj), vals(I, args)[0]) if self_val(I, obj) != vals(I, args)[0] else TRUE


V_PRIMS = {
    'Variable::equal_to': v_equal,
    'Variable::less': meth('less', 'bool'),
    'Variable::get_id': meth('V.id', 'unsigned long'),
    'Variable::get_name': meth('V.name', 'std::string'),
    'Variable::get_type': meth('V.type', DS + 'Variable::Type'),
    'Variable::get_hash': meth('hash', 'unsigned long'),
    'Variable::to_string': meth('V.name', 'std::string'),
    'Variable::is_dummy': meth('V.dummy', 'bool'),
}
METHODS.update(V_PRIMS)


def _cfg_varvar(self, x):
    return False


Interp.cfg_varvar = _cfg_varvar
