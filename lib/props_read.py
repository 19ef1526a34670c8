"""The readers of the input languages (P02)."""
import itertools
import re

import extract
import grammar
from check import parallel
from common import *
from engine import LV, Thrown, is_lit, lit
from equiv import viol
from sym import E, F, UNARY, BINARY

SMT, DR = 'dreal/smt2', 'dreal/dr'
TERMT, LISTT = 'Term', 'std::vector<Term>'


# --- meanings --------------------------------------------------------------------------------

def fold(op, mk):
    def f(a):
        r = a[0]
        for x in a[1:]:
            r = mk(op, r, x)
        return r
    return f


def chain(op):
    def f(a):
        r = F(op, a[0], a[1])
        for x, y in zip(a[1:], a[2:]):
            r = F('&&', r, F(op, x, y))
        return r
    return f


def implies(a):
    r = a[-1]
    for x in reversed(a[:-1]):
        r = F('||', F('!', x), r)
    return r


def distinct(a):
    r = None
    for x, y in itertools.combinations(a, 2):
        t = F('!=', x, y)
        r = t if r is None else F('&&', r, t)
    return r


def ite_f(a):
    return F('||', F('&&', a[0], a[1]), F('&&', F('!', a[0]), a[2]))


# word -> [(sorts of the arguments (* repeats), smallest number of arguments, result sort, value)]
MEANING = {
    'true': [('', 0, 'F', lambda a: F('true'))], 'false': [('', 0, 'F', lambda a: F('false'))],
    '=': [('E*', 2, 'F', chain('==')), ('F*', 2, 'F', chain('iff'))],
    'distinct': [('E*', 2, 'F', distinct)],
    'and': [('F*', 1, 'F', fold('&&', F))], 'or': [('F*', 1, 'F', fold('||', F))], 'xor': [('F*', 1, 'F', fold('xor', F))],
    'not': [('F', 1, 'F', lambda a: F('!', a[0]))], '=>': [('F*', 2, 'F', implies)], 'implies': [('F*', 2, 'F', implies)],
    'ite': [('FEE', 3, 'E', lambda a: E('if_then_else', *a)), ('FFF', 3, 'F', ite_f)],
    '+': [('E*', 1, 'E', fold('+', E))], '*': [('E*', 1, 'E', fold('*', E))], '/': [('E*', 2, 'E', fold('/', E))],
    '-': [('E', 1, 'E', lambda a: E('neg', a[0])), ('E*', 2, 'E', fold('-', E))],
}
for _w in ('<', '<=', '>', '>='):
    MEANING[_w] = [('E*', 2, 'F', chain(_w))]
for _w in UNARY:
    MEANING[_w] = [('E', 1, 'E', lambda a, w=_w: E(w, a[0]))]
for _w in BINARY:
    MEANING[_w] = [('EE', 2, 'E', lambda a, w=_w: E(w, *a))]
for _a, _b in (('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan'), ('arctan2', 'atan2'), ('^', 'pow')):
    MEANING[_a] = MEANING[_b]


def meaning(word, sorts):
    """The result sort and value of a word applied to arguments of these sorts, or None."""
    for pat, n, res, f in MEANING[word]:
        if len(sorts) < n:
            continue
        if pat.endswith('*'):
            ok = all(s == pat[0] for s in sorts)
        else:
            ok = ''.join(sorts) == pat
        if ok:
            return res, f
    return None


# --- probes ----------------------------------------------------------------------------------

class Probe:
    """C++ functions that run one grammar action on given operands."""

    def __init__(self, g, ns, head):
        self.g, self.ns = g, ns
        self.out = [head] + [re.sub(r'^#pragma.*$|^#(undef|define|ifdef|endif|if|else).*$', '', p, flags=re.M) for p in g.prologue if 'yylex' not in p] + \
            ['namespace dreal { namespace probe { namespace %s {' % ns,
             'struct Abort : public std::runtime_error { Abort() : std::runtime_error("abort") {} };',
             'struct Accept {};', '#define YYABORT throw Abort()', '#define YYERROR throw Abort()', '#define YYACCEPT throw Accept()']

    def add(self, name, ret, params, pre, rule, post):
        self.out.append('%s %s(%s) { %s location loc; (void)loc;\n{ %s }\n%s }' %
                        (ret, name, params, pre, grammar.action_code(rule) if rule.action is not None else 'yyval = s1;', post))

    def text(self):
        return '\n'.join(self.out + ['}}}'])

    def fn(self, env, name):
        return env.prog.one('dreal::probe::%s::%s' % (self.ns, name))


CT = {'E': 'const Expression& ', 'F': 'const Formula& '}
ACC = {'E': ('Expression', 'expression'), 'F': ('Formula', 'formula')}


def words_of(sc, tok):
    out = []
    for cond, rx, pat, act, line in sc.rules:
        if not cond and re.findall(r'token::(\w+)', act) == [tok] and re.fullmatch(r'("[^"]+"\|?)+', pat):
            out += re.findall(r'"([^"]+)"', pat)
    return out


def applications(g, sc):
    """Rules of the form ( word term ... ) with the words of their token."""
    for r in g.by_lhs.get('term', []):
        s = r.syms
        if s and s[0] == "'('" and s[-1] == "')'" and len(s) > 2 and s[1] in g.tokens and s[1] not in g.types:
            if all(g.types.get(x) in (TERMT, LISTT) for x in s[2:-1]):
                yield r, s[1], [(i + 3, g.types[x]) for i, x in enumerate(s[2:-1])]
        elif len(s) == 1 and s[0] in g.tokens and s[0] not in g.types:
            yield r, s[0], []


def sort_choices(n):
    """Argument sorts: uniform, one different, and everything for few arguments."""
    if n <= 3:
        return [''.join(x) for x in itertools.product('EF', repeat=n)]
    out = {'E' * n, 'F' * n}
    for i in range(n):
        out.add('E' * i + 'F' + 'E' * (n - i - 1))
        out.add('F' * i + 'E' + 'F' * (n - i - 1))
    return sorted(out)


def term_jobs(env_, c, g, sc, pr):
    """(probe registration, job) of every application."""
    jobs = []
    k = 0
    maxlist = 3 if c.tier == 'quick' else 4
    for r, tok, args in applications(g, sc):
        ws = words_of(sc, tok)
        lens = [[1] if t == TERMT else list(range(1, maxlist + 1)) for _, t in args]
        for ls in itertools.product(*lens):
            n = sum(ls)
            for ss in sort_choices(n):
                wants = [(w, meaning(w, ss)) for w in ws if w in MEANING]
                unknown = [w for w in ws if w not in MEANING]
                if unknown and not wants:
                    continue
                params = ', '.join(CT[s] + 'a%d' % i for i, s in enumerate(ss))
                pre, j = [], 0
                for (pos, t), l in zip(args, ls):
                    it = ['Term{a%d}' % x for x in range(j, j + l)]
                    pre.append('Term s%d{a%d};' % (pos, j) if t == TERMT else 'std::vector<Term> s%d{%s};' % (pos, ', '.join(it)))
                    j += l
                for res in sorted({w[1][0] if w[1] else 'E' for w in wants}):
                    name = 'r%d' % k
                    k += 1
                    pr.add(name, ACC[res][0], params, ' '.join(pre) + ' Term yyval;', r, 'return yyval.%s();' % ACC[res][1])
                    for w, want in wants:
                        if (want[0] if want else 'E') == res:
                            jobs.append((name, w, ss, want, r))
    return jobs


def judge_term(env, pr, file, name, w, ss, want, rule):
    f = pr.fn(env, name)
    label = '%s:%d: (%s %s)' % (file, rule.line, w, ' '.join('real' if s == 'E' else 'bool' for s in ss))
    if want is None:
        r = Result(label, f)
        r.fn = '%s:%d' % (file, rule.line)
        I = Interp(env.prog, read_cfg(env))
        for p in I.explore(f, setup_for(f)):
            r.paths += 1
            if p.outcome[0] == 'unsupported':
                r.undecided.append('%s: %s' % (label, p.outcome[1]))
            elif p.outcome[0] == 'throw':
                r.agree += 1
            else:
                r.violations.append((label, '%s: an ill-typed term is read as %s instead of being rejected' % (label, show(p.outcome[1])[:200])))
        return r
    a = [('sym', 'a%d' % i) for i in range(len(ss))]
    t = want[1](a)
    spec = (lambda m, p: m.E(t, C0)) if want[0] == 'E' else (lambda m, p: m.F(t, C0))
    r = run(env, label, f, setup_for(f), spec, result=ret_E if want[0] == 'E' else ret_F, cfg=read_cfg(env))
    r.fn = '%s:%d' % (file, rule.line)
    return r


CTX = 'dreal::Context'


def fv(t):
    """Free variables of a term built from variables and constants, in order, or None."""
    if not (isinstance(t, tuple) and t and t[0] == 'app'):
        return None
    op = t[1]
    if op in ('E.var', 'F.var'):
        return [t[2]]
    if op in ('E.c', 'F.true', 'F.false'):
        return []
    if op == 'F.forall':
        bs, r = bound_set(t[2]), fv(t[3])
        return None if bs is None or r is None else [v for v in r if v not in bs]
    if op not in ('F.==', 'F.!=', 'F.<', 'F.<=', 'F.>', 'F.>=', 'F.&&', 'F.||', 'F.!', 'F.iff', 'E.+', 'E.-', 'E.*', 'E.neg'):
        return None
    out = []
    for x in t[2:]:
        r = fv(x)
        if r is None:
            return None
        out += [v for v in r if v not in out]
    return out


def bound_set(v):
    if isinstance(v, tuple) and v[0] == 'inst':
        v = dict((a, b) for a, b in v[3]).get('vars_')
    return v[2] if isinstance(v, tuple) and v[0] == 'coll' and v[3] is None else None


def replace(t, m):
    if t[0] == 'app' and t[1] == 'F.forall':
        m = {a: b for a, b in m.items() if a not in (bound_set(t[2]) or ())}
        return t[:3] + (replace(t[3], m),)
    if t[0] == 'app' and t[1] in ('E.var', 'F.var'):
        return m.get(t[2], t)
    return t[:2] + tuple(replace(x, m) if isinstance(x, tuple) and x and x[0] == 'app' else x for x in t[2:])


class ReadCfg(sym.SymConfig):
    """The terms of the probes have known variables; the solving context is a recorder."""

    def known_eq(self, I, a, b):
        if a[0] == b[0] == 'sym' and I.typeof(a) == VAR and I.typeof(b) == VAR:
            return a == b
        if a[0] == b[0] == 'app' and a[1] == b[1] == 'V.fresh':
            return a == b
        if (a[0], b[0]) in (('sym', 'app'), ('app', 'sym')) and VAR in (I.typeof(a), I.typeof(b)) and 'V.fresh' in (a[1], b[1]):
            return False
        return super().known_eq(I, a, b)

    def prim(self, I, ref):
        cls, n = ref.get('cls', ''), ref['n']
        if cls == CTX:
            if '(ctor)' in ref['fid']:
                return lambda I, n_, ref, obj, args: I.cfg.mk(I, ('sym', 'context'), CTX)
            return self.context
        if n == 'GetFreeVariables' and cls.startswith(DS):
            return self.free_variables
        if n == 'Substitute' and cls.startswith(DS):
            return self.substitute
        if cls == DS + 'Formula' and '(ctor)' in ref['fid'] and len(ref['pt']) == 1 and strip_type(ref['pt'][0]) == VAR:
            return self.formula_var
        if cls == VAR and n == 'get_type':
            return self.vtype
        if cls == VAR and n in ('get_name', 'to_string'):
            return self.vname
        return super().prim(I, ref)

    def context(self, I, n, ref, obj, args):
        vs = tuple(vals_(I, args))
        k = len(I.events)
        I.events.append(('ctx', ref['n']) + vs)
        if ref['n'] == 'mutable_config' or strip_type(ref.get('ret', 'void')) == 'void':
            return None
        t = ('app', 'ctx.' + ref['n'], ('int', k))
        return I.cfg.mk(I, t, strip_type(ref['ret']))

    def free_variables(self, I, n, ref, obj, args):
        t = sym.self_val(I, obj)
        r = fv(t)
        if r is None:
            return sym.meth('vars', VARS)(I, n, ref, obj, args)
        return ('inst', VARS, None, (('vars_', ('coll', 'set', tuple(r), None)),))

    def substitute(self, I, n, ref, obj, args):
        t = sym.self_val(I, obj)
        if len(args) == 2 and fv(t) is not None and strip_type(ref['pt'][0]) == VAR:
            a = sym.vals(I, args)
            bv = fv(a[1])
            if bv is not None:
                r = replace(t, {a[0]: a[1]})
                I.types.setdefault(r, strip_type(ref['ret']))
                return r
        return super().prim(I, ref)(I, n, ref, obj, args)

    def formula_var(self, I, n, ref, obj, args):
        v = canon(I.settle(args[0]))
        t = self.vtype(I, n, dict(ref, n='get_type'), args[0] if isinstance(args[0], LV) else I.new_root(v), [])
        if isinstance(t, tuple) and t[0] == 'enum' and not t[1].endswith('::BOOLEAN'):
            raise Thrown('std::runtime_error', None)
        return super().prim(I, ref)(I, n, ref, obj, args)

    def vtype(self, I, n, ref, obj, args):
        v = sym.self_val(I, obj)
        if v[0] == 'sym' and v[1].rstrip('0123456789') in TYPED:
            k = TYPED[v[1].rstrip('0123456789')]
            return ('enum', DS + 'Variable::Type::' + k, DS + 'Variable::Type', sym.enum_val(I, DS + 'Variable::Type', k))
        if v[0] == 'app' and v[1] == 'V.fresh':
            return v[4] if len(v) > 4 else ('enum', DS + 'Variable::Type::CONTINUOUS', DS + 'Variable::Type', sym.enum_val(I, DS + 'Variable::Type', 'CONTINUOUS'))
        return sym.METHODS['Variable::get_type'](I, n, ref, obj, args)

    def vname(self, I, n, ref, obj, args):
        v = sym.self_val(I, obj)
        if v[0] == 'app' and v[1] == 'V.fresh':
            return v[3]
        return sym.METHODS['Variable::get_name'](I, n, ref, obj, args)


TYPED = {'x': 'CONTINUOUS', 'y': 'CONTINUOUS', 'b': 'BOOLEAN', 'n': 'INTEGER', 'z': 'BINARY'}


def vals_(I, args):
    out = []
    for a in args:
        v = I.settle(a)
        if isinstance(v, tuple) and v[0] == 'ptr':
            v = I.get(v[1])
        out.append(sym.now(I, canon(v)))
    return out


def read_cfg(env):
    return ReadCfg(env.prog, env.roles)


# --- quantifiers -------------------------------------------------------------------------------

def the_rule(g, lhs, *must, file=''):
    rs = [r for r in g.by_lhs.get(lhs, []) if all(m in r.syms for m in must)]
    if len(rs) != 1:
        raise AnalysisBroken('%s: %d rules for %s with %s' % (g.file, len(rs), lhs, ' '.join(must)))
    return rs[0]


BOUNDS = {'': ('-inf', 'inf'), 'l': ('1.0', 'inf'), 'u': ('-inf', '0.0'), 'lu': ('0.0', '1.0'), 'e': ('1.0', '0.0'), 'n': ('-inf', '-inf')}


def forall_jobs(g, pr, tier):
    """Quantified terms: the list of bound variables is built by the rules of the list, from the last to the first."""
    fa = the_rule(g, 'term', 'TK_FORALL')
    pos = {s: i + 1 for i, s in enumerate(fa.syms)}
    lst = [s for s in fa.syms if s in g.types and s != 'term']
    if len(lst) != 1 or 'term' not in pos:
        raise AnalysisBroken('%s:%d: unexpected forall rule' % (g.file, fa.line))
    lname = lst[0]
    empty = [r for r in g.by_lhs[lname] if not r.syms]
    cons = [r for r in g.by_lhs[lname] if r.syms]
    if len(empty) != 1 or len(cons) != 1 or len(cons[0].syms) != 2:
        raise AnalysisBroken('%s: unexpected rules of %s' % (g.file, lname))
    empty, cons = empty[0], cons[0]
    rec = cons.syms.index(lname) + 1
    item = 3 - rec
    lty, ity = g.types[lname], g.types[cons.syms[item - 1]]
    one = [('x', b) for b in ('', 'l', 'u', 'lu', 'e')] + [('b', ''), ('n', 'lu')]
    lists = [[]] + [[a] for a in one] + [[('x', 'l'), ('x', 'u')], [('x', ''), ('b', '')], [('b', ''), ('b', '')], [('x', 'lu'), ('n', '')]]
    if tier != 'quick':
        lists = [[]] + [[a] for a in one] + [[a, b] for a in one for b in one] + [[('x', 'l'), ('b', ''), ('x', 'u')]]
    jobs = []
    for vs in lists:
        names = ['%s%d' % (k, i) for i, (k, _) in enumerate(vs)]
        for used in itertools.product((0, 1), repeat=len(vs)):
            code = ['const double inf = std::numeric_limits<double>::infinity(); (void)inf;', '%s L;' % lty,
                    '{ %s yyval; { %s } L = yyval; }' % (lty, grammar.action_code(empty))]
            for nm, (k, b) in reversed(list(zip(names, vs))):
                lo, hi = BOUNDS[b]
                code.append('{ %s yyval; %s s%d{%s, %s, %s}; %s s%d = L; { %s } L = yyval; }' % (lty, ity, item, nm, lo, hi, lty, rec, grammar.action_code(cons)))
            body, bt = 'y <= 0.5', F('<=', E('var', ('sym', 'y')), E('c', ('flt', 0.5)))
            for nm, (k, b), u in zip(names, vs, used):
                if u and k == 'b':
                    body, bt = '(%s || Formula(%s))' % (body, nm), F('||', bt, F('var', ('sym', nm)))
                elif u:
                    body, bt = '(%s && %s <= y)' % (body, nm), F('&&', bt, F('<=', E('var', ('sym', nm)), E('var', ('sym', 'y'))))
            dom = F('true')
            for nm, (k, b) in zip(names, vs):
                lo, hi = BOUNDS[b]
                if 'inf' not in lo:
                    dom = F('&&', dom, F('<=', E('c', ('flt', float(lo))), E('var', ('sym', nm))))
                if 'inf' not in hi:
                    dom = F('&&', dom, F('<=', E('var', ('sym', nm)), E('c', ('flt', float(hi)))))
            want = F('forall', ('coll', 'set', tuple(('sym', n) for n in names), None), F('||', F('!', dom), bt)) if names else F('||', F('!', dom), bt)
            name = 'fa%d' % len(jobs)
            # symbols of the rule that carry no value are not mentioned by the action
            code.append('%s s%d = L; Term s%d{%s}; Term yyval;' % (lty, pos[lname], pos['term'], body))
            pr.add(name, 'Formula', ', '.join(['Smt2Driver& driver', 'const Variable& y'] + ['const Variable& ' + n for n in names]), ' '.join(code), fa, 'return yyval.formula();')
            label = '%s:%d: (forall (%s) %s)' % (g.file, fa.line, ' '.join('(%s%s)' % (n, ' [%s, %s]' % BOUNDS[b] if b else '') for n, (k, b) in zip(names, vs)),
                                                 'a term with %s' % (', '.join(n for n, u in zip(names, used) if u) or 'none of them'))
            jobs.append((name, label, names, want, fa))
    return jobs


def judge_forall(env, pr, name, label, names, want, rule):
    f = pr.fn(env, name)

    def pre(m, p):
        vs = [('sym', n) for n in names + ['y']]
        if len({m.V(v) for v in vs}) < len(vs):
            raise Reject()
        for v in vs:
            m.memo[('vtype', m.V(v))] = TYPED[v[1].rstrip('0123456789')]
    r = Result(label, f)
    r.fn = label.split(': ')[0]
    I = Interp(env.prog, read_cfg(env))
    for p in I.explore(f, setup_for(f)):
        r.paths += 1
        left = [n for n in names if n[0] == 'b' and p.outcome[0] == 'ret' and quantified(p.outcome[1], ('sym', n))]
        if left:
            r.violations.append((label, '%s: the Boolean variable %s is left to the quantifier in %s' % (label, left[0], show(p.outcome[1])[:300])))
            continue
        decide_path(env, r, I, p, lambda m, p: m.F(want, C0), ret_F, None, pre=pre)
    return r


def quantified(t, v):
    if not isinstance(t, tuple):
        return False
    if t[:2] == ('app', 'F.forall') and mentions(t[2], v):
        return True
    return any(quantified(x, v) for x in t)


def mentions(t, v):
    return t == v or isinstance(t, tuple) and any(mentions(x, v) for x in t)


def check_P02(c):
    gs, ss = grammar.Grammar(SMT + '/parser.yy'), grammar.Scanner(SMT + '/scanner.ll')
    pr = Probe(gs, 'smt2rules', '#include "dreal/smt2/driver.h"\n#include "dreal/smt2/scanner.h"\n#include <iostream>\n#include <limits>\n#include <sstream>')
    tj = term_jobs(None, c, gs, ss, pr)
    fj = forall_jobs(gs, pr, c.tier)
    import props_text
    probes = list(props_text.run_texts(c))
    texts = probes.pop()
    env = make_env(c, extract.all_tus() + [extract.probe('smt2rules', pr.text())] + probes)
    jobs = [lambda a=a: judge_term(env, pr, SMT + '/parser.yy', *a) for a in tj]
    jobs += [lambda a=a: judge_forall(env, pr, *a) for a in fj]
    jobs += [lambda a=a: props_text.judge_job(env, *a) for a in texts]
    c.add(parallel(jobs))
    return len(jobs)
