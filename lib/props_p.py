"""The SMT-LIB and DR front ends: names, terms and commands (P01, P02)."""
import re

import extract
import model as M
from check import parallel
from common import *
from engine import is_lit, lit
import props_cell  # noqa: F401 (resolves the import order)
from props_print import piece_cfg

HEAD = '''#include <sstream>
#include "dreal/smt2/command.h"
#include "dreal/smt2/command_cell.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
namespace dreal { namespace probe { namespace smt2 {
'''
NS = 'dreal::probe::smt2::'
VTYPE = 'dreal::drake::symbolic::Variable::Type'
NAMED = {'Sort': ('dreal::Sort', 'ParseSort'), 'Logic': ('dreal::Logic', 'parse_logic')}
SORTTYPE = {'Binary': 'BINARY', 'Bool': 'BOOLEAN', 'Int': 'INTEGER', 'Real': 'CONTINUOUS'}
ARITH = {'CONTINUOUS', 'INTEGER', 'BINARY'}
FACTORY = [  # call, parameters, text
    ('assert_command(f)', 'const Formula& f', ['(assert ', 'f', ')']), ('check_sat_command()', '', ['(check-sat)']),
    ('exit_command()', '', ['(exit)']), ('pop_command(n)', 'int n', ['(pop ', 'n', ')']), ('push_command(n)', 'int n', ['(push ', 'n', ')']),
    ('reset_command()', '', ['(reset)']), ('set_info_command(a, b)', 'const std::string& a, const std::string& b', ['(set-info ', 'a', ' ', 'b', ')']),
    ('set_logic_command(l)', 'Logic l', ['(set-logic ', 'l', ')']),
    ('set_option_command(a, b)', 'const std::string& a, const std::string& b', ['(set-option ', 'a', ' ', 'b', ')']),
    ('PopCommand{n}', 'int n', None)]
CELLS = ['AssertCommand', 'CheckSatCommand', 'EchoCommand', 'ExitCommand', 'GetAssertionsCommand', 'GetModelCommand', 'GetOptionCommand', 'GetProofCommand',
         'GetUnsatAssumptionsCommand', 'GetUnsatCoreCommand', 'PopCommand', 'PushCommand', 'ResetCommand', 'ResetAssertionsCommand', 'SetInfoCommand',
         'SetLogicCommand', 'SetOptionCommand']


def consts(prog, en):
    e = prog.enums.get(en)
    if not e:
        raise AnalysisBroken('enumeration %s not found' % en)
    return [c['q'].split('::')[-1] if 'q' in c else c['name'] for c in e['consts']]


def wrong_names(names):
    out = {'', 'x'}
    for n in names:
        out |= {n.lower(), n.upper(), n + ' ', ' ' + n, n[:-1], n + 'T', n[:1] + n, n + '\\n', '|' + n + '|'}
    return sorted(out - set(names))


def probe_source(prog):
    out = [HEAD]
    fns = []

    def add(name, ret, params, body):
        out.append('%s %s(%s) { %s }' % (ret, name, params, body))
        fns.append(name)
    for t, (en, parse) in NAMED.items():
        for i, n in enumerate(consts(prog, en)):
            add('%s_is%d' % (t, i), t, '', 'return %s("%s");' % (parse, n))
        for i, n in enumerate(wrong_names(consts(prog, en))):
            add('%s_no%d' % (t, i), t, '', 'return %s("%s");' % (parse, n))
        add('%s_any' % t, t, 'const std::string& s', 'return %s(s);' % parse)
        add('%s_print' % t, 'void', 'std::ostream& o, const %s& v' % t, 'o << v;')
    add('conv', 'Variable::Type', 'Sort s', 'return SortToType(s);')
    K = {'e': ('Expression', 'EXPRESSION', 'expression'), 'f': ('Formula', 'FORMULA', 'formula')}
    for k, (ty, en, acc) in K.items():
        o = K['f' if k == 'e' else 'e']
        P = 'const %s& a' % ty
        for w, mk in (('ctor', 'Term t{a};'), ('copy', 'const Term u{a}; Term t{u};'), ('move', 'Term u{a}; Term t{std::move(u)};'),
                      ('set', 'Term t; t = a;'), ('seto', 'Term t{b}; t = a;'), ('cpas', 'Term t{b}; const Term u{a}; t = u;'),
                      ('mvas', 'Term t{b}; Term u{a}; t = std::move(u);'), ('same', 'Term t{c}; t = a;')):
            Q = P + (', const %s& b' % o[0] if 'b}' in mk else '') + (', const %s& c' % ty if '{c}' in mk else '')
            add('%s_%s_get' % (k, w), ty, Q, mk + ' return t.%s();' % acc)
            add('%s_%s_mget' % (k, w), ty, Q, mk + ' return t.mutable_%s();' % acc)
            add('%s_%s_bad' % (k, w), o[0], Q, mk + ' return t.%s();' % o[2])
            add('%s_%s_mbad' % (k, w), o[0], Q, mk + ' return t.mutable_%s();' % o[2])
            add('%s_%s_type' % (k, w), 'Term::Type', Q, mk + ' return t.type();')
        add('%s_mut' % k, ty, P + ', const %s& c' % ty, 'Term t{c}; t.mutable_%s() = a; return t.%s();' % (acc, acc))
        add('%s_copykeep' % k, ty, P + ', const %s& c' % ty, 'Term t{a}; Term u{t}; u.mutable_%s() = c; return t.%s();' % (acc, acc))
        add('%s_subs_e' % k, ty, P + ', const Variable& v, const Expression& t', 'return Term{a}.Substitute(v, Term{t}).%s();' % acc)
        add('%s_subs_f' % k, ty, P + ', const Variable& v, const Formula& t', 'return Term{a}.Substitute(v, Term{t}).%s();' % acc)
        add('%s_sort' % k, 'int', P + ', Sort s', 'const Term t{a}; t.Check(s); return 1;')
        add('%s_vtype' % k, 'int', P + ', Variable::Type s', 'const Term t{a}; t.Check(s); return 1;')
        add('%s_print' % k, 'void', 'std::ostream& o, ' + P, 'const Term t{a}; o << t;')
    add('dflt', 'Formula', '', 'const Term t; return t.formula();')
    for i, (call, params, text) in enumerate(FACTORY):
        if text:
            add('cmd%d' % i, 'void', 'std::ostream& o' + (', ' + params if params else ''), 'o << %s;' % call)
    out.append('}}}')
    return '\n'.join(out)


# --- judging -------------------------------------------------------------------------------

def explore(env, name, label, cfg=None):
    f = env.prog.one(NS + name)
    I = Interp(env.prog, cfg or sym.SymConfig(env.prog, env.roles))
    r = Result(label, f)
    ps = I.explore(f, setup_for(f))
    ok = []
    for p in ps:
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s [%s]' % (label, p.outcome[1], p.describe()[:200]))
        else:
            ok.append(p)
    return r, I, ok


def kinds_of(p, t):
    return next((ks for (x, _), ks in p.kinds.items() if x == t), None)


def enum_name(v):
    return v[1].split('::')[-1] if isinstance(v, tuple) and v and v[0] == 'enum' else None


def complain(r, p, what):
    lines = [l for l in p.lines if l]
    r.violations.append((r.name, '%s: %s (when %s)%s' % (r.fn, what, p.describe()[:300], ' [decided at %s]' % lines[-1] if lines else '')))


def rejected(p):
    return p.outcome[0] == 'throw'


def known_name(env, t, i, n):
    r, I, ps = explore(env, '%s_is%d' % (t, i), 'the name %s' % n)
    for p in ps:
        if p.outcome[0] != 'ret':
            complain(r, p, 'the name "%s" of %s is not accepted: %s' % (n, t, str(p.outcome)[:100]))
        elif enum_name(p.outcome[1]) is None:
            r.undecided.append('%s: result %s' % (r.name, show(p.outcome[1])[:100]))
        elif enum_name(p.outcome[1]) != n:
            complain(r, p, 'the name "%s" is read as %s::%s' % (n, t, enum_name(p.outcome[1])))
        else:
            r.agree += 1
    return r


def unknown_name(env, t, i, n):
    r, I, ps = explore(env, '%s_no%d' % (t, i), 'the unknown name "%s" of a %s' % (n, t))
    for p in ps:
        if rejected(p):
            r.agree += 1
        else:
            complain(r, p, '"%s" names no %s but is not rejected with an error: %s' % (n, t, show(p.outcome[1]) if isinstance(p.outcome[1], tuple) else p.outcome))
    return r


def any_name(env, t):
    r, I, ps = explore(env, '%s_any' % t, 'an arbitrary name of a %s' % t)
    s = ('sym', 's')
    for p in ps:
        if rejected(p):
            r.agree += 1
            continue
        eqs = [lit_str(x) for f, tr in p.facts if tr and is_eq(f, s) for x in f[-2:] if x != s]
        odd = [f for f, tr in p.facts if s_in(f, s) and not is_eq(f, s)]
        if p.outcome[0] == 'ret' and enum_name(p.outcome[1]) and any(e == enum_name(p.outcome[1]) for e in eqs):
            r.agree += 1
        elif odd or p.outcome[0] == 'ret' and enum_name(p.outcome[1]) is None:
            r.undecided.append('%s: [%s]' % (r.name, p.describe()[:200]))
        else:
            complain(r, p, 'a %s that has not this name is accepted as %s' % (t, show(p.outcome[1]) if isinstance(p.outcome[1], tuple) else p.outcome))
    return r


def is_eq(f, s):
    return (f[0] == 'eq' or f[:2] == ('cmp', '==')) and s in f[-2:] and any(lit_str(x) is not None for x in f[-2:])


def s_in(t, s):
    return t == s or isinstance(t, tuple) and any(s_in(x, s) for x in t)


def lit_str(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'str' else None


def spread(ps):
    """Concatenations and written numbers as separate pieces."""
    for q in ps:
        if q[0] == 'piece' and isinstance(q[1], tuple) and q[1][:2] == ('app', 'concat'):
            yield from spread([('piece', x, q[2]) for x in q[1][2:]])
        elif q[0] == 'piece' and isinstance(q[1], tuple) and q[1][:2] == ('app', 'to_string') and len(q[1]) == 3:
            yield ('piece', q[1][2], 'int')
        else:
            yield q


def texts(v, sink):
    """The text in a stream as a list of strings and operands, whitespace normalised."""
    if not is_coll(v):
        return [] if v == sink else None
    out = []
    for q in spread(v[2]):
        if q == sink or q[0] in ('setp',):
            continue
        if q[0] != 'piece':
            return None
        x = lit_str(q[1])
        if x is None and q[2] == 'char' and is_lit(q[1]):
            x = chr(int(lit(q[1])))
        if x is None:
            if 'manip' in str(q[1])[:40]:
                continue
            out.append(('arg', q[1]))
        elif out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    out = [re.sub(r'\s+', ' ', x) if isinstance(x, str) else x for x in out if x != '']
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip()
    return [x for x in out if x != '']


def fill(text, p):
    """The expected text on a path: an enumerator parameter is written by its name."""
    out = []
    for x in text:
        if x in ('f', 'n', 'a', 'b', 'l', 'v') and len(x) == 1:
            k = kinds_of(p, ('sym', x))
            if k and len(k) == 1:
                x = list(k)[0]
            else:
                out.append(('arg', ('sym', x)))
                continue
        if out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def printed(env, name, label, text):
    cfg = piece_cfg(env.prog, env.roles)
    r, I, ps = explore(env, name, label, cfg)
    for p in ps:
        if p.outcome[0] != 'ret':
            complain(r, p, 'ends in %s' % str(p.outcome)[:100])
            continue
        have = texts(p.final.get('o'), ('sym', 'o'))
        want = fill(text, p)
        if have is None or have != want and opaque_text(have):
            r.undecided.append('%s: stream %s' % (r.name, show(p.final.get('o'))[:200]))
        elif have != want:
            complain(r, p, 'writes %s, expected %s' % (pretty(have), pretty(want)))
        else:
            r.agree += 1
    return r


def opaque_text(ps):
    """Is some written operand a string computed in a way that is not modelled?"""
    return any(not isinstance(x, str) and isinstance(x[1], tuple) and x[1][0] == 'app' and not x[1][1].startswith(('E.', 'F.', 'V.')) for x in ps)


def pretty(ps):
    return '`' + ''.join(x if isinstance(x, str) else '<%s>' % show(x[1]) for x in ps) + '`'


def conversion(env):
    r, I, ps = explore(env, 'conv', 'variable type of a sort')
    for p in ps:
        ks = kinds_of(p, ('sym', 's')) or frozenset(SORTTYPE)
        have = enum_name(p.outcome[1]) if p.outcome[0] == 'ret' else None
        if p.outcome[0] == 'ret' and have is None:
            r.undecided.append('%s: %s' % (r.name, show(p.outcome[1])[:100]))
            continue
        bad = [k for k in ks if k in SORTTYPE and SORTTYPE[k] != have]
        if bad:
            complain(r, p, 'the sort %s becomes a variable of type %s' % (bad[0], have or str(p.outcome)[:80]))
        else:
            r.agree += 1
    return r


def accessor(env, name, want):
    """want: 'a' (the given term), 'throw', or an enumerator."""
    r, I, ps = explore(env, name, 'term access %s' % name)
    for p in ps:
        if want == 'throw':
            if rejected(p):
                r.agree += 1
            else:
                complain(r, p, 'a term is used at the wrong type without an error: %s' % (show(p.outcome[1])[:100] if isinstance(p.outcome[1], tuple) else p.outcome,))
        elif p.outcome[0] != 'ret':
            complain(r, p, 'ends in %s' % str(p.outcome)[:100])
        elif want == 'a':
            if canon(p.outcome[1]) == ('sym', 'a'):
                r.agree += 1
            else:
                complain(r, p, 'gives %s instead of the term that was put in' % show(p.outcome[1])[:200])
        elif enum_name(p.outcome[1]) == want:
            r.agree += 1
        else:
            complain(r, p, 'the type is %s, expected %s' % (show(p.outcome[1])[:100], want))
    return r


def checked(env, name, good):
    r, I, ps = explore(env, name, 'matching a term against a sort or type (%s)' % name)
    for p in ps:
        ks = kinds_of(p, ('sym', 's'))
        if ks is None and any(s_in(f, ('sym', 's')) for f, _ in p.facts):
            r.undecided.append('%s: [%s]' % (r.name, p.describe()[:200]))
            continue
        if ks is None:
            complain(r, p, 'is the same for every sort: %s' % str(p.outcome)[:100])
            continue
        for k in sorted(ks):
            if (k in good) != (p.outcome[0] == 'ret') or p.outcome[0] not in ('ret', 'throw'):
                complain(r, p, '%s is %s' % (k, 'accepted' if p.outcome[0] == 'ret' else 'refused'))
                break
        else:
            r.agree += 1
    return r


def substituted(env, k, tk):
    """Term::Substitute is the substitution of the stored term, and refuses a replacement of the wrong type."""
    name = '%s_subs_%s' % (k, tk)
    f = env.prog.one(NS + name)
    a, v, t = ('sym', 'a'), ('sym', 'v'), ('sym', 't')
    vt = ('app', 'V.type', v)

    def arith(p):
        ks = kinds_of(p, vt)
        if ks is None:
            return None
        return True if ks <= ARITH else False if not ks & ARITH else None

    def spec(m, p):
        ar = arith(p)
        if ar is None:
            raise Opaque('the type of the variable is not examined')
        if ar != (tk == 'e'):
            raise Skip()
        s = ('coll', 'map', (('pair', v, t),), None)
        none = ('coll', 'map', (), None)
        e = ('app', 'E.subst' if k == 'e' else 'F.subst', a, s if ar else none, none if ar else s)
        return m.E(e, C0) if k == 'e' else m.F(e, C0)

    def undefined(m, p):
        if arith(p) is not None and arith(p) != (tk == 'e') and p.outcome[0] == 'ret':
            return 'a %s replaces a variable of type %s without an error, giving %s' % (
                'formula' if tk == 'f' else 'expression', '/'.join(sorted(kinds_of(p, vt))), show(p.outcome[1])[:200])
        return None
    return run(env, 'substitution in a term (%s)' % name, f, setup_for(f), spec, result=ret_E if k == 'e' else ret_F, undefined=undefined)


def cell_text(env, cls):
    """(command member...)"""
    q = 'dreal::' + cls
    c = env.prog.classes.get(q)
    f = next((f for f in env.prog.functions.values() if f.get('cls') == q and f['n'] == 'Display' and f.get('body')), None)
    if c is None or f is None:
        return None
    word = re.sub(r'(?<!^)([A-Z])', r'-\1', cls[:-len('Command')]).lower()
    r = Result('the printed form of %s' % cls, f)
    I = Interp(env.prog, piece_cfg(env.prog, env.roles))
    for p in I.explore(f, setup_for(f, ['o'])):
        r.paths += 1
        if p.outcome[0] == 'unsupported':
            r.undecided.append('%s: %s' % (r.name, p.outcome[1]))
            continue
        want = ['(' + word]
        for fn, d in env.prog.field_types(q).items():
            t = ('fld', ('sym', 'this'), fn)
            ks = kinds_of(p, t)
            want += [' ', list(ks)[0] if ks and len(ks) == 1 else ('arg', t)]
        want.append(')')
        w = []
        for x in want:
            if w and isinstance(x, str) and isinstance(w[-1], str):
                w[-1] += x
            else:
                w.append(x)
        have = texts(p.final.get('o'), ('sym', 'o'))
        if p.outcome[0] != 'ret':
            complain(r, p, 'ends in %s' % str(p.outcome)[:100])
        elif have is None or opaque_text(have):
            r.undecided.append('%s: stream %s' % (r.name, show(p.final.get('o'))[:200]))
        elif [x if isinstance(x, str) else 0 for x in have] != [x if isinstance(x, str) else 0 for x in w] or \
                sorted(map(str, have)) != sorted(map(str, w)):
            complain(r, p, 'writes %s, expected %s' % (pretty(have), pretty(w)))
        else:
            r.agree += 1
    return r


def check_P01(c):
    base = make_env(c, extract.all_tus())
    env = make_env(c, extract.all_tus() + [extract.probe('smt2names', probe_source(base.prog))])
    prog = env.prog
    jobs = []
    for t, (en, parse) in NAMED.items():
        names = consts(prog, en)
        for i, n in enumerate(names):
            jobs.append(lambda a=(t, i, n): known_name(env, *a))
        for i, n in enumerate(wrong_names(names)):
            jobs.append(lambda a=(t, i, n): unknown_name(env, *a))
        jobs.append(lambda t=t: any_name(env, t))
        jobs.append(lambda t=t: printed(env, '%s_print' % t, 'the printed form of a %s' % t, ['v']))
    jobs.append(lambda: conversion(env))
    for k in 'ef':
        for w in ('ctor', 'copy', 'move', 'set', 'seto', 'cpas', 'mvas', 'same'):
            for x, want in (('get', 'a'), ('mget', 'a'), ('bad', 'throw'), ('mbad', 'throw'), ('type', 'EXPRESSION' if k == 'e' else 'FORMULA')):
                jobs.append(lambda a=('%s_%s_%s' % (k, w, x), want): accessor(env, *a))
        jobs.append(lambda k=k: accessor(env, k + '_mut', 'a'))
        jobs.append(lambda k=k: accessor(env, k + '_copykeep', 'a'))
        jobs.append(lambda k=k: checked(env, k + '_sort', {'Int', 'Real', 'Binary'} if k == 'e' else {'Bool'}))
        jobs.append(lambda k=k: checked(env, k + '_vtype', ARITH if k == 'e' else {'BOOLEAN'}))
        jobs.append(lambda k=k: printed(env, k + '_print', 'the printed form of a term', ['a']))
        for tk in 'ef':
            jobs.append(lambda a=(k, tk): substituted(env, *a))
    for i, (call, params, text) in enumerate(FACTORY):
        if text:
            jobs.append(lambda a=('cmd%d' % i, call, text): printed(env, *a))
    for cls in CELLS:
        jobs.append(lambda cls=cls: cell_text(env, cls) or Result(cls))
    c.add(parallel(jobs))
    c.rules.append('Every enumerator of Sort and Logic is accepted under exactly its own name (symbolic and literal arguments) and printed as that name; other strings are rejected; '
                   'sorts become the variable type of the same meaning; a Term gives back what was put in and throws when used at the other type; '
                   'the printed form of a command is its SMT-LIB name followed by its own members, and the factory of a name builds that command.')
    return len(jobs)

from props_read import check_P02  # noqa: E402,F401
