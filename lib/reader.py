"""From a text of an input language to the C++ actions its reading performs.

The lexer rules and the LALR automaton (built by bison from the grammar under analysis) determine the actions and
their order; the actions are composed into one probe function, which is analysed and never run."""
import re

import grammar
from extract import AnalysisBroken

LITTOK = {'DOUBLE', 'HEXFLOAT', 'INT', 'SYMBOL', 'KEYWORD', 'STRING', 'ID'}


class Reject(Exception):
    """The text is not read."""


class Reader:
    def __init__(self, d, cls):
        self.g = grammar.Grammar(d + '/parser.yy')
        self.sc = grammar.Scanner(d + '/scanner.ll')
        self.tables = grammar.Tables(d + '/parser.yy')
        self.cls = cls                     # Smt2 or Dr
        self.alias = {}
        src = open(grammar.os.path.join(grammar.extract.REPO, d + '/parser.yy')).read()
        for n, a in re.findall(r'^%token\s*(?:<[^\n]*?>)?\s+(\w+)\s+(?:\d+\s+)?("[^"]+")\s*$', src, re.M):
            self.alias[n] = a
        self.rule_of = {}
        for r in self.g.rules:
            k = (r.lhs, tuple(self.alias.get(s, s) for s in r.syms))
            self.rule_of.setdefault(k, r)
        self.lexers = {}

    def tokens(self, text):
        """[(terminal, lexeme, lexer rule or None)]"""
        out, p = [], 0
        while p < len(text):
            if text[p] == '"' and self.cls == 'Smt2':
                e = text.index('"', p + 1) + 1
                out.append((self.alias.get('STRING', 'STRING'), text[p:e], None))
                p = e
                continue
            b = self.sc.lex(text, p)
            if b is None or b[1] == p:
                raise Reject('no rule for %r' % text[p:p + 10])
            r, e = b
            ts = set(re.findall(r'\btoken::(\w+)', r[3]))
            if len(ts) == 1:
                t = ts.pop()
                out.append((self.alias.get(t, t), text[p:e], r))
            elif ts:
                raise Reject('the token of %r depends on more than the rule' % text[p:e])
            elif 'token_type' in r[3]:
                out.append(("'%s'" % text[p], text[p:e], None))
            p = e
        return out

    def tree(self, text):
        toks = self.tokens(text)
        t = self.tables.parse([(a, (a, b, c)) for a, b, c in toks])
        if t is None:
            raise Reject('syntax error')
        return t

    def lexer(self, r):
        """The action of a lexer rule as a function."""
        k = id(r)
        if k not in self.lexers:
            self.lexers[k] = ('lex%d' % len(self.lexers), r)
        return self.lexers[k][0]

    def prelude(self):
        """Lexer functions (call after the bodies were made)."""
        out = ['using token = %sParser::token; using token_type = %sParser::token_type;' % (self.cls, self.cls),
               'struct Val { std::string s; double d; std::int64_t i; void put(const std::string& x) { s = x; } void put(const double x) { d = x; } '
               'void put(const std::int64_t x) { i = x; } template <typename T> void build(const T& x) { const T y{x}; put(y); } };']
        for n, r in self.lexers.values():
            out.append('int %s(const char* yytext, int yyleng, Val* yylval, location* yylloc) { %s\nreturn -1; }' % (n, r[3]))
        return '\n'.join(out)

    def code(self, text):
        """Statements that perform the reading of the text with `driver`."""
        self.k = 0
        body = []
        self.emit(self.tree(text), body)
        return '\n'.join(body)

    def emit(self, node, out):
        sym, val = node
        self.k += 1
        v = 'v%d' % self.k
        if val is None:
            return None
        if isinstance(val, tuple):
            t, lexeme, r = val
            name = next((n for n, a in self.alias.items() if a == t), t)
            ty = self.g.types.get(name)
            if ty is None:
                return None
            lit = '"%s"' % lexeme.replace('\\', '\\\\').replace('"', '\\"')
            if r is None:
                out.append('std::string %s(%s);' % (v, lit))
                return v
            f = {'std::string': 's', 'double': 'd', 'std::int64_t': 'i', 'int64_t': 'i'}.get(ty)
            if f is None:
                raise AnalysisBroken('token type ' + ty)
            out.append('Val l%s; %s(%s, %d, &l%s, &loc); %s %s = l%s.%s;' % (v, self.lexer(r), lit, len(lexeme), v, ty, v, v, f))
            return v
        if not isinstance(val, list):
            raise AnalysisBroken('derivation')
        vs = [self.emit(k, out) for k in val]
        kids = tuple(k[0] for k in val)
        r = self.rule_of.get((sym, kids))
        if r is None:
            raise AnalysisBroken('%s: no action for %s: %s' % (self.g.file, sym, ' '.join(kids)))
        ty = self.g.types.get(sym)
        if ty:
            out.append('%s %s;' % (ty, v))
        if r.action is not None or ty:
            refs = ['%s& s%d = %s; (void)s%d;' % (self.g.types[k_], i + 1, x, i + 1)
                    for i, (x, k_) in enumerate(zip(vs, r.syms)) if x is not None]
            if ty:
                refs.append('%s& yyval = %s;' % (ty, v))
            act = grammar.action_code(r) if r.action is not None else 'yyval = s1;'
            out.append('{ %s\n%s\n}' % (' '.join(refs), act))
        return v if ty else None
