"""Reading the bison grammars and flex scanners of /repo."""
import os
import re

import extract
from extract import AnalysisBroken


class Rule:
    def __init__(self, lhs, syms, action, line, prec):
        self.lhs, self.syms, self.action, self.line, self.prec = lhs, syms, action, line, prec

    def text(self):
        return '%s: %s' % (self.lhs, ' '.join(self.syms) or '/* empty */')


class Grammar:
    def __init__(self, rel):
        self.file = rel
        src = open(os.path.join(extract.REPO, rel), encoding='utf-8').read()
        m = re.search(r'^%%.*$', src, re.M)
        if not m:
            raise AnalysisBroken(rel + ': no rules section')
        head, rest = src[:m.start()], src[m.end():]
        m2 = re.search(r'^%%.*$', rest, re.M)
        rules = rest[:m2.start()] if m2 else rest
        self.prologue = re.findall(r'%\{(.*?)%\}', head, re.S)
        decl = re.sub(r'%\{.*?%\}', '', head, flags=re.S)
        decl = re.sub(r'/\*.*?\*/', '', decl, flags=re.S)
        self.types, self.tokens, self.prec = {}, set(), []
        for line in re.findall(r'^%(?:token|type|left|right|nonassoc|start)\b[^%]*', decl, re.M):
            kw = re.match(r'%(\w+)', line).group(1)
            body = line[len(kw) + 1:]
            ty, body = self._angle(body.strip())
            names = [x for x in re.findall(r'"[^"]*"|[A-Za-z_]\w*|\'.\'|\d+', body) if not x[0] in '"' and not x.isdigit()]
            if kw == 'start':
                self.start = names[0]
                continue
            if kw in ('left', 'right', 'nonassoc'):
                self.prec.append((kw, names))
            if kw == 'token':
                self.tokens |= set(names)
            if ty:
                for n in names:
                    self.types[n] = ty
        self.rules = []
        self._rules(rules, src[:len(src) - len(rest)].count('\n') + 1)
        self.by_lhs = {}
        for r in self.rules:
            self.by_lhs.setdefault(r.lhs, []).append(r)
        if len(self.rules) < 5:
            raise AnalysisBroken(rel + ': rules not found')

    @staticmethod
    def _angle(s):
        if not s.startswith('<'):
            return None, s
        d = 0
        for i, c in enumerate(s):
            d += (c == '<') - (c == '>')
            if d == 0:
                return s[1:i], s[i + 1:]
        raise AnalysisBroken('type tag')

    def _rules(self, s, line0):
        i, n = 0, len(s)
        toks = []
        while i < n:
            c = s[i]
            if c.isspace():
                i += 1
            elif s.startswith('/*', i):
                i = s.index('*/', i) + 2
            elif s.startswith('//', i):
                i = s.find('\n', i) if s.find('\n', i) >= 0 else n
            elif c == '{':
                j = close(s, i)
                toks.append(('act', s[i + 1:j], line0 + s.count('\n', 0, i)))
                i = j + 1
            elif c == "'":
                toks.append(('sym', s[i:i + 3], line0))
                i += 3
            elif c in ':|;':
                toks.append((c, c, line0 + s.count('\n', 0, i)))
                i += 1
            elif c == '%':
                m = re.compile(r'%prec\s+(\w+)|%empty').match(s, i)
                if not m:
                    raise AnalysisBroken('%s: directive at %r' % (self.file, s[i:i + 20]))
                if m.group(1):
                    toks.append(('prec', m.group(1), 0))
                i = m.end()
            else:
                m = re.compile(r'[A-Za-z_]\w*').match(s, i)
                if not m:
                    raise AnalysisBroken('%s: %r' % (self.file, s[i:i + 20]))
                toks.append(('sym', m.group(0), line0 + s.count('\n', 0, i)))
                i = m.end()
        k = 0
        lhs, cur, act, ln, prec, open_ = None, [], None, 0, None, False

        def flush():
            if lhs is not None and open_:
                self.rules.append(Rule(lhs, cur, act, ln, prec))
        while k < len(toks):
            t, v, l = toks[k]
            if t == 'sym' and k + 1 < len(toks) and toks[k + 1][0] == ':':
                flush()
                lhs, cur, act, ln, prec, open_ = v, [], None, l, None, True
                k += 2
                continue
            if t == '|':
                flush()
                cur, act, ln, prec, open_ = [], None, l, None, True
            elif t == ';':
                flush()
                open_ = False
            elif t == 'act':
                if act is not None:
                    raise AnalysisBroken('%s:%d: mid-rule action' % (self.file, l))
                act, ln = v, l
            elif t == 'prec':
                prec = v
            else:
                if act is not None:
                    raise AnalysisBroken('%s:%d: mid-rule action' % (self.file, l))
                cur.append(v)
            k += 1
        flush()


def close(s, i):
    """Index of the brace matching s[i]."""
    d = 0
    while i < len(s):
        c = s[i]
        if s.startswith('/*', i):
            i = s.index('*/', i) + 2
            continue
        if s.startswith('//', i):
            i = s.index('\n', i)
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and re.match(r"'(\\.|[^\\])'", s[i:i + 4]):
            i += len(re.match(r"'(\\.|[^\\])'", s[i:i + 4]).group(0))
            continue
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise AnalysisBroken('unbalanced braces')


def action_code(r):
    """The action as C++ over yyval, s1, s2, ... and loc."""
    a = re.sub(r'\$\$', 'yyval', r.action)
    a = re.sub(r'\$(\d+)', r's\1', a)
    a = re.sub(r'@(\d+|\$)', 'loc', a)
    return a


class Scanner:
    """Rules in order: (start condition, python regex, flex pattern, action, line)."""

    def __init__(self, rel):
        self.file = rel
        src = open(os.path.join(extract.REPO, rel), encoding='utf-8').read()
        parts = re.split(r'^%%.*$', src, flags=re.M)
        if len(parts) < 2:
            raise AnalysisBroken(rel + ': no rules section')
        head, body = parts[0], parts[1]
        line0 = head.count('\n') + 1
        head = re.sub(r'%\{.*?%\}', lambda m: '\n' * m.group(0).count('\n'), head, flags=re.S)
        head = re.sub(r'/\*.*?\*/', '', head, flags=re.S)
        self.defs = dict(re.findall(r'^([A-Za-z_]\w*)[ \t]+(\S.*?)[ \t]*$', head, re.M))
        body2 = re.sub(r'%\{.*?%\}', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), body, flags=re.S)
        self.rules = []
        i = 0
        while i < len(body2):
            e = body2.find('\n', i)
            e = len(body2) if e < 0 else e
            ln = body2[i:e]
            if not ln.strip() or ln[0] in ' \t' or ln.startswith('/*'):
                i = e + 1
                continue
            j = i + self._pattern_end(ln)
            pat = body2[i:j]
            k = j
            while k < len(body2) and body2[k] in ' \t':
                k += 1
            if k < len(body2) and body2[k] == '{':
                c = close(body2, k)
                act, nxt = body2[k + 1:c], body2.find('\n', c)
            else:
                c = body2.find('\n', k)
                act, nxt = body2[k:c], c
            cond = ''
            m = re.match(r'<(\w+)>', pat)
            if m:
                cond, pat = m.group(1), pat[m.end():]
            self.rules.append((cond, re.compile(self.regex(pat)), pat, act, line0 + body2.count('\n', 0, i)))
            i = nxt + 1 if nxt >= 0 else len(body2)
        if len(self.rules) < 10:
            raise AnalysisBroken(rel + ': rules not found')

    @staticmethod
    def _pattern_end(s):
        i, q, br = 0, False, False
        while i < len(s):
            c = s[i]
            if c == '\\':
                i += 2
                continue
            if q:
                q = c != '"'
            elif br:
                br = c != ']'
            elif c == '"':
                q = True
            elif c == '[':
                br = True
            elif c in ' \t':
                return i
            i += 1
        return i

    def regex(self, p, depth=0):
        if depth > 20:
            raise AnalysisBroken(self.file + ': recursive definition')
        out, i = [], 0
        while i < len(p):
            c = p[i]
            if c == '"':
                j = i + 1
                w = ''
                while p[j] != '"':
                    if p[j] == '\\':
                        j += 1
                    w += p[j]
                    j += 1
                out.append('(?:' + re.escape(w) + ')')
                i = j + 1
            elif c == '[':
                j = i + 1
                while p[j] != ']' or j == i + 1:
                    j += 2 if p[j] == '\\' else 1
                out.append('[' + p[i + 1:j].replace('[', '\\[').replace('&', '\\&').replace('~', '\\~').replace('|', '\\|') + ']')
                i = j + 1
            elif c == '{' and re.match(r'\{[A-Za-z_]\w*\}', p[i:]):
                m = re.match(r'\{([A-Za-z_]\w*)\}', p[i:])
                if m.group(1) not in self.defs:
                    raise AnalysisBroken('%s: no definition of %s' % (self.file, m.group(1)))
                out.append('(?:' + self.regex(self.defs[m.group(1)], depth + 1) + ')')
                i += m.end()
            elif c == '.':
                out.append('[^\\n]')
                i += 1
            elif c == '\\':
                out.append(p[i:i + 2])
                i += 2
            else:
                out.append(c)
                i += 1
        return ''.join(out)

    def token(self, r):
        ts = re.findall(r'token::(\w+)', r[3])
        return ts[0] if len(set(ts)) == 1 else None

    def lex(self, text, pos=0):
        """Longest match, first rule: (rule, end)."""
        best = None
        for r in self.rules:
            if r[0]:
                continue
            lo = best[1] if best else pos
            for e in range(len(text), lo, -1):
                if r[1].fullmatch(text, pos, e):
                    best = (r, e)
                    break
        return best

    def first_token(self, text):
        """Token of the first lexeme and its length."""
        b = self.lex(text)
        return (None, 0) if b is None else (self.token(b[0]), b[1])


class Tables:
    """The LALR automaton bison builds, and derivations of token sequences with it."""

    def __init__(self, rel):
        import subprocess
        import tempfile
        import xml.etree.ElementTree as ET
        with tempfile.TemporaryDirectory() as d:
            x = os.path.join(d, 'g.xml')
            p = subprocess.run(['/usr/bin/bison', '-Wno-deprecated', '--xml=' + x, '-o', os.path.join(d, 'g.cc'), os.path.join(extract.REPO, rel)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode or not os.path.exists(x):
                raise AnalysisBroken('bison failed on %s: %s' % (rel, p.stdout.decode()[-500:]))
            root = ET.parse(x).getroot()
        g = root.find('grammar')
        self.rules = {}
        for r in g.find('rules'):
            self.rules[int(r.get('number'))] = (r.find('lhs').text, [s.text for s in r.find('rhs') if s.tag == 'symbol'])
        self.alias = {}
        for t in g.find('terminals'):
            self.alias[t.get('name')] = t.get('name')
        self.states = []
        for st in root.find('automaton'):
            tr = {t.get('symbol'): int(t.get('state')) for t in st.find('actions').find('transitions')}
            red = {}
            for r in st.find('actions').find('reductions') or []:
                if r.get('enabled') == 'true':
                    red[r.get('symbol')] = r.get('rule')
            err = {e.get('symbol') for e in (st.find('actions').find('errors') if st.find('actions').find('errors') is not None else [])}
            self.states.append((tr, red, err))

    def parse(self, toks, end='"end of file"'):
        """Derivation tree (rule, children) or None."""
        names = set(self.alias)
        stack, vals, i = [0], [], 0
        toks = list(toks) + [(end if end in names else 'END', None)]
        steps = 0
        while True:
            steps += 1
            if steps > 10000:
                return None
            tr, red, err = self.states[stack[-1]]
            t, v = toks[min(i, len(toks) - 1)]
            if t in tr:
                stack.append(tr[t])
                vals.append((t, v))
                i += 1
                continue
            if t in err:
                return None
            r = red.get(t, red.get('$default'))
            if r is None:
                return None
            if r == 'accept':
                return vals[0]
            lhs, rhs = self.rules[int(r)]
            n = len(rhs)
            kids = vals[len(vals) - n:] if n else []
            if n:
                del stack[-n:]
                del vals[-n:]
            vals.append((lhs, kids))
            stack.append(self.states[stack[-1]][0][lhs])
