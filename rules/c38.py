"""C38: the lexems returned for a source text are the longest matches, comments and ignored patterns skipped, lines and indentation counted"""
import itertools
import multiprocessing
import os
import concurrent.futures
import re
import sys
import time
from facts import Broken
from lexeval import LexApi, pyre
from dbeval import Unknown, Thrown

PROP = {
    'title': 'A source text is split into the longest matches of the lexem definitions',
    'statement': 'Beginning at the next character that is not a white space the lexer returns the longest match of all definitions, of a keyword rather than of a pattern with the same length, else of the one defined first. '
    'Comments and matches of ignored patterns are skipped, also at the end of the source. No definition is passed over because of the character its match starts with. The value is the selected part of the match, the line the one its first character is in. '
    'A character nothing matches (all bytes of an UTF-8 character) is returned as one bad lexem. With indentation lexems defined every line starts with those for the change of its indentation and for the new line, blocks open at the end of the source are closed.',
    'over': ['inputs'],
    'quant': 'every set of lexem definitions, every source text',
    'why': 'Tests lex few sources with few definitions; ties, order of definitions, optional prefixes of patterns, comments at the end, bytes beyond ASCII and decreasing indentation in several steps are hardly sampled.',
    'files': ['src/lexer.cpp', 'src/lexer.hpp', 'src/utf8.hpp'],
    'mech': [('Lexer::next, Lexer::defineLexem, LexemDef::activation, LexemDef::match', 'src/lexer.cpp'), ('Scanner::next, Scanner::scan, Scanner::match, Scanner::getIndentToken', 'src/lexer.cpp'), ('utf8charlen, utf8mid', 'src/utf8.hpp')],
    'technique': 'abstract interpretation of the lexer and the scanner with models for regular expressions and containers, over a finite family of definitions and source texts, compared with a specification of the lexems',
    'level_note': 'Families: all ordered pairs (and part of the triples) of 11 definitions with all texts over {a, b, blank, newline} up to a length, comments, 60 patterns with optional, alternative, escaped, inverted and UTF-8 beginnings, indentations of up to 4 lines. '
    'Trusted: std::regex matches like the regular expressions of the model; the bit scan instruction. Not decided: larger texts, other patterns, comment openers that are a prefix of each other, null characters in the source, the line of an unclosed comment opened with a newline, indentation after a bracket comment in the same line.',
    'design': 'lib/lexeval.py evaluates the functions of Lexer, Scanner and LexemDef on their CFG; a pointer into the source is a buffer and an offset, a string_view a part of a buffer, a multimap an ordered sequence. For each set of definitions the lexer is built by the evaluation of its definition functions, '
    'each text is split by the evaluation of Lexer::next until the end of the source; name, id, value and line of each lexem are compared with those of a specification written independently. A copy built from getDefinitions has to give the same lexems.'}

WS = set(range(1, 33))
CONT = set(range(0x80, 0xC0))


def spec(defs, src):
    """lexems (kind, name, id, value, line) of a source text: the specification"""
    ids, names = {}, []

    def ident(n):
        if n not in ids:
            ids[n] = len(ids) + 1
        return ids[n]
    pats, eoln, brk, bad, ind = [], [], [], '?', None
    for d in defs:
        k, a = d[0], d[1:]
        if k == 'token':
            pats.append((re.compile(pyre(a[1])), a[2] if len(a) > 2 else 0, a[0], ident(a[0]), False))
        elif k == 'keyword':
            pats.append((re.compile(re.escape(a[0])), 0, a[0], ident(a[0]), True))
        elif k == 'ignore':
            pats.append((re.compile(pyre(a[0])), 0, None, 0, False))
        elif k == 'bad':
            bad = a[0]
        elif k == 'comment':
            (brk if len(a) > 1 else eoln).append(a)
        elif k == 'indent':
            ind = (ident(a[0]), ident(a[1]), ident(a[2]), a[3])
    out, stk, i, t = [], [], 0, src.decode('latin1')
    line = lambda j: 1 + t.count('\n', 0, j)
    newline = -1
    while True:
        while i < len(t) and ord(t[i]) in WS:
            i += 1
        if i == len(t):
            break
        c = next((c for c in eoln if t.startswith(c[0], i)), None)
        if c:
            e = t.find('\n', i)
            i = len(t) if e < 0 else e + 1
            continue
        c = next((c for c in brk if t.startswith(c[0], i)), None)
        if c:
            e = t.find(c[1], i + len(c[0]))
            if e < 0:
                out.append((bad, -1, c[0], None if '\n' in c[0] else line(i)))
                return out, True
            i = e + len(c[1])
            continue
        best = None
        for r, sel, name, d, kw in pats:
            m = r.match(t[i:])
            if m and m.end() > 0:
                n = m.end()
                if best is None or n > best[0] or (n == best[0] and kw and not best[4]):
                    best = (n, m.group(sel) or '', name, d, kw)
        if best is None:
            e = i + 1
            if ord(t[i]) >= 128:
                while e < len(t) and ord(t[e]) in CONT:
                    e += 1
            out.append((bad, -1, t[i:e], line(i)))
            i = e
            continue
        n, val, name, d, kw = best
        if name is not None:
            if ind:
                b = t.rfind('\n', 0, i) + 1
                if not t[b:i].strip(''.join(map(chr, WS))) and b != newline:
                    newline = b
                    x = sum(ind[3] if q == '\t' else 1 for q in t[b:i])
                    while stk and stk[-1] > x:
                        stk.pop()
                        out.append((None, ind[1], '', line(i)))
                    if x > (stk[-1] if stk else 0):
                        stk.append(x)
                        out.append((None, ind[0], '', line(i)))
                    out.append((None, ind[2], '', line(i)))
            out.append((name, d, val, line(i)))
        i += n
    while stk:
        stk.pop()
        out.append((None, ind[1], '', line(i)))
    out.append(('', 0, '', line(i)))
    return out, False


# ------------------------------------------------------------------ families
POOL = [('token', 'T', 'a+'), ('token', 'U', 'a*b'), ('token', 'V', 'ab?a'), ('token', 'W', '(a)b', 1), ('keyword', 'a'), ('keyword', 'ab'), ('keyword', 'ba'), ('ignore', 'b'), ('ignore', 'ab'), ('token', 'X', '[ab]\n?b'), ('token', 'T', 'bb|ba')]

# patterns, texts
FIRST = [
    ('x', 'x y'), ('[xy]z', 'xz yz zz'), ('[x-z]', 'x y z w'), ('[z-x]', ''), ('[^x]', 'x y'), ('[^x-z]w', 'ww xw'), ('x?y', 'xy y x'), ('x*y', 'xxy y x'), ('x+y', 'xy y'), ('[xy]*z', 'z yz w'), ('[xy]?z', 'z yz'), ('(xy)?z', 'z xyz y'),
    ('(x|y)z', 'xz yz zz'), ('x|y|z', 'x y z w'), ('xx|y', 'xx y x'), ('(x|yy)?z', 'z yyz xz'), ('(x?|y)z', 'z xz yz'), ('(x*)y', 'y xy'), ('(x)(y)', 'xy y'), ('\\.x', '.x x'), ('\\+', '+ x'), ('\\*|[/]', '* / x'), ('\\[x\\]', '[x] x'), ('\\(', '( x'), ('\\|x', '|x x'),
    ('[.]x', '.x ax'), ('[+*]', '+ * x'), ('[-x]', '- x y'), ('[x-]', '- x y'), ('.x', 'ax xx'), ('.', 'a %'), ('x{2}', 'xx x'), ('x{0,1}y', 'y xy'), ('x{0}y', 'y'), ('x{1,2}y', 'y xxy'), ('x??y', 'y xy'), ('x*?y', 'y xxy'), ('x+?y', 'xy y'),
    ('(?:x|y)z', 'xz yz'), ('(?:x)?z', 'z xz'), ('(?=x)[xy]', 'x y'), ('(?!x)[xy]', 'x y'), ('((x))y', 'xy y'), ('((x)?y)?z', 'z yz xyz'), ('(x|(y|z)w)', 'x yw zw'), ('x(y|z)', 'xy xz yz'), ('(x|)y', 'y xy'), ('[x][y]', 'xy y'), ('[x]?[y]?z', 'z yz xz'), ('"[^"]*"', '"x" x'),
    ('[\\]x]y', 'xy ]y'), ('[(]x', '(x x'), ('[x)]|y', ') y'), ('([)]|x)y', ')y xy yy'), ('(\\)|x)y', ')y xy'), ('([x|]y|z)', '|y z xy'), ('0|[1-9][0-9]*', '0 12 x'), ('[+-]?[0-9]+', '+1 2 -3 x'), ('[+-]?(0|1)[.]?', '-0. 1'), ('^x', 'x'), ('[ax]+[bx]*', 'ab xx b'),
    (b'\xc3\xa4', b'\xc3\xa4 x'), (b'\xc3\xa4?x', b'x \xc3\xa4x'), (b'(\xc3\xa4|y)x', b'yx \xc3\xa4x'), (b'\xe2\x82\xacx', b'\xe2\x82\xacx x'), (b'\xf0\x9f\x98\x80', b'\xf0\x9f\x98\x80 x'), (b'[^x]y', b'\xc3\xa4y zy'), (b'.', b'\xc3\xa4'),
    ('[[:alpha:]]+', 'x bq 1 B'), ('[[:alpha:]_][[:alnum:]_]*', '_1 b1 1b'), ('[^[:digit:]]', '1 x _'), ('x|[0-9[:upper:]]+y', 'x 1y AZy'), ('[[:space:]x]', 'x'), ('[x[:digit:]-]', 'x 1 -'),
    ('(x\\)|y)z', 'x)z yz'), ('(x[\\])]|y)z', 'x)z yz'), ('(x\\||y)z', 'x|z yz'), ('x\\|y|z', 'x|y z'), ('(x[)]|y)z', 'x)z yz'), ('x(\\)|y)|z', 'x) xy z'), ('x[\\]|]y|z', 'x|y x]y z'), ('(x(a|b)|y)z', 'xaz yz'), ('(x[(]|y)z', 'x(z yz'), ('x[^|]|z', 'xx z'), ('x\\(|z', 'x( z'), ('(x\\[|y)z', 'x[z yz'), ('(x)?(y)?z', 'z yz xyz'), ('(x|y)?(z|w)', 'w xz yw'),
    ('#', '# x'), ('\\#x', '#x'), ('\\{x\\}', '{x}'), ('\\^|\\&', '^ & x'), ('\\$x', '$x x'), ('\\-', '- x'), ('[~!]=', '!= ~= ='), ('x,y', 'x,y'), ('[x-z&]', '& y'), ('[!-/]', '! # / 0'), ('[^a-z]+', 'A1 a'), ('[a-zA-Z_]+[a-zA-Z_0-9]*', 'a_1 Z 1a'),
]
UTF = [b'\xc3\xa4', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\x80', b'\xc3', b'\xff', b'\x7f', b'$', b'a', b'\xc3\xa4\xc3\xb6', b'\xe2\x82', b'\xbf\xc3']


def families(thorough):
    """(family, definitions, texts)"""
    r = []
    L = 4 if thorough else 3
    texts = [bytes(q) for n in range(L + 1) for q in itertools.product(b'ab \n', repeat=n)]
    long = [bytes(q) for q in itertools.product(b'ab', repeat=5 if thorough else 4)]
    for d in itertools.permutations(POOL, 2):
        r.append(('two definitions', d, texts))
    tri = [d for d in itertools.permutations(POOL, 3)]
    for d in tri[::3 if thorough else 17]:
        r.append(('three definitions', d, long))
    for d in ((('token', 'T', 'a'), ('comment', '#')), (('comment', '#'), ('token', 'T', 'a'), ('token', 'U', '#+')), (('token', 'U', '#a'), ('comment', '#'), ('keyword', '#')), (('comment', '##'), ('token', 'T', 'a'), ('keyword', '#'))):
        r.append(('comments to the end of the line', d, [bytes(q) for n in range(L + 2) for q in itertools.product(b'a#\n', repeat=n)]))
    for d in ((('token', 'T', 'a'), ('comment', '(', ')')), (('comment', '(', '))'), ('token', 'T', 'a'), ('token', 'U', '[)(]')), (('token', 'U', '[(]a'), ('comment', '((', ')'), ('keyword', '(')), (('token', 'T', 'a'), ('comment', '(', 'a)'), ('bad', 'BAD')), (('token', 'T', 'a'), ('comment', '(', '\n'), ('comment', ')', '(')), (('token', 'T', 'a'), ('comment', '(\n', ')'), ('token', 'U', '[(]'))):
        r.append(('comments in brackets', d, [bytes(q) for n in range(L + 2) for q in itertools.product(b'a()\n', repeat=n)][:1000 if thorough else 340]))
    d = (('comment', '/*', '*/'), ('comment', '//'), ('token', 'T', 'a'), ('keyword', '/'), ('comment', '{', '}'), ('comment', '--'), ('keyword', '-'), ('keyword', '*/'))
    r.append(('comments of several kinds', d, [b''.join(q) for n in range(4) for q in itertools.product((b'/*', b'*/', b'//', b'a', b'\n', b'--', b'{', b'}', b'/', b' -'), repeat=n)][::1 if thorough else 3]))
    for n, (pat, src) in enumerate(FIRST):
        if isinstance(pat, bytes):
            pat = pat.decode('latin1')
        src = src if isinstance(src, bytes) else src.encode('latin1')
        w = src.split()
        r.append(('first characters', (('token', 'P', pat),), [src] + w + [b'\n'.join(w)] + [x + y for x in w for y in w]))
        r.append(('first characters', (('token', 'Q', '[a-z]'), ('token', 'P', pat), ('keyword', 'x'), ('ignore', '%')), [src, b'%'.join(w)]))
    for opr in ('+', '++', '.', '*', '(', '[', ']', '{', '|', '||', '^', '$', '\\', '?', '-', '->', '#', '&&', '/', '=', '<=', '!', '"', "'", 'x.y', 'x*', '(x', 'end', '@', '~', '`', ':', ';', ',', '%', '\xc3\xa4'):
        b = opr.encode('latin1')
        r.append(('keywords', (('token', 'T', '[a-z]+'), ('keyword', opr)), [b, b + b, b'a' + b + b'xy', b + b'a', b'xy x ' + b, b[:1] + b'x' + b]))
    r.append(('bytes beyond ASCII', (('token', 'T', 'a'),), [x + y for x in UTF for y in UTF] + [x + b' ' + y for x in UTF for y in UTF]))
    r.append(('bytes beyond ASCII', (('token', 'T', 'a'), ('bad', 'BAD'), ('token', 'U', '\xc3\xa4+')), [x + y for x in UTF for y in UTF]))
    r.append(('lines', (('token', 'T', 'a'), ('token', 'S', '"([^"]*)"', 1), ('comment', '{', '}'), ('ignore', '<\n*>')), [b''.join(q) for n in range(5 if thorough else 4) for q in itertools.product((b'a', b'"\n"', b'"a\n\n"', b'{\n}', b'\n', b'<\n>', b'\r\n', b'$'), repeat=n)][::2 if thorough else 3]))
    ind = [b'', b' ', b'  ', b'\t'] + ([b'    ', b' \t'] if thorough else [])
    lines = [x + b for x in ind for b in (b'a',)] + [b'', b' #a', b'  ', b'a a']
    ic = [b'\n'.join(q) + e for n in range(1, 5 if thorough else 4) for q in itertools.product(lines, repeat=n) for e in (b'', b'\n')]
    D = (('token', 'T', 'a'), ('indent', 'OPEN', 'CLOSE', 'NL', 4), ('comment', '#'))
    sz = 120
    for i in range(0, len(ic), sz):
        r.append(('indentation', D, ic[i:i + sz][::1 if len(ic) < 3000 else 2]))
    deep = [b'\n'.join(b' ' * k + b'a' for k in q) + e for q in itertools.product(range(4), repeat=4) for e in (b'', b'\n  #x')]
    D2 = (('keyword', 'a'), ('ignore', '%'), ('comment', '#'), ('indent', 'OPEN', 'CLOSE', 'NL', 2))
    r.append(('indentation', D2, deep[::1 if thorough else 3]))
    r.append(('indentation', D2, [b'%a', b' %a\na', b'a\n  % a\n a', b'\ta\n  a', b'  a\n\ta', b'a\n$\na', b'a%\na', b'a\n%\n a']))
    return r


class Check:
    def __init__(self, p):
        self.a = LexApi(p)
        self.bad = []
        self.n = 0

    @staticmethod
    def say(defs):
        def one(d):
            q = ['"%s"' % str(x).replace('\n', '\\n') for x in d[1:]]
            return d[0] + ' ' + ' '.join(q)
        return '; '.join(map(one, defs))

    def lexems(self, s, src, n):
        s = self.a.scanner(s, src)
        out = []
        while len(out) < n:
            r, s = self.a.next(s)
            out.append(r)
            if r[1] == 0:
                break
        return out

    def family(self, fam, defs, texts, deadline):
        """None or a reason why it is not decided"""
        try:
            s0 = self.a.lexer([(d[0],) + tuple(x.encode('latin1') if isinstance(x, str) else x for x in d[1:]) for d in defs])
        except Thrown as t:
            self.bad.append((fam + ': definition refused', 'the definitions %s are refused by the exception at %s' % (self.say(defs), t.o.fn.loc(t.o.node)), t.o.fn))
            return None
        try:
            re_defs = spec(defs, b'')
        except re.error:
            return None
        try:
            del self.a.e.lost[:]
            s1 = self.a.copy(s0)
        except Thrown as t:
            self.bad.append((fam + ': copy refused', 'a copy made of the definitions %s is refused by the exception at %s' % (self.say(defs), t.o.fn.loc(t.o.node)), t.o.fn))
            return None
        lost = ['value lost at ' + f.path(x)[:60] for f, x in self.a.e.lost]
        k = max(1, len(texts) // 25)
        for what, s, ts in (('', s0, texts), (' in a copy made of the definitions of the lexer', s1, texts[k // 2::k] if not lost else [])):
            r = self.texts(fam, defs, what, s, ts, deadline)
            if r:
                return r
        return lost[0] if lost else None

    def texts(self, fam, defs, what, s0, texts, deadline):
        for src in texts:
            if time.time() > deadline:
                return 'cases left out because of the time limit'
            want, stop = spec(defs, src)
            del self.a.e.lost[:], self.a.e.outside[:]
            got = None
            try:
                got = self.lexems(s0, src, len(want) + 1 if not stop else len(want))
            except Thrown as t:
                if not self.a.e.outside:
                    self.bad.append((fam + ': exception', 'the definitions %s%s with the source %r: the evaluation ends with the exception at %s' % (self.say(defs), what, src, t.o.fn.loc(t.o.node)), t.o.fn))
                    continue
            except Unknown as u:
                if not self.a.e.outside:
                    return str(u)
            self.n += 1
            if self.a.e.outside:
                self.bad.append((fam + ': read outside of the source', 'the definitions %s with the source %r: the character at the offset %d is read' % (self.say(defs), src, self.a.e.outside[0]), None))
                continue
            if self.a.e.lost:
                return 'value lost at %s' % self.a.e.lost[0][0].path(self.a.e.lost[0][1])[:60]
            for j, w in enumerate(want):
                g = got[j] if j < len(got) else None
                k = None
                if g is None:
                    k = 'lexem missing'
                elif g[1] != w[1]:
                    k = 'lexem'
                elif g[2] != w[2]:
                    k = 'value'
                elif w[3] is not None and g[3] != w[3]:
                    k = 'line'
                elif w[0] is not None and g[0] != w[0]:
                    k = 'name'
                if k:
                    def sh(x):
                        return 'nothing' if x is None else 'the end of the source (line %d)' % x[3] if x[1] == 0 else '%s (id %d, value %r, line %d)' % (x[0] or 'indentation lexem', x[1], x[2], x[3])
                    self.bad.append((fam + ': ' + k + (' (copy)' if what else ''), 'the definitions %s%s with the source %r: lexem %d is %s instead of %s' % (self.say(defs), what, src, j + 1, sh(g), sh(w)), None))
                    break
        return None


JOB = None


def job(i):
    p, jobs, deadline = JOB
    c = Check(p)
    und = {}
    for fam, defs, texts in jobs[i]:
        try:
            r = c.family(fam, defs, texts, deadline)
        except (Unknown, Broken) as b:
            r = str(b)
        except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as b:
            r = type(b).__name__
        if r:
            und[r] = und.get(r, 0) + 1
    best = {}
    for k, m, f in c.bad:
        if k not in best or (len(m), m) < (len(best[k][0]), best[k][0]):
            best[k] = (m, f.qn if f else None, best[k][2] if k in best else 0)
        best[k] = best[k][:2] + (best[k][2] + 1,)
    return best, und, c.n


def run(c):
    c.rule('each text is split into the longest matches of the definitions, keywords first, comments and ignored matches skipped, with the selected value and the line; nothing is passed over because of its first character; indentation lexems for each line; for every member of a finite family of definitions and texts')
    p = c.prog()
    thorough = c.tier == 'thorough'
    fs = families(thorough)
    jobs = [[] for _ in range(64)]
    for j, f in enumerate(sorted(fs, key=lambda f: -len(f[2]))):
        jobs[j % 64].append(f)
    global JOB
    JOB = (p, jobs, time.time() + (650 if thorough else 300))
    sys.setrecursionlimit(20000)
    und, n, bad = {}, 0, {}
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for f in [pool.submit(job, i) for i in range(len(jobs))]:
            try:
                b, u, m = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und['process ended'] = und.get('process ended', 0) + 1
                continue
            n += m
            for k, (msg, fn, cnt) in b.items():
                o = bad.get(k)
                bad[k] = (min((msg, fn), (o[0], o[1]), key=lambda q: (len(q[0]), q[0])) if o else (msg, fn)) + ((o[2] if o else 0) + cnt,)
            for k, x in u.items():
                und[k] = und.get(k, 0) + x
    c.count('texts split and compared', n)
    c.count('sets of definitions', len(fs))
    for k, (msg, fn, cnt) in sorted(bad.items()):
        f = next((f for f in p.fns.values() if f.blocks and f.qn == (fn or 'mewa::Lexer::next')), None)
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/lexer.cpp', '%s%s' % (msg, '; %d cases' % cnt if cnt > 1 else ''))
    for u, x in sorted(und.items()):
        c.count('cases not decided', x)
        c.ok('cases not decided', '%s (%d)' % (u, x))
