"""C10: the printed language description is a Lua chunk describing all rules of the grammar"""
import absint
import c08
from absint import State, TOP
from strabs import Str, Ptr, Lin, Sy, CHARSET, split_run, show, codes, lin, lin_op, number
from facts import Broken
from coll import Seq, Mp, It, Num, LuaText, BadLua

PROP = {
    'title': 'The printed language description is valid Lua and describes every rule',
    'statement': 'The text printed by mewa --generate-language for a grammar is a Lua chunk that returns a table with the language, type system and command line module names and with a list RULES that has an entry for every '
    'named lexem pattern, ignored pattern, comment, error lexem, indentation definition and every production of the grammar, those of the same kind in the order of their definition. The entry of a lexem has its name, pattern and selection, '
    'of a comment its open and close marker, of a production its left side, the list of its right side with the kind (name or symbol) and text of every element, its priority, scope operator and call, if it has them. '
    'Every entry has the line number and the attributes (with the lines of their text) attached to this line by comments. This holds for names, patterns, markers, symbols and texts of attributes with any characters '
    'and for any attribute name that is not reserved; the attribute names the printer uses itself are reserved.',
    'over': ['programs'],
    'quant': 'every grammar, every comment with attributes',
    'why': 'The tests print the description of one example grammar; quotes, line breaks and backslashes in symbols, rarely used kinds of definitions and attribute names that are words of Lua are not among them.',
    'files': ['src/languagedef_tostring.cpp', 'src/automaton_structs.cpp', 'src/automaton_structs.hpp', 'src/automaton.cpp', 'src/lexer.cpp'],
    'mech': [('printLuaLanguageDefinition, printLexerDefinitions, printProductions, printString', 'src/languagedef_tostring.cpp'), ('LanguageDecoratorMap, LanguageDecorator::isReservedAttribute', 'src/automaton_structs.cpp')],
    'technique': 'abstract interpretation of the printer with symbolic characters and numbers, the text read by the grammar of Lua and compared with the definition',
    'level_note': 'Strings are symbolic with up to 2 characters of the whole character set, one at a time, with constant contents in the rest; the parsing of the grammar and of the comments is outside. '
    'Attributes with the same name in one comment are outside. What has no model is counted as not decided.',
    'design': 'A language definition is constructed in abstract memory (lexer definitions through the define functions of Lexer, productions and calls through their constructors, decorators through addDecorator()), '
    'the printer is evaluated on the control flow graphs with models of the standard containers and streams (as C08). The text is read by a reader of Lua constructors after the frame (local variable, return) and compared with '
    'the expected entries. Keys printed twice in one table, text that is no Lua, missing entries and differing values are reported. The set of reserved attribute names is read from the initializer used by isReservedAttribute() '
    'and must contain every key found in printed entries.'}

DOC = {'op', 'name', 'pattern', 'select', 'open', 'close', 'nl', 'tabsize', 'priority', 'left', 'right', 'scope', 'call', 'line'}
PD, PN = 'mewa::ProductionDef', 'mewa::ProductionNodeDef'
KEYWORDS = ('and', 'break', 'do', 'else', 'elseif', 'end', 'false', 'for', 'function', 'goto', 'if', 'in', 'local', 'nil', 'not', 'or', 'repeat', 'return', 'then', 'true', 'until', 'while')


class Desc(c08.Trip):
    def ctor(self, s, fr, fn, el, args, nd):
        n = nd.get('cls', '') or nd.get('t', '')
        r = super().ctor(s, fr, fn, el, args, nd)
        if n.startswith('std::multimap<int') and not args and isinstance(r, tuple):
            s.mem[r[1]] = Seq(0)
        return r

    def default(self, s, loc, t, depth=0):
        if t.startswith('std::multimap<int'):
            s.mem[loc] = Seq(0)
            return
        return super().default(s, loc, t, depth)

    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        if qn.startswith('std::multimap') and objloc is not None:
            ol = self.final(s, objloc)
            q = s.mem.get(ol)
            b = qn.split('::')[-1].split('<')[0]
            if isinstance(q, Seq):
                ks = [self.num(s, ('ref', self.elem(ol, j) + ('first',))) for j in range(q.n)]
                if b in ('insert', 'emplace') and all(isinstance(x, int) for x in ks):
                    self.frames += 1
                    t = ('T%d' % self.frames,)
                    if len(args) == 2:
                        self.put(s, t + ('first',), args[0]); self.put(s, t + ('second',), args[1])
                    else:
                        self.put(s, t, args[0])
                    k = self.num(s, ('ref', t + ('first',)))
                    if isinstance(k, int):
                        j = len([x for x in ks if x <= k])
                        for m in range(q.n, j, -1):
                            self.put(s, self.elem(ol, m), ('ref', self.elem(ol, m - 1)))
                        self.put(s, self.elem(ol, j), ('ref', t))
                        s.mem[ol] = Seq(q.n + 1)
                        return It(ol, j)
                if b in ('equal_range', 'lower_bound', 'upper_bound', 'find', 'count') and all(isinstance(x, int) for x in ks):
                    k = self.num(s, args[0])
                    if isinstance(k, int):
                        lo, hi = len([x for x in ks if x < k]), len([x for x in ks if x <= k])
                        if b == 'count':
                            return hi - lo
                        if b == 'find':
                            return It(ol, lo if lo < hi else q.n)
                        if b != 'equal_range':
                            return It(ol, lo if b == 'lower_bound' else hi)
                        self.frames += 1
                        t = ('T%d' % self.frames,)
                        s.mem[t + ('first',)] = It(ol, lo); s.mem[t + ('second',)] = It(ol, hi)
                        return ('ref', t)
                if b in ('begin', 'end', 'cbegin', 'cend'):
                    return It(ol, 0 if 'begin' in b else q.n)
                if b in ('size', 'empty'):
                    return q.n if b == 'size' else int(q.n == 0)
        return super().lib(s, fr, fn, el, args, objloc, nd, qn)


def anchors(p):
    a = c08.anchors(p)
    if a is None:
        return None
    pr = [f for f in p.fns.values() if f.blocks and 'basic_string' in f.ret and f.params and 'LanguageDef &' in f.params[0]['t'] and any('LanguageDecoratorMap' in q['t'] for q in f.params)]
    pd = [f for f in p.fns.values() if f.cls == PD and f.name == 'ProductionDef' and len(f.params) == 6 and f.blocks]
    pn = [f for f in p.fns.values() if f.cls == PN and f.name == 'ProductionNodeDef' and len(f.params) == 2 and f.blocks]
    ad = [f for f in p.fns.values() if f.cls == 'mewa::LanguageDecoratorMap' and f.name == 'addDecorator' and len(f.params) == 2 and f.blocks]
    if not (len(pr) == len(pd) == len(pn) == len(ad) == 1):
        return None
    a.update(print=pr[0], proddef=pd[0], node=pn[0], decorate=ad[0])
    return a


SCOPE = {0: None, 1: '>>', 2: '{}'}


def scopes(p):
    """text of the scope operator of every value of the enumeration"""
    r = {0: None}
    for e in p.enums.values():
        names = {x[0].split('::')[-1]: x[1] for x in e['e']}
        if {'NoScope', 'Scope', 'Step'} <= set(names):
            r = {names['NoScope']: None, names['Scope']: '{}', names['Step']: '>>'}
    return r


class No(Exception):
    pass


def build(e, s, spec):
    a = e.a
    LD = ('LD',)
    for d in spec.get('lexer', ()):
        pass
    _, s = e.run(a['lexer'], s, LD + ('lexer',), [])
    for d in spec.get('lexer', ()):
        k, line = d[0], d[1]
        args = [line] if k != 'keyword' else []
        for x in d[2:]:
            args.append(e.sv(s, x) if isinstance(x, tuple) else x)
        _, s = e.run(a[k], s, LD + ('lexer',), args)
    for k in ('language', 'typesystem', 'cmdline'):
        s.mem[LD + (k,)] = Str(tuple(spec.get(k, ())))
    s.mem[LD + ('calls',)] = Seq(0)
    for j, (fn, arg, ty) in enumerate(spec.get('call', ())):
        _, s = e.run(a['call'], s, e.elem(LD + ('calls',), j), [e.sv(s, fn), e.sv(s, arg), ty])
        s.mem[LD + ('calls',)] = Seq(j + 1)
    s.mem[LD + ('nonterminals',)] = Seq(0)
    s.mem[LD + ('prodlist',)] = Seq(0)
    for j, pr in enumerate(spec.get('prod', ())):
        s.mem[('R%d' % j,)] = Seq(0)
        for k, (sym, name) in enumerate(pr['right']):
            _, s = e.run(a['node'], s, e.elem(('R%d' % j,), k), [e.sv(s, name), int(sym)])
            s.mem[('R%d' % j,)] = Seq(k + 1)
        P = ('P%d' % j,)
        v, aso = pr.get('priority', (0, 0))
        s.mem[P + ('value',)] = v; s.mem[P + ('assoziativity',)] = aso
        _, s = e.run(a['proddef'], s, e.elem(LD + ('prodlist',), j), [pr['line'], e.sv(s, pr['left']), ('ref', ('R%d' % j,)), ('ref', P), pr.get('call', 0), pr.get('scope', 0)])
        s.mem[LD + ('prodlist',)] = Seq(j + 1)
    DM = ('DM',)
    e.default(s, DM, 'mewa::LanguageDecoratorMap')
    for j, (line, name, content) in enumerate(spec.get('decorators', ())):
        D = ('D%d' % j,)
        s.mem[D + ('name',)] = Str(tuple(name))
        s.mem[D + ('content',)] = Seq(0)
        for x in content:
            e.push(s, D + ('content',), e.sv(s, x), '')
        _, s = e.run(a['decorate'], s, DM, [line, ('ref', D)])
    return s


def st(x):
    return ('str', tuple(x))


def expected(spec, sc):
    """list of (op, {key: value})"""
    r = []

    def deco(line):
        return {tuple(n): ('list', tuple(st(x) for x in c)) for l, n, c in spec.get('decorators', ()) if l == line}
    for d in spec.get('lexer', ()):
        k, line = d[0], d[1]
        e = None
        if k == 'bad':
            e = {'op': 'BAD', 'name': d[2]}
        elif k == 'token':
            e = {'op': 'TOKEN', 'name': d[2], 'pattern': d[3], 'select': d[4] if d[4] != 0 else None}
        elif k == 'ignore':
            e = {'op': 'IGNORE', 'pattern': d[2]}
        elif k == 'eoln':
            e = {'op': 'COMMENT', 'open': d[2]}
        elif k == 'bracket':
            e = {'op': 'COMMENT', 'open': d[2], 'close': d[3]}
        elif k == 'indent':
            e = {'op': 'INDENTL', 'open': d[2], 'close': d[3], 'nl': d[4], 'tabsize': d[5]}
        if e is not None:
            r.append((e, line, deco(line)))
    for pr in spec.get('prod', ()):
        v, a = pr.get('priority', (0, 0))
        call = None
        if pr.get('call'):
            fn, arg, ty = spec['call'][pr['call'] - 1]
            call = tuple(fn) + (() if ty == 0 else codes(' "') + tuple(arg) + codes('"') if ty == 1 else codes(' ') + tuple(arg))
        r.append(({'op': 'PROD', 'left': pr['left'], 'right': ('right', pr['right']), 'priority': ('prio', v, a) if v or a else None,
                   'scope': sc[pr.get('scope', 0)], 'call': call}, pr['line'], deco(pr['line'])))
    return r


def strip_(chars):
    """the constructor in the frame of the chunk"""
    t = list(chars)

    def cst(a, b):
        x = t[a:b]
        return ''.join(chr(y) if isinstance(y, int) and 0 < y < 127 else '\1' for y in x)
    n = len(t)
    while n and t[n - 1] in (10, 32, 9, 13):
        n -= 1
    k = 0
    while k < n and isinstance(t[k], int) and t[k] in (10, 32, 9, 13):
        k += 1
    head = cst(k, min(n, k + 200))
    if head.startswith('return') and head[6:7] in (' ', '\n', '\t', '{'):
        return tuple(t[k + 6:n])
    if not head.startswith('local '):
        raise BadLua('the text does not start with a declaration: %s' % show(t[:30]))
    nm = head[6:].split('=')[0].strip()
    eq = head.find('=')
    if not nm.isidentifier() or nm in KEYWORDS:
        raise BadLua('%r is no name of a variable' % nm)
    tail = cst(max(0, n - len(nm) - 40), n)
    ix = tail.rfind('return')
    if ix < 0 or tail[ix + 6:].strip() != nm:
        raise BadLua('the text does not end with return %s' % nm)
    m = n - (len(tail) - ix)
    return tuple(t[k + eq + 1:m])


def dup(e, v, path='table'):
    if v[0] != 'tab':
        return None
    ks = []
    for k, x in v[1]:
        for q in ks:
            if q[0] == k[0] and (e.cmpseq(list(q[1]), list(k[1]), None, False, True) == 0 if k[0] == 'str' else q[1] == k[1]):
                return '%s has the key %s twice' % (path, show(k[1]) if k[0] == 'str' else k[1])
        ks.append(k)
        d = dup(e, x, '%s[%s]' % (path, show(k[1]) if k[0] == 'str' else k[1]))
        if d:
            return d
    return None


def get(e, v, key):
    key = codes(key) if isinstance(key, str) else tuple(key)
    for k, x in v[1]:
        if k[0] == 'str':
            r = e.cmpseq(list(k[1]), list(key), None, False, True)
            if r is TOP:
                raise No('key')
            if r == 0:
                return x
    return None


def same(e, x, want):
    """None or text of the difference"""
    if want is None:
        return None if x is None else 'is there without being defined'
    if x is None:
        return 'is missing'
    if isinstance(want, str):
        want = codes(want)
    if isinstance(want, (int, Lin)):
        if x[0] != 'num':
            return 'is no number'
        r = lin_op('==', lin(x[1]), lin(want))
        if r is TOP:
            raise No('number')
        return None if r else 'is %r instead of %r' % (x[1], want)
    if want[:1] == ('list',):
        want = want[1]
        if x[0] != 'tab' or [k for k, _ in x[1]] != [('num', i + 1) for i in range(len(want))]:
            return 'is no list of %d elements' % len(want)
        for i, ((_, y), w) in enumerate(zip(x[1], want)):
            d = same(e, y, w[1])
            if d:
                return 'element %d %s' % (i + 1, d)
        return None
    if want[:1] == ('prio',):
        if x[0] != 'str' or not x[1]:
            return 'is no string'
        t = list(x[1])
        if want[2]:
            if t[0] != (ord('L') if want[2] == 1 else ord('R')):
                return 'is %s instead of %s with the value' % (show(x[1]), 'L' if want[2] == 1 else 'R')
            t = t[1:]
        if len(t) == 1 and isinstance(t[0], Num):
            v = t[0].v
        elif t and all(isinstance(c, int) and 48 <= c < 58 for c in t):
            v = int(''.join(map(chr, t)))
        else:
            v = number([lin_op('-', lin(y), lin(48)) for y in t]) if t else None
        if v is None or v is TOP:
            return 'has no number'
        r = lin_op('==', lin(v), lin(want[1]))
        if r is TOP:
            raise No('priority')
        return None if r else 'has the value %r instead of %r' % (v, want[1])
    if want[:1] == ('right',):
        want = want[1]
        if x[0] != 'tab' or [k for k, _ in x[1]] != [('num', i + 1) for i in range(len(want))]:
            return 'is no list of %d elements' % len(want)
        for i, ((_, y), (sym, name)) in enumerate(zip(x[1], want)):
            for k, w in (('type', 'name' if sym else 'symbol'), ('value', name)):
                d = same(e, get(e, y, k), w) if y[0] == 'tab' else 'is no table'
                if d:
                    return '%s of element %d %s' % (k, i + 1, d)
        return None
    if x[0] != 'str':
        return 'is no string'
    r = e.cmpseq(list(x[1]), list(want), None, False, True)
    if r is TOP:
        raise No('text')
    return None if r == 0 else 'is %s instead of %s' % (show(x[1]), show(want))


def trip(p, anc, spec, sc):
    e = Desc(p, anc)
    keys = set()
    try:
        s = build(e, State(), spec)
    except c08.Thrown:
        return 'refused', e, keys
    except (c08.Unknown, Broken) as u:
        return str(u), e, keys
    try:
        v, s = e.run(anc['print'], s, None, [('ref', ('LD',)), ('ref', ('DM',))])
        text = e.strv(s, v)
        if text is None or any(isinstance(c, Num) and c.v is TOP or c is TOP for c in text):
            return 'text unknown', e, keys
    except c08.Thrown as t:
        return [('exception', 'printing fails with an exception at %s' % t.o.fn.loc(t.o.node), ())], e, keys
    except (c08.Unknown, Broken) as u:
        return str(u), e, keys
    try:
        rd = LuaText(strip_(text))
        tab = rd.table()
        rd.ws()
        if rd.i != len(rd.c):
            raise BadLua('text after the end of the table')
    except BadLua as b:
        return [('not Lua', str(b), text)], e, keys
    res = []
    try:
        d = dup(e, tab)
        if d:
            return [('key', d, text)], e, keys
        for k, nm in (('LANGUAGE', 'language'), ('TYPESYSTEM', 'typesystem'), ('CMDLINE', 'cmdline')):
            d = same(e, get(e, tab, k), tuple(spec.get(nm, ())))
            if d:
                res.append((k, '%s %s' % (k, d), text))
        rules = get(e, tab, 'RULES')
        if rules is None or rules[0] != 'tab' or any(k[0] != 'num' or x[0] != 'tab' for k, x in rules[1]):
            return [('RULES', 'there is no list of rules', text)], e, keys
        rules = [x for _, x in rules[1]]
        left = {}
        for x in rules:
            o = get(e, x, 'op')
            o = bytes(o[1]).decode('latin1') if o is not None and o[0] == 'str' and all(isinstance(y, int) and 0 < y < 128 for y in o[1]) else None
            left.setdefault((o, get(e, x, 'close') is not None), []).append(x)
        for want, line, deco in expected(spec, sc):
            op = want['op']
            cl = (op, want.get('close') is not None)
            if not left.get(cl):
                res.append((op + ' missing', 'the definition of line %s is missing' % line, text))
                continue
            x = left[cl].pop(0)
            dk = {bytes(n).decode('latin1') for n in deco if all(isinstance(y, int) and 0 < y < 128 for y in n)}
            keys |= {bytes(k[1]).decode('latin1') for k, _ in x[1] if k[0] == 'str' and all(isinstance(y, int) and 0 < y < 128 for y in k[1])} - dk
            for k in sorted(DOC - {'op', 'line'}):
                d = same(e, get(e, x, k), want.get(k))
                if d:
                    res.append(('%s: %s' % (op, k), '%s %s' % (k, d), text))
            d = same(e, get(e, x, 'line'), line)
            if d:
                res.append(('%s: line' % op, 'line %s' % d, text))
            for n, w in deco.items():
                d = same(e, get(e, x, n), w)
                if d:
                    res.append(('%s: attribute' % op, 'attribute %s %s' % (show(n), d), text))
            if not deco:
                more = [k for k, y in x[1] if k[0] == 'str' and y[0] == 'tab' and k[1] != codes('right') and any(q[0] == 'num' for q, _ in y[1])]
                alien = [k for k in more if any(tuple(n) == tuple(k[1]) for _, n, _ in spec.get('decorators', ()))]
                if alien:
                    res.append(('%s: attribute' % op, 'the attribute %s of another definition is attached' % show(alien[0][1]), text))
        for (op, _), l in left.items():
            if l and op is not None:
                res.append(('%s twice' % op, '%d entries %s more than defined' % (len(l), op), text))
    except No as n:
        return 'comparison of %s' % n, e, keys
    return res, e, keys


def specs():
    r = []
    c_ = codes
    LIT = CHARSET
    IDC = c08.IDC

    def slot(what, chars, lens, mk):
        for n in lens:
            r.append(('%s with %d symbolic characters' % (what, n), {'c%d' % i: chars for i in range(n)}, lambda Y, n=n: mk(tuple(Y['c%d' % i] for i in range(n)))))
    for k in ('language', 'typesystem', 'cmdline'):
        slot(k, LIT, (0, 1, 2), lambda x, k=k: {k: x})
    P = {'left': c_('prog'), 'right': [(1, c_('a')), (0, c_('+'))], 'line': 3}

    def pr(**kw):
        return dict(P, **kw)
    slot('left side', IDC, (1, 2), lambda x: {'prod': [pr(left=x)]})
    slot('name on the right side', IDC, (1, 2), lambda x: {'prod': [pr(right=[(1, c_('b')), (1, x)])]})
    slot('symbol on the right side', LIT, (1, 2), lambda x: {'prod': [pr(right=[(0, x), (1, c_('b'))])]})
    slot('function of a call', IDC, (1,), lambda x: {'prod': [pr(call=1)], 'call': [(x, (), 0)]})
    slot('string argument of a call', LIT, (0, 1), lambda x: {'prod': [pr(call=2)], 'call': [(c_('f'), (), 0), (c_('fun'), x, 1)]})
    slot('reference argument of a call', IDC, (1,), lambda x: {'prod': [pr(call=1)], 'call': [(c_('fun'), x, 2), (c_('g'), (), 0)]})
    for a in (0, 1, 2):
        for n in (1, 2):
            r.append(('priority with %d digits, kind %d' % (n, a), {'d%d' % i: range(1 if i == 0 else 0, 10) for i in range(n)},
                      lambda Y, n=n, a=a: {'prod': [pr(priority=(number([Y['d%d' % i] for i in range(n)]), a))]}))
        r.append(('priority 0, kind %d' % a, {}, lambda Y, a=a: {'prod': [pr(priority=(0, a))]}))
        for k in (0, 1, 2):
            r.append(('scope %d with priority kind %d' % (k, a), {}, lambda Y, k=k, a=a: {'prod': [pr(priority=(2 * a, a), scope=k, call=k % 2), P], 'call': [(c_('f'), (), 0)]}))
    for n in (0, 1, 3, 6):
        r.append(('right side of %d elements' % n, {}, lambda Y, n=n: {'prod': [pr(right=[(i % 2, c_('e%d' % i)) for i in range(n)])]}))
    for n in (0, 2, 5):
        r.append(('%d productions' % n, {}, lambda Y, n=n: {'prod': [pr(left=c_('p%d' % i), line=10 - i) for i in range(n)]}))
    TOK = ('token', 1, c_('NUM'), c_('[0-9]+'), 0)
    slot('name of a lexem', IDC, (1,), lambda x: {'lexer': [('token', 7, x, c_('[a]'), 0)]})
    slot('pattern', CHARSET, (1, 2), lambda x: {'lexer': [('token', 7, c_('NUM'), x, 0)]})
    slot('pattern with selection', CHARSET, (1,), lambda x: {'lexer': [('token', 7, c_('NUM'), x, 1)]})
    for n in (1, 2):
        r.append(('selection with %d digits' % n, {'d%d' % i: range(1 if i == 0 else 0, 10) for i in range(n)}, lambda Y, n=n: {'lexer': [('token', 2, c_('NUM'), c_('((a))'), number([Y['d%d' % i] for i in range(n)]))]}))
        r.append(('tab size with %d digits' % n, {'d%d' % i: range(1 if i == 0 else 0, 10) for i in range(n)}, lambda Y, n=n: {'lexer': [TOK, ('indent', 5, c_('IND'), c_('DED'), c_('NL'), number([Y['d%d' % i] for i in range(n)]))]}))
    slot('error lexem', [x for x in CHARSET if x != 63], (1,), lambda x: {'lexer': [('bad', 2, x)]})
    slot('ignored pattern', CHARSET, (1, 2), lambda x: {'lexer': [('ignore', 2, x)]})
    slot('end of line comment', CHARSET, (1, 2), lambda x: {'lexer': [('eoln', 2, x)]})
    slot('start of a comment', CHARSET, (1,), lambda x: {'lexer': [('bracket', 2, x, c_('*/'))]})
    slot('end of a comment', CHARSET, (1,), lambda x: {'lexer': [('bracket', 2, c_('/*'), x)]})
    T2 = [('token', 1, c_('ID'), c_('[a-z]+'), 0), ('token', 2, c_('STR'), c_('"(x)"'), 1), ('token', 3, c_('STR'), c_("'((y))'"), 2), ('token', 4, c_('NUM'), c_('[0-9]'), 0)]
    ALL = [('bad', 1, c_('!')), ('eoln', 2, c_('//')), ('bracket', 3, c_('/*'), c_('*/')), ('ignore', 4, c_('x')), ('token', 5, c_('ID'), c_('[a-z]+'), 0), ('ignore', 6, c_('y')), ('token', 7, c_('STR'), c_('"(x)"'), 1),
           ('indent', 8, c_('IND'), c_('DED'), c_('NL'), 4), ('eoln', 9, c_('#')), ('keyword', 0, c_('if'))]
    r.append(('tokens with several patterns', {}, lambda Y: {'lexer': T2}))
    r.append(('all kinds of definitions', {}, lambda Y: {'lexer': ALL, 'prod': [P]}))
    slot('text of an attribute', CHARSET, (0, 1, 2), lambda x: {'prod': [P], 'decorators': [(3, c_('rule'), [x])]})
    slot('second line of an attribute', CHARSET, (1,), lambda x: {'prod': [P], 'decorators': [(3, c_('rule'), [c_('a'), x, c_('c')])]})
    slot('name of an attribute', IDC + list(range(48, 58)), (1,), lambda x: {'prod': [P], 'decorators': [(3, x, [c_('a')])]})
    slot('name of an attribute starting with a letter', IDC + list(range(48, 58)), (1,), lambda x: {'prod': [P], 'decorators': [(3, c_('r') + x, [c_('a')])]})
    for w in KEYWORDS:
        r.append(('word %s of Lua as name of an attribute' % w, {}, lambda Y, w=w: {'prod': [P], 'decorators': [(3, c_(w), [c_('a')])]}))
    r.append(('attributes of all kinds of definitions', {}, lambda Y: {'lexer': ALL, 'prod': [pr(line=11)], 'decorators': [(l, c_('at%d' % l), [c_('text %d' % l)]) for l in (1, 2, 3, 4, 5, 7, 8, 9, 11)]}))
    r.append(('several attributes of one definition', {}, lambda Y: {'prod': [P, pr(line=4), pr(line=5)], 'decorators': [(4, c_('b'), [c_('x')]), (4, c_('a'), [c_('y'), c_('z')]), (3, c_('c'), [c_('w')])]}))
    return r


def reserved(p):
    """string constants the test of reserved attribute names refers to, None if unknown"""
    fs = [f for f in p.fns.values() if f.name == 'isReservedAttribute' and f.blocks]
    if len(fs) != 1:
        return None
    r = set()
    todo, seen = list(fs), set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for i in f.walk():
            n = f.nodes[i]
            if n['k'] == 'StringLiteral' and f.string(i) is not None:
                r.add(f.string(i))
            v = p.vars.get(n.get('v')) if n['k'] == 'DeclRefExpr' else None
            for x in (v or {}).get('nodes', ()):
                if x['k'] == 'StringLiteral' and isinstance(x.get('s'), str):
                    r.add(x['s'])
        for _, key, _ in p.call_sites(f):
            todo += [t for t in p.targets(key) if t.blocks and t.file.startswith('src/') and len(seen) < 10]
    return r or None


def run(c):
    c.rule('the printed description of a language is a Lua chunk returning a table with all definitions')
    c.rule('every key the printer writes into an entry is a reserved attribute name')
    p = c.prog()
    anc = anchors(p)
    if anc is None:
        c.count('description not decided: interface of LanguageDef, ProductionDef or the printer changed')
        return
    sc = scopes(p)
    und = {}
    keys = set()
    f = anc['print']
    for what, sy, mk in specs():
        try:
            for sets, r in split_run(sy, lambda Y: trip(p, anc, mk(Y), sc)):
                if r is not None:
                    keys |= r[2]
                if r is None or isinstance(r[0], str):
                    if r is not None and r[0] == 'refused':
                        c.count('definitions refused by the lexer')
                        continue
                    c.count('descriptions not decided')
                    und.setdefault((what, r[0] if r else 'too many cases'), ''.join(' at %s %s' % (g.loc(x), g.path(x)[:60]) for g, x in r[1].lost[:1]) if r else '')
                    continue
                desc = ', '.join('%s in %s' % (k, (sorted(v)[:5] if len(v) <= 5 else '%d values' % len(v))) for k, v in sorted(sets.items())) or 'constant'
                if not r[0]:
                    c.ok('descriptions printed and read back', '%s (%s)' % (what, desc))
                for kind, msg, text in r[0]:
                    w = 'word of Lua as name of an attribute' if what.startswith('word ') else what.split(' with ')[0]
                    c.violate('%s: %s' % (w, kind), '%s:%d' % (f.file, f.line), '%s (%s): %s; text %s' % (what, desc, msg, show(text)[:500]))
        except Broken as b:
            c.count('descriptions not decided')
            und.setdefault((what, str(b)), '')
    for (w, u), l in sorted(und.items()):
        c.ok('descriptions not decided', '%s: %s%s' % (w, u, l))
    res = reserved(p)
    if res is None or not keys:
        c.count('reserved attribute names not decided')
        return
    for k in sorted(keys):
        if k in res:
            c.ok('keys of entries that are reserved attribute names', k)
        else:
            c.violate('key %s is not reserved' % k, '%s:%d' % (f.file, f.line), 'the printer writes the key %s into an entry, an attribute with this name replaces or is replaced by the value because isReservedAttribute() accepts the name' % k)
