"""C08: a generated compiler table restores the automaton it was printed from"""
import concurrent.futures
import concurrent.futures.process
import multiprocessing
import os
import resource
import signal
import time
from absint import State, TOP
from strabs import Str, Ptr, Lin, Sy, CHARSET, split_run, show, codes, lin, lin_op, number
from facts import Broken
from coll import CollEval, Seq, Mp, Num, LuaText, BadLua

PROP = {
    'title': 'Loading a generated compiler table restores what was printed',
    'statement': 'The Lua table printed for an automaton is a valid Lua table constructor, and loading it (mewa.compiler) does not fail and gives an automaton with the same language, type system and '
    'command line module names, the same non-terminal names, action and goto tables and call list (function, argument and kind of argument), and a lexer with the same definitions: names, patterns, '
    'selected sub expressions, keywords, ignored patterns, comments, error lexem, indentation lexems and the same terminal identifiers, in the same order of tokens and ignored patterns. This holds whatever order Lua enumerates the keys of the tables '
    'in, for names, keywords, patterns and comment markers of any characters. The parser of the grammar description hands out the terminal identifiers in the order the loader restores: named lexems '
    'first, keywords after them.',
    'over': ['programs'],
    'quant': 'every automaton built from a grammar, every order of enumeration of the keys',
    'why': 'Tests load the tables of three example grammars; a definition of another kind, with another argument, in another order or with a quote, backslash or line break in it is not among them.',
    'files': ['src/automaton_tostring.cpp', 'src/languagedef_tostring.cpp', 'src/lua_load_automaton.cpp', 'src/lexer.cpp', 'src/automaton_parser.cpp'],
    'mech': [('Automaton::tostring', 'src/automaton_tostring.cpp'), ('luaLoadAutomaton', 'src/lua_load_automaton.cpp'), ('Lexer::getDefinitions, define functions', 'src/lexer.cpp'),
             ('order of the definition of keywords', 'src/automaton_parser.cpp: parseLanguageDef')],
    'technique': 'abstract interpretation of printer and loader composed, with symbolic characters and numbers, over the kinds of definitions; and a reachability analysis of the grammar parser',
    'level_note': 'Strings are symbolic with up to 2 characters of the whole character set (each split where a condition depends on the character), one symbolic string at a time with constant contents in '
    'the rest of the table; lists are evaluated with lengths of 0 up to 17. The text of the module names and string arguments is without backslash and line break (they are printed as literals, '
    'the backslash sequences in them are resolved by Lua). The packing of keys and values in one number is taken from C07, the compilation of regular expressions and the index of first characters of the '
    'lexer are opaque. What has no model is counted as not decided.',
    'design': 'An Automaton object is constructed by evaluating the define functions of Lexer and the constructor of Automaton on the control flow graphs, with a memory of abstract objects (models for the '
    'standard strings, containers, iterators and streams, lib/coll.py). Automaton::tostring() is evaluated to a text of constant and symbolic characters, this text is read by the grammar of Lua table '
    'constructors, luaLoadAutomaton is evaluated on the resulting abstract table with a model of the Lua stack, with the keys enumerated in both directions. All fields of the automaton loaded are compared with '
    'those of the original one. A difference, a failing load or a text that is not valid Lua is reported with the definition and the text. Conditions on symbolic characters split the case, '
    'so that all values of the characters are covered. In the grammar parser no definition of a named lexem may be reachable from the definition of a keyword.'}

IDC = [ord(c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_']
LIT = [c for c in CHARSET if c not in (10, 13, 92)]
A = 'mewa::Automaton'
L = 'mewa::Lexer'


class Unknown(Exception):
    pass


class Thrown(Exception):
    def __init__(self, o):
        self.o = o


class Trip(CollEval):
    def __init__(self, p, anchors):
        super().__init__(p, max_steps=1000000, max_visits=600, max_depth=20)
        self.a = anchors
        self.max_paths = 60
        self.pk = {}
        for cls, (pk, un) in anchors['pack'].items():
            self.models[pk.qn] = self.m_pack(cls)
            self.models[un.qn] = self.m_unpack(cls)
        self.models['mewa::string_format'] = lambda ev, s, args, objloc, fn, el: format_(ev, s, args)
        self.models['mewa::LexemDef::activation'] = lambda ev, s, args, objloc, fn, el: ev.temp(s, Str(codes('a')))

    def m_pack(self, cls):
        def f(ev, s, args, objloc, fn, el):
            k = (cls, tuple(sorted(ev.tree(s, objloc).items())))
            if any(v is TOP for _, v in k[1]):
                return ev.lose(fn, el)
            if k not in ev.pk:
                ev.pk[k] = Lin({Sy('%s%d' % (cls.split('::')[-1], len(ev.pk)), {1, 2147483647}): 1})
            return ev.pk[k]
        return f

    def m_unpack(self, cls):
        def f(ev, s, args, objloc, fn, el):
            v = ev.num(s, args[0])
            for k, x in ev.pk.items():
                if x == v and isinstance(v, Lin):
                    t = ev.temp(s, TOP)
                    del s.mem[t[1]]
                    for rel, val in k[1]:
                        s.mem[t[1] + rel] = val if k[0] == cls else TOP
                    return t
            return ev.lose(fn, el)
        return f

    def run(self, f, s, loc, args):
        """(value, state) of the only outcome"""
        outs = self.call(f, s, loc, list(args))
        if len(outs) == 1 and outs[0].kind == 'return':
            return outs[0].value, outs[0].state
        if outs and all(o.kind == 'throw' for o in outs):
            raise Thrown(outs[0])
        raise Unknown('%s has %s' % (f.qn, [o.kind for o in outs][:4]))

    def sv(self, s, chars):
        return self.temp(s, Str(tuple(chars)))


def format_(ev, s, args):
    r = ev.fmt(s, args[0], args[1:])
    return NotImplemented if r is None else ev.temp(s, Str(r))


def anchors(p):
    a = {'pack': {}}
    ctor = [f for f in p.fns.values() if f.cls == A and f.name == 'Automaton' and len(f.params) == 9 and all('&&' not in x['t'] for x in f.params) and f.blocks]
    ts = [f for f in p.fns.values() if f.cls == A and 'basic_string<' in f.ret and not f.ret.endswith('&') and not f.params and f.blocks]
    ld = [f for f in p.fns.values() if f.ret == A and f.params and 'lua_State' in f.params[0]['t'] and f.blocks]
    lx = [f for f in p.fns.values() if f.cls == L and f.name == 'Lexer' and not f.params and f.blocks]
    call = [f for f in p.fns.values() if f.cls == A + '::Call' and f.name == 'Call' and len(f.params) == 3 and '&&' not in f.params[0]['t'] and f.blocks]
    if not (len(ctor) == len(ts) == len(ld) == len(lx) == len(call) == 1):
        return None
    a.update(ctor=ctor[0], tostring=ts[0], load=ld[0], lexer=lx[0], call=call[0])
    for nm in ('ActionKey', 'Action', 'GotoKey', 'Goto'):
        cls = A + '::' + nm
        pk = [f for f in p.fns.values() if f.cls == cls and f.name == 'packed' and not f.params]
        un = [f for f in p.fns.values() if f.cls == cls and f.name == 'unpack' and len(f.params) == 1]
        ct = [f for f in p.fns.values() if f.cls == cls and f.name == nm and f.params and '&' not in f.params[0]['t'] and f.blocks]
        if not (len(pk) == len(un) == len(ct) == 1):
            return None
        a['pack'][cls] = (pk[0], un[0])
        a[nm] = ct[0]
    for nm, k, n in (('bad', 'defineBadLexem', 2), ('token', 'defineLexem', 4), ('keyword', 'defineLexem', 1), ('ignore', 'defineIgnore', 2), ('eoln', 'defineEolnComment', 2),
                     ('bracket', 'defineBracketComment', 3), ('indent', 'defineIndentLexems', 5)):
        f = [f for f in p.fns.values() if f.cls == L and f.name == k and len(f.params) == n and f.blocks]
        if len(f) != 1:
            return None
        a[nm] = f[0]
    return a


def build(e, s, spec):
    """an automaton with the given contents; strings are tuples of characters"""
    a = e.a
    LX = ('LEX',)
    _, s = e.run(a['lexer'], s, LX, [])
    for d in spec.get('lexer', ()):
        k = d[0]
        args = [0] if k != 'keyword' else []
        for x in d[1:]:
            args.append(e.sv(s, x) if isinstance(x, tuple) else x)
        _, s = e.run(a[k], s, LX, args)
    for nm, mp in (('action', 'Action'), ('gto', 'Goto')):
        loc = ('M' + nm,)
        s.mem[loc] = Mp(0)
        for j, (kx, vx) in enumerate(spec.get(nm, ())):
            el = e.elem(loc, j)
            _, s = e.run(a[mp + 'Key'], s, el + ('first',), kx)
            _, s = e.run(a[mp], s, el + ('second',), vx)
            s.mem[loc] = Mp(j + 1)
    s.mem[('CALLS',)] = Seq(0)
    for j, (fn, arg, ty) in enumerate(spec.get('call', ())):
        _, s = e.run(a['call'], s, e.elem(('CALLS',), j), [e.sv(s, fn), e.sv(s, arg), ty])
        s.mem[('CALLS',)] = Seq(j + 1)
    s.mem[('NT',)] = Seq(0)
    for x in spec.get('nonterminal', ()):
        e.push(s, ('NT',), e.sv(s, x), '')
    args = []
    strs = [spec.get(k, ()) for k in ('language', 'typesystem', 'cmdline')]
    for pm in a['ctor'].params:
        t = pm['t']
        if t == 'int':
            args.append(1)
        elif t.startswith('const std::basic_string'):
            args.append(e.sv(s, strs.pop(0)))
        elif 'ActionKey' in t:
            args.append(('ref', ('Maction',)))
        elif 'GotoKey' in t:
            args.append(('ref', ('Mgto',)))
        elif 'Call' in t:
            args.append(('ref', ('CALLS',)))
        elif 'vector' in t:
            args.append(('ref', ('NT',)))
        else:
            args.append(('ref', LX))
    _, s = e.run(a['ctor'], s, ('AUTO',), args)
    return s


def opaque(k):
    return any(isinstance(x, str) and x in ('m_firstmap', 'm_activate', 'm_version') for x in k)


def mapsorted(t):
    """the elements of the maps in an order that does not depend on the order of insertion"""
    for m, v in list(t.items()):
        if isinstance(v, Mp):
            n = len(m)
            els = {}
            for k in [k for k in t if len(k) > n and k[:n] == m and str(k[n]).startswith('#')]:
                els.setdefault(k[n], {})[k[n + 1:]] = t.pop(k)
            for j, el in enumerate(sorted(els.values(), key=lambda e: repr(sorted(((k, x) for k, x in e.items() if k[:1] == ('first',)), key=repr)))):
                for k, x in el.items():
                    t[m + ('#%d' % j,) + k] = x
    return t


def compare(e, s, a, b):
    """None if equal, the differing field and values, raises Unknown"""
    x, y = e.tree(s, a), e.tree(s, b)
    x = {k: v for k, v in x.items() if not opaque(k)}; y = {k: v for k, v in y.items() if not opaque(k)}
    unsure = None
    x, y = mapsorted(x), mapsorted(y)
    for t in (x, y):
        # lexems without a pattern are displayed with or without quotes
        for k, v in t.items():
            if 'm_namelist' in k and isinstance(v, tuple) and len(v) > 2 and v[0] == v[-1] and v[0] in (34, 39):
                t[k] = v[1:-1]
    for k in sorted(set(x) | set(y), key=str):
        u, v = x.get(k), y.get(k)
        if u is None or v is None:
            # containers with sub objects carry a size, a missing element shows there; a missing field is unknown
            unsure = unsure or k
            continue
        if u is TOP or v is TOP:
            unsure = unsure or k
            continue
        if isinstance(u, tuple) and isinstance(v, tuple) and not any(isinstance(q, str) for q in u[:1] + v[:1]):
            r = e.cmpseq(list(u), list(v), None, False, True)
            if r is TOP:
                unsure = unsure or k
                continue
            eq = r == 0
        elif isinstance(u, (int, Lin)) and isinstance(v, (int, Lin)):
            r = lin_op('==', lin(u), lin(v))
            if r is TOP:
                unsure = unsure or k
                continue
            eq = bool(r)
        else:
            eq = u == v
        if not eq:
            return k, u, v
    if unsure is not None:
        raise Unknown('value of %s' % '.'.join(map(str, unsure)))
    return None


def val(v):
    return show(v) if isinstance(v, tuple) and all(isinstance(c, (int, Lin, Num, str)) for c in v) else repr(v)


def trip(p, anc, spec):
    """list of (kind, field, message)"""
    e = Trip(p, anc)
    try:
        s = build(e, State(), spec)
    except Thrown:
        return 'refused', e
    except Unknown as u:
        return str(u), e
    except Broken as b:
        return str(b), e
    try:
        v, s = e.run(anc['tostring'], s, ('AUTO',), [])
        text = e.strv(s, v)
        if text is None:
            return 'text unknown', e
        if any(isinstance(c, Num) and c.v is TOP for c in text):
            return 'part of the text unknown', e
    except Thrown as t:
        return [('print', 'exception', 'printing fails with an exception at %s' % t.o.fn.loc(t.o.node), ())], e
    except Unknown as u:
        return str(u), e
    except Broken as b:
        return str(b), e
    res = []
    for rev in (False, True):
        try:
            rd = LuaText(text, rev)
            tab = rd.table()
            rd.ws()
            if rd.i != len(text):
                raise BadLua('text after the end of the table')
        except BadLua as b:
            return [('text', 'not Lua', str(b), text)], e
        s2 = s.copy()
        s2.mem[('LS',)] = (tab,)
        try:
            v, s2 = e.run(anc['load'], s2, None, [('ref', ('LUA',)), 1])
            if not (isinstance(v, tuple) and v[:1] == ('ref',)):
                return 'loaded value unknown', e
            d = compare(e, s2, ('AUTO',), v[1])
            if d:
                k = [x for x in d[0]]
                res.append(('load', '.'.join(x for x in k if not x.startswith('#')), '%s is %s after loading instead of %s' % ('.'.join(k), val(d[2]), val(d[1])), text))
            elif len(s2.mem[('LS',)]) != 1:
                res.append(('load', 'stack', 'the loader leaves %d elements on the stack' % (len(s2.mem[('LS',)]) - 1), text))
        except Thrown as t:
            res.append(('load', 'exception', 'loading fails with the exception at %s' % t.o.fn.loc(t.o.node), text))
        except Unknown as u:
            return str(u), e
        except Broken as b:
            return str(b), e
    return res, e


def c_(x):
    return codes(x)


TOK = ('token', c_('NUM'), c_('[0-9]+'), 0)


def specs():
    """(description, symbols {name: set}, function of symbol values -> spec)"""
    r = []

    def slot(what, chars, lens, mk):
        for n in lens:
            r.append(('%s with %d symbolic characters' % (what, n), {'c%d' % i: chars for i in range(n)},
                      lambda S, n=n, mk=mk: mk(tuple(S['c%d' % i] for i in range(n)))))
    for k in ('language', 'typesystem', 'cmdline'):
        slot(k, LIT, (0, 1, 2), lambda x, k=k: {k: x})
    slot('non-terminal', CHARSET, (1, 2), lambda x: {'nonterminal': [x]})
    slot('function of a call', IDC, (1, 2), lambda x: {'call': [(x, (), 0)]})
    slot('function of a call with string', IDC, (1,), lambda x: {'call': [(x, c_('a b'), 1)]})
    slot('string argument', LIT, (0, 1, 2), lambda x: {'call': [(c_('fun'), x, 1)]})
    slot('reference argument', IDC, (1, 2), lambda x: {'call': [(c_('fun'), x, 2)]})
    for x in ('12', '-3', '{a=1,b="c"}', '{}', '0'):
        r.append(('constant argument ' + x, {}, lambda S, x=x: {'call': [(c_('fun'), c_(x), 2)]}))
    slot('name of a token', CHARSET, (1, 2), lambda x: {'lexer': [('token', x, c_('[a]'), 0)]})
    slot('pattern', CHARSET, (1, 2), lambda x: {'lexer': [('token', c_('NUM'), x, 0)]})
    slot('pattern with selection', CHARSET, (1,), lambda x: {'lexer': [('token', c_('NUM'), x, 1)]})
    for n in (1, 2, 3):
        r.append(('selection with %d digits' % n, {'d%d' % i: range(1 if i == 0 else 0, 10) for i in range(n)},
                  lambda S, n=n: {'lexer': [('token', c_('NUM'), c_('((a))'), number([S['d%d' % i] for i in range(n)]))]}))
        r.append(('tab size with %d digits' % n, {'d%d' % i: range(1 if i == 0 else 0, 10) for i in range(n)},
                  lambda S, n=n: {'lexer': [TOK, ('indent', c_('IND'), c_('DED'), c_('NL'), number([S['d%d' % i] for i in range(n)]))]}))
    slot('keyword', CHARSET, (1,), lambda x: {'lexer': [TOK, ('keyword', x)]})
    slot('keyword ending with a letter', CHARSET, (1,), lambda x: {'lexer': [TOK, ('keyword', x + c_('f'))]})
    slot('keyword starting with a letter', CHARSET, (1,), lambda x: {'lexer': [TOK, ('keyword', c_('f') + x)]})
    slot('keyword of special characters', [ord(c) for c in '"\'\\\n(']  , (2,), lambda x: {'lexer': [TOK, ('keyword', x)]})
    slot('error lexem', CHARSET, (0, 1, 2), lambda x: {'lexer': [('bad', x)]})
    slot('ignored pattern', CHARSET, (1, 2), lambda x: {'lexer': [('ignore', x)]})
    slot('end of line comment', CHARSET, (1, 2), lambda x: {'lexer': [('eoln', x)]})
    slot('start of a comment', CHARSET, (1, 2), lambda x: {'lexer': [('bracket', x, c_('*/'))]})
    slot('end of a comment', CHARSET, (1, 2), lambda x: {'lexer': [('bracket', c_('/*'), x)]})
    for n in (2, 4, 5, 9):
        r.append(('%d non-terminals' % n, {}, lambda S, n=n: {'nonterminal': [c_('n%d' % i) for i in range(n)]}))
        r.append(('%d states' % n, {}, lambda S, n=n: {'nonterminal': [c_('n')], 'action': [((i, 1), (0, 0, i, 0, 0)) for i in range(n)], 'gto': [((i, 1), (i + 2,)) for i in range(n)]}))
    r.append(('reductions', {}, lambda S: {'nonterminal': [c_('a'), c_('b')], 'call': [(c_('f'), (), 0), (c_('g'), c_('x'), 1)],
                                           'action': [((1, 1), (1, 0, 1, 0, 1)), ((1, 2), (1, 1, 2, 1, 3)), ((2, 1), (1, 2, 2, 2, 0)), ((3, 1), (2, 0, 1, 0, 1)), ((4, 0), (2, 1, 1, 2, 1))]}))
    r.append(('calls of all kinds', {}, lambda S: {'call': [(c_('f'), (), 0), (c_('f'), c_('x y'), 1), (c_('g'), c_('ref'), 2), (c_('h.i'), c_('12'), 2), (c_('f'), (), 1), (c_('k'), (), 0)]}))
    for n in (2, 9, 17):
        r.append(('%d keywords' % n, {}, lambda S, n=n: {'lexer': [('keyword', c_('k%d' % i)) for i in range(n)]}))
    T2 = [('token', c_('ID'), c_('[a-z]+'), 0), ('token', c_('STR'), c_('"(x)"'), 1), ('token', c_('STR'), c_("'((y))'"), 2), ('token', c_('NUM'), c_('[0-9]'), 0)]
    r.append(('tokens with several patterns', {}, lambda S: {'lexer': T2}))
    r.append(('tokens, ignored patterns and keywords', {}, lambda S: {'lexer': [('ignore', c_('%[a]'))] + T2[:2] + [('ignore', c_('z'))] + T2[2:] + [('keyword', c_('if')), ('keyword', c_('"'))]}))
    r.append(('comments', {}, lambda S: {'lexer': [('eoln', c_('//')), ('bracket', c_('/*'), c_('*/')), ('eoln', c_('#')), ('bracket', c_('(*'), c_('*)'))]}))
    r.append(('indentation lexems between tokens', {}, lambda S: {'lexer': T2[:1] + [('indent', c_('IND'), c_('DED'), c_('NL'), 4)] + T2[1:] + [('keyword', c_('if'))]}))
    r.append(('all kinds', {}, lambda S: {'language': c_('lang'), 'typesystem': c_('ts'), 'cmdline': c_('cl'), 'nonterminal': [c_('a'), c_('b')],
                                          'lexer': [('bad', c_('!')), ('eoln', c_('//')), ('bracket', c_('/*'), c_('*/')), ('ignore', c_('x'))] + T2 + [('indent', c_('IND'), c_('DED'), c_('NL'), 0)]
                                          + [('keyword', c_('if')), ('keyword', c_('then'))],
                                          'call': [(c_('f'), c_('s'), 1)], 'action': [((1, 1), (1, 0, 1, 1, 1))], 'gto': [((1, 2), (3,))]}))
    return r


COST = {'keyword': 9, 'keyword starting': 9, 'keyword ending': 9, 'keyword of special characters': 9, 'name of a token': 8, 'pattern': 8, 'ignored pattern': 8}
JOB = None
START = 0


def job(i):
    p, anc, sp = JOB
    out = []

    def late(*a):
        raise Broken('evaluation takes too long')
    signal.signal(signal.SIGALRM, late)
    left = START + 500 - time.time()
    if left < 2:
        return [({}, 'evaluation takes too long', '')]
    signal.alarm(int(min(100, left)))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    try:
        cases(p, anc, sp[i], out)
    except (Broken, MemoryError) as b:
        out.append(({}, str(b) or 'memory', ''))
    signal.alarm(0)
    return out


def cases(p, anc, sp, out):
    for sets, r in split_run(sp[1], lambda S: trip(p, anc, sp[2](S))):
        lost = ''
        if r is not None:
            lost = ''.join(' at %s %s' % (f.loc(x), f.path(x)[:60]) for f, x in r[1].lost[:1])
            r = r[0] if isinstance(r[0], str) else [(k, fi, m, show(t)[:600]) for k, fi, m, t in r[0]]
        out.append((sets, r, lost))


def run(c):
    c.rule('a printed automaton is valid Lua and loads as an automaton with the same contents')
    c.rule('the grammar parser defines no named lexem after a keyword')
    p = c.prog()
    anc = anchors(p)
    if anc is None:
        c.count('round trip not decided: interface of Automaton or Lexer changed')
    else:
        und = {}
        sp = specs()
        global JOB, START
        JOB = (p, anc, sp)
        START = time.time()
        # the long cases first
        order = sorted(range(len(sp)), key=lambda i: (-COST.get(sp[i][0].split(' with ')[0], 0) * len(sp[i][1]), i))
        results = {}
        with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
            fs = {i: pool.submit(job, i) for i in order}
            for i, r in fs.items():
                try:
                    results[i] = r.result()
                except concurrent.futures.process.BrokenProcessPool:
                    results[i] = [({}, 'the process ended', '')]
        for i, (what, _, _) in enumerate(sp):
            for sets, r, lost in results[i]:
                if r is None or isinstance(r, str):
                    if r == 'refused':
                        c.count('definitions refused by the lexer')
                        continue
                    c.count('table round trips not decided')
                    und.setdefault((what, r or 'too many cases'), lost)
                    continue
                if not r:
                    c.ok('table round trips', '%s (%s)' % (what, ', '.join('%s in %d values' % (k, len(v)) for k, v in sorted(sets.items())) or 'constant'))
                for kind, field, msg, text in r:
                    f = anc['load'] if kind == 'load' else anc['tostring']
                    c.violate('%s %s: %s' % (kind, what.split(' with ')[0], field), f.loc(0) if False else '%s:%d' % (f.file, f.line), '%s, %s: %s; text %s' % (
                        what, ', '.join('%s=%s' % (k, sorted(v)[:5]) for k, v in sorted(sets.items())), msg, text))
        for (w, u), l in sorted(und.items()):
            c.ok('round trips not decided', '%s: %s%s' % (w, u, l))
    keywords(c, p, anc)


def keywords(c, p, anc):
    """no named lexem is defined after a keyword in a function that parses a grammar"""
    if anc is None:
        return
    kw, named = {anc['keyword'].key}, {anc['token'].key, anc['indent'].key}
    # helpers that define lexems count as the definition
    reach = {}

    def defs(f, seen=()):
        if f.key in reach:
            return reach[f.key]
        r = set()
        for el, key, nd in p.call_sites(f):
            if key in kw:
                r.add('K')
            elif key in named:
                r.add('N')
            elif f.cls != L and key not in seen:
                for t in p.targets(key):
                    if t.cls != L and t.blocks and t.key != f.key and len(seen) < 6:
                        r |= defs(t, seen + (f.key,))
        reach[f.key] = r
        return r
    for f in p.fns.values():
        if not f.blocks or f.cls == L or 'LanguageDef' not in f.ret and not any('LanguageDef' in q['t'] or q['t'] == 'mewa::Lexer &' for q in f.params):
            continue
        ks, ns = [], []
        for b, blk in f.blocks.items():
            for i, el in enumerate(blk['e']):
                if not isinstance(el, int) or f.nodes[el]['k'] not in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                    continue
                key = f.nodes[el].get('fn')
                d = {'K'} if key in kw else {'N'} if key in named else set()
                if not d:
                    for t in p.targets(key) if key else []:
                        if t.cls != L and t.blocks and t.key != f.key:
                            d |= defs(t)
                if 'K' in d:
                    ks.append((b, i, el))
                if 'N' in d:
                    ns.append((b, i, el))
        if not ks:
            continue
        for b, i, el in ks:
            seen = set(); st = list(x for x in f.blocks[b]['s'] if x >= 0)
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += [y for y in f.blocks[x]['s'] if y >= 0]
            bad = [e2 for b2, i2, e2 in ns if b2 in seen or (b2 == b and i2 > i)]
            if bad:
                c.violate('keyword before named lexem in %s' % f.qn, f.loc(el), 'a named lexem can be defined at %s after the keyword defined here; the loader of the generated table defines named lexems first, '
                          'so the terminals get other identifiers there' % f.loc(bad[0]))
            else:
                c.ok('definitions of keywords in the grammar parser', '%s: no definition of a named lexem reachable (%d sites)' % (f.loc(el), len(ns)))
