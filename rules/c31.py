"""C31: the parser of a compiler run does exactly what the tables of the automaton say."""
import re
from facts import CTORS, CALLS
from absint import Eval, State, TOP, trunc
import cg, flow

PROP = {
    'title': 'The table driven parser does exactly what its tables say',
    'statement': 'For every loaded automaton and every source, each step of a compiler run takes the action of the table for the state on top of the parser stack and the current token, and raises an error if there is none: '
                 'a shift pushes exactly the state of the action and consumes the token; a reduction removes exactly as many states as the production has elements, pushes exactly the goto state of the state uncovered and the nonterminal (an error if there is none), and does not consume the token; '
                 'the run is accepted only by an accept action at the end of input, and the states of the stack are never removed beyond its bottom. '
                 'A reduction with operator >> or {} and a function increments the scope counter exactly once (>> also without function, no other action changes it), and its node gets the call of the production, the step or the scope from the first element to the counter; '
                 'tokens are fed in order, each until consumed, the end of input last, and after it the functions of all root nodes are called in order.',
    'over': ['inputs', 'programs'],
    'quant': 'every action type, every relation of reduction size and stack size, keyword or not, with or without function and scope operator, table entries present or missing',
    'why': 'Tests compile a few correct programs; empty reductions without function, corrupted tables, accept before the end of input or missing goto entries do not occur in them.',
    'files': ['src/lua_run_compiler.cpp'],
    'mech': [('feedLexem', 'src/lua_run_compiler.cpp'), ('luaReduceStruct', 'src/lua_run_compiler.cpp'), ('luaRunCompiler', 'src/lua_run_compiler.cpp')],
    'technique': 'path-sensitive abstract interpretation (typestate of the parser stack, provenance of pushed states) over all case combinations of the action',
    'design': 'The step function is interpreted over an exhaustive split of the action (type, scope flag, call/no call, count < , = , > stack height, goto present/missing), with an abstract parser stack.',
    'level_note': 'All paths of the step function with its callees, over a complete case split of the table entry and of the relation between reduction size and stack size; loops collecting arguments are followed for two rounds. '
                  'Which elements of the Lua stack end up in the argument table of a node is judged by C03 for memory safety only, not for completeness.',
}


class Sym:
    __slots__ = ('n', 'a')

    def __init__(self, n, *a):
        self.n = n; self.a = a

    def __repr__(self):
        return self.n + ('(' + ', '.join(map(repr, self.a)) + ')' if self.a else '')

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n == self.n and o.a == self.a

    def __hash__(self):
        return hash((self.n, self.a))


SIZE, COUNT, VALUE, CALL, LEXID, FIRST = Sym('stack size'), Sym('count'), Sym('value'), Sym('call'), Sym('token'), Sym('size-count')
LASTIX, UNCIX = Sym('size-1'), Sym('size-count-1')      # indices of the element on top and of the one uncovered by a reduction
VEND = Sym('end of the stack')


def vit(x):
    return Sym('iterator at', x)


class SEval(Eval):
    """binary operations on symbols; `case` fixes the relation between count, 0 and the stack size"""
    def __init__(self, p, case, **kw):
        Eval.__init__(self, p, **kw)
        self.case = case

    def rel(self, op, l, r):
        rel = self.case.get('rel')
        order = {'neg': {COUNT: -5, SIZE: 9}, 'zero': {COUNT: 0, SIZE: 9}, 'in': {COUNT: 4, SIZE: 9}, 'eq': {COUNT: 9, SIZE: 9}, 'gt': {COUNT: 12, SIZE: 9}}.get(rel, {})

        def num(x):
            if isinstance(x, int):
                # only the comparisons with 0 and 1 have a fixed outcome for every value of the class
                return x if x in (0, 1) else None
            if x == FIRST and COUNT in order:
                return order[SIZE] - order[COUNT]
            if x == UNCIX and COUNT in order:
                return order[SIZE] - order[COUNT] - 1
            if x == LASTIX and COUNT in order:
                return order[SIZE] - 1
            if x == LEXID:
                return 7
            if x == CALL:
                return 3
            return order.get(x)
        if l == r:
            return int(op in ('==', '<=', '>='))
        a, b = num(l), num(r)
        if a is None or b is None:
            return TOP
        if 1 in (l, r) and rel in ('in',) and COUNT in (l, r) and op not in ('<', '>='):
            return TOP
        if 1 in (l, r) and (SIZE in (l, r) or FIRST in (l, r)):
            # the size of the stack is at least one; whether it is one depends on the history
            if op == '<' and r == 1 or op == '>' and l == 1:
                return int(a < 1) if l == FIRST else 0
            return TOP
        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])

    def binop(self, op, l, r, nd):
        if isinstance(l, Sym) or isinstance(r, Sym):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                if isinstance(l, (int, Sym)) and isinstance(r, (int, Sym)):
                    return self.rel(op, l, r)
                return TOP
            if op == '-' and l == SIZE and r == COUNT:
                return FIRST
            if op == '+' and l == FIRST and r == COUNT or op == '+' and l == COUNT and r == FIRST:
                return SIZE
            if op == '-' and r == 1 and l in (SIZE, FIRST):
                return LASTIX if l == SIZE else UNCIX
            if op == '+' and r == 1 and l in (LASTIX, UNCIX):
                return SIZE if l == LASTIX else FIRST
            if op == '-' and l == LASTIX and r == COUNT:
                return UNCIX
            if op in ('+', '-') and isinstance(l, Sym) and l.n == 'counter' and isinstance(r, int):
                return Sym('counter', l.a[0] + (r if op == '+' else -r))
            if op in ('+', '-') and isinstance(l, Sym) and isinstance(r, int):
                base, k = (l.a[0], l.a[1]) if l.n == 'lin' else (l, 0)
                k += r if op == '+' else -r
                return base if k == 0 else Sym('lin', base, k)
            if op == '+' and isinstance(l, int):
                return self.binop(op, r, l, nd)
            return TOP
        return Eval.binop(self, op, l, r, nd)

    def truth(self, v):
        if isinstance(v, Sym):
            r = self.rel('!=', v, 0)
            return None if r is TOP else bool(r)
        return Eval.truth(self, v)

    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        if nd['k'] == 'UnaryOperator' and nd['op'] in ('++', '--'):
            v = self.val(fn, fr, s, nd['c'][0], this)
            if isinstance(v, tuple) and v[:1] == ('ref',):
                old = self.load(s, v[1], nd.get('t', ''))
                if isinstance(old, Sym) and old.n == 'counter':
                    new = Sym('counter', old.a[0] + (1 if nd['op'] == '++' else -1))
                    self.store(s, v[1], new)
                    return old if nd.get('post') else v
        return Eval.eval(self, fn, fr, s, i, this)


EV = ('#events',)
LS = ('#lua',)


def ev_add(st, *x):
    st.mem[EV] = st.mem.get(EV, ()) + (x,)


def find_anchors(c, p):
    feed = [f for f in p.fns.values() if f.ret == 'bool' and f.blocks and any('Lexem' in x['t'] for x in f.params) and any('Automaton' in x['t'] for x in f.params)
            and any((nd.get('qn') or '').endswith('Automaton::gotos') or (nd.get('qn') or '').endswith('Automaton::actions') for i, k, nd in deep_calls(p, f))]
    named = [f for f in feed if f.name == 'feedLexem']
    if named:
        feed = named
    if len(feed) != 1:
        # the outermost one
        keys = {f.key for f in feed}
        inner = {k for f in feed for i, k, nd in p.call_sites(f) if k in keys}
        feed = [f for f in feed if f.key not in inner]
    if len(feed) != 1:
        c.broken('anchor vanished: the function feeding a token to the parser (%s)' % ', '.join(f.qn for f in feed))
    run = [f for f in p.fns.values() if f.blocks and f.key != feed[0].key and any(k == feed[0].key for i, k, nd in p.call_sites(f))]
    if not run:
        c.broken('anchor vanished: the loop feeding tokens')
    return feed[0], run


def deep_calls(p, f, seen=None):
    seen = seen if seen is not None else set()
    if f.key in seen or len(seen) > 40:
        return
    seen.add(f.key)
    for x in p.call_sites(f):
        yield x
        if x[1]:
            for t in p.targets(x[1]):
                if t.file == f.file:
                    yield from deep_calls(p, t, seen)


def state_record(c, p, feed):
    """the element type of the parser stack and its container"""
    for i, k, nd in deep_calls(p, feed):
        qn = nd.get('qn') or ''
        if qn.startswith('std::vector<') and qn.split('::')[-1] in ('push_back', 'emplace_back', 'resize', 'back'):
            m = re.match(r'std::vector<([\w:]+)', qn)
            if m and m.group(1) in p.recs:
                return m.group(1)
    c.broken('anchor vanished: the parser stack')


def fields_of(p, rec):
    r = p.recs[rec]
    n = [x['n'] for x in r['fields']]
    pick = {}
    for k, (name, pos) in {'index': ('index', 0), 'scopecnt': ('scopecnt', len(n) - 1)}.items():
        pick[k] = name if name in n else n[pos]
    return n, pick


def is_stack(qn, rec):
    return qn.startswith('std::vector<' + rec)


def make_extern(c, p, feed, rec, names, pick, case):
    def elem(st, which):
        """location of a stack element seen from the current depth of the stack"""
        loc = ('el', which)
        for n in names:
            st.mem.setdefault(loc + (n,), Sym(n, which) if which not in ('?', 'some') else TOP)
        return ('ref', loc)

    def at_index(st, ix, top):
        if ix == FIRST and top == 'top':
            return elem(st, 'first reduced')
        if ix == FIRST and top == 'pushed' or ix == LASTIX and top == 'top':
            return elem(st, 'pushed' if top == 'pushed' else 'top')
        if ix == UNCIX:
            return elem(st, 'uncovered')
        return elem(st, 'some')

    def load(st, v):
        k = 0
        while isinstance(v, tuple) and v[:1] == ('ref',) and v[1] in st.mem and k < 6:
            v = st.mem[v[1]]; k += 1
        return v

    def key_of(st, v):
        """values of the two members of a table key"""
        if isinstance(v, tuple) and v[:1] == ('ref',):
            loc = v[1]
            for _ in range(6):
                sub = [k for k in st.mem.under(loc) if len(k) == len(loc) + 1 and not str(k[-1]).startswith('#')]
                if sub:
                    return {k[-1]: st.mem[k] for k in sub}
                x = st.mem.get(loc)
                if isinstance(x, tuple) and x[:1] == ('ref',):
                    loc = x[1]
                else:
                    break
        return None

    def extern(ev, st, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn') or ''
        base = qn.split('::')[-1]
        op = nd.get('op')
        # ---- the parser stack
        if is_stack(qn, rec):
            top = st.mem.get(('#top',), 'top')
            if base == 'back':
                return elem(st, top)
            if base == 'size':
                return SIZE if top == 'top' else (FIRST if top == 'uncovered' else TOP)
            if base == 'empty':
                return 0 if top != 'uncovered' else TOP
            if base in ('push_back', 'emplace_back'):
                if base == 'push_back':
                    loc = args[0][1] if isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None
                    vals = {n: load(st, ('ref', loc + (n,))) if loc else TOP for n in names}
                else:
                    ctor = [f for f in p.fns.values() if f.cls == rec and f.d.get('ctor') and len(f.params) == len(args) and f.blocks]
                    vals = {n: TOP for n in names}
                    if ctor:
                        oc = ev.call(ctor[0], st, ('tmpel',), args)
                        if len(oc) == 1:
                            vals = {n: oc[0].state.mem.get(('tmpel', n), TOP) for n in names}
                vals = {n: (load(st, v) if isinstance(v, tuple) else v) for n, v in vals.items()}
                ev_add(st, 'push', vals[pick['index']], vals[pick['scopecnt']])
                st.mem[('#top',)] = 'pushed'
                for n, v in vals.items():
                    st.mem[('el', 'pushed', n)] = v
                return elem(st, 'pushed') if base == 'emplace_back' else TOP
            if base == 'resize':
                ev_add(st, 'resize', load(st, args[0]))
                st.mem[('#top',)] = 'uncovered' if top == 'top' else '?'
                return TOP
            if base == 'erase' and [load(st, x) for x in args] == [vit(FIRST), VEND] and top == 'top':
                ev_add(st, 'resize', FIRST)
                st.mem[('#top',)] = 'uncovered'
                return TOP
            if base in ('end', 'cend'):
                return VEND if top == 'top' else TOP
            if base in ('begin', 'cbegin'):
                return vit(0)
            if base in ('pop_back', 'erase'):
                # removal of a number of states that is not known here
                ev_add(st, 'popped')
                st.mem[('#top',)] = '?'
                return TOP
            if base in ('clear', 'insert', 'assign', 'swap'):
                ev_add(st, 'stack ' + base)
                st.mem[('#top',)] = '?'
                return TOP
            if base in ('operator[]', 'at'):
                ix = load(st, args[0])
                ev_add(st, 'index', ix, top)
                return at_index(st, ix, top)
            return TOP
        if nd['k'] == 'CXXOperatorCallExpr' and op in ('-', '+', '->', '*') and rec in qn and '__normal_iterator' in qn:
            a = [load(st, x) for x in ([('ref', objloc)] if nd.get('cls') and objloc is not None else []) + list(args)]
            if op == '-' and a == [VEND, COUNT]:
                return vit(FIRST)
            if op == '-' and a == [VEND, 1]:
                return vit(LASTIX)
            if op == '+' and len(a) == 2 and a[0] == vit(0) and isinstance(a[1], Sym):
                return vit(a[1])
            if op in ('->', '*') and a and isinstance(a[0], Sym) and a[0].n == 'iterator at':
                ev_add(st, 'index', a[0].a[0], st.mem.get(('#top',), 'top'))
                return at_index(st, a[0].a[0], st.mem.get(('#top',), 'top'))
            return TOP
        if nd['k'] in CTORS and '__normal_iterator' in (nd.get('cls') or '') and rec in (nd.get('cls') or ''):
            return load(st, args[0]) if args else TOP
        # ---- the tables
        if base in ('find', 'at', 'count', 'lower_bound') and ('ActionKey' in qn or 'GotoKey' in qn):
            which = 'goto' if 'GotoKey' in qn else 'action'
            k = key_of(st, args[0]) if args else None
            ev_add(st, 'find', which, tuple(sorted((n, str(load(st, v) if isinstance(v, tuple) else v)) for n, v in (k or {}).items())), base)
            if base == 'find':
                return Sym('it', which)
            return TOP
        if base in ('end', 'cend') and ('ActionKey' in qn or 'GotoKey' in qn):
            return Sym('end', 'goto' if 'GotoKey' in qn else 'action')
        if op in ('==', '!=') and nd['k'] == 'CXXOperatorCallExpr':
            a = [load(st, x) for x in ([('ref', objloc)] if nd.get('cls') and objloc is not None else []) + list(args)]
            if len(a) == 2 and all(isinstance(x, Sym) and x.n in ('it', 'end') for x in a) and a[0].n != a[1].n and a[0].a == a[1].a:
                found = case['found' if a[0].a[0] == 'action' else 'gfound']
                return int(found == (op == '!='))
        if op in ('->', '*') and nd['k'] == 'CXXOperatorCallExpr':
            v = load(st, ('ref', objloc)) if objloc is not None else (load(st, args[0]) if args else TOP)
            if isinstance(v, Sym) and v.n == 'it':
                if not case['found' if v.a[0] == 'action' else 'gfound']:
                    ev_add(st, 'deref end', v.a[0])
                return ('ref', ('entry', v.a[0]))
            return TOP
        if nd['k'] in CTORS and '_Rb_tree' in (nd.get('cls') or ''):
            # conversion or copy of a table iterator
            return load(st, args[0]) if args else TOP
        # ---- token and lexer
        if base == 'isKeyword':
            return case.get('keyword', TOP) if case.get('keyword') is not None else TOP
        if qn.endswith('Lexem::id'):
            return 0 if case.get('eof') else LEXID
        if qn.endswith('Lexem::line'):
            return Sym('token line')
        # ---- Lua
        if base.startswith('lua_') or base.startswith('luaL_'):
            return lua(st, base, fn, el, [load(st, x) for x in args], args)
        t = ev.p.targets(nd['fn']) if nd.get('fn') else []
        if not t and nd['k'] not in CTORS and fn.nodes[el].get('t') is not None:
            return TOP
        if t and all(opaque(p, x, rec, feed.file) for x in t):
            return TOP
        return NotImplemented

    def lua(st, name, fn, el, a, raw):
        s = st.mem.get(LS, ())

        def put(x):
            st.mem[LS] = s + (x,)

        def at(i):
            return s[i] if isinstance(i, int) and i < 0 and -i <= len(s) else None
        if name in ('lua_pushstring', 'lua_pushlstring'):
            v = fn.string(fn.args(el)[1])
            put(v if v is not None else Sym('string'))
        elif name == 'lua_pushinteger':
            put(a[1])
        elif name in ('lua_createtable', 'lua_newtable'):
            put(Sym('table', el))
        elif name == 'lua_rawgeti':
            put(Sym('rawgeti', a[1], a[2]) if isinstance(a[1], (int, Sym)) and isinstance(a[2], (int, Sym)) else TOP)
        elif name == 'lua_pushvalue':
            put(TOP)
        elif name in ('lua_rawset', 'lua_settable', 'lua_rawseti', 'lua_setfield'):
            t = at(a[1])
            n = 2 if name in ('lua_rawset', 'lua_settable') else 1
            if isinstance(t, Sym) and t.n == 'table' and len(s) >= n:
                k = s[-2] if n == 2 else (a[2] if name == 'lua_rawseti' else fn.string(fn.args(el)[2]))
                ev_add(st, 'set', t.a[0], k, s[-1])
            st.mem[LS] = s[:-n] if len(s) >= n else ()
        elif name == 'lua_settop':
            i = a[1]
            st.mem[LS] = s[:i + 1] if isinstance(i, int) and i < -1 and -i - 1 <= len(s) else (s if i == -1 else ())
        elif name in ('lua_checkstack',):
            return TOP
        elif name in ('lua_replace', 'lua_insert', 'lua_remove'):
            st.mem[LS] = ()
        return TOP
    return extern


OPAQUE = {}


def opaque(p, f, rec, home):
    """a function with loops or recursion that neither changes which states are on the stack nor the counter, looks up no table and calls no Lua function"""
    if f.key in OPAQUE:
        return OPAQUE[f.key]
    reach = {}
    st = [f]
    while st:
        g = st.pop()
        if g.key in reach:
            continue
        reach[g.key] = g
        for i, k, nd in p.call_sites(g):
            if k:
                st.extend(p.targets(k))
    loop = any(g.nodes[i]['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'GotoStmt') for g in reach.values() for i in g.walk())
    loop = loop or any(k == f.key for g in reach.values() for i, k, nd in p.call_sites(g))
    r = loop or len(f.blocks) > 6 or not (f.file == home or (f.cls or '').startswith('mewa::Automaton'))
    if r:
        for g in reach.values():
            for i, k, nd in p.call_sites(g):
                qn = nd.get('qn') or ''
                base = qn.split('::')[-1]
                if is_stack(qn, rec) and base in ('push_back', 'emplace_back', 'resize', 'pop_back', 'clear', 'erase', 'insert', 'assign', 'swap', 'operator='):
                    r = False
                if 'ActionKey' in qn and base == 'find' or 'GotoKey' in qn and base == 'find' or base.startswith('lua'):
                    r = False
            for i in g.walk():
                if g.nodes[i]['k'] == 'MemberExpr' and g.nodes[i].get('n') == 'scopestep':
                    r = False
    OPAQUE[f.key] = r
    return r


def step_function(c, p, feed, nrset):
    rec = state_record(c, p, feed)
    names, pick = fields_of(p, rec)
    fac = {}
    for n in ('shift', 'reduce', 'accept'):
        g = [f for f in p.fns.values() if f.qn.endswith('Automaton::Action::' + n)]
        if len(g) != 1:
            c.broken('anchor vanished: Automaton::Action::' + n)
        fac[n] = g[0]
    gctor = [f for f in p.fns.values() if f.cls and f.cls.endswith('Automaton::Goto') and f.d.get('ctor') and len(f.params) == 1 and 'int' == f.params[0]['t']]
    if not gctor:
        c.broken('anchor vanished: constructor of Automaton::Goto')
    ctx = [x for x in feed.params if x['t'].rstrip().endswith('&') and 'const' not in x['t']]
    # members of the context that count: integers
    cases = []
    for kw in (0, 1):
        cases.append(dict(type='shift', keyword=kw, found=True, gfound=True, rel=None, call=0, flag=0))
    for eof in (False, True):
        for kw in (0, 1):
            cases.append(dict(type='shift', keyword=kw, found=False, gfound=True, rel=None, call=0, flag=0, eof=eof))
    for t in ('reduce', 'accept'):
        for rel in ('neg', 'zero', 'in', 'eq', 'gt'):
            for call in (0, 1):
                for flag in (0, 1, 2):
                    for g in ((True, False) if t == 'reduce' else (True,)):
                        for kw, eof in ((0, False), (1, False), (0, True)):
                            if t == 'reduce' and (kw or eof) and rel not in ('zero', 'in'):
                                continue
                            cases.append(dict(type=t, keyword=kw, found=True, gfound=g, rel=rel, call=call, flag=flag, eof=eof))
    ctxrec = None
    for x in ctx:
        t = x['t'].replace('&', '').strip()
        if t in p.recs:
            ctxrec = p.recs[t]
    if ctxrec is None:
        c.broken('anchor vanished: the context of the parser')
    ints = [x['n'] for x in ctxrec['fields'] if x['t'] == 'int']
    cname = 'scopestep' if 'scopestep' in ints else None
    tabname = 'calltable' if 'calltable' in ints else None
    if cname is None or tabname is None:
        c.broken('anchor vanished: scope counter or call table of the context')
    seen = set()

    def known(x):
        return isinstance(x, int) or isinstance(x, Sym) and all(known(y) or isinstance(y, str) for y in x.a)

    def wrong(x, want):
        if not known(x):
            c.count('values not decided')
            return False
        return x != want

    def vio(key, msg, oc, case):
        if key not in seen:
            seen.add(key)
            loc = oc.fn.loc(oc.node) if oc is not None and oc.fn is not None else feed.loc()
            d = ', '.join('%s=%s' % kv for kv in sorted(case.items()) if kv[1] is not None)
            c.violate(key, loc, '%s: %s (case: %s)' % (feed.qn, msg, d), ['%s: condition %s is %s' % (f.loc(n), f.path(n)[:80], bool(t)) for f, n, t in (oc.state.trail if oc else ())][-6:])

    for case in cases:
        e0 = SEval(p, case, max_steps=20000)
        st = State()
        for x in ctxrec['fields']:
            st.mem[('ctx', x['n'])] = Sym('ctx.' + x['n'])
        st.mem[('ctx', cname)] = Sym('counter', 0)
        callv = CALL if case['call'] else 0
        if case['type'] == 'shift':
            oc = e0.call(fac['shift'], st, None, [VALUE])
        else:
            oc = e0.call(fac[case['type']], st, None, [VALUE, case['flag'], callv, COUNT])
        if len(oc) != 1 or not (isinstance(oc[0].value, tuple) and oc[0].value[:1] == ('ref',)):
            c.broken('cannot evaluate ' + fac[case['type']].qn)
        src = oc[0].value[1]
        m = {k: v for k, v in st.mem.items()}
        for k, v in oc[0].state.mem.items():
            if k[:len(src)] == src and len(k) > len(src):
                m[('entry', 'action', 'second') + k[len(src):]] = v
        oc = e0.call(gctor[0], State(), ('g',), [Sym('goto state')])
        for k, v in oc[0].state.mem.items():
            if k[:1] == ('g',) and len(k) > 1:
                m[('entry', 'goto', 'second') + k[1:]] = v
        st = State(m)
        ex = make_extern(c, p, feed, rec, names, pick, case)
        ev = SEval(p, case, extern=ex, max_steps=3000000, max_visits=3, noreturn=nrset)
        args = []
        for x in feed.params:
            t = x['t']
            if ctxrec['n'] in t:
                args.append(('ref', ('ctx',)))
            elif 'Lexem' in t:
                args.append(('ref', ('lexem',)))
            elif 'Automaton' in t:
                args.append(('ref', ('automaton',)))
            else:
                args.append(TOP)
        outs = ev.call(feed, st, None, args)
        c.count('paths of the step function followed', len(outs))
        nret = 0
        for oc in outs:
            evs = oc.state.mem.get(EV, ())
            if oc.kind == 'bound':
                continue
            for e in evs:
                if e[0] == 'deref end':
                    vio('missing %s used' % e[1], 'the %s table entry is used although it does not exist' % e[1], oc, case)
                if e[0].startswith('stack '):
                    vio('stack operation ' + e[0][6:], 'unexpected change of the parser stack by %s' % e[0][6:], oc, case)
                if e[0] == 'index' and case['type'] != 'shift':
                    if e[1] == FIRST and case['rel'] not in ('in',):
                        vio('index out of range', 'the stack is accessed at size - count where the count is %s' % {'zero': 'zero (one beyond the top)', 'neg': 'negative', 'eq': 'the size of the stack (the bottom state would be removed)', 'gt': 'greater than the size of the stack'}[case['rel']], oc, case)
            if oc.kind != 'return':
                continue
            nret += 1
            finds = [e for e in evs if e[0] == 'find']
            push = [e for e in evs if e[0] == 'push']
            rez = [e for e in evs if e[0] == 'resize']
            v = oc.value
            topkey = str(Sym(pick['index'], 'top')); uncov = str(Sym(pick['index'], 'uncovered'))
            fa = [e for e in finds if e[1] == 'action']
            if not fa:
                vio('no action lookup', 'returns without looking up the action', oc, case)
                continue
            want = {topkey, '0' if case.get('eof') else str(LEXID)}
            for e in fa:
                if any(x == str(TOP) for n, x in e[2]):
                    c.count('values not decided')
                elif {x for n, x in e[2]} != want:
                    vio('action key', 'the action is looked up with the key %s instead of the state on top of the stack and the token' % (dict(e[2]),), oc, case)
            if not case['found']:
                vio('missing action accepted', 'returns normally although there is no action for the state and the token', oc, case)
                continue
            ctr = oc.state.mem.get(('ctx', cname))
            delta = ctr.a[0] if isinstance(ctr, Sym) and ctr.n == 'counter' else None
            truthy = v in (1, True) if isinstance(v, int) else ev.truth(v)
            if case['type'] == 'shift':
                if len(push) != 1 or rez:
                    vio('shift stack', 'a shift pushes %d states and removes states %d times' % (len(push), len(rez)), oc, case)
                elif wrong(push[0][1], VALUE):
                    vio('shift state', 'a shift pushes %s instead of the state of the action' % (push[0][1],), oc, case)
                elif wrong(push[0][2], Sym('counter', 0)):
                    vio('shift scope', 'the state pushed by a shift does not get the current scope counter, but %s' % (push[0][2],), oc, case)
                if truthy is False:
                    vio('shift result', 'a shift does not consume the token', oc, case)
                if wrong(ctr, Sym('counter', 0)):
                    vio('shift counter', 'a shift changes the scope counter', oc, case)
                c.ok('action cases judged', 'shift, keyword=%d' % case['keyword'])
                continue
            if case['rel'] in ('neg', 'eq', 'gt'):
                vio('count unchecked', 'a reduction is done with a count that is %s' % {'neg': 'negative', 'eq': 'the size of the stack (removes the bottom state)', 'gt': 'greater than the size of the stack'}[case['rel']], oc, case)
                continue
            popped = any(e[0] == 'popped' for e in evs)
            bad = [e for e in rez if wrong(e[1], FIRST) and not (case['rel'] == 'zero' and e[1] == SIZE)]
            if bad:
                vio('reduce size', 'the stack is resized to %s instead of its size minus the number of elements of the production' % (bad[0][1],), oc, case)
            if popped:
                c.count('reductions removing states one by one (number removed not decided)')
            elif len(rez) != 1 and not (case['rel'] == 'zero' and not rez):
                vio('reduce resize', 'the elements of the production are removed %d times' % len(rez), oc, case)
            wantd = 1 if (case['call'] and case['flag']) or case['flag'] == 1 else 0
            if case['flag'] == 2 and not case['call']:
                wantd = None
            if case['type'] == 'reduce':
                if wantd is not None and wrong(ctr, Sym('counter', wantd)):
                    vio('counter flag=%d call=%d' % (case['flag'], case['call']), 'a reduction %s and %s changes the scope counter by %s instead of %d' % (
                        {0: 'without scope operator', 1: 'with operator >>', 2: 'with operator {}'}[case['flag']], 'with function' if case['call'] else 'without function', delta, wantd), oc, case)
                if not case['gfound']:
                    vio('missing goto accepted', 'returns normally although there is no goto for the state uncovered and the nonterminal', oc, case)
                    continue
                fg = [e for e in finds if e[1] == 'goto']
                ok = [{uncov, str(VALUE)}] if case['rel'] != 'zero' else [{uncov, str(VALUE)}, {topkey, str(VALUE)}]
                if fg and any(x == str(TOP) for e in fg for n, x in e[2]):
                    c.count('values not decided')
                elif not fg or any({x for n, x in e[2]} not in ok for e in fg):
                    vio('goto key', 'the goto is looked up with the key %s instead of the state uncovered by the reduction and the nonterminal' % (dict(fg[0][2]) if fg else None,), oc, case)
                if len(push) != 1:
                    vio('reduce push', 'a reduction pushes %d states' % len(push), oc, case)
                elif wrong(push[0][1], Sym('goto state')):
                    vio('reduce state', 'a reduction pushes %s instead of the goto state' % (push[0][1],), oc, case)
                else:
                    if rez and evs.index(push[0]) < evs.index(rez[0]):
                        vio('reduce order', 'the goto state is pushed before the elements of the production are removed', oc, case)
                    sc = push[0][2]
                    want = Sym(pick['scopecnt'], 'first reduced') if case['rel'] == 'in' else None
                    if want is not None and wrong(sc, want):
                        vio('reduce scope', 'the state pushed by a reduction gets the scope start %s instead of the one of its first element' % (sc,), oc, case)
                    if want is None and wrong(sc, Sym('counter', 0)):
                        vio('reduce scope', 'the state pushed by an empty reduction gets the scope start %s instead of the counter' % (sc,), oc, case)
                if truthy is not False:
                    vio('reduce result', 'a reduction consumes the token', oc, case)
            else:
                if push:
                    vio('accept push', 'accept pushes a state', oc, case)
                if not case.get('eof'):
                    vio('accept early', 'accepts although the token is not the end of input', oc, case)
                if truthy is False:
                    vio('accept result', 'accept does not end the parsing', oc, case)
            # the node
            sets = [e for e in evs if e[0] == 'set']
            kv = {}
            for e in sets:
                kv.setdefault(e[1], []).append((e[2], e[3]))
            nodes = [t for t, l in kv.items() if any(k == 'call' for k, x in l)]
            if case['call']:
                if len(nodes) != 1:
                    vio('node', 'a reduction with function builds %d nodes' % len(nodes), oc, case)
                else:
                    l = dict(reversed([(k, x) for k, x in kv[nodes[0]] if isinstance(k, str)]))
                    if wrong(l.get('call'), Sym('rawgeti', Sym('ctx.' + tabname), CALL)):
                        vio('node call', 'the call of the node is %s instead of the element of the call table the production refers to' % (l.get('call'),), oc, case)
                    if 'arg' not in l:
                        vio('node arg', 'the node gets no arguments', oc, case)
                    if wrong(l.get('line'), Sym('ctx.line')):
                        vio('node line', 'the line of the node is %s instead of the line of the last token' % (l.get('line'),), oc, case)
                    cnt = Sym('counter', 1 if case['flag'] else 0)
                    if case['flag'] == 1 and (wrong(l['step'], cnt) if 'step' in l else True):
                        vio('node step', 'the step of a node with operator >> is %s instead of the incremented counter' % (l.get('step'),), oc, case)
                    if case['flag'] == 2:
                        sc = l.get('scope')
                        start = Sym(pick['scopecnt'], 'first reduced') if case['rel'] == 'in' else Sym('counter', 0)
                        g = dict((k, x) for k, x in kv.get(sc.a[0], ()) if isinstance(k, int)) if isinstance(sc, Sym) and sc.n == 'table' else {}
                        if 1 not in g or 2 not in g or wrong(g.get(1), start) or wrong(g.get(2), cnt):
                            vio('node scope', 'the scope of a node with operator {} is (%s, %s) instead of (%s, %s)' % (g.get(1), g.get(2), start, cnt), oc, case)
                    c.ok('nodes judged')
            elif nodes:
                vio('node without call', 'a reduction without function builds a node', oc, case)
            c.ok('action cases judged', '%s, count %s, %s' % (case['type'], case['rel'], 'call' if case['call'] else 'no call'))
        legal = case['found'] and (case['type'] == 'shift' or case['rel'] in ('zero', 'in') and (case['type'] == 'accept' and case['eof'] or case['type'] == 'reduce' and case['gfound']))
        if legal and not nret:
            vio('%s fails' % case['type'], 'a legal %s never returns normally' % case['type'], outs[0] if outs else None, case)
        c.count('table entry cases split')


def drivers(c, p, feed, runs, nrset, rec):
    """tokens are fed in order, each until consumed, the end of input last; then the root nodes are called"""
    for f in runs:
        lex = [i for i, k, nd in p.call_sites(f) if (nd.get('qn') or '').endswith('Lexer::next')]
        if not lex:
            continue
        calls = [k for i, k, nd in p.call_sites(f) if k and any(reaches(p, t, 'lua_pcall') or reaches(p, t, 'lua_pcallk') for t in p.targets(k))]
        for n in (0, 1, 2):
            for falses in ((0,) * (n + 1), (1,) * (n + 1), tuple((j + 1) % 3 for j in range(n + 1))):
                judge_driver(c, p, f, feed, set(calls), n, falses, nrset, rec)


def reaches(p, f, name, seen=None):
    seen = seen if seen is not None else set()
    if f.key in seen:
        return False
    seen.add(f.key)
    for i, k, nd in p.call_sites(f):
        if nd.get('qn') == name:
            return True
        if k and any(reaches(p, t, name, seen) for t in p.targets(k)):
            return True
    return False


def judge_driver(c, p, f, feed, calls, n, falses, nrset, rec):
    lexloc = [x for x in range(n + 1)]

    def tok(st, loc):
        v = st.mem.get(loc + ('#tok',))
        k = 0
        while v is None and k < 6:
            r = st.mem.get(loc)
            if isinstance(r, tuple) and r[:1] == ('ref',):
                loc = r[1]
            elif isinstance(r, Sym) and r.n == 'tok':
                return r.a[0]
            else:
                cp = st.mem.get(loc + ('#copyof',))
                if isinstance(cp, tuple) and cp[:1] == ('ref',):
                    loc = cp[1]
                else:
                    return None
            v = st.mem.get(loc + ('#tok',)); k += 1
        return v

    def extern(ev, st, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn') or ''
        base = qn.split('::')[-1]
        if qn.endswith('Lexer::next'):
            k = st.mem.get(('#next',), 0)
            st.mem[('#next',)] = k + 1
            loc = ('lexem%d' % k,)
            st.mem[loc + ('#tok',)] = min(k, n)
            ev_add(st, 'next', k)
            return ('ref', loc)
        if nd.get('fn') == feed.key:
            ix = [j for j, x in enumerate(feed.params) if 'Lexem' in x['t']][0]
            t = tok(st, args[ix][1]) if isinstance(args[ix], tuple) and args[ix][:1] == ('ref',) else None
            k = st.mem.get(('#fed', t), 0)
            st.mem[('#fed', t)] = k + 1
            ev_add(st, 'feed', t)
            return 0 if t is not None and k < falses[t] else 1
        if nd.get('fn') in calls:
            ix = [j for j, x in enumerate(args) if isinstance(x, int)]
            ev_add(st, 'call', tuple(args[j] for j in ix))
            return TOP
        if objloc is not None and '::Lexem::' in qn and base in ('empty', 'id', 'value', 'name', 'line'):
            t = tok(st, objloc)
            if t is None:
                return TOP
            if base == 'empty':
                return int(t == n)
            if base == 'id':
                return 0 if t == n else t + 1
            return TOP
        if nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=' and '::Lexem::' in qn:
            t = tok(st, args[0][1]) if isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None
            if objloc is not None:
                ev.store(st, objloc, Sym('tok', t))
                st.mem[objloc + ('#tok',)] = t
            return ('ref', objloc)
        if nd['k'] in CTORS and (nd.get('cls') or '').endswith('::Lexem'):
            if len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                t = tok(st, args[0][1])
                if t is not None:
                    ev.frames += 1
                    loc = ('T%d' % ev.frames,)
                    st.mem[loc + ('#tok',)] = t
                    return ('ref', loc)
            return NotImplemented
        if base == 'lua_gettop':
            roots = any(e == ('feed', n) for e in st.mem.get(EV, ()))
            return 6 if roots else 4
        if base == 'lua_istable':
            return 1
        if base == 'lua_type':
            return 5
        if base in ('lua_rawlen', 'lua_objlen'):
            return 3
        if base == 'empty' and is_stack(qn, rec):
            return 0        # the initial state is never removed
        if base.startswith('lua') or base in ('back', 'empty', 'printDebug', 'fprintf'):
            return TOP
        t = ev.p.targets(nd['fn']) if nd.get('fn') else []
        if not t and nd['k'] not in CTORS:
            return TOP
        if nd['k'] in CTORS and t and 'Context' in (nd.get('cls') or ''):
            return NotImplemented
        if nd['k'] in CTORS:
            return TOP
        if any(x.file != f.file for x in t):
            return TOP
        if all(x.ret == 'void' and len(x.params) and not reaches_key(ev.p, x, feed.key) for x in t):
            return TOP
        return NotImplemented
    ev = Eval(p, extern=extern, max_steps=60000, max_visits=14, noreturn=nrset)
    st = State()
    args = []
    for x in f.params:
        if x['t'].startswith('FILE') or 'FILE' in x['t'] or '_IO_FILE' in x['t']:
            args.append(0)
        elif x['t'].rstrip().endswith('&'):
            args.append(('ref', ('par', x['v'])))
        else:
            args.append(TOP)
    try:
        outs = ev.call(f, st, None, args)
    except Exception as e:
        from facts import Broken
        if isinstance(e, Broken):
            c.count('driver runs not decided')
            return
        raise
    want = []
    for k in range(n + 1):
        want += [('feed', k)] * (falses[k] + 1)
    done = 0
    for oc in outs:
        if oc.kind != 'return':
            continue
        done += 1
        evs = oc.state.mem.get(EV, ())
        feeds = [e for e in evs if e[0] == 'feed']
        if any(e[1] is None for e in feeds):
            c.count('driver runs not decided')
            continue
        if feeds != want:
            c.violate('token order', f.loc(), '%s: with %d tokens of which %s need %s steps before they are consumed, the tokens fed are %s instead of %s' % (
                f.qn, n, list(range(n + 1)), list(falses), [e[1] for e in feeds], [e[1] for e in want]))
        cl = [e for e in evs if e[0] == 'call']
        if cl:
            first = evs.index(cl[0]); last = max(i for i, e in enumerate(evs) if e[0] == 'feed')
            if first < last:
                c.violate('call before end', f.loc(), '%s calls a node function before the end of input is accepted' % f.qn)
            li = [e[1][0] for e in cl if e[1]]
            if li != [5, 6] and not any(len(e[1]) == 0 for e in cl):
                c.violate('root nodes', f.loc(), '%s calls the functions of the root nodes %s instead of all of them in order (5, 6)' % (f.qn, li))
        elif calls and not any(t is not None and 'calltable' in fn.path(i) for fn, i, t in oc.state.trail):
            c.violate('root nodes', f.loc(), '%s ends without calling the functions of the root nodes' % f.qn)
        c.ok('token sequences judged', '%s: %d tokens, steps %s' % (f.qn, n, falses))
    if not done:
        c.violate('token order', f.loc(), '%s: no path ends normally with %d tokens (%s steps before they are consumed)' % (f.qn, n, list(falses)))


def reaches_key(p, f, key, seen=None):
    seen = seen if seen is not None else set()
    if f.key in seen:
        return False
    seen.add(f.key)
    for i, k, nd in p.call_sites(f):
        if k == key or (k and any(reaches_key(p, t, key, seen) for t in p.targets(k))):
            return True
    return False


def run(c):
    c.rule('every path of the function feeding a token, for every case of the table entry: one lookup with (top state, token); shift = one push of the action state, consumed; reduce = one removal of count states '
           '(count checked against the stack), one push of the goto of (state uncovered, nonterminal), not consumed; accept = no push, only at end of input; scope counter and node contents; feeding order')
    p = c.prog()
    feed, runs = find_anchors(c, p)
    nrset = flow.NR.of(p)
    step_function(c, p, feed, nrset)
    drivers(c, p, feed, runs, nrset, state_record(c, p, feed))
    c.floor('action cases judged', 10)
    c.floor('table entry cases split', 30)
    c.floor('token sequences judged', 3)
