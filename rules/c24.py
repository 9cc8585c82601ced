"""C24: a compiler run restores the globals it redirects, closes its debug file and cannot be disturbed by a nested call."""
from facts import CTORS, CALLS, Broken
from absint import Eval, State, TOP, Outcome
import cg, flow

PROP = {
    'title': 'A compiler run leaves the Lua state as it found it, also when it fails',
    'statement': 'Whether compiler:run returns or raises an error at any point, the global functions it redirects for the time of the run (print, debug, print_section) are set back to exactly the values they had before the call, '
                 'and the debug file it opened is closed exactly once. No output printed in an earlier run of the compiler, successful or not, gets into the output of a later one. '
                 'A run or the finalizer of a compiler called by a function of a run in progress on the same compiler is refused with an error before it changes anything.',
    'over': ['histories', 'crash_points', 'inputs'],
    'quant': 'every point where a call of the run can raise an error, every combination of the optional arguments, a call nested in a run',
    'why': 'Tests end after one successful run in a fresh process; a script that catches the error of a run and carries on does not occur.',
    'files': ['src/lualib_mewa.cpp', 'src/lua_userdata.hpp'],
    'mech': [('mewa_compiler_run, restorePrintFunctions, mewa_destroy_compiler', 'src/lualib_mewa.cpp'), ('mewa_compiler_userdata_t', 'src/lua_userdata.hpp')],
    'technique': 'path-sensitive abstract interpretation (typestate of Lua globals and debug file, provenance of the Lua stack) with an exception edge at every call that may throw',
    'design': 'Path-sensitive typestate of the run method with one exceptional edge per throwing call: global functions saved/restored, files, run-in-progress members, buffers.',
    'level_note': 'All paths of the method and of its helpers, an exception at every call that may throw; errors Lua itself raises by longjmp in the middle of the method (out of memory in a push) are not followed.',
}


class Sym:
    __slots__ = ('n', 'a')

    def __init__(self, n, *a):
        self.n = n; self.a = a

    def __repr__(self):
        return self.n + ('(%s)' % ', '.join(map(str, self.a)) if self.a else '')

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n == self.n and o.a == self.a

    def __hash__(self):
        return hash((self.n, self.a))


JUNK, NIL, GT = Sym('unknown elements'), Sym('nil'), Sym('_G')
STK, FILES, RUN = ('#stk',), ('#files',), ('#run',)
REGISTRY = -1001000


class Ev(Eval):
    def binop(self, op, l, r, nd):
        if op in ('==', '!=') and (isinstance(l, Sym) or isinstance(r, Sym)) and l is not TOP and r is not TOP:
            if isinstance(l, (Sym, int)) and isinstance(r, (Sym, int)):
                return int((l == r) == (op == '=='))
        return Eval.binop(self, op, l, r, nd)

    def truth(self, v):
        if isinstance(v, Sym):
            return True
        return Eval.truth(self, v)


def reach(p, f):
    """names of Lua API functions and libc functions reached"""
    seen = set(); names = set(); st = [f]
    while st:
        g = st.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        for i, k, nd in p.call_sites(g):
            t = p.targets(k) if k else []
            if not t and nd.get('qn'):
                names.add(nd['qn'].split('::')[-1])
            st.extend(t)
    return names


NEUTRAL = {'lua_gettop', 'lua_type', 'lua_tolstring', 'lua_tonumberx', 'lua_tointegerx', 'lua_isstring', 'lua_isnumber', 'lua_checkstack', 'lua_rawlen', 'lua_objlen', 'lua_toboolean', 'lua_error',
           'luaL_error', 'luaL_checkudata', 'lua_touserdata', 'lua_isuserdata', 'lua_typename', 'luaL_checklstring', 'luaL_optlstring', 'luaL_argerror', 'luaL_checknumber', 'luaL_checkinteger', 'lua_absindex', 'luaL_testudata', 'luaL_checktype', 'luaL_checkany'}


class Model:
    def __init__(self, c, p, nr):
        self.c = c; self.p = p
        self.T = cg.Throws(p)
        self.nr = nr
        self.reach = {}
        self.undecided = 0

    def names(self, f):
        if f.key not in self.reach:
            self.reach[f.key] = reach(self.p, f)
        return self.reach[f.key]

    def exc(self, fn, el):
        nd = fn.nodes[el]
        if nd.get('nx') or (nd.get('qn') or '').startswith('lua') or 'basic_ostream' in (nd.get('t') or '') and nd['k'] == 'CXXOperatorCallExpr':
            return False        # output operators of the standard streams do not throw, no exception mask is set
        return self.T.site_escapes(fn, el, nd.get('fn'), nd) is not None

    def extern(self, ev, st, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn') or ''
        base = qn.split('::')[-1]
        a = [ev.rv(st, x) if isinstance(x, tuple) and x[:1] == ('ref',) and x[1] in st.mem else x for x in args]
        if base in ('luaL_checkudata', 'luaL_testudata', 'lua_touserdata'):
            return ('ref', ('cp',))
        if base.startswith('lua_') or base.startswith('luaL_'):
            if not self.p.targets(nd.get('fn')) if nd.get('fn') else True:
                return self.lua(ev, st, base, fn, el, a)
        if base == 'fopen':
            st2 = st.copy()
            n = len(st2.mem.get(FILES, ()))
            v = Sym('file', n)
            st.mem[FILES] = st.mem.get(FILES, ()) + ('pending',)
            return [0, v]
        if base == 'fclose':
            if isinstance(a[0], Sym) and a[0].n == 'file':
                l = list(st.mem.get(FILES, ()))
                l[a[0].a[0]] = 'closed' if l[a[0].a[0]] == 'pending' else 'closed twice'
                st.mem[FILES] = tuple(l)
                if l[a[0].a[0]] == 'closed twice':
                    self.vio('debug file closed twice', fn.loc(el), '%s: the debug file is closed a second time' % fn.qn)
            elif isinstance(a[0], Sym) and a[0].n in ('stdout', 'stderr'):
                self.vio('standard stream closed', fn.loc(el), '%s closes %s' % (fn.qn, a[0]))
            elif isinstance(a[0], Sym) and a[0].n == 'file of the run in progress':
                st.mem[('#touched',)] = 'closes the debug file of the run in progress'
            return TOP
        if base in ('strcmp', 'strcasecmp'):
            return [0, 1]
        # members of the userdata object
        if objloc is not None and objloc[:1] == ('cp',) and len(objloc) == 2:
            if base in ('clear', 'operator='):
                st.mem[('#cleared', objloc[1])] = 1
                return TOP
        if '~' in qn and objloc is not None and objloc[:1] == ('cp',):
            st.mem[('#touched',)] = 'destroys member %s of the object' % objloc[-1]
            return TOP
        if qn.startswith('std::') and objloc is not None and base in ('operator==', 'empty', 'size', 'operator bool', 'operator!='):
            return TOP
        t = self.p.targets(nd['fn']) if nd.get('fn') else []
        if t and nd['k'] not in CTORS:
            names = set().union(*[self.names(g) for g in t])
            if names & {'lua_pcallk', 'lua_pcall', 'lua_callk', 'lua_call', 'lua_resume'}:
                return self.run_event(ev, st, fn, el)
            if any(g.key in self.nr for g in t):
                return NotImplemented
            lua = {n for n in names if n.startswith('lua')}
            relevant = (lua - NEUTRAL) or names & {'fopen', 'fclose'} or any(self.touches(g) for g in t)
            if not relevant:
                return TOP
            return NotImplemented
        if nd['k'] in CTORS:
            return TOP if not (nd.get('cc') or nd.get('mc')) or 'std::' in (nd.get('cls') or '') else NotImplemented
        if qn.startswith('std::') or not t:
            return TOP
        return NotImplemented

    def touches(self, g):
        """writes a member of the userdata record or is a method of it"""
        return g.cls == self.udrec or any('%s' % self.udrec.split('::')[-1] in x['t'] for x in g.params)

    def run_event(self, ev, st, fn, el):
        # the Lua code called sees the state of the object at this place
        snap = tuple(sorted(((k, v) for k, v in st.mem.items() if k[:1] == ('cp',)), key=repr))
        g = tuple(sorted((k[1], v) for k, v in st.mem.items() if k[0] == '#g'))
        st.mem[RUN] = st.mem.get(RUN, ()) + ((snap, tuple(k[1] for k in st.mem if k[0] == '#cleared')),)
        self.runs.append((fn, el, snap, dict(g), frozenset(k[1] for k in st.mem if k[0] == '#cleared')))
        if st.mem.get(('#nested',)):
            st.mem[('#touched',)] = 'starts the nested run'
        s2 = st.copy()
        s2.mem[STK] = s2.mem.get(STK, ()) + (JUNK,)
        return [Outcome('throw', None, s2, fn, el), Outcome('return', TOP, st, fn, el)]

    # ---- the Lua stack
    def pos(self, s, i):
        if not isinstance(i, int) or i <= REGISTRY:
            return None
        if i > 0:
            if JUNK in s[:i]:
                return None
            return i - 1 if i <= len(s) else None
        if i < 0:
            if JUNK in s[i:]:
                return None
            return len(s) + i if -i <= len(s) else None
        return None

    def lua(self, ev, st, name, fn, el, a):
        s = st.mem.get(STK, ())

        def put(x):
            st.mem[STK] = s + (x,)

        def at(i):
            q = self.pos(s, i)
            return s[q] if q is not None else TOP

        def glob(n):
            return st.mem.get(('#g', n), Sym('value before', n))

        def setg(n, v):
            if not isinstance(n, str):
                st.mem[('#touched',)] = 'sets a global variable'
                for k in [k for k in st.mem if k[0] == '#g']:
                    st.mem[k] = TOP
                return
            if st.mem.get(('#nested',)):
                st.mem[('#touched',)] = 'sets the global variable %s' % n
            st.mem[('#g', n)] = v
        if name in ('lua_gettop',):
            return len(s) if JUNK not in s else TOP
        if name == 'lua_type':
            v = at(a[1])
            if v == NIL:
                return 0
            if isinstance(v, Sym) and v.n == 'arg':
                return 4
            return TOP
        if name == 'lua_getglobal':
            n = a[1] if isinstance(a[1], str) else fn.string(fn.args(el)[1])
            put(GT if n == '_G' else glob(n) if n else TOP)
        elif name == 'lua_rawgeti' and isinstance(a[1], int) and a[1] <= REGISTRY and a[2] == 2:
            put(GT)
        elif name == 'lua_getfield':
            n = a[2] if isinstance(a[2], str) else fn.string(fn.args(el)[2])
            t = at(a[1])
            put(glob(n) if t == GT and n else TOP)
        elif name == 'lua_setglobal':
            setg(a[1] if isinstance(a[1], str) else fn.string(fn.args(el)[1]), s[-1] if s else TOP)
            st.mem[STK] = s[:-1]
        elif name == 'lua_setfield':
            t = at(a[1])
            n = a[2] if isinstance(a[2], str) else fn.string(fn.args(el)[2])
            if t == GT:
                setg(n, s[-1] if s else TOP)
            elif t is TOP:
                self.undecided += 1
            st.mem[STK] = s[:-1]
        elif name in ('lua_rawset', 'lua_settable'):
            t = at(a[1])
            if t == GT and len(s) >= 2:
                setg(s[-2].a[0] if isinstance(s[-2], Sym) and s[-2].n == 'string' else None, s[-1])
            st.mem[STK] = s[:-2]
        elif name in ('lua_rawget', 'lua_gettable'):
            t = at(a[1])
            k = s[-1] if s else TOP
            st.mem[STK] = s[:-1] + ((glob(k.a[0]) if t == GT and isinstance(k, Sym) and k.n == 'string' else TOP),)
        elif name in ('luaL_setfuncs', 'luaL_register', 'luaL_openlib'):
            nup = a[2] if len(a) > 2 and isinstance(a[2], int) else 0
            t = at(-1 - nup)
            reg = self.reg_names(fn, fn.args(el)[1])
            if t == GT:
                if reg is None:
                    self.c.broken('cannot read the list of functions registered by ' + fn.qn)
                for n in reg:
                    setg(n, Sym('redirected', n))
                self.redirected |= set(reg)
            st.mem[STK] = s[:-nup] if nup else s
        elif name == 'lua_settop':
            i = a[1]
            cur = st.mem.get(STK, ())
            if isinstance(i, int) and i >= 0:
                if JUNK in cur[:i]:
                    st.mem[STK] = (JUNK,)
                elif i <= len(cur) or JUNK in cur:
                    st.mem[STK] = cur[:i] if i <= len(cur) else cur[:cur.index(JUNK)] + (TOP,) * (i - cur.index(JUNK))
                else:
                    st.mem[STK] = cur + (NIL,) * (i - len(cur))
            elif isinstance(i, int):
                n = -i - 1
                st.mem[STK] = cur[:len(cur) - n] if n <= len(cur) and JUNK not in cur[len(cur) - n:] else cur
            else:
                st.mem[STK] = (JUNK,)
        elif name == 'lua_pushvalue':
            put(at(a[1]))
        elif name in ('lua_replace',):
            q = self.pos(s, a[1])
            l = list(s)
            if q is not None and l:
                l[q] = l[-1]
            st.mem[STK] = tuple(l[:-1])
        elif name in ('lua_remove', 'lua_insert'):
            q = self.pos(s, a[1])
            l = list(s)
            if q is None:
                st.mem[STK] = (JUNK,)
            elif name == 'lua_remove':
                st.mem[STK] = tuple(l[:q] + l[q + 1:])
            else:
                st.mem[STK] = tuple(l[:q] + [l[-1]] + l[q:-1])
        elif name == 'lua_pushnil':
            put(NIL)
        elif name in ('lua_pushstring', 'lua_pushlstring'):
            x = fn.string(fn.args(el)[1])
            put(Sym('string', x) if x is not None else TOP)
        elif name.startswith('lua_push') or name in ('lua_newuserdata', 'lua_newuserdatauv', 'lua_createtable', 'lua_rawgeti', 'lua_rawgetp', 'luaL_newmetatable', 'lua_newtable'):
            put(TOP)
        elif name in ('lua_setmetatable', 'luaL_ref', 'lua_rawseti', 'lua_rawsetp'):
            st.mem[STK] = s[:-1]
            if st.mem.get(('#nested',)) and name == 'lua_setmetatable' and at(a[1]) == Sym('arg', 1):
                st.mem[('#touched',)] = 'changes the metatable of the object'
        elif name == 'lua_getmetatable':
            put(TOP)
            return [1]
        return TOP

    def reg_names(self, fn, i):
        i = fn.strip(i, True)
        v = self.p.vars.get(fn.nodes[i].get('v'))
        nodes = v.get('nodes') if v else None
        if not nodes:
            return None
        r = []
        for nd in nodes:
            if nd['k'] == 'StringLiteral':
                r.append(nd['s'])
        return r

    def vio(self, key, loc, msg, trace=()):
        self.c.violate(key, loc, msg, trace)


def trail(oc):
    return ['%s: condition %s is %s' % (f.loc(n), f.path(n)[:80], bool(t)) for f, n, t in oc.state.trail][-6:]


def sig(st, fr):
    cur = 'F%d' % fr
    return frozenset((k, v) for k, v in st.mem.items() if (k[0][0] == '#' or k[0] == 'cp' or k[0] == cur) and v is not TOP and not (isinstance(v, tuple) and v[:1] == ('ref',) and v[1][0][0] in 'TB'))


def load_default(loc, t):
    if loc[0] == 'G' and 'stdout' in str(loc[1]):
        return Sym('stdout')
    if loc[0] == 'G' and 'stderr' in str(loc[1]):
        return Sym('stderr')
    return TOP


def find_run(c, p):
    """methods whose call reaches the parser run: registered with Lua, takes the userdata, redirects globals"""
    ent = cg.lua_entries(p)
    r = []
    for k in ent:
        f = p.fns[k]
        names = reach(p, f)
        if names & {'lua_pcallk', 'lua_pcall'} and names & {'luaL_checkudata'} and 'luaL_setfuncs' in names | {n.replace('luaL_register', 'luaL_setfuncs') for n in names}:
            r.append(f)
    return r


def run(c):
    c.rule('typestate over all paths incl. one exception edge per throwing call: every exit of the run method has each redirected global set back to the value saved before, the debug file closed once, '
           'the members that guard against nesting reset; buffers cleared before the run; the same method and the finalizer, entered with the object in the state of a run in progress, raise before any effect')
    p = c.prog()
    nr = flow.NR.of(p)
    runs = find_run(c, p)
    if not runs:
        c.broken('anchor vanished: the method running the compiler')
    for f in runs:
        guard = guards(p, f)
        if guard:
            # destructors running on the exception edges are not modelled
            c.count('run methods with guard objects (not decided)')
            c.assume('the destructor of %s restores the state' % guard)
            continue
        judge(c, p, f, nr)
        c.floor('exits of the run judged', 8)
        c.floor('exits of nested calls judged', 2)


def guards(p, f):
    for b in f.blocks.values():
        for el in b['e']:
            if isinstance(el, list) and el[0] == 'dtor' and el[2] in p.fns:
                g = p.fns[el[2]]
                if not g.d.get('dflt') and any(n.startswith('lua') or n == 'fclose' for n in reach(p, g)):
                    return g.cls
    return None


def judge(c, p, f, nr):
    ud = None
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] == 'DeclStmt':
            for v in nd['vars']:
                t = v['t'].replace('*', '').strip()
                if t in p.recs and any('FILE' in x['t'] for x in p.recs[t]['fields']):
                    ud = t
    if ud is None:
        c.broken('anchor vanished: the userdata of the compiler')
    rec = p.recs[ud]
    m = Model(c, p, nr)
    m.udrec = ud; m.runs = []; m.redirected = set()
    init = {}
    for x in rec['fields']:
        t = x['t']
        if t == 'bool' or t.endswith('*') or t in ('int', 'unsigned int', 'long', 'unsigned long'):
            init[x['n']] = 0
    # buffers: containers of the object appended to by other functions registered with Lua
    buffers = {x['n'] for x in rec['fields'] if x['t'].startswith('std::') or 'std::' in x.get('ct', '') or any(s in x['t'] for s in ('basic_string', 'OutputBuffer', 'OutputSectionMap', 'map<', 'vector<'))}
    written = set()
    for k in cg.lua_entries(p):
        g = p.fns[k]
        if g.key == f.key:
            continue
        for i in g.walk():
            nd = g.nodes[i]
            if nd['k'] == 'MemberExpr' and nd.get('n') in buffers:
                par = [g.nodes[x] for x in g.ancestors(i)][:6]
                if any(q['k'] in CALLS for q in par):
                    written.add(nd['n'])
    cases = []
    for nargs in (4, 5, 6):
        for tnil in (0, 1):
            for onil in (0, 1):
                args = [Sym('arg', 1), NIL if tnil else Sym('arg', 2), Sym('arg', 3), Sym('arg', 4)]
                if nargs > 4:
                    args.append(NIL if onil else Sym('arg', 5))
                if nargs > 5:
                    args.append(Sym('arg', 6))
                if nargs == 4 and onil:
                    continue
                cases.append(tuple(args))
    for args in cases:
        ev = Ev(p, extern=m.extern, load_default=load_default, max_steps=1500000, max_visits=4, noreturn=nr)
        ev.exc = m.exc
        ev.sig = sig
        st = State({STK: args})
        for n, v in init.items():
            st.mem[('cp', n)] = v
        old = m.extern

        def ext(ev, st, fr, fn, el, a, o):
            nd = fn.nodes[el]
            if nd.get('fn') and any('checkNofArguments' in (g.name or '') for g in p.targets(nd['fn'])):
                return len(args)
            return old(ev, st, fr, fn, el, a, o)
        ev.extern = ext
        outs = ev.call(f, st, None, [TOP])
        c.count('paths of the run followed', len(outs))
        for oc in outs:
            if oc.kind == 'bound':
                c.count('paths cut at the loop bound')
                continue
            mem = oc.state.mem
            how = {'return': 'returns', 'noreturn': 'raises an error', 'throw': 'is left by an exception'}[oc.kind]
            for k, v in mem.items():
                if k[0] == '#g' and v != Sym('value before', k[1]):
                    if v is TOP:
                        m.undecided += 1
                    else:
                        c.violate('global %s' % k[1], oc.fn.loc(oc.node) if oc.node is not None else f.loc(), '%s %s with the global %s %s' % (
                            f.qn, how, k[1], 'still redirected' if v.n == 'redirected' else 'set to %r' % v), trail(oc))
            for i, s in enumerate(mem.get(FILES, ())):
                # a file that failed to open is represented by the null handle on this path
                if s == 'pending' and any(k[:1] == ('cp',) and v == Sym('file', i) for k, v in mem.items()):
                    c.violate('debug file not closed', oc.fn.loc(oc.node) if oc.node is not None else f.loc(), '%s %s without closing the debug file' % (f.qn, how), trail(oc))
            if mem.get(('#lost',)):
                pass
            for n, v in init.items():
                x = mem.get(('cp', n))
                snap = [dict(s).get(('cp', n)) for s, cl in mem.get(RUN, ())]
                if x != v and x is not TOP and snap and not (isinstance(x, Sym) and x.n == 'file'):
                    c.violate('member %s' % n, oc.fn.loc(oc.node) if oc.node is not None else f.loc(), '%s %s with member %s left at the value of the run (%s)' % (f.qn, how, n, x), trail(oc))
            c.ok('exits of the run judged', '%s, %d arguments, run %s' % (how, len(args), 'reached' if mem.get(RUN) else 'not reached'))
    if not m.runs:
        c.broken('the call running the parser is not reached by the analysis')
    if not m.redirected:
        c.broken('no redirection of global functions found')
    for n in sorted(m.redirected):
        c.ok('redirected globals', n)
    # file opened for the run: lost handles (opened but never stored) are found by C05
    for b in sorted(written):
        bad = [(fn, el) for fn, el, snap, g, cl in m.runs if b not in cl]
        c.ok('output buffers checked', b)
        if bad:
            c.violate('buffer %s' % b, bad[0][0].loc(bad[0][1]), '%s starts the run without clearing %s: output of an earlier run that failed gets into the output of this one' % (f.qn, b))
    # nested calls
    snaps = {snap for fn, el, snap, g, cl in m.runs}
    ent = cg.lua_entries(p)
    fin = [p.fns[k] for k in ent if destroys(p, p.fns[k], ud)]
    if not fin:
        c.broken('anchor vanished: the finalizer of the compiler')
    for g in [f] + fin:
        for snap in sorted(snaps, key=repr):
            for args in ((Sym('arg', 1), NIL, Sym('arg', 3), Sym('arg', 4)), (Sym('arg', 1), NIL, Sym('arg', 3), Sym('arg', 4), NIL, Sym('arg', 6))):
                ev = Ev(p, extern=m.extern, load_default=load_default, max_steps=1500000, max_visits=4, noreturn=nr)
                ev.exc = m.exc
                ev.sig = sig
                m2 = dict(snap)
                st = State({STK: args if g is f else args[:1], ('#nested',): 1})
                for k, v in m2.items():
                    st.mem[k] = Sym('file of the run in progress') if isinstance(v, Sym) and v.n == 'file' else v
                before = {k: v for k, v in st.mem.items() if k[:1] == ('cp',)}
                outs = ev.call(g, st, None, [TOP])
                for oc in outs:
                    mem = oc.state.mem
                    t = mem.get(('#touched',))
                    ch = [k[1] for k, v in before.items() if mem.get(k, v) != v]
                    clr = [k[1] for k in mem if k[0] == '#cleared']
                    loc = oc.fn.loc(oc.node) if oc.node is not None and oc.fn is not None else g.loc()
                    if t or ch or clr:
                        c.violate('nested %s' % g.name, loc, '%s called during a run in progress on the same object %s' % (
                            g.qn, t or ('changes member %s' % ch[0] if ch else 'clears %s' % clr[0])), trail(oc))
                    elif oc.kind == 'return':
                        c.violate('nested %s returns' % g.name, loc, '%s called during a run in progress on the same object returns without an error' % g.qn, trail(oc))
                    c.ok('exits of nested calls judged', '%s: refused' % g.qn)
    c.count('values of globals not decided', m.undecided)


def destroys(p, g, ud):
    seen = set(); st = [g]
    while st:
        h = st.pop()
        if h.key in seen:
            continue
        seen.add(h.key)
        if h.cls == ud and h.name == 'destroy':
            return True
        for i, k, nd in p.call_sites(h):
            if '~' in (nd.get('qn') or '') and h.cls == ud and nd['k'] == 'CXXMemberCallExpr':
                return True
            if k:
                st.extend(p.targets(k))
    return False
