"""Abstract interpretation of the Lua value stack.

Domain of a state: number of call arguments as interval, the slots pushed by the C++ code (types, metatable, whether ever referenced), the number of
slots that may still be pushed without asking Lua for more (slack), Lua types of arguments, and the few integers/type values the code branches on.
Functions of the tree that take a lua_State are analysed in the context of the caller (inlined); a loop is iterated until no new state appears; a stack
that grows with every iteration turns into an 'unknown height' state in which only the slack is tracked."""
from facts import CALLS, CTORS, STRIP, CASTS, Broken
import flow

NONE, NIL, BOOL, LUD, NUM, STR, TAB, FUN, UD, THR = -1, 0, 1, 2, 3, 4, 5, 6, 7, 8
ALL = frozenset(range(-1, 9))
VALS = frozenset(range(0, 9))
NAMES = {-1: 'none', 0: 'nil', 1: 'boolean', 2: 'lightuserdata', 3: 'number', 4: 'string', 5: 'table', 6: 'function', 7: 'userdata', 8: 'thread'}
MINSTACK = 20
RAISE = {'lua_error', 'luaL_error', 'luaL_argerror'}


def tn(ts):
    return 'any value' if ts == ALL or ts == VALS else '|'.join(NAMES[t] for t in sorted(ts))


class Slot:
    __slots__ = ('types', 'refd', 'org', 'attr')

    def __init__(self, types, org=None, refd=False, attr=None):
        self.types = types; self.refd = refd; self.org = org; self.attr = attr

    def key(self):
        return (self.types, self.refd, self.org, self.attr)

    def upd(self, **kw):
        s = Slot(self.types, self.org, self.refd, self.attr)
        for k, v in kw.items():
            setattr(s, k, v)
        return s


class St:
    __slots__ = ('lo', 'hi', 'stack', 'dyn', 'slack', 'at', 'env', 'ev', 'exact_args')

    def __init__(self):
        self.lo = 0; self.hi = 1 << 31; self.stack = (); self.dyn = False; self.slack = MINSTACK; self.at = {}; self.env = {}; self.ev = {}

    def copy(self):
        s = St.__new__(St)
        s.lo = self.lo; s.hi = self.hi; s.stack = self.stack; s.dyn = self.dyn; s.slack = self.slack
        s.at = dict(self.at); s.env = dict(self.env); s.ev = dict(self.ev)
        return s

    def key(self):
        return (self.lo, self.hi, tuple(x.key() for x in self.stack), self.dyn, self.slack, frozenset(self.at.items()), frozenset(self.env.items()),
                frozenset(self.ev.items()))

    def get(self, ref):
        if ref is None:
            return ALL
        if ref[0] == 's':
            return self.stack[ref[1]].types if ref[1] < len(self.stack) else ALL
        if ref in self.at:
            return self.at[ref]
        if ref[0] == 'a':
            if ref[1] <= self.lo:
                return VALS
            if ref[1] > self.hi:
                return frozenset([NONE])
            return ALL
        if ref[0] == 'reg':
            return frozenset([TAB])
        if ref[0] == 'ent':
            return frozenset(['?'])
        return ALL

    def set(self, ref, types):
        if ref is None:
            return
        if ref[0] == 's':
            if ref[1] < len(self.stack):
                l = list(self.stack); l[ref[1]] = l[ref[1]].upd(types=types); self.stack = tuple(l)
        elif ref[0] == 'a':
            if NONE not in types and ref[1] > self.lo:
                self.lo = min(ref[1], self.hi)
            self.at[ref] = types
        elif ref[0] != 'reg':
            self.at[ref] = types

    def mark(self, ref):
        if ref is not None and ref[0] == 's' and ref[1] < len(self.stack) and not self.stack[ref[1]].refd:
            l = list(self.stack); l[ref[1]] = l[ref[1]].upd(refd=True); self.stack = tuple(l)

    def purge(self, n):
        """slots at positions >= n are gone: values derived from their types are void"""
        for d in (self.env, self.ev):
            for k in [k for k, v in d.items() if isinstance(v, tuple) and v[0] == 'T' and v[1] is not None and v[1][0] == 's' and v[1][1] >= n]:
                d[k] = None

    def todyn(self):
        """height becomes unknown; what is known about the bottom slots stays known under their absolute index"""
        if not self.dyn:
            self.dyn = True
            if self.lo == self.hi:
                for k, x in enumerate(self.stack):
                    if x.types != VALS and x.types != ALL:
                        self.at[('a', self.lo + 1 + k)] = x.types
        self.stack = ()
        self.purge(0)

    def undyn(self, n):
        """height becomes known again: n values above the arguments"""
        self.stack = tuple(Slot(self.at.pop(('a', self.lo + 1 + k), VALS) if self.lo == self.hi else VALS, None, True) for k in range(n))
        for k in [k for k in self.at if k[0] == 'a' and k[1] > self.hi]:
            del self.at[k]
        self.dyn = False
        self.slack = max(self.slack, MINSTACK - n)
        self.purge(0)

    def push(self, types, org=None, attr=None):
        self.stack = self.stack + (Slot(types, org, False, attr),)
        self.slack -= 1

    def pop(self, n):
        """returns False when it pops below the frame"""
        ok = True
        if n <= len(self.stack):
            self.stack = self.stack[:len(self.stack) - n]
        else:
            m = n - len(self.stack)
            self.stack = ()
            if not self.dyn:
                if m > self.lo:
                    ok = False
                # arguments removed from the end
                self.lo = max(0, self.lo - m); self.hi = max(0, self.hi - m)
                for d in (self.env, self.ev):       # heights relative to the number of arguments are void
                    for k in [k for k, v in d.items() if isinstance(v, tuple) and v[0] == 'N']:
                        d[k] = None
                for k in [k for k in self.at if k[0] == 'a' and k[1] > self.hi]:
                    del self.at[k]
        self.slack += n
        self.purge(len(self.stack))
        return ok


def join(a, b):
    r = a.copy()
    r.lo = min(a.lo, b.lo); r.hi = max(a.hi, b.hi)
    r.slack = min(a.slack, b.slack)
    l = []
    for x, y in zip(a.stack, b.stack):
        l.append(x if x.key() == y.key() else Slot(x.types | y.types, x.org, x.refd and y.refd, x.attr if x.attr == y.attr else None))
    r.stack = tuple(l)
    at = {}
    for k in set(a.at) | set(b.at):
        t = a.get(k) | b.get(k)
        if t != ALL:
            at[k] = t
    r.at = at
    r.env = {k: v for k, v in a.env.items() if k in b.env and b.env[k] == v and v is not None}
    r.ev = {k: v for k, v in a.ev.items() if k in b.ev and b.ev[k] == v}
    return r


class LuaStack:
    MAXH = 4
    MAXSTATES = 6000

    def __init__(self, p, report, observer=None):
        self.p = p
        self.report = report            # report(kind, fn, node, message, chain)
        self.observer = observer        # observer(name, st, fn, node, args)
        self.nr = flow.NR.of(p)
        self.stats = {}
        self.cache = {}
        self.covered = set()
        self.chain = []
        self.rec = {}
        self._takes = {}
        self.consts = {}
        import absint
        self.absint = absint

    # ---- helpers
    def viol(self, kind, fn, node, msg):
        self.report(kind, fn, node, msg, [c[0].qn for c in self.chain])

    def takes_state(self, f):
        if f.key not in self._takes:
            self._takes[f.key] = any('lua_State' in x['t'] for x in f.params) or any('lua_State' in x[1] for x in f.d.get('lcaps', ()))
        return self._takes[f.key]

    def captures(self, fn, g):
        """[(variable of the function that creates the closure, its name in the closure, by reference)]"""
        if not g.d.get('lambda'):
            return ()
        for i in fn.walk():
            nd = fn.nodes[i]
            if nd['k'] == 'LambdaExpr' and nd.get('lam') == g.key:
                return [(o[0], x[0], x[2]) for o, x in zip(nd.get('caps', ()), g.d.get('lcaps', ())) if o[0] != 'this']
        return ()

    def assigned(self, g):
        r = set()
        for i in g.walk():
            nd = g.nodes[i]
            if nd['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (nd['op'] in ('=', '++', '--') or nd['k'] == 'CompoundAssignOperator'):
                t = g.nodes[g.strip(nd['c'][0], True)]
                if t['k'] == 'DeclRefExpr':
                    r.add(t.get('v'))
        return r

    def const_string(self, key):
        """string returned by a function without arguments (metatable names)"""
        if key not in self.consts:
            r = None
            t = self.p.targets(key) if key else []
            if len(t) == 1 and not t[0].params and t[0].blocks and len(t[0].blocks) <= 4:
                lits = [t[0].string(x) for x in t[0].walk() if t[0].nodes[x]['k'] == 'StringLiteral']
                if len(lits) == 1:
                    r = lits[0]
            self.consts[key] = r
        return self.consts[key]

    def string(self, fn, i):
        s = fn.string(i)
        if s is not None:
            return s
        j = fn.strip(i, True)
        if fn.nodes[j]['k'] in CALLS:
            return self.const_string(fn.nodes[j].get('fn'))
        return None

    def eval(self, fn, fr, st, i):
        if i < 0:
            return None
        if i in st.ev and False:
            pass
        nd = fn.nodes[i]
        if (fr, i) in st.ev:
            return st.ev[(fr, i)]
        if 'cv' in nd and not nd.get('lv'):
            return int(nd['cv'])
        k = nd['k']
        c = nd.get('c', ())
        if k == 'DeclRefExpr':
            if 'cv' in nd:
                return int(nd['cv'])
            return st.env.get((fr, nd.get('v')))
        if k in STRIP or k in CASTS or k == 'ImplicitCastExpr':
            cc = [x for x in c if x >= 0]
            v = self.eval(fn, fr, st, cc[0]) if cc else None
            if isinstance(v, int) and nd.get('ck') in ('IntegralToBoolean',):
                return int(v != 0)
            return v
        if k == 'UnaryOperator':
            v = self.eval(fn, fr, st, c[0])
            op = nd['op']
            f1 = {'!': lambda x: int(not x), '-': lambda x: -x, '+': lambda x: x, '~': lambda x: ~x}.get(op)
            if f1:
                if isinstance(v, int):
                    return f1(v)
                if isinstance(v, tuple) and v[0] == 'T':
                    return ('T', v[1], tuple((t, frozenset(f1(x) for x in xs)) for t, xs in v[2]))
            return None
        if k == 'BinaryOperator':
            op = nd['op']
            if op in ('=', '&&', '||', ','):
                if op == ',':
                    return self.eval(fn, fr, st, c[1])
                if op == '=':
                    return self.eval(fn, fr, st, c[1])
                a = self.eval(fn, fr, st, c[0]); b = self.eval(fn, fr, st, c[1])
                if op == '&&' and (a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int)):
                    return 0
                if op == '||' and (isinstance(a, int) and a or isinstance(b, int) and b):
                    return 1
                if isinstance(a, int) and isinstance(b, int):
                    return int(bool(a and b)) if op == '&&' else int(bool(a or b))
                return None
            a = self.eval(fn, fr, st, c[0]); b = self.eval(fn, fr, st, c[1])
            return self.bin(op, a, b)
        if k == 'ConditionalOperator':
            v = self.eval(fn, fr, st, c[0])
            if isinstance(v, int):
                return self.eval(fn, fr, st, c[1] if v else c[2])
            a = self.eval(fn, fr, st, c[1]); b = self.eval(fn, fr, st, c[2])
            return a if a == b else None
        return None

    def bin(self, op, a, b):
        def f(x, y):
            try:
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<<': lambda: (x << (y & 31)), '>>': lambda: x >> (y & 31),
                        '&': lambda: x & y, '|': lambda: x | y, '==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y),
                        '>': lambda: int(x > y), '<=': lambda: int(x <= y), '>=': lambda: int(x >= y)}[op]()
            except KeyError:
                return None
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        if isinstance(a, tuple) and a[0] == 'T' and isinstance(b, int):
            r = tuple((t, frozenset(f(x, b) for x in xs)) for t, xs in a[2])
            return None if any(None in xs for t, xs in r) else ('T', a[1], r)
        if isinstance(b, tuple) and b[0] == 'T' and isinstance(a, int):
            r = tuple((t, frozenset(f(a, x) for x in xs)) for t, xs in b[2])
            return None if any(None in xs for t, xs in r) else ('T', b[1], r)
        if isinstance(a, tuple) and a[0] == 'N' and isinstance(b, int):
            if op in ('+', '-'):
                return ('N', a[1] + (b if op == '+' else -b))
        if isinstance(b, tuple) and b[0] == 'N' and isinstance(a, int) and op == '+':
            return ('N', b[1] + a)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'N' and b[0] == 'N':
            return f(a[1], b[1]) if op in ('-', '==', '!=', '<', '>', '<=', '>=') else None
        return None

    def refine(self, fn, fr, st, i, truth):
        """state in which condition i has the given truth value, or None"""
        i0 = i
        i = fn.strip(i)
        nd = fn.nodes[i]
        v = self.eval(fn, fr, st, i)
        if isinstance(v, int):
            return st if bool(v) == truth else None
        if isinstance(v, tuple) and v[0] == 'T':
            cur = st.get(v[1])
            tab = dict(v[2])
            keep = frozenset(t for t in cur if t not in tab or any(bool(x) == truth for x in tab[t]))
            if not keep:
                return None
            s = st.copy()
            s.set(v[1], keep)
            return s
        k = nd['k']
        c = nd.get('c', ())
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(fn, fr, st, c[0], not truth)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            # the last operand decides on this edge
            if (nd['op'] == '&&') == truth:
                s = self.refine(fn, fr, st, c[0], truth)
                return self.refine(fn, fr, s, c[1], truth) if s is not None else None
            return st
        if k == 'BinaryOperator':
            a = self.eval(fn, fr, st, c[0]); b = self.eval(fn, fr, st, c[1])
            op = nd['op']
            if isinstance(b, tuple) and b[0] == 'N' and isinstance(a, int):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if isinstance(a, tuple) and a[0] == 'N' and isinstance(b, int):
                n = b - a[1]
                if not truth:
                    op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}.get(op, op)
                s = st.copy()
                if op == '<':
                    s.hi = min(s.hi, n - 1)
                elif op == '<=':
                    s.hi = min(s.hi, n)
                elif op == '>':
                    s.lo = max(s.lo, n + 1)
                elif op == '>=':
                    s.lo = max(s.lo, n)
                elif op == '==':
                    s.lo = max(s.lo, n); s.hi = min(s.hi, n)
                elif op == '!=':
                    if s.lo == n:
                        s.lo += 1
                    if s.hi == n:
                        s.hi -= 1
                return s if s.lo <= s.hi else None
        return st

    # ---- index resolution
    def ref(self, fn, fr, st, i, node, need_in_frame=True):
        v = self.eval(fn, fr, st, i)
        if v is None or isinstance(v, tuple):
            if isinstance(v, tuple) and v[0] == 'N' and st.lo == st.hi:
                v = st.lo + v[1]
            elif isinstance(v, tuple) and v[0] == 'N' and not st.dyn and 1 <= v[1] <= len(st.stack):
                return ('s', v[1] - 1)
            else:
                j = fn.strip(i, True)
                if fn.nodes[j]['k'] == 'DeclRefExpr':
                    return ('y', fr, fn.nodes[j].get('v'))
                if fn.nodes[j]['k'] == 'MemberExpr' and fn.nodes[j].get('n'):
                    return ('f', fn.nodes[j]['n'])
                return None
        if v < -900000:
            return ('reg',) if v == -1001000 else ('u', -1001000 - v)
        if v > 0:
            if st.dyn:
                return ('a', v)
            if v <= st.lo:
                return ('a', v)
            if v > st.hi:
                pos = v - st.hi - 1
                if st.lo == st.hi and pos < len(st.stack):
                    return ('s', pos)
                return ('a', v)
            if st.stack:
                self.viol('index', fn, node, 'index %d names an argument or one of the %d values pushed meanwhile, depending on the number of arguments' % (v, len(st.stack)))
                return None
            return ('a', v)
        if v < 0:
            n = -v
            if n <= len(st.stack):
                return ('s', len(st.stack) - n)
            if st.dyn:
                m = n - len(st.stack)
                if m > 32:
                    return None
                st.stack = tuple(Slot(VALS, None, True) for _ in range(m)) + st.stack
                for d in (st.env, st.ev):
                    for kk, vv in list(d.items()):
                        if isinstance(vv, tuple) and vv[0] == 'T' and vv[1] is not None and vv[1][0] == 's':
                            d[kk] = ('T', ('s', vv[1][1] + m), vv[2])
                return ('s', 0)
            m = n - len(st.stack)
            if m > st.lo:
                self.viol('underflow', fn, node, 'index %d reaches below the stack frame (%d pushed, at least %d arguments)' % (v, len(st.stack), st.lo))
                return None
            if st.lo == st.hi:
                return ('a', st.lo - m + 1)
            return None
        self.viol('index', fn, node, 'stack index 0')
        return None

    def need_table(self, fn, node, st, ref, what):
        t = st.get(ref)
        self.count('raw table accesses judged')
        if t != frozenset([TAB]):
            self.viol('rawtable', fn, node, '%s is applied to %s, which need not be a table' % (what, tn(t)))
            st.set(ref, frozenset([TAB]))

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def pushchk(self, fn, node, st):
        self.count('pushes judged')
        if st.slack < 0:
            self.viol('overflow', fn, node, 'pushes onto the Lua stack without a reserved slot (reserve with lua_checkstack)')
            st.slack = 6

    # ---- the API
    def api(self, name, fn, fr, st, i, a):
        """returns [(value, state)], or None when it does not return"""
        E = lambda k: self.eval(fn, fr, st, a[k])
        org = (fn.qn, name)
        st = st.copy()
        if self.observer:
            self.observer(name, st, fn, i, a, fr)

        def ref(k):
            r = self.ref(fn, fr, st, a[k], i)
            st.mark(r)
            return r

        def push(types, attr=None):
            st.push(types, (fn.qn, i), attr)
            self.pushchk(fn, i, st)

        def pop(n):
            if not st.pop(n):
                self.viol('underflow', fn, i, '%s removes values below the stack frame' % name)
        one = lambda v=None: [(v, st)]
        if name in ('lua_pushnil',):
            push(frozenset([NIL])); return one()
        if name in ('lua_pushnumber', 'lua_pushinteger', 'lua_pushunsigned'):
            push(frozenset([NUM])); return one()
        if name in ('lua_pushlstring', 'lua_pushstring', 'lua_pushfstring', 'lua_pushvfstring'):
            push(frozenset([STR])); return one()
        if name == 'lua_pushboolean':
            push(frozenset([BOOL])); return one()
        if name == 'lua_pushlightuserdata':
            push(frozenset([LUD])); return one()
        if name == 'lua_pushthread':
            push(frozenset([THR])); return one()
        if name == 'lua_newuserdata':
            push(frozenset([UD]), ('ud', i)); return one()
        if name == 'lua_createtable':
            push(frozenset([TAB])); return one()
        if name == 'luaL_newmetatable':
            push(frozenset([TAB]), ('mt', self.string(fn, a[1]))); return one()
        if name == 'lua_pushvalue':
            r = ref(1)
            push(st.get(r) - {NONE} or frozenset([NIL])); return one()
        if name == 'lua_pushcclosure':
            n = E(2)
            if not isinstance(n, int):
                self.viol('closure', fn, i, 'number of upvalues not constant')
                n = 0
            up = [x for x in st.stack[len(st.stack) - n:]] if n <= len(st.stack) else []
            for k in range(len(up)):
                st.mark(('s', len(st.stack) - n + k))
            if self.observer:
                self.observer('closure', st, fn, i, a, fr)
            pop(n)
            push(frozenset([FUN])); return one()
        if name == 'lua_getglobal':
            push(VALS); return one()
        if name == 'lua_getfield':
            r = ref(1)
            if r == ('reg',):
                push(frozenset([TAB, NIL]), ('mt', self.string(fn, a[2])))
            else:
                push(VALS)
            return one()
        if name == 'lua_getmetatable':
            r = ref(1)
            s2 = st.copy(); st = s2
            b = s2.copy()
            b.push(frozenset([TAB]), (fn.qn, i)); self.pushchk(fn, i, b)
            return [(0, s2), (1, b)]
        if name == 'lua_rawgeti':
            r = ref(1)
            self.need_table(fn, i, st, r, name)
            push(VALS); return one()
        if name in ('lua_rawget', 'lua_gettable'):
            r = ref(1)
            if name == 'lua_rawget':
                self.need_table(fn, i, st, r, name)
            pop(1)
            push(VALS); return one()
        if name in ('lua_rawset', 'lua_settable'):
            r = ref(1)
            if name == 'lua_rawset':
                self.need_table(fn, i, st, r, name)
                kt = st.stack[-2].types if len(st.stack) >= 2 else ALL
                if kt == frozenset([NIL]):
                    self.viol('nilkey', fn, i, 'nil used as table key')
            pop(2); return one()
        if name == 'lua_setfield':
            ref(1); pop(1); return one()
        if name == 'lua_setglobal':
            pop(1); return one()
        if name == 'lua_rawseti':
            r = ref(1)
            self.need_table(fn, i, st, r, name)
            pop(1); return one()
        if name == 'lua_setmetatable':
            r = ref(1)
            top = st.stack[-1] if st.stack else Slot(ALL)
            if not top.types <= frozenset([TAB, NIL]):
                self.viol('rawtable', fn, i, 'lua_setmetatable is given %s, which need not be a table or nil' % tn(top.types))
            if r is not None and r[0] == 'a':
                st.at[('meta', r[1])] = top.types
            if r is not None and r[0] == 's' and st.stack[r[1]].attr and st.stack[r[1]].attr[0] == 'ud':
                l = list(st.stack); l[r[1]] = l[r[1]].upd(attr=('obj', st.stack[r[1]].attr[1], top.attr[1] if top.attr else None)); st.stack = tuple(l)
            pop(1)
            return one(1)
        if name == 'luaL_ref':
            ref(1); pop(1); return one()
        if name == 'luaL_unref':
            ref(1); return one()
        if name == 'luaL_setfuncs':
            n = E(2)
            n = n if isinstance(n, int) else 0
            pop(n)
            if st.stack:
                st.mark(('s', len(st.stack) - 1))
            return one()
        if name == 'lua_next':
            r = ref(1)
            self.need_table(fn, i, st, r, name)
            pop(1)
            s2 = st.copy()
            s2.push(VALS - {NIL}, (fn.qn, i), ('key',)); s2.push(VALS - {NIL}, (fn.qn, i)); s2.stack = s2.stack[:-2] + (s2.stack[-2].upd(refd=True), s2.stack[-1].upd(refd=True))
            self.pushchk(fn, i, s2)
            return [(0, st), (1, s2)]
        if name == 'lua_settop':
            v = E(1)
            if isinstance(v, tuple) and v[0] == 'N' and v[1] >= 0:
                # back to the first v[1] values pushed in this frame
                if st.dyn:
                    st.undyn(v[1])
                    return one()
                if v[1] <= len(st.stack):
                    pop(len(st.stack) - v[1])
                    return one()
            if not isinstance(v, int):
                st.todyn()
                return one()
            if v < 0:
                pop(-v - 1)
                return one()
            if st.dyn:
                if st.lo == st.hi and v >= st.lo:
                    st.undyn(v - st.lo)
                else:
                    st.stack = ()
                return one()
            if v <= st.lo:
                n = st.lo - v
                st.slack += len(st.stack)
                st.stack = ()
                st.purge(0)
                if st.lo == st.hi:
                    st.lo = st.hi = v
                else:
                    st.lo = min(st.lo, v); st.hi = v
                return one()
            if st.lo == st.hi and v <= st.lo + len(st.stack):
                pop(st.lo + len(st.stack) - v)
                return one()
            st.todyn()
            return one()
        if name in ('lua_replace',):
            r = self.ref(fn, fr, st, a[1], i)
            if st.stack and not (r is None and st.dyn):
                top = st.stack[-1]
            else:
                top = Slot(VALS)
            if r is not None and r[0] == 's' and r[1] < len(st.stack) - 1:
                l = list(st.stack); l[r[1]] = top.upd(); st.stack = tuple(l)
            elif r is not None and r[0] in ('a',):
                st.at[r] = top.types - {NONE}
            st.purge(r[1] if r is not None and r[0] == 's' else 0)
            if st.stack:
                pop(1)
            elif not st.dyn:
                self.viol('underflow', fn, i, 'lua_replace without a pushed value')
            return one()
        if name in ('lua_insert', 'lua_remove'):
            r = self.ref(fn, fr, st, a[1], i)
            if r is not None and r[0] == 's':
                l = list(st.stack)
                if name == 'lua_remove':
                    del l[r[1]]
                    st.slack += 1
                else:
                    l.insert(r[1], l.pop())
                st.stack = tuple(l); st.purge(r[1])
            elif name == 'lua_remove':
                pop(1)
            return one()
        if name == 'lua_checkstack':
            n = E(1)
            ok = st.copy()
            ok.slack = max(ok.slack, n if isinstance(n, int) else 64)
            ok.at[('ent',)] = frozenset()
            return [(1, ok), (0, st)]
        if name == 'luaL_checkstack':
            n = E(1)
            st.slack = max(st.slack, n if isinstance(n, int) else 64)
            st.at[('ent',)] = frozenset()
            return one()
        if name == 'lua_gettop':
            if st.dyn:
                return one()
            return one(('N', len(st.stack)))
        if name == 'lua_type':
            r = ref(1)
            return one(('T', r, tuple((t, frozenset([t])) for t in sorted(ALL))) if r is not None else None)
        preds = {'lua_isnumber': ({NUM}, {STR}), 'lua_isstring': ({NUM, STR}, set()), 'lua_isuserdata': ({UD, LUD}, set()), 'lua_iscfunction': (set(), {FUN}),
                 'lua_toboolean': ({NUM, STR, TAB, FUN, UD, LUD, THR}, {BOOL}), 'lua_isinteger': (set(), {NUM})}
        if name in preds:
            r = ref(1)
            y, m = preds[name]
            return one(('T', r, tuple((t, frozenset([1]) if t in y else frozenset([0, 1]) if t in m else frozenset([0])) for t in sorted(ALL))) if r is not None else None)
        if name in ('lua_tolstring', 'lua_tonumberx', 'lua_tointegerx', 'lua_touserdata', 'lua_rawlen', 'lua_objlen', 'luaL_checklstring', 'lua_topointer', 'lua_tocfunction', 'lua_tothread'):
            r = ref(1)
            if name == 'lua_tolstring' and r is not None:
                t = st.get(r)
                if r[0] == 's' and st.stack[r[1]].attr == ('key',) and NUM in t:
                    self.viol('keyconv', fn, i, 'lua_tolstring on the key of a running table traversal that may be a number converts the key in place and breaks lua_next')
                if not (t & {STR, NUM}):
                    return one(0)
                if t <= {STR, NUM}:
                    return one(1)
                return one(('T', r, tuple((x, frozenset([1]) if x in (STR, NUM) else frozenset([0])) for x in sorted(ALL))))
            return one()
        if name == 'luaL_checkudata' or name == 'luaL_testudata':
            r = ref(1)
            if name == 'luaL_checkudata':
                st.set(r, frozenset([UD]))
                return one(1)
            return one()
        if name in ('lua_pcallk', 'lua_pcall', 'lua_callk', 'lua_call'):
            na = E(1); nres = E(2)
            prot = name.startswith('lua_pcall')
            if not isinstance(na, int):
                na = None
            if na is None or nres is None or nres < 0:
                st.todyn()
                return one()
            pop(na + 1)
            okst = st.copy()
            for k in range(nres):
                okst.push(VALS, (fn.qn, i))
            self.pushchk(fn, i, okst) if nres else None
            if not prot:
                return [(None, okst)]
            st.push(VALS, (fn.qn, i))
            return [(0, okst), (2, st)]
        if name == 'lua_concat':
            n = E(1)
            pop(n if isinstance(n, int) else 0); push(frozenset([STR, NUM])); return one()
        if name in ('lua_getstack', 'lua_status', 'lua_typename', 'lua_absindex', 'lua_compare', 'lua_rawequal', 'lua_gc', 'luaL_where', 'luaL_checkversion_', 'lua_rawsetp',
                    'luaL_traceback'):
            if name in ('luaL_where', 'luaL_traceback'):
                push(frozenset([STR]))
            return one()
        if name == 'lua_getinfo':
            w = self.string(fn, a[1])
            if w and w.startswith('>'):
                pop(1)
            if w and 'f' in w:
                push(frozenset([FUN, NIL]))
            if w and 'L' in w:
                push(frozenset([TAB, NIL]))
            return one()
        self.count('unmodelled API ' + name)
        self.viol('unmodelled', fn, i, 'Lua API function %s is not modelled by this analysis' % name)
        return one()

    # ---- interprocedural interpretation
    def call(self, fn, st, args, depth):
        """args: list of (value, ref alias). returns [(value, state)]"""
        if len(self.chain) > 24:
            raise Broken('inlining too deep at ' + fn.qn)
        fr = 1 if depth else 0
        n_on_chain = sum(1 for c in self.chain if c[0] is fn)
        if n_on_chain >= 2:
            prev = [c for c in self.chain if c[0] is fn][-1][1]
            if st.slack < prev and st.slack < 12 and st.get(('ent',)) & {'?', fn.key}:
                self.viol('recursion', fn, None, 'every level of recursion uses Lua stack slots and none are reserved on the way (free slots %d -> %d)' % (prev, st.slack))
            self.count('recursive calls judged')
            s = st.copy()
            return [(None, s)]
        self.covered.add(fn.key)
        key = (fn.key, st.key(), tuple(args), n_on_chain, self.chain[-1][1] if n_on_chain else 0)
        if key in self.cache:
            return self.cache[key]
        self.chain.append((fn, st.slack))
        st = st.copy()
        if ('ent',) in st.at:
            st.at[('ent',)] = st.at[('ent',)] | {fn.key}
        for pm, v in zip(fn.params, args):
            if v is not None:
                st.env[(fr, pm['v'])] = v
        outs = {}
        seen = {}
        widen = {}
        work = [(fn.entry, 0, st)]
        heights = {}
        slacks = {}
        nstates = 0
        while work:
            b, idx, s = work.pop()
            if idx == 0:
                s = s.copy()
                s.ev = {}
                # integers that keep changing at this block become unknown
                for k in list(s.env):
                    if k[0] == fr and isinstance(s.env[k], int):
                        w = widen.setdefault((b, k), set())
                        w.add(s.env[k])
                        if len(w) > 4:
                            s.env[k] = None
                hs = heights.setdefault(b, set())
                if not s.dyn:
                    hs.add(len(s.stack))
                    if len(hs) > self.MAXH:
                        s.todyn()
                elif len(s.stack) > 8:
                    m = len(s.stack) - 8
                    s.stack = s.stack[m:]
                    for d in (s.env, s.ev):
                        for kk, vv in list(d.items()):
                            if isinstance(vv, tuple) and vv[0] == 'T' and vv[1] is not None and vv[1][0] == 's':
                                d[kk] = ('T', ('s', vv[1][1] - m), vv[2]) if vv[1][1] >= m else None
                if s.dyn and s.slack > 0:
                    w = slacks.setdefault((b, len(s.stack)), set())
                    w.add(s.slack)
                    if len(w) > 4:
                        s.slack = min(min(w), 0) if min(w) < max(w) else s.slack
                s.slack = min(s.slack, 64)
                g = (len(s.stack), s.dyn)
                old = seen.setdefault(b, {}).get(g)
                if old is not None:
                    s = join(old, s)
                    if s.key() == old.key():
                        continue
                seen[b][g] = s
                nstates += 1
                if nstates > self.MAXSTATES:
                    raise Broken('too many states in ' + fn.qn)
            blk = fn.blocks[b]
            els = blk['e']
            i = idx
            stop = False
            while i < len(els):
                el = els[i]
                if isinstance(el, list):
                    i += 1
                    continue
                nd = fn.nodes[el]
                k = nd['k']
                if k == 'CXXThrowExpr':
                    stop = True
                    break
                if k == 'ReturnStmt':
                    c = [x for x in nd.get('c', ()) if x >= 0]
                    v = self.eval(fn, fr, s, c[0]) if c else None
                    self.out(outs, v, s, fr, fn, el)
                    stop = True
                    break
                if k in CALLS or k in CTORS:
                    r = self.do_call(fn, fr, s, el, nd, depth)
                    if r is None:
                        stop = True
                        break
                    if len(r) == 1:
                        s = r[0][1]
                        if r[0][0] is not None:
                            s.ev[(fr, el)] = r[0][0]
                    else:
                        for v, s2 in r:
                            s2 = s2.copy()
                            if v is not None:
                                s2.ev[(fr, el)] = v
                            work.append((b, i + 1, s2))
                        stop = True
                        break
                elif k == 'DeclStmt':
                    s = s.copy()
                    for v in nd['vars']:
                        if v['init'] >= 0:
                            x = self.eval(fn, fr, s, v['init'])
                            s.env[(fr, v['v'])] = x
                            s.at.pop(('y', fr, v['v']), None)
                elif k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (nd['op'] in ('=', '++', '--') or k == 'CompoundAssignOperator'):
                    t = fn.strip(nd['c'][0], True)
                    if fn.nodes[t]['k'] == 'DeclRefExpr':
                        var = fn.nodes[t].get('v')
                        s = s.copy()
                        old = s.env.get((fr, var))
                        if k == 'UnaryOperator':
                            new = old + (1 if nd['op'] == '++' else -1) if isinstance(old, int) else None
                            s.ev[(fr, el)] = old if nd.get('post') else new
                        elif nd['op'] == '=':
                            new = self.eval(fn, fr, s, nd['c'][1])
                        else:
                            new = self.bin(nd['op'][:-1], old, self.eval(fn, fr, s, nd['c'][1]))
                        s.env[(fr, var)] = new
                        s.at.pop(('y', fr, var), None)
                i += 1
            if stop:
                continue
            if b == fn.exit:
                self.out(outs, None, s, fr, fn, None)
                continue
            succ = blk['s']
            term = blk.get('term')
            if term is None or len(succ) == 1:
                for x in succ:
                    if x >= 0:
                        work.append((x, 0, s))
                continue
            tk = fn.nodes[term]['k']
            if tk == 'CXXTryStmt':
                continue
            if tk == 'SwitchStmt':
                v = self.eval(fn, fr, s, blk['cond'])
                vals = []
                dflt = None
                cases = []
                for x in succ:
                    if x < 0:
                        continue
                    lab = fn.blocks[x].get('lab')
                    if lab is not None and fn.nodes[lab]['k'] == 'CaseStmt':
                        cases.append((x, fn.cv(fn.nodes[lab]['c'][0])))
                    else:
                        dflt = x
                if dflt is not None and self.exhaustive(fn, blk['cond'], [q for x, q in cases]) and fn.blocks[dflt].get('lab') is None:
                    dflt = None
                if isinstance(v, int):
                    hit = [x for x, q in cases if q == v] or ([dflt] if dflt is not None else [])
                    work.extend((x, 0, s) for x in hit[:1])
                elif isinstance(v, tuple) and v[0] == 'T':
                    tab = dict(v[2]); cur = s.get(v[1])
                    rest = set(cur)
                    for x, q in cases:
                        m = frozenset(t for t in cur if q in tab.get(t, ()))
                        rest -= m
                        if m:
                            s2 = s.copy(); s2.set(v[1], m); work.append((x, 0, s2))
                    if dflt is not None and rest:
                        s2 = s.copy(); s2.set(v[1], frozenset(rest)); work.append((dflt, 0, s2))
                else:
                    work.extend((x, 0, s) for x, q in cases)
                    if dflt is not None:
                        work.append((dflt, 0, s))
                continue
            cn = blk.get('lcond', blk.get('cond'))
            if cn is None:
                work.extend((x, 0, s) for x in succ if x >= 0)
                continue
            for t, x in ((True, succ[0]), (False, succ[1])):
                if x >= 0:
                    s2 = self.refine(fn, fr, s, cn, t)
                    if s2 is not None:
                        work.append((x, 0, s2))
        self.chain.pop()
        r = [(v, s) for v, s in outs.values()]
        self.cache[key] = r
        return r

    def exhaustive(self, fn, cond, vals):
        t = fn.nodes[fn.strip(cond, True)].get('t', '').replace('const ', '').replace('enum ', '').strip(' &')
        e = self.p.enums.get(t)
        if not e:
            for n, x in self.p.enums.items():
                if n == t or n.endswith('::' + t):
                    e = x
        return bool(e) and set(int(x[1]) for x in e['e']) <= set(vals)

    def out(self, outs, v, s, fr, fn, node):
        if fr == 0:
            # outcome of an entry function: keep the return node for reporting
            self.entry_out.append((v, s, fn, node))
        s = s.copy()
        if isinstance(v, tuple) and v[0] == 'T' and v[1] is not None and v[1][0] == 'y':
            # types of 'the index in parameter x': translate to the caller where possible (done by the caller through the alias)
            pass
        s.env = {}
        s.ev = {}
        k = (v, len(s.stack), s.dyn)
        outs[k] = (v, join(outs[k][1], s) if k in outs else s)

    def do_call(self, fn, fr, s, el, nd, depth):
        qn = nd.get('qn', '')
        if qn in RAISE or nd.get('nr'):
            return None
        a = fn.args(el)
        if nd['k'] == 'CallExpr' and '::' not in qn and (qn.startswith('lua_') or qn.startswith('luaL_')):
            t = self.p.targets(nd.get('fn'))
            if not t or qn == 'luaL_setfuncs' or qn == 'lua_isinteger':
                return self.api(qn, fn, fr, s, el, a)
        t = [x for x in self.p.targets(nd.get('fn')) if self.takes_state(x) and x.blocks] if nd.get('fn') else []
        if t:
            r = []
            for g in t:
                if g.key in self.nr:
                    continue
                vals = []
                alias = {}
                for pm, x in zip(g.params, a):
                    v = self.eval(fn, fr, s, x)
                    vals.append(v if not isinstance(v, tuple) or v[0] in ('N', 'T') else None)
                    j = fn.strip(x, True)
                    if v is None and fn.nodes[j]['k'] == 'DeclRefExpr' and pm['t'] in ('int', 'const int'):
                        alias[pm['v']] = ('y', fr, fn.nodes[j].get('v'))
                s1 = s.copy()
                oat = {k: t for k, t in s.at.items() if k[0] == 'y'}
                s1.env = {}; s1.ev = {}
                for ov, iv, byref in self.captures(fn, g):
                    x = s.env.get((fr, ov))
                    if x is not None and (isinstance(x, int) or x[0] in ('N', 'T')):
                        s1.env[(1, iv)] = x
                    if ('y', fr, ov) in oat:
                        alias[iv] = ('y', fr, ov)
                s1.at = {k: t for k, t in s1.at.items() if k not in oat}
                for pv, ref in alias.items():
                    if ref in oat:
                        s1.at[('y', 1, pv)] = oat[ref]
                n0 = len(s1.stack)
                # functions entered since the last reservation of stack slots (judges recursion)
                ent = s1.get(('ent',))
                if '?' not in ent:
                    s1.at[('ent',)] = ent
                for v, s2 in self.call(g, s1, vals, 1):
                    s2 = s2.copy()
                    if s2.get(('ent',)) & {'?', g.key}:
                        if '?' in ent:
                            s2.at.pop(('ent',), None)
                        else:
                            s2.at[('ent',)] = ent
                    s2.env = dict(s.env); s2.ev = dict(s.ev)
                    for ov, iv, byref in self.captures(fn, g):
                        if byref and iv in self.assigned(g):
                            s2.env[(fr, ov)] = None
                    got = {k: t for k, t in s2.at.items() if k[0] == 'y'}
                    s2.at = {k: t for k, t in s2.at.items() if k not in got}
                    s2.at.update(oat)
                    for pv, ref in alias.items():
                        if ('y', 1, pv) in got:
                            s2.at[ref] = got[('y', 1, pv)]
                    if len(s2.stack) < n0 or s2.dyn != s1.dyn:
                        s2.purge(len(s2.stack) if s2.dyn == s1.dyn else 0)
                    if isinstance(v, tuple) and v[0] == 'T' and v[1] is not None and v[1][0] == 'y':
                        v = ('T', alias[v[1][2]], v[2]) if v[1][2] in alias else None
                    r.append((v, s2))
            if not r:
                return None
            return r
        if nd.get('fn') in self.nr and nd['k'] not in CTORS:
            return None
        if nd['k'] in CTORS:
            # stack positions stored in a field keep what is known about the type found there
            for g in self.p.targets(nd.get('fn')) if nd.get('fn') else []:
                pv = {pm['v']: x for pm, x in zip(g.params, a)}
                for it in g.inits:
                    if it.get('f') and it['e'] >= 0:
                        j = g.strip(it['e'], True)
                        if g.nodes[j]['k'] == 'DeclRefExpr' and g.nodes[j].get('v') in pv:
                            x = fn.strip(pv[g.nodes[j]['v']], True)
                            if fn.nodes[x]['k'] == 'DeclRefExpr':
                                r = ('y', fr, fn.nodes[x].get('v'))
                                ty = s.at.get(r)
                                val = self.eval(fn, fr, s, x)
                                if isinstance(val, int) and s.lo == s.hi:
                                    val = ('N', val - s.lo)
                                if ty is None and isinstance(val, tuple) and val[0] == 'N' and not s.dyn and 1 <= val[1] <= len(s.stack):
                                    ty = s.stack[val[1] - 1].types
                                if ty is not None and ty != ALL:
                                    s = s.copy()
                                    s.at[('f', it['f'].split('::')[-1])] = ty
        return [(None, s)]

    def entry(self, f):
        self.entry_out = []
        self.chain = []
        self.call(f, St(), [None] * len(f.params), 0)
        return self.entry_out
