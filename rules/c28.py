"""C28: binding of the type database methods: arguments, scope/step, defaults and results."""
import re
import absint
from absint import Eval, State, TOP, Outcome
from facts import CALLS, CTORS, Broken
from c02 import reg_tables

PROP = {
    'title': 'Type database methods pass every argument and result in its documented place',
    'statement': 'Every method of a type database hands each of its arguments, in the documented position, to the operation of the same meaning: definitions and this_instance, this_type(s) with the current scope, get_*, derive_type and resolve_type with the current step. '
                 'An optional argument that is missing or nil has exactly its documented default (no constructor, no parameters, weight 0, all tags selected, no tags counted, path length limit 1, separator " ", step = scope end - 1). '
                 'Results are returned in the documented order, and typedb:scope and typedb:step return the values that were current before the call.',
    'over': ['inputs', 'histories'],
    'quant': 'every method, every number of arguments, every combination of nil arguments',
    'why': 'Most wrong bindings (a default tag set, step taken for scope, two masks swapped, result order) only show for particular databases and argument counts that tests do not combine.',
    'files': ['src/lualib_mewa.cpp', 'src/lua_parameter.cpp', 'src/typedb.hpp'],
    'mech': [('mewa_typedb_* methods', 'src/lualib_mewa.cpp'), ('TypeDatabase interface', 'src/typedb.hpp'), ('TagMask::matchAll, matchNothing', 'src/typedb.hpp')],
    'technique': 'abstract interpretation of the bindings over the provenance of values (argument position, member, result), for every argument count and nil combination; compared with the documented interface',
    'design': 'Bindings are interpreted with arguments as opaque provenance values for each argument count (0..max+1) and each nil combination, compared with the table of the documented interface (doc/typedb.md).',
    'level_note': 'The conversion of an argument (getArgumentAs*) is opaque here; what matters is which argument reaches which parameter. Values whose provenance is lost are counted, not judged.',
}

SCOPE = ('ud', 'curScope')
STEP = ('ud', 'curStep')


def A(n, dflt=None):
    return ('A', n, dflt)


ALL, NONE = 0xffffffff, 0
# method -> (database operation, parameters, results pushed); A(n,default) is the n-th Lua argument (1 = the database)
SPEC = {
    'set_instance': ('setObjectInstance', [A(2), SCOPE, ('regref', A(3))], []),
    'get_instance': ('getObjectInstance', [A(2), STEP], [('reg', 'R')]),
    'this_instance': ('getObjectInstanceOfScope', [A(2), SCOPE], [('reg', 'R')]),
    'def_type': ('defineType', [SCOPE, A(2), A(3), A(4, 0), A(5, 'empty')], ['R']),
    'def_type_as': ('defineTypeAs', [SCOPE, A(2), A(3), A(4)], ['R']),
    'this_type': ('getType', [SCOPE, A(2), A(3), A(4, 'empty')], ['R']),
    'get_type': ('getType', [SCOPE, A(2), A(3), A(4, 'empty')], ['R']),
    'this_types': ('getTypes', [SCOPE, A(2), A(3)], ['R.types']),
    'get_types': ('getTypes', [SCOPE, A(2), A(3)], ['R.types']),
    'def_reduction': ('defineReduction', [SCOPE, A(2), A(3), A(4), A(5), A(6, 0)], []),
    'get_reduction': ('getReduction', [STEP, A(2), A(3), A(4, ALL)], ['R.weight', ('reg', 'R.constructor')]),
    'get_reductions': ('getReductions', [STEP, A(2), A(3, ALL), A(4, NONE)], ['R.reductions']),
    'derive_type': ('deriveType', [STEP, A(2), A(3), A(4, ALL), A(5, NONE), A(6, 1)], ['R.reductions', 'R.weightsum', 'R.conflictPath']),
    'resolve_type': ('resolveType', [STEP, A(2), A(3), A(4, ALL)], None),
    'type_name': ('typeName', [A(2)], ['R']),
    'type_string': ('typeToString', [A(2), A(3, ' ')], ['R']),
    'type_context': ('typeContext', [A(2)], ['R']),
    'type_parameters': ('typeParameters', [A(2)], ['R']),
    'type_nof_parameters': ('typeParameters', [A(2)], ['R.size']),
    'type_constructor': ('typeConstructor', [A(2)], [('reg', 'R')]),
    'type_scope': ('typeScope', [A(2)], ['R']),
    'instance_tree': ('getObjectInstanceTree', [A(2)], None),
    'type_tree': ('getTypeDefinitionTree', [], None),
    'reduction_tree': ('getReductionDefinitionTree', [], None),
}
MEMBERS = {'', 'types', 'weight', 'constructor', 'reductions', 'weightsum', 'conflictPath', 'size', 'type', 'items', 'contextType', 'rootIndex', 'conflictType'}
LUA_TNIL, LUA_OTHER = 0, 3
NARG = ('#nargs',)
STK = ('#stack',)
OPS = ('#ops',)


def is_prov(v):
    return isinstance(v, tuple) and v[:1] in (('A',), ('Am',), ('op',), ('R',), ('reg',), ('regref',), ('ud',), ('dflt',), ('flt',))


class Ev(Eval):
    def load(self, st, loc, t=''):
        if loc not in st.mem and loc[:1] != ('UD',) or loc[:1] == ('UD',):
            for n in range(len(loc), 0, -1):
                b = st.mem.get(loc[:n])
                if b is None:
                    continue
                rest = loc[n:]
                if not rest:
                    return b
                if is_prov(b) and b[0] == 'R':
                    return ('R', b[1], '.'.join([x for x in [b[2]] if x] + list(rest)))
                if is_prov(b) and b[0] == 'A':
                    return ('Am', b[1]) + rest
                return TOP
        return super().load(st, loc, t)

    def binop(self, op, l, r, nd):
        if isinstance(l, tuple) and l[:1] == ('Am',) and isinstance(r, int):
            return ('op', op, l, r)
        return super().binop(op, l, r, nd)


class Binding:
    def __init__(self, p, dbcls):
        self.p = p; self.db = dbcls
        self.fixed = {}

    def deref(self, st, v, depth=0):
        """provenance of a value"""
        if is_prov(v):
            return v
        if isinstance(v, tuple) and v[:1] == ('ref',) and depth < 8:
            loc = v[1]
            if loc[:1] == ('UD',):
                return st.mem[loc] if loc in st.mem else ('ud',) + loc[1:]
            if loc in st.mem:
                x = st.mem[loc]
                if x is not TOP:
                    return self.deref(st, x, depth + 1)
            if loc[:1] == ('S',) and len(loc) == 2 and isinstance(loc[1], str):
                return loc[1]
            sub = [(k, st.mem[k]) for k in st.mem.under(loc) if len(k) == len(loc) + 1 and k[-1] != '#copyof']
            if len(sub) == 1 and (isinstance(sub[0][1], int) or is_prov(sub[0][1])):
                return sub[0][1]
            c = st.mem.get(loc + ('#copyof',))
            if c is not None:
                return self.deref(st, c, depth + 1)
            if len(sub) > 1:
                pr = {x for k, x in sub if is_prov(x)}
                if len(pr) == 1 and all(is_prov(x) for k, x in sub if x is not TOP):
                    return pr.pop()
            if sub and all(x == 0 for k, x in sub):
                return ('dflt',)
            # a member of a value with known provenance
            for n in range(len(loc) - 1, 0, -1):
                if loc[:n] in st.mem and is_prov(st.mem[loc[:n]]):
                    b = st.mem[loc[:n]]
                    if b[0] == 'R':
                        return ('R', b[1], '.'.join([x for x in [b[2]] if x] + list(loc[n:])))
                    return TOP
            return TOP
        return v

    def load_default(self, loc, t):
        if loc[:1] == ('UD',):
            return ('ud',) + loc[1:]
        return TOP

    def push(self, st, v):
        st.mem[STK] = st.mem.get(STK, ()) + (v,)
        return TOP

    def at(self, st, li):
        """value at a Lua stack index"""
        n = st.mem.get(NARG)
        s = st.mem.get(STK, ())
        if not isinstance(li, int):
            return TOP
        if li < 0:
            if -li <= len(s):
                return s[li]
            return ('A', n + len(s) + li + 1) if isinstance(n, int) else TOP
        if isinstance(n, int) and li > n:
            return s[li - n - 1] if li - n - 1 < len(s) else ('none',)
        return ('A', li)

    def ltype(self, ev, st, fr, fn, el, li):
        v = self.at(st, li)
        if v == ('none',):
            return -1
        if v and v[:1] == ('A',):
            key = ('#nil', v[1])
            if key in st.mem:
                return LUA_TNIL if st.mem[key] else TOP
            a, b = st.copy(), st.copy()
            a.mem[key] = 1; b.mem[key] = 0
            return [Outcome('return', LUA_TNIL, a, fn, el), Outcome('return', 'other', b, fn, el)]
        return TOP

    def extern(self, ev, st, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn', '')
        last = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', qn))).split('::')[-1]
        t = ev.p.targets(nd['fn']) if nd.get('fn') else []
        d = self.deref
        if last == 'luaL_checkudata' or last == 'lua_touserdata':
            return ('ref', ('UD',))
        if last == 'lua_gettop':
            n = st.mem.get(NARG)
            return n + len(st.mem.get(STK, ())) if isinstance(n, int) else TOP
        if last in ('lua_type', 'lua_isnoneornil', 'lua_isnil') and len(args) > 1:
            r = self.ltype(ev, st, fr, fn, el, d(st, args[1]))
            if isinstance(r, list):
                r[1].value = LUA_OTHER
            return r
        if qn.startswith('lua_push') or qn.startswith('luaL_push'):
            if last == 'lua_pushvalue':
                return self.push(st, self.at(st, d(st, args[1])))
            if last == 'lua_pushnil':
                return self.push(st, ('nil',))
            return self.push(st, d(st, args[1]) if len(args) > 1 else TOP)
        if last in ('lua_rawgeti', 'lua_geti') and len(args) > 2:
            v = d(st, args[2])
            return self.push(st, ('reg', v) if is_prov(v) else TOP)
        if last in ('lua_newuserdata', 'lua_newuserdatauv'):
            self.push(st, ('new',))
            ev.frames += 1
            return ('ref', ('N%d' % ev.frames,))
        if last in ('luaL_getmetatable', 'lua_getfield', 'lua_getglobal', 'lua_createtable', 'lua_newtable', 'lua_rawget'):
            return self.push(st, TOP)
        if last == 'lua_setmetatable':
            st.mem[STK] = st.mem.get(STK, ())[:-1]
            return TOP
        if last == 'luaL_ref':
            s = st.mem.get(STK, ())
            v = s[-1] if s else TOP
            st.mem[STK] = s[:-1]
            return ('regref', v)
        if last == 'lua_settop' and len(args) > 1:
            n = d(st, args[1])
            s = st.mem.get(STK, ())
            if isinstance(n, int) and n < 0:
                k = -n - 1
                st.mem[STK] = s[:max(0, len(s) - k)]
                if k > len(s):
                    st.mem[NARG] = st.mem[NARG]          # arguments popped: the views on them stay what they were
            return TOP
        if last in ('lua_tointegerx', 'lua_tonumberx', 'lua_tolstring', 'lua_toboolean', 'luaL_checkinteger', 'luaL_checknumber', 'luaL_checklstring', 'luaL_checktype') and len(args) > 1:
            return self.at(st, d(st, args[1]))
        if last in ('lua_next', 'lua_rawset', 'lua_rawseti', 'lua_replace', 'lua_insert', 'lua_remove'):
            return TOP
        # repository: reader of an argument
        if t and len(t) == 1 and nd['k'] not in CTORS and objloc is None and not t[0].cls and not self.uses_db(t[0]):
            f = t[0]
            pt = [x['t'] for x in f.params]
            li = [k for k, x in enumerate(pt) if 'lua_State' in x]
            if li and li[0] + 1 < len(pt) and f.ret not in ('void', 'bool') and not f.d.get('internal') and self.reads(f) and pt[li[0] + 1].split()[-1] == 'int' and self.leaf(f):
                v = self.at(st, d(st, args[li[0] + 1]))
                if v == ('none',):
                    return ('A', d(st, args[li[0] + 1]))
                return v
            # repository: check of an argument
            if last.startswith('check') and f.ret == 'int' and len(pt) >= 4:
                return st.mem.get(NARG)
            if li and f.ret == 'void' and li[0] + 1 < len(pt) and self.pushes(f):
                vals = [d(st, a) for a in args]
                vals = [v for v in vals if is_prov(v)]
                if last == 'pushTypeConstructor' or self.rawgeti(f):
                    return self.push(st, ('reg', vals[0]) if vals else TOP)
                return self.push(st, vals[0] if len(vals) == 1 else TOP)
            if li and f.ret == 'int' and li[0] + 1 < len(pt) and self.pushes(f):
                st.mem[OPS + ('multi',)] = 1
                return TOP
            if li and f.ret in ('void', 'bool') and not self.pushes(f):
                return TOP
        cls = nd.get('cls') or ''
        if nd['k'] == 'CXXMemberCallExpr' and (cls == self.db or any(f.cls == self.db for f in t)):
            st.mem[OPS] = st.mem.get(OPS, ()) + ((last, tuple(d(st, a) for a in args), fn.key, el, tuple(sorted((k[1], x) for k, x in st.mem.items() if k[:1] == ('#nil',))), st.mem.get(NARG)),)
            return ('R', last, '')
        if nd['k'] in CTORS:
            pv = [d(st, a) for a in args]
            if len(pv) == 1 and is_prov(pv[0]) or len(pv) >= 1 and is_prov(pv[0]) and not t:
                ev.frames += 1
                loc = ('V%d' % ev.frames,)
                st.mem[loc] = pv[0]
                return ('ref', loc)
            if not pv and not t:
                ev.frames += 1
                loc = ('V%d' % ev.frames,)
                st.mem[loc] = ('dflt',)
                return ('ref', loc)
            return NotImplemented
        if nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=' and len(args) >= 1:
            if not t or is_prov(d(st, args[-1])):
                dst = ('ref', objloc) if objloc is not None and nd.get('cls') else args[0]
                v = d(st, args[-1])
                if isinstance(dst, tuple) and dst[:1] == ('ref',):
                    for k in [k for k in st.mem.under(dst[1]) if len(k) > len(dst[1])]:
                        del st.mem[k]
                    st.mem[dst[1]] = v
                return dst
            return NotImplemented
        if nd['k'] == 'CXXMemberCallExpr' and objloc is not None and not t:
            b = d(st, ('ref', objloc))
            if is_prov(b) and b[0] == 'R':
                if last in ('data', 'c_str', 'begin', 'end'):
                    return b if last in ('data', 'c_str') else TOP
                if last in ('size', 'length'):
                    return ('R', b[1], (b[2] + '.' if b[2] else '') + 'size')
                return TOP
            if is_prov(b) and b[0] == 'A':
                return b if last in ('data', 'c_str') else TOP
            if objloc[:1] == ('UD',) and not t:
                return ('ref', objloc) if last in ('get', 'operator->') else TOP
        if last in ('move', 'forward') and args:
            return args[0]
        return NotImplemented

    def reads(self, f):
        """a function that converts a Lua value: calls lua_type/lua_to* itself or through repository functions"""
        return self.uses(f, ('lua_to', 'luaL_check', 'luaL_opt', 'luaL_ref'))

    def pushes(self, f):
        return self.uses(f, ('lua_push', 'lua_createtable', 'lua_rawgeti', 'lua_newtable'))

    def rawgeti(self, f):
        return any((nd.get('qn') or '') in ('lua_rawgeti', 'lua_geti') for i, k, nd in self.p.call_sites(f)) and not any((nd.get('qn') or '') == 'lua_createtable' for i, k, nd in self.p.call_sites(f))

    def leaf(self, f):
        """converts the argument itself; what only forwards to such functions is looked into"""
        for i, k, nd in self.p.call_sites(f):
            q = nd.get('qn') or ''
            if (q.startswith('lua_') or q.startswith('luaL_')) and q not in ('lua_type', 'lua_gettop', 'lua_isnil', 'lua_isnoneornil'):
                return True
        return False

    def uses_db(self, f):
        key = (f.key, '#db')
        if key in self.fixed:
            return self.fixed[key]
        self.fixed[key] = False
        r = any(g.cls == self.db or self.uses_db(g) for i, k, nd in self.p.call_sites(f) for g in (self.p.targets(k) if k else ()) if nd['k'] not in CTORS)
        self.fixed[key] = r
        return r

    def uses(self, f, prefixes):
        key = (f.key, prefixes)
        if key in self.fixed:
            return self.fixed[key]
        self.fixed[key] = False
        r = False
        for i, k, nd in self.p.call_sites(f):
            if (nd.get('qn') or '').startswith(prefixes):
                r = True; break
            for g in (self.p.targets(k) if k else ()):
                if self.uses(g, prefixes):
                    r = True; break
            if r:
                break
        self.fixed[key] = r
        return r


def arity(p, f):
    """(min, max) given to the argument count check"""
    st = [f]; seen = set()
    while st:
        g = st.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        for i, k, nd in p.call_sites(g):
            if (nd.get('qn') or '').split('::')[-1].startswith('checkNof'):
                a = g.args(i)
                v = [g.cv(x) for x in a[-2:]]
                if all(isinstance(x, int) for x in v):
                    return v[0], v[1], g, i
        for i, k, nd in p.call_sites(g):
            for h in (p.targets(k) if k else ()):
                if h.cls == f.cls and 'lua_State' in str([x['t'] for x in h.params]):
                    st.append(h)
    return None


def show(v):
    if isinstance(v, tuple):
        if v[0] == 'A':
            return 'argument %d' % (v[1] - 1) if v[1] != 1 else 'the database itself'
        if v[0] == 'ud':
            return '.'.join(str(x) for x in v[1:])
        if v[0] == 'R':
            return 'the result of %s%s' % (v[1], '.' + v[2] if v[2] else '')
        if v[0] in ('reg', 'regref'):
            return '%s %s' % ('the object registered as' if v[0] == 'reg' else 'a reference to', show(v[1]))
        if v[0] == 'Am':
            return 'argument %d.%s' % (v[1] - 1, '.'.join(v[2:]))
        if v[0] == 'op':
            return '%s %s %s' % (show(v[2]), v[1], v[3])
        if v[0] == 'dflt':
            return 'an empty value'
        if v[0] == 'flt':
            return v[1]
    return repr(v)


def flt(v):
    if isinstance(v, tuple) and v[:1] == ('flt',):
        try:
            return float(v[1])
        except ValueError:
            return v
    return v


def match(want, got, nargs, nils):
    """True/False/None(unknown)"""
    if got is TOP or got is None:
        return None
    if isinstance(want, tuple) and want[0] == 'A':
        n, dflt = want[1], (want[2] if len(want) > 2 else None)
        if dflt is not None and (n > nargs or dict(nils).get(n) == 1):
            if got == ('A', n):
                return True if n <= nargs else False      # handed on as nil: the conversion decides
            if dflt == 'empty':
                return True if got == ('dflt',) else (False if is_prov(got) else None)
            g = flt(got)
            if isinstance(g, (int, float, str)):
                return g == dflt
            if g == ('dflt',):
                return dflt in (0, 'empty')
            return False if is_prov(got) else None
        if got == ('A', n):
            return True
        if isinstance(got, (int, str)) or is_prov(got):
            return False
        return None
    if isinstance(want, tuple) and want[0] in ('reg', 'regref'):
        if isinstance(got, tuple) and got[:1] == (want[0],):
            if got[1] is TOP:
                return None
            return match(want[1], got[1], nargs, nils)
        if got in (('nil',),):
            return None
        return False if is_prov(got) or isinstance(got, (int, str)) else None
    if want == SCOPE or want == STEP:
        return True if got == want else (False if is_prov(got) or isinstance(got, (int, str)) else None)
    if isinstance(want, str) and (want == 'R' or want.startswith('R.')):
        if isinstance(got, tuple) and got[:1] == ('R',):
            if got[2] == want[2:] or want == 'R.size' and got[2] == 'arsize':
                return True
            return False if got[2] in MEMBERS else None
        if got in (('nil',), ('none',)):
            return None
        return False if is_prov(got) or isinstance(got, (int, str)) else None
    return None


def run(c):
    c.rule('bindings: for every argument count and nil combination the provenance of each parameter of the database operation called and of each value returned is the one documented')
    p = c.prog()
    tables = reg_tables(p)
    methods = {}
    for v, ent in tables.items():
        names = {n for n, k in ent}
        if {'def_type', 'resolve_type'} & names or len(names & set(SPEC)) >= 5:
            methods.update({n: k for n, k in ent})
    dbs = [f.cls for f in p.fns.values() if f.cls and f.name in ('defineType', 'resolveType', 'deriveType')]
    if not methods or not dbs:
        raise Broken('the methods of the type database are not found')
    B = Binding(p, dbs[0])
    for name, key in sorted(methods.items()):
        t = p.targets(key)
        if not t:
            c.count('methods without a body'); continue
        f = t[0]
        if name in ('scope', 'step'):
            setters(c, p, B, name, f)
            continue
        if name not in SPEC:
            c.count('methods not specified (%s)' % name)
            continue
        op, want, results = SPEC[name]
        ar = arity(p, f)
        if not ar:
            c.count('methods whose argument count is not decided'); continue
        lo, hi = ar[0], ar[1]
        seen_op = 0
        bad = 0
        for n in range(max(lo, 1), hi + 1):
            ev = Ev(p, B.extern, B.load_default, max_visits=3)
            st = State()
            st.mem[NARG] = n
            try:
                outs = ev.call(f, st, None, [('ref', ('LS',))])
            except Broken as e:
                c.count('argument counts not decided'); continue
            for o in outs:
                if o.kind != 'return':
                    continue
                ops = o.state.mem.get(OPS, ())
                nils0 = tuple(sorted((k[1], x) for k, x in o.state.mem.items() if k[:1] == ('#nil',)))
                mine = [x for x in ops]
                for (last, got, fk, el, nils, na) in mine:
                    g = p.fns[fk]
                    if last != op:
                        c.violate('%s/operation/%s' % (name, last), g.path(el), 'typedb:%s calls the database operation %s; documented is %s' % (name, last, op))
                        bad = 1
                        continue
                    seen_op += 1
                    for k, w in enumerate(want):
                        if k >= len(got):
                            c.count('parameters not decided'); continue
                        m = match(w, got[k], n, nils)
                        if m is None:
                            c.count('parameters not decided')
                            c.count('parameters not decided: %s parameter %d of %s' % (name, k + 1, op))
                        elif m:
                            c.ok('parameters bound as documented', '%s/%d arguments: parameter %d of %s = %s' % (name, n - 1, k + 1, op, show(got[k])))
                        else:
                            bad = 1
                            c.violate('%s/parameter%d/%s' % (name, k + 1, show(got[k])), g.path(el),
                                      'typedb:%s called with %d arguments%s passes %s as parameter %d of %s; documented is %s' % (
                                          name, n - 1, ''.join(' (argument %d nil)' % (x - 1) for x, y in nils if y), show(got[k]), k + 1, op, want_text(w, n, nils)))
                if mine and results is not None:
                    rv = o.value
                    s = o.state.mem.get(STK, ())
                    if isinstance(rv, int) and 0 <= rv <= len(s):
                        rs = s[len(s) - rv:] if rv else ()
                        for k, v in enumerate(rs):
                            if k >= len(results):
                                c.count('results not documented'); continue
                            m = match(results[k], v, n, nils0)
                            if m is None:
                                c.count('results not decided')
                                c.count('results not decided: %s %r' % (name, v))
                            elif m:
                                c.ok('results returned as documented', '%s: result %d = %s' % (name, k + 1, show(v)))
                            else:
                                bad = 1
                                c.violate('%s/result%d/%s' % (name, k + 1, show(v)), f.path(o.node) if o.node is not None else f.loc, 'typedb:%s returns %s as result %d; documented is %s' % (name, show(v), k + 1, want_text(results[k], n, nils0)))
                    else:
                        c.count('results not decided')
                        c.count('results not decided: number of results of %s' % name)
        if seen_op:
            c.ok('methods', name)
        elif not bad:
            c.count('methods whose database operation is not decided')
            c.count('methods whose database operation is not decided: ' + name)
    converters(c, p, B)
    c.rule('converters: a function given a stack index reads no value at a constant positive index')
    c.floor('methods', 12)
    c.floor('parameters bound as documented', 60)


READ = ('lua_type', 'lua_to', 'lua_is', 'lua_pushvalue', 'lua_next', 'lua_raw', 'lua_get', 'luaL_check', 'lua_geti')


def converters(c, p, B):
    """a function given a stack index reads the value at that index, not one at a fixed position"""
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        k = [i for i, x in enumerate(f.params) if 'lua_State' in x['t']]
        if not k or k[0] + 1 >= len(f.params) or f.params[k[0] + 1]['t'].split()[-1] != 'int' or not f.blocks or not B.reads(f):
            continue
        v = f.params[k[0] + 1]['v']
        if not any(f.nodes[i]['k'] == 'DeclRefExpr' and f.nodes[i].get('v') == v for i in f.walk()):
            continue
        n = 0
        fixed = []
        isidx = False
        for i, key, nd in p.call_sites(f):
            q = nd.get('qn') or ''
            a = f.args(i)
            idx = None
            if q.startswith(READ) and '::' not in q and len(a) > 1:
                idx = a[1]
            else:
                for g in (p.targets(key) if key else ()):
                    kk = [j for j, x in enumerate(g.params) if 'lua_State' in x['t']]
                    if kk and kk[0] + 1 < len(a) and B.reads(g) and g.params[kk[0] + 1]['t'].split()[-1] == 'int':
                        idx = a[kk[0] + 1]
            if idx is None:
                continue
            cv = f.cv(idx)
            if isinstance(cv, int) and cv > 0:
                fixed.append((cv, i, q))
            else:
                n += 1
                isidx = isidx or any(f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x].get('v') == v for x in f.walk(idx))
        for cv, i, q in fixed if isidx else ():
            c.violate('%s/fixed index %d' % (f.qn, cv), f.path(i), '%s is given the stack index of the value to inspect, but %s looks at index %d' % (f.qn, q, cv))
        if n and isidx:
            c.ok('reads of the argument given', '%s: %d reads' % (f.qn, n))
            c.count('reads in converters', n)


def want_text(w, n, nils):
    if isinstance(w, tuple) and w[0] == 'A':
        if len(w) > 2 and w[2] is not None and (w[1] > n or dict(nils).get(w[1]) == 1):
            return 'the default %r' % (w[2],)
        return 'argument %d' % (w[1] - 1)
    if w == SCOPE:
        return 'the current scope'
    if w == STEP:
        return 'the current step'
    if isinstance(w, tuple):
        return '%s %s' % ('the object registered as' if w[0] == 'reg' else 'a reference to', want_text(w[1], n, nils))
    return 'the result' + w[1:]


def setters(c, p, B, name, f):
    ar = arity(p, f)
    if not ar:
        c.count('methods whose argument count is not decided'); return
    endf = ()
    for g in p.fns.values():
        if g.name == 'end' and g.cls and g.cls.split('::')[-1] == 'Scope':
            m = [g.nodes[i]['n'] for i in g.walk() if g.nodes[i]['k'] == 'MemberExpr' and g.nodes[i].get('n')]
            if len(m) == 1:
                endf = (m[0],)
    for n in range(max(ar[0], 1), ar[1] + 1):
        ev = Ev(p, B.extern, B.load_default, max_visits=3)
        st = State()
        st.mem[NARG] = n
        try:
            outs = ev.call(f, st, None, [('ref', ('LS',))])
        except Broken:
            c.count('argument counts not decided'); continue
        for o in outs:
            if o.kind != 'return':
                continue
            m = o.state.mem
            nils = dict((k[1], x) for k, x in m.items() if k[:1] == ('#nil',))
            sc = B.deref(o.state, ('ref', ('UD', 'curScope')))
            stp = B.deref(o.state, ('ref', ('UD', 'curStep')))
            s = m.get(STK, ())
            if name == 'scope':
                wsc = ('A', 2) if n >= 2 and not nils.get(2) else SCOPE
                wst = ('A', 3) if n >= 3 and not nils.get(3) else (('op', '-', ('Am', 2) + endf, 1) if n >= 2 else STEP)
                wres = [SCOPE, STEP]
            else:
                wsc, wst, wres = SCOPE, (('A', 2) if n >= 2 and not nils.get(2) else STEP), [STEP]
            for what, w, g in (('current scope', wsc, sc), ('current step', wst, stp)):
                if w is None or g is TOP or g is None:
                    c.count('setter values not decided'); continue
                if g == w:
                    c.ok('current scope and step set as documented', '%s/%d arguments: %s = %s' % (name, n - 1, what, show(g)))
                else:
                    c.violate('%s/%s/%s' % (name, what, show(g)), f.loc, 'typedb:%s called with %d arguments leaves %s as the %s; documented is %s' % (name, n - 1, show(g), what, show(w)))
            rv = o.value
            if isinstance(rv, int) and 0 < rv <= len(s):
                for k, v in enumerate(s[len(s) - rv:]):
                    if k < len(wres) and is_prov(v):
                        if v == wres[k]:
                            c.ok('results returned as documented', '%s: result %d = the previous %s' % (name, k + 1, show(v)))
                        else:
                            c.violate('%s/result%d/%s' % (name, k + 1, show(v)), f.loc, 'typedb:%s returns %s as result %d; documented is the previous %s' % (name, show(v), k + 1, show(wres[k])))
                    else:
                        c.count('results not decided')
            else:
                c.count('results not decided')
