"""C02: userdata objects: what is behind a userdata is what the C++ code takes it for."""
import re
import cg, fieldinit, flow, luastack
from facts import CALLS

PROP = {
    'title': 'Userdata passed from Lua is never mistaken for another C++ type',
    'statement': 'Every C++ object the library takes out of a Lua userdata is of the type the code takes it for: the userdata is checked against a metatable name first, each metatable name belongs to exactly one C++ type, '
                 'the userdata was allocated with the size of that type, all members are initialised before the metatable makes the object usable, and no object is returned to Lua without its metatable. '
                 'Methods registered for a type check their first argument to be of this type, every type has a finalizer, and an object whose finalizer has run (also when called explicitly by a script) cannot be used anymore.',
    'over': ['inputs', 'programs'],
    'quant': 'every userdata access and every userdata creation in the library, any script passing any object to any method in any order',
    'why': 'Tests call methods on objects of the right type that are alive; a wrong cast shows only when a script passes a foreign or finalised object.',
    'files': ['src/lualib_mewa.cpp', 'src/lua_userdata.hpp', 'src/lua_object_reference.hpp', 'src/lua_parameter.cpp'],
    'mech': [('luaL_checkudata in every method, registration tables', 'src/lualib_mewa.cpp'), ('userdata structures with init/create/destroy', 'src/lua_userdata.hpp')],
    'technique': 'typestate analysis of userdata slots on the abstract Lua stack + cast/metatable/type consistency over the typed AST + must-assignment dataflow',
    'design': 'Typestate of every userdata slot (allocated with sizeof T -> all members assigned -> metatable of T -> visible), consistency of metatable name and cast type over all casts of `void*` values that come from `luaL_checkudata`/`lua_touserdata`/`luaL_testudata`, registration tables against the type checked first, finalizer has to detach the metatable.',
    'level_note': 'Complete over all userdata creations and casts of the tree. Assumes scripts cannot set metatables of userdata (debug library excluded).',
}


def cast_type(f, i):
    """type T when node i (void*) is converted to T*"""
    for a in f.ancestors(i):
        nd = f.nodes[a]
        if nd['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr') and nd['t'].endswith('*'):
            return fieldinit.type_name(nd['t']), a
        if nd['k'] not in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            return None, a
    return None, None


def holder(f, i):
    """the variable a (casted) pointer is stored in"""
    for a in f.ancestors(i):
        nd = f.nodes[a]
        for v in nd.get('vars', ()):
            if v['init'] >= 0 and i in f.walk(v['init']):
                return v['v']
        if nd['k'] in ('DeclStmt', 'CompoundStmt', 'IfStmt'):
            break
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            return f.path(nd['c'][0])
    return None


def reg_tables(p):
    """{variable: [(method name, function key)]} of luaL_Reg tables"""
    r = {}
    for v in p.vars.values():
        if 'luaL_Reg' not in v['t']:
            continue
        nodes = v.get('nodes', [])
        l = []
        for n in nodes:
            if n['k'] == 'InitListExpr' and n['t'].replace('const ', '').replace('struct ', '') == 'luaL_Reg':
                st = list(n['c']); name = None; fn = None
                while st:
                    x = nodes[st.pop(0)]
                    if 's' in x:
                        name = x['s']
                    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'fn':
                        fn = x['fn']
                    st += [y for y in x.get('c', ()) if y >= 0]
                if name and fn:
                    l.append((name, fn))
        r[v['v']] = l
    return r


def registrations(p, c, L):
    """[(metatable name, reg table variable, fn, node)]: a metatable created and filled in the same function or through a helper with both as parameters"""
    out = []

    def collect(f, env, depth=0):
        """env: parameter variable -> (kind, value)"""
        names = []; tabs = []
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] not in CALLS:
                continue
            if nd.get('qn') == 'luaL_newmetatable':
                a = f.args(i)[1]
                s = L.string(f, a)
                if s is None and f.path(a) in env:
                    s = env[f.path(a)]
                names.append((s, i))
            elif nd.get('qn') == 'luaL_setfuncs':
                q = f.path(f.args(i)[1])
                tabs.append((env.get(q, q), i))
            elif depth < 3:
                for t in p.targets(nd.get('fn')):
                    if t.blocks and any('lua_State' in x['t'] for x in t.params) and t.file.endswith(f.file.split('/')[-1]):
                        e = {}
                        for pm, a in zip(t.params, f.args(i)):
                            s = L.string(f, a)
                            e[pm['v']] = s if s is not None else env.get(f.path(a), f.path(a))
                        collect(t, e, depth + 1)
        for k, (nm, i) in enumerate(names):
            for tb, j in tabs[k:k + 1]:
                out.append((nm, tb, f, i))
    for f in p.fns.values():
        if f.d.get('xc') and f.name.startswith('luaopen_'):
            collect(f, {})
    return out


def run(c):
    c.rule('typestate of userdata on the abstract Lua stack: new (size of its type) -> all members assigned -> metatable of its type -> visible; '
           'every pointer obtained from a userdata comes from a check against the metatable of the type it is cast to; methods check the type they are registered for; finalizers detach the metatable')
    c.assume('scripts cannot exchange the metatable of a userdata (that needs the debug library)')
    p = c.prog()
    FI = fieldinit.FieldInit(p)
    assoc = {}          # new node -> set of metatable names
    cur = [None]
    first = {}          # entry -> names checked for argument 1

    def obs(name, st, fn, i, a, fr):
        if name in ('luaL_checkudata', 'luaL_testudata'):
            v = L.eval(fn, fr, st, a[1])
            if v == 1:
                first.setdefault(cur[0], set()).add(L.string(fn, a[2]))
        elif name == 'lua_setmetatable':
            r = L.ref(fn, fr, st.copy(), a[1], i)
            if r is not None and r[0] == 's' and st.stack[r[1]].attr and st.stack[r[1]].attr[0] == 'ud':
                top = st.stack[-1]
                nm = top.attr[1] if top.attr and top.attr[0] == 'mt' else None
                assoc.setdefault((fn.key, st.stack[r[1]].attr[1]), set()).add((nm, i))
    L = luastack.LuaStack(p, lambda *a: None, obs)
    ents = cg.lua_entries(p)
    news = {}
    for f in p.fns.values():
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] in CALLS and nd.get('qn') == 'lua_newuserdata':
                news[(f.key, i)] = f
    # creation
    nameof = {}
    pend = []
    for k in sorted(ents):
        f = p.fns[k]
        if not f.blocks:
            continue
        cur[0] = k
        L.cache = {}
        for v, s, fn, node in L.entry(f):
            for x in s.stack:
                if x.attr and x.attr[0] == 'ud':
                    pend.append((f, fn, node, x.attr[1]))
            if isinstance(v, int) and ('meta', 1) in s.at:
                first.setdefault(('detached', k), []).append(s.at[('meta', 1)] == frozenset([luastack.NIL]))
            else:
                first.setdefault(('detached', k), []).append(False)
    for f, fn, node, i in pend:
        c.violate('no metatable %s' % f.qn, fn.loc(node), '%s returns with a new userdata that has no metatable' % f.qn)
    for (k, i), f in sorted(news.items(), key=lambda x: (x[1].file, x[1].line, x[0][1])):
        T, ca = cast_type(f, i)
        a = f.args(i)
        sz = f.cv(a[1])
        if T is None:
            c.violate('untyped %s' % f.qn, f.loc(i), '%s: new userdata is not converted to the type of its object' % f.qn)
            continue
        if f.nodes[ca].get('dep'):
            continue
        rec = p.recs.get(T)
        if not rec:
            c.broken('userdata type %s unknown' % T)
        c.ok('userdata allocations sized by their type', '%s %s: %s %s bytes' % (f.loc(i), f.qn, T, sz))
        if sz != rec['size']:
            c.violate('size %s' % f.qn, f.loc(i), '%s allocates a userdata of %s bytes for an object of type %s with %s bytes' % (f.qn, sz, T, rec['size']))
        ms = assoc.get((k, i), set())
        if not ms:
            # not seen on any path from Lua (template instance not registered)
            if any(t.key in L.covered for t in [f]):
                c.violate('no metatable %s' % f.qn, f.loc(i), '%s: the new userdata (%s) never gets a metatable' % (f.qn, T))
            continue
        for nm, mi in sorted(ms, key=str):
            if nm is None:
                c.violate('metatable unknown %s' % f.qn, f.loc(i), '%s: the metatable set for the new %s is not fetched by a name' % (f.qn, T))
                continue
            nameof.setdefault(nm, {}).setdefault(T, f.loc(i))
            # members assigned before the metatable is set
            h = holder(f, i)
            if h is not None and any(mi in f.walk() for _ in [0]):
                s = FI.before(f, h, frozenset(), mi) if f.nodes[mi].get('qn') == 'lua_setmetatable' else None
                if s is not None:
                    miss = [n for n, x, cl in fieldinit.all_fields(p, T) if n not in s and '*' not in s]
                    c.ok('members initialised before the object gets its metatable', '%s: %s %s' % (f.qn, T, sorted(s)))
                    if miss:
                        c.violate('uninitialised %s' % f.qn, f.loc(mi), '%s: %s of the new %s not assigned on every path before the metatable makes it usable (and its finalizer run)' % (f.qn, ', '.join(miss), T))
    for nm, ts in sorted(nameof.items()):
        c.ok('metatable names with one type', '%s -> %s' % (nm, sorted(ts)))
        if len(ts) > 1:
            c.violate('ambiguous %s' % nm, sorted(ts.values())[0], 'metatable "%s" is used for objects of different types: %s' % (nm, sorted(ts)))
    byT = {}
    for nm, ts in nameof.items():
        for T in ts:
            byT.setdefault(T, set()).add(nm)
    # uses
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] not in CALLS:
                continue
            q = nd.get('qn')
            if q in ('luaL_checkudata', 'luaL_testudata'):
                nm = L.string(f, f.args(i)[2])
                T, ca = cast_type(f, i)
                if nm is None:
                    c.violate('check name %s' % f.qn, f.loc(i), '%s: metatable name of the check is not a constant' % f.qn)
                    continue
                if nm not in nameof:
                    c.violate('check unknown %s %s' % (f.qn, nm), f.loc(i), '%s checks for metatable "%s" but no userdata of this name is ever created' % (f.qn, nm))
                    continue
                if T is not None:
                    c.ok('checked userdata accesses', '%s: %s as %s' % (f.qn, nm, T))
                    if T not in nameof[nm]:
                        c.violate('cast %s %s' % (f.qn, T), f.loc(i), '%s takes a userdata with metatable "%s" (type %s) for a %s' % (f.qn, nm, sorted(nameof[nm])[0], T))
            elif q == 'lua_touserdata':
                T, ca = cast_type(f, i)
                if T is not None:
                    c.violate('unchecked %s %s' % (f.qn, T), f.loc(i), '%s takes a userdata for a %s without checking its metatable' % (f.qn, T))
    # registration
    tabs = reg_tables(p)
    regs = registrations(p, c, L)
    seen = set()
    for nm, tb, f, i in regs:
        seen.add(nm)
        ms = tabs.get(tb)
        if ms is None or nm is None:
            c.violate('registration %s' % nm, f.loc(i), 'metatable "%s" is filled from something that is not a method table (%s)' % (nm, tb))
            continue
        gc = False
        for m, fk in ms:
            if m == '__gc':
                gc = True
                d = first.get(('detached', fk), [])
                if not d or not all(d):
                    c.violate('finalizer %s' % nm, p.fns[fk].loc(), 'the finalizer %s of "%s" leaves the finalised object usable (metatable not removed): a script calling it explicitly can use freed memory' % (p.fns[fk].qn, nm))
            got = first.get(fk, set())
            c.ok('registered methods checking their object', '%s:%s' % (nm, m))
            if nm not in got:
                c.violate('method %s:%s' % (nm, m), p.fns[fk].loc() if fk in p.fns else f.loc(i), 'method %s of "%s" does not check its first argument to be a "%s"%s' % (m, nm, nm, ', but a ' + '/'.join(sorted(str(x) for x in got)) if got else ''))
            elif got - {nm}:
                c.violate('method %s:%s' % (nm, m), p.fns[fk].loc(), 'method %s of "%s" checks its first argument for different types: %s' % (m, nm, sorted(str(x) for x in got)))
        if not gc:
            c.violate('no finalizer %s' % nm, f.loc(i), 'no __gc method registered for "%s": its objects are never destroyed' % nm)
    for nm in nameof:
        if nm not in seen:
            c.violate('unregistered %s' % nm, sorted(nameof[nm].values())[0], 'metatable "%s" is never created by luaopen: objects of this type get no metatable' % nm)
    c.floor('userdata allocations sized by their type', 5)
    c.floor('checked userdata accesses', 25)
    c.floor('registered methods checking their object', 30)
    c.floor('metatable names with one type', 5)
