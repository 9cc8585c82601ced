"""C16: queries of the type database have no side effects."""
from effects import Effects
from c02 import reg_tables

PROP = {
    'title': 'Queries of the type database change nothing',
    'statement': 'No query method of a type database (this_instance, get_instance, this_type(s), get_type(s), get_reduction(s), derive_type, resolve_type, type_name, type_string, type_context, type_parameters, type_nof_parameters, type_constructor, '
                 'type_scope, instance_tree, type_tree, reduction_tree) and no method of the trees returned changes the database, its current scope or step, or the Lua registry, whatever is asked for and whether it is found or not. '
                 'The current scope and step are changed by typedb:scope and typedb:step only, definitions are added by set_instance, def_type, def_type_as and def_reduction only, and none of these three kinds of definitions (instances, types, reductions) alters the tables of another kind.',
    'over': ['histories', 'inputs'],
    'quant': 'every method registered for type databases and their trees, every code path reachable from it',
    'why': 'A query with a side effect (a name added by a failed lookup, a cache, a scope left changed) shows only in what later calls of a particular history return.',
    'files': ['src/lualib_mewa.cpp', 'src/typedb.cpp', 'src/typedb.hpp', 'src/scope.hpp', 'src/identmap.hpp', 'src/lua_parameter.cpp'],
    'mech': [('mewa_typedb_* methods', 'src/lualib_mewa.cpp'), ('const methods of TypeDatabase', 'src/typedb.cpp'), ('IdentMap::lookup', 'src/identmap.hpp')],
    'technique': 'interprocedural effect analysis: for every function the set of objects it may modify, by the access path they are reached through; compared with the effects allowed per registered method',
    'design': 'Effect sets of each query method rooted in the database object, the userdata members and the Lua registry.',
    'level_note': 'All methods registered. Effects through pointers stored in objects created by the query itself are attributed to that object; calls of library functions by pointer are taken to write what non constant pointers refer to.',
}

QUERY = {'this_instance', 'get_instance', 'this_type', 'this_types', 'get_type', 'get_types', 'get_reduction', 'get_reductions', 'derive_type', 'resolve_type', 'type_name', 'type_string', 'type_context', 'type_parameters',
         'type_nof_parameters', 'type_constructor', 'type_scope', 'instance_tree', 'type_tree', 'reduction_tree', 'reduction_tagmask'}
SETTER = {'set_instance': 'instances', 'def_type': 'types', 'def_type_as': 'types', 'def_reduction': 'reductions'}
TREE = {'chld', 'scope', 'list', 'instance'}
REG_CALLS = {'luaL_ref', 'luaL_unref', 'lua_setglobal', 'luaL_newmetatable', 'lua_rawsetp'}
REGISTRYINDEX = -1001000


def registry_sites(p):
    """{function key: (fn, node, callee)} functions that change the registry or globals themselves"""
    r = {}
    for f in p.fns.values():
        for i, k, nd in p.call_sites(f):
            q = nd.get('qn') or ''
            a = f.args(i)
            if q in REG_CALLS or q in ('lua_setfield', 'lua_rawseti', 'lua_rawset', 'lua_settable', 'lua_rawsetp') and len(a) > 1 and (f.cv(a[1]) or 0) <= REGISTRYINDEX and not upvalue(f, a[1]):
                r.setdefault(f.key, (f, i, q))
    return r


def upvalue(f, i):
    return (f.cv(i) or 0) < REGISTRYINDEX


def reach(p, f):
    st = [f]; seen = {}
    seen[f.key] = None
    while st:
        g = st.pop()
        for i, k, nd in p.call_sites(g):
            for h in (p.targets(k) if k else ()):
                if h.key not in seen:
                    seen[h.key] = g.key
                    st.append(h)
    return seen


def run(c):
    c.rule('allowed effects: queries and tree methods - none on the userdata, its database, globals or the registry; scope, step - the current scope and step; set_instance, def_* - the database, each kind its own tables')
    p = c.prog()
    E = Effects(p)
    tables = reg_tables(p)
    reg = registry_sites(p)
    kinds = {}
    for var, l in tables.items():
        names = {n for n, k in l}
        isdb = {'def_type', 'get_reduction'} <= names
        istree = 'list' in names and 'chld' in names or 'instance' in names and 'chld' in names
        if not (isdb or istree):
            continue
        for n, key in l:
            f = p.fns.get(key)
            if not f or n.startswith('__'):
                continue
            eff = E.sum[key]
            if istree and n in TREE or isdb and n in QUERY:
                ok = True
                for r, w in sorted(eff.items(), key=str):
                    if r[0] == 'global' and atomic(p, r[1]):
                        c.count('atomic counters (C19)')
                        continue
                    ok = False
                    what = {'udata': 'the type database' if r[1] == 'impl' else 'the %s of the object' % (r[1] or 'contents'), 'global': 'the variable %s' % r[1]}.get(r[0], str(r))
                    c.violate('%s modifies %s' % (n, r[1] or r[0]), w[0].loc(w[1]), 'query %s modifies %s: %s' % (n, what, w[2]))
                rc = reach(p, f)
                for k2 in rc:
                    if k2 in reg:
                        ok = False
                        g, i, q = reg[k2]
                        c.violate('%s calls %s' % (n, q), g.loc(i), 'query %s changes the Lua registry or globals: %s is called in %s' % (n, q, g.qn))
                c.count('functions reachable from queries', len(rc))
                if ok:
                    c.ok('queries without side effect', '%s (%s)' % (n, f.qn))
            elif isdb and n in ('scope', 'step'):
                allowed = {'scope': {'curScope', 'curStep'}, 'step': {'curStep'}}[n]
                bad = [(r, w) for r, w in eff.items() if not (r[0] == 'udata' and scope_member(p, r[1], n))]
                for r, w in bad:
                    c.violate('%s modifies %s' % (n, r[1] or r[0]), w[0].loc(w[1]), '%s modifies %s: %s' % (n, r[1] or r[0], w[2]))
                if not bad:
                    c.ok('methods setting scope and step', n)
            elif isdb and n in SETTER:
                bad = [(r, w) for r, w in eff.items() if not (r[0] == 'udata' and r[1] == 'impl') and not (r[0] == 'global' and atomic(p, r[1]))]
                for r, w in bad:
                    c.violate('%s modifies %s' % (n, r[1] or r[0]), w[0].loc(w[1]), 'the definition method %s modifies %s: %s' % (n, r[1] or r[0], w[2]))
                if not bad:
                    c.ok('definition methods', n)
                kinds.setdefault(SETTER[n], set()).update(dbcalls(p, f))
            else:
                c.count('methods not classified')
    # tables per kind of definition
    w = {}
    for kind, keys in kinds.items():
        for k in keys:
            for r, s in E.sum[k].items():
                if r[0] == 'this':
                    w.setdefault(r[1], {}).setdefault(kind, (p.fns[k], s))
    for fld, ks in sorted(w.items(), key=str):
        if fld is None or shared(p, fld):
            continue
        if len(ks) > 1:
            kk = sorted(ks)
            f, s = ks[kk[0]]
            c.violate('member %s' % fld, s[0].loc(s[1]), 'definitions of %s and of %s both modify TypeDatabase::%s' % (kk[0], kk[1], fld))
        else:
            c.ok('tables modified by one kind of definition only', fld)
    c.floor('queries without side effect', 20)
    c.floor('definition methods', 3)


def scope_member(p, fld, n):
    r = p.recs.get('mewa_typedb_userdata_t')
    for f in (r or {}).get('fields', ()):
        if f['n'] == fld:
            return f['t'] == 'int' and 'objCount' != fld or n == 'scope' and f['t'].endswith('Scope')
    return False


def shared(p, fld):
    for f in p.recs['mewa::TypeDatabase']['fields']:
        if f['n'] == fld:
            return 'IdentMap' in f['t'] or 'Memory' in f['t']
    return False


def atomic(p, name):
    for v in p.vars.values():
        if v.get('qn') == name or v['n'] == name or v['v'] == name:
            return 'std::atomic' in v['t']
    return False


def dbcalls(p, f):
    """TypeDatabase methods called by a registered method (also through helpers outside of the class)"""
    r = set(); st = [f]; seen = set()
    while st:
        g = st.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        for i, k, nd in p.call_sites(g):
            for h in (p.targets(k) if k else ()):
                if h.cls == 'mewa::TypeDatabase':
                    r.add(h.key)
                elif not h.cls:
                    st.append(h)
    return r
