"""C01: no C++ exception leaves a function called by Lua, and a caught one always becomes a Lua error."""
import cg

PROP = {
    'title': 'No C++ exception escapes into Lua and none is swallowed',
    'statement': 'Whatever a Lua script passes to any function or method of the library, no C++ exception leaves the call into the Lua interpreter. '
                 'A failure raised inside the library always ends as a Lua error that the script can catch with pcall; it is never caught and turned into a regular return.',
    'over': ['inputs', 'programs'],
    'quant': 'every function and method registered with Lua, every argument combination, every throw site reachable from it',
    'why': 'Tests trigger a handful of failing calls; the guarantee ranges over every throw site reachable from every registered function.',
    'files': ['src/lualib_mewa.cpp', 'src/lua_run_compiler.cpp', 'src/lua_parameter.cpp', 'src/lua_userdata.hpp'],
    'mech': [('catch(...) + rethrow-translating function around the body of every registered function', 'src/lualib_mewa.cpp')],
    'technique': 'interprocedural exception-escape analysis over call graph and CFG',
    'design': 'Oracle: the C++ rule that an exception leaves a function unless a handler covers it. Every throw expression, `new`, and may-throw library call is propagated through the call graph up to the functions Lua can call; a covering `catch(...)` ends the propagation. Second part: from each handler of an entry function no path leads to a normal return unless it raised a Lua error. Tests cannot make every allocation fail; the analysis has an edge for each.',
    'level_note': 'Sound over the extracted call graph (virtual calls resolved to all overriders, indirect calls assumed to throw). Trusts noexcept declarations, '
                  'that building an error report does not itself run out of memory, and that Lua is compiled as C.',
}


def handler_exits(p, nr, f):
    """catch handlers of f from which control can get back to the normal function exit without raising a Lua error"""
    bad = []
    b = f.blocks
    n = 0
    for x in b.values():
        lab = x.get('lab')
        if lab is None or f.nodes[lab]['k'] != 'CXXCatchStmt':
            continue
        n += 1
        st = [x['id']]; seen = set()
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            blk = b[y]
            stop = False
            for el in blk['e']:
                if isinstance(el, int):
                    nd = f.nodes[el]
                    if nd['k'] == 'CXXThrowExpr' or (nd.get('qn') in cg.LUA_RAISE) or nd.get('fn') in nr or nd.get('nr'):
                        stop = True
                        break
            if stop:
                continue
            if y == f.exit:
                bad.append(lab)
                break
            st.extend(s for s in blk['s'] if s >= 0)
    return n, bad


def run(c):
    c.rule('call-graph escape analysis: no throw or may-throw library call reachable from a function registered with Lua is outside a catch(...) on the way; '
           'every catch handler of such a function ends in a raised Lua error')
    c.assume('building the mewa::Error report itself does not run out of memory (its allocations are not counted as may-throw)')
    c.assume('calls declared noexcept, extern "C" calls (Lua is compiled as C) and the non-allocating accessors listed in lib/cg.py do not throw')
    variants = ['default'] + (['localmem'] if c.tier == 'thorough' else [])
    for v in variants:
        p = c.prog(v)
        nr = cg.noreturn_fns(p)
        ent = cg.lua_entries(p)
        T = cg.Throws(p)
        for k in sorted(ent):
            f = p.fns[k]
            calls = [x for x in p.call_sites(f)]
            c.count('call sites in Lua entry functions (%s)' % v, len(calls))
            c.ok('Lua entry functions analysed (%s)' % v, '%s %s (%s)' % (f.loc(), f.qn, ent[k][0]))
            for i, o in sorted(T.esc[k].items()):
                c.violate('escape %s <- %s in %s' % (f.qn, o[2], o[0].qn), f.loc(i),
                          '%s (called by Lua: %s): %s may throw and no catch(...) encloses it' % (f.qn, ent[k][0], f.path(i)[:100]),
                          ['origin: %s %s %s' % (o[0].loc(o[1]), o[0].qn, o[2])])
            n, bad = handler_exits(p, nr, f)
            c.count('catch handlers of Lua entry functions (%s)' % v, n)
            for lab in bad:
                c.violate('swallowed %s' % f.qn, f.loc(lab), '%s: control can leave this handler normally; the error is swallowed and Lua sees a regular return' % f.qn)
        # nothing is swallowed below the entry functions either
        reach = set(); st = list(ent)
        while st:
            k = st.pop()
            if k in reach:
                continue
            reach.add(k)
            for (i, key, nd) in p.call_sites(p.fns[k]):
                st.extend(t.key for t in p.targets(key) if t.key not in reach)
        for k in sorted(reach - set(ent)):
            f = p.fns[k]
            if f.cls == 'mewa::Error' or not f.blocks:
                continue
            n, bad = handler_exits(p, nr, f)
            c.count('catch handlers below the entry functions (%s)' % v, n)
            for lab in bad:
                c.violate('swallowed %s' % f.qn, f.loc(lab), '%s (reachable from Lua): control can leave this handler normally; the failure is swallowed' % f.qn)
        c.count('functions reachable from Lua (%s)' % v, set_to=len(reach))
    c.floor('Lua entry functions analysed (default)', 55)
    c.floor('catch handlers of Lua entry functions (default)', 50)
