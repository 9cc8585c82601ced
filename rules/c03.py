"""C03: stack discipline of every function Lua can call."""
import re
import cg, luastack

PROP = {
    'title': 'Lua stack discipline of every function callable from Lua',
    'statement': 'Whatever arguments (number and types) a script passes to a function or method of the library: the C++ code never pushes a value onto the Lua stack without a free slot '
                 '(the 20 guaranteed by Lua or slots reserved with lua_checkstack, also in loops and recursion), never reads or removes values below its own stack frame, applies raw table access '
                 'and traversal (lua_rawget, lua_rawset, lua_rawgeti, lua_next, ...) only to values checked to be tables, never converts the key of a running traversal in place, '
                 'and never returns more results than it pushed.',
    'over': ['inputs', 'programs'],
    'quant': 'every function and method registered with Lua, every number and type of arguments, every length and nesting depth of data processed',
    'why': 'Lua does not check its C stack: an unreserved push or an access below the frame corrupts memory only for long or deep enough data, which tests do not use.',
    'files': ['src/lualib_mewa.cpp', 'src/lua_run_compiler.cpp', 'src/lua_parameter.cpp', 'src/lua_serialize.cpp', 'src/lua_load_automaton.cpp', 'src/lua_userdata.hpp'],
    'mech': [('lua_checkstack reservations and argument checks', 'src/lua_parameter.cpp'), ('construction of the AST on the Lua stack', 'src/lua_run_compiler.cpp')],
    'technique': 'abstract interpretation of the Lua stack (height, slack, value types) over CFG, context-sensitive interprocedural',
    'design': 'Abstract stack with symbolic height; each Lua API call has its documented effect; loops are solved to a fixpoint (a push in a loop without lua_checkstack is found as unbounded decrease of free slots).',
    'level_note': 'Every path of every entry function and of all tree functions taking a lua_State, in calling context; catch handlers that only raise an error are not analysed. '
                  'Values below the top of a stack of data-dependent height are of unknown type. Trusts the stack effects of the Lua API as documented.',
}


def run(c):
    c.rule('abstract interpretation of the Lua stack over the CFG of every function handed to Lua: free slots >= 0 at every push, indices and pops inside the frame, '
           'raw table access on tables only, number of results <= number of values pushed')
    c.assume('the stack effect of each Lua API function is as documented in the reference manual')
    variants = ['default'] + (['localmem'] if c.tier == 'thorough' else [])
    for v in variants:
        p = c.prog(v)

        def rep(kind, fn, node, msg, chain):
            what = fn.path(node)[:90] if node is not None else ''
            what = re.sub(r'#\d+', '', what)
            c.violate('%s %s %s' % (kind, fn.qn, what), fn.loc(node), '%s: %s (%s)' % (fn.qn, msg, what), ['called from Lua through: ' + ' > '.join(chain)])
        L = luastack.LuaStack(p, rep)
        ents = cg.lua_entries(p)
        for k in sorted(ents):
            f = p.fns[k]
            if not f.blocks:
                continue
            outs = L.entry(f)
            for val, s, fn, node in outs:
                n = len(s.stack)
                if isinstance(val, tuple) and val[0] == 'N':
                    val = s.hi + val[1]
                if not isinstance(val, int):
                    c.count('results of data-dependent number (not judged)')
                    continue
                c.ok('return statements judged', '%s returns %d of %d pushed' % (f.qn, val, n))
                if not s.dyn and val > n + s.lo or val < 0:
                    c.violate('results %s' % f.qn, fn.loc(node), '%s returns %d results but only %d values are on its stack' % (f.qn, val, n + s.lo))
                elif not s.dyn and val > n:
                    c.violate('results %s' % f.qn, fn.loc(node), '%s returns %d results but has pushed only %d: arguments are returned' % (f.qn, val, n))
            c.ok('functions called by Lua analysed (%s)' % v, f.qn)
        for k, n in sorted(L.stats.items()):
            c.count('%s (%s)' % (k, v), n)
        c.count('functions interpreted (%s)' % v, len(L.covered))
    c.floor('functions called by Lua analysed (default)', 50)
    c.floor('pushes judged (default)', 3000)
    c.floor('raw table accesses judged (default)', 300)
    c.floor('functions interpreted (default)', 90)
