"""C17: numbers entering from Lua, generated tables or texts keep their value or are rejected."""
import cg, interval, luastack
from luastack import NUM, STR

PROP = {
    'title': 'Numbers from Lua, generated tables and grammars keep their value or are refused',
    'statement': 'Every number that a script passes as argument (types, steps, scopes, tags, tag masks, counts), that stands in the tables of a generated compiler, or that is written with '
                 'digits in a grammar, a generated table or an error text is used with exactly this value or refused (numbers in error texts are saturated): a value with a fractional part where '
                 'an integer is expected, a value out of the range of the integer type it is stored in, infinity, NaN or a value that is not a number never becomes another integer by truncation, '
                 'wrapping, rounding towards zero or overflow.',
    'over': ['inputs'],
    'quant': 'every conversion of a number that entered from outside to an integer or to a narrower integer, in every calling context',
    'why': 'A number silently replaced by another one (a scope 2^32+7 becoming 7, -1 becoming 0) is accepted by every later check; tests pass small positive integers.',
    'files': ['src/lua_parameter.cpp', 'src/lua_5_2.hpp', 'src/lua_load_automaton.cpp', 'src/lualib_mewa.cpp', 'src/lua_serialize.cpp', 'src/automaton_parser.cpp', 'src/error.cpp'],
    'mech': [('conversion of arguments', 'src/lua_parameter.cpp'), ('conversion of the generated tables', 'src/lua_load_automaton.cpp'),
             ('digit loops', 'src/automaton_parser.cpp'), ('serialization of numbers', 'src/lua_serialize.cpp')],
    'technique': 'interprocedural interval analysis (taint + range + integrality) over the CFG, widening/narrowing, context-sensitive',
    'design': 'Every conversion (explicit or implicit, integer or floating) and every +,-,*,<< of a value that comes from a Lua number, a digit string or a table element is judged with its interval and integrality at that point.',
    'level_note': 'Follows values through local scalars, scalar parameters, results and reference parameters; what goes through containers, members or pointers is judged where it is stored only. '
                  'Floating point parameters (weights) are not restricted. An integrality test written in an unusual form is taken as sufficient. Iteration counters kept as upvalues of the '
                  'library itself and integers that are only compared for equality are exempt.',
}


def cg_called(p, key):
    if not hasattr(p, '_c17called'):
        p._c17called = {t for f in p.fns.values() for _, t, _ in p.call_sites(f) if t and t != f.key}
    return key in p._c17called


def run(c):
    c.rule('interval analysis with origin: every FloatingToIntegral or narrowing IntegralCast of an external number is preceded on all paths by checks that make the conversion exact; every digit '
           'accumulation is bounded; every lua_tonumber/lua_tointeger reads a slot checked to be a number')
    p = c.prog()

    def rep(kind, f, i, msg):
        c.violate('%s %s %s' % (kind, f.qn, f.path(i)[:100]), f.loc(i), '%s: %s (%s)' % (f.qn, msg, f.path(i)[:90]))
    I = interval.Interval(p, rep)
    src = I.sources()
    called = set()
    users = set(src)
    for f in p.fns.values():
        for _, t, _ in p.call_sites(f):
            if t in src and t != f.key:
                called.add(t); users.add(f.key)
    ents = set(cg.lua_entries(p))
    for k in sorted(users):
        f = p.fns[k]
        if k not in called and k not in ents and not f.cls and f.name != 'main' and not cg_called(p, k):
            continue        # nobody calls it: dead code
        if f.blocks and k not in called:
            I.run(f, {}, 0, True)
            c.ok('functions analysed from their own entry', f.qn)
    seen = {m[0] for m in I.memo if m[3]}
    for k in sorted(called - seen):
        f = p.fns[k]
        if f.blocks:
            I.run(f, {}, 0, True)
            c.ok('functions analysed without calling context', f.qn)
    c.count('contexts analysed', len(I.memo))
    for k, s in sorted(I.stats.items()):
        for x in sorted(s):
            c.ok(k, ' '.join(x))
    for u in sorted(I.undec):
        c.count('not decided: ' + u)

    # the slots numbers are read from
    def obs(name, st, fn, i, a, fr):
        if name not in ('lua_tonumberx', 'lua_tointegerx') or len(a) < 2:
            return
        r = L.ref(fn, fr, st, a[1], i)
        if r is None or r[0] == 'u':
            c.count('number reads at positions not decided')
            return
        t = st.get(r)
        if t <= {NUM, STR}:
            c.ok('number reads of checked slots', '%s %s' % (fn.qn, fn.path(i)))
        else:
            if I.compared_only(fn, i):
                return
            c.violate('slot %s %s' % (fn.qn, fn.path(i)[:80]), fn.loc(i), '%s reads a number from a Lua value that may be %s: such a value reads as 0' % (fn.qn, luastack.tn(t - {NUM, STR})))
    L = luastack.LuaStack(p, lambda *a: None, obs)
    for k in sorted(cg.lua_entries(p)):
        if p.fns[k].blocks:
            L.entry(p.fns[k])
    c.floor('numbers read from Lua', 1)
    c.floor('number reads of checked slots', 10)
    