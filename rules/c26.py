"""C26: every enumerator is handled where the code distinguishes by an enumeration."""
import re

PROP = {
    'title': 'Every value of an enumeration is handled wherever the code distinguishes',
    'statement': 'Wherever the library distinguishes by the value of an enumeration (automaton actions, scope flags, call arguments, lexem definition types, tokens and states of the grammar parser, indentation tokens, key types, error codes, program commands) '
                 'every enumerator has its branch: a switch over an enumeration has a case for each enumerator or a default, and a table indexed by an enumeration has an entry for each enumerator.',
    'over': ['inputs'],
    'quant': 'every switch over an enumeration and every table indexed by one, every enumerator',
    'why': 'An unhandled rare enumerator (bracket comment, indentation definition, reference argument) silently drops part of the output or reads beyond a table, for grammars no test contains.',
    'files': ['src/automaton.cpp', 'src/automaton_tostring.cpp', 'src/automaton_parser.cpp', 'src/languagedef_tostring.cpp', 'src/lexer.cpp', 'src/lua_run_compiler.cpp', 'src/lua_serialize.cpp', 'src/automaton.hpp'],
    'mech': [('switch over definition type', 'src/automaton_tostring.cpp'), ('table of scope flag names', 'src/automaton.hpp')],
    'technique': 'coverage check of switches and index ranges over the typed syntax tree',
    'design': 'Switches and constant tables against the enumerators.',
    'level_note': 'Complete over all switches on enumerations and all constant tables indexed by an enumeration. What the branch does is not judged here.',
}


def run(c):
    c.rule('every switch over an enumeration covers all enumerators or has a default; every array indexed by an enumeration has an element for each enumerator')
    p = c.prog()
    seen = set()
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        arrays = {}
        for i in f.walk():
            for v in f.nodes[i].get('vars', ()):
                arrays[v['v']] = v
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'SwitchStmt':
                t = nd.get('st') or ''
                e = p.enum_of(t, f, nd.get('l') or f.line)
                if e is None:
                    continue
                vals = set(); dflt = False
                for x in own(f, i):
                    n = f.nodes[x]
                    if n['k'] == 'DefaultStmt':
                        dflt = True
                    elif n['k'] == 'CaseStmt':
                        v = f.cv(n['c'][0])
                        if v is None:
                            continue
                        hi = f.cv(n['c'][2]) if len(n['c']) > 2 and n['c'][2] >= 0 and f.nodes[n['c'][2]].get('cv') is not None and len(n['c']) == 3 else None
                        vals.add(v)
                missing = [q for q, v, l in e['e'] if int(v) not in vals]
                if (f.loc(i), t) not in seen:
                    seen.add((f.loc(i), t))
                    c.ok('switches over enumerations', '%s %s: %s, %d of %d enumerators%s' % (f.loc(i), f.qn, t, len(e['e']) - len(missing), len(e['e']), ', default' if dflt else ''))
                    c.count('enumerators covered', len(e['e']) - len(missing))
                if missing and not dflt:
                    c.violate('switch %s %s' % (f.qn, ','.join(m.split('::')[-1] for m in missing)), f.loc(i), '%s: the switch over %s has no case for %s' % (f.qn, t, ', '.join(missing)))
            elif nd['k'] == 'ArraySubscriptExpr':
                ix = f.strip(nd['c'][1], True)
                e = p.enum_of(f.nodes[ix].get('t', ''), f, nd.get('l') or f.line)
                if e is None:
                    continue
                b = f.strip(nd['c'][0], True)
                m = re.search(r'\[(\d+)\]$', f.nodes[b].get('t', ''))
                if not m:
                    continue
                size = int(m.group(1))
                mx = max(int(v) for q, v, l in e['e']); mn = min(int(v) for q, v, l in e['e'])
                entries = None
                v = arrays.get(f.nodes[b].get('v'))
                if v and v['init'] >= 0 and f.nodes[v['init']]['k'] == 'InitListExpr':
                    entries = sum(1 for x in f.nodes[v['init']].get('c', ()) if x >= 0 and f.nodes[x]['k'] != 'ImplicitValueInitExpr')
                c.ok('tables indexed by an enumeration', '%s %s[%d] by %s' % (f.loc(i), f.path(b), size, e['n']))
                if mx >= size or mn < 0:
                    c.violate('table %s' % f.qn, f.loc(i), '%s: the table has %d entries, %s goes from %d to %d' % (f.qn, size, e['n'], mn, mx))
                elif entries is not None and entries <= mx:
                    c.violate('table entries %s' % f.qn, f.loc(i), '%s: the table defines %d entries for %d enumerators of %s' % (f.qn, entries, mx + 1, e['n']))
    c.floor('switches over enumerations', 8)


def own(f, i):
    """nodes of a switch without nested switches"""
    st = [x for x in f.all_kids(i)]
    while st:
        x = st.pop()
        yield x
        if f.nodes[x]['k'] != 'SwitchStmt':
            st.extend(f.all_kids(x))
