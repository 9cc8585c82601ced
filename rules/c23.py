"""C23: nothing is read uninitialised: members after construction, local variables before assignment."""
import fieldinit, flow
from facts import CALLS, CTORS

PROP = {
    'title': 'No uninitialised member or local variable is ever used',
    'statement': 'Every constructor of the library leaves every scalar, pointer and enumeration member of its object initialised on every path, and no function reads a local scalar or pointer variable '
                 'on a path where it has not been given a value.',
    'over': ['inputs'],
    'quant': 'every constructor and member; every local variable and every path to its uses',
    'why': 'Uninitialised memory often happens to be zero in a test process; whether a use is reached uninitialised depends on the path.',
    'files': ['src/lexer.hpp', 'src/automaton.cpp', 'src/typedb.cpp', 'src/lua_run_compiler.cpp', 'src/scope.hpp', 'src/lualib_mewa.cpp'],
    'mech': [('constructor initialisation lists', 'src/lexer.hpp'), ('local variables set on branches', 'src/lualib_mewa.cpp')],
    'technique': 'must-assignment dataflow over initialisation lists and CFG (definite assignment)',
    'design': "fieldinit for all constructors, reaching 'unassigned' definitions for local scalars.",
    'level_note': 'All constructors and all local scalars of the tree. Raw byte buffers (arrays) are excluded; a variable whose address or reference is passed on counts as assigned there.',
}


def scalar(x):
    return bool(x.get('sc') or x.get('ti')) and '[' not in x['t']


def isarray(t):
    return '[' in t


def scalar_type(p, v):
    t = v['t']
    if '[' in t or t.endswith('&'):
        return False
    return bool(v.get('ti')) or t.endswith('*') or t in ('double', 'float', 'bool') or t.replace('const ', '') in p.enums


def run(c):
    c.rule('must-assignment dataflow: every scalar member is set by every constructor on all paths; every read of a local scalar is dominated by an assignment on all paths')
    p = c.prog()
    nr = flow.NR.of(p)
    FI = fieldinit.FieldInit(p)
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.d.get('ctor') and not f.d.get('dflt'):
            rec = p.rec_of(f)
            if rec is not None:
                deleg = any(it['e'] >= 0 and not it.get('f') and not it.get('base') for it in f.inits)
                s = FI.method_sets(f)
                sp = f.d.get('sp') or 'constructor'
                sig = '(%s)' % ','.join(x['t'] for x in f.params)
                c.ok('constructors decided', '%s %s%s' % (f.loc(), f.qn, sig))
                for x in rec['fields']:
                    if not x['n'] or not (scalar(x) or (x.get('tdc') and not isarray(x['t']))):
                        continue
                    c.ok('scalar members checked')
                    if not deleg and '*' not in s and x['n'] not in s:
                        # trivially constructible class members count when one of their fields is scalar
                        if x.get('tdc') and not scalar(x):
                            tn = fieldinit.type_name(x['t'])
                            r2 = p.recs.get(tn)
                            if r2 is None or not any(scalar(y) for y in r2['fields']):
                                continue
                        c.violate('member %s%s %s' % (f.qn, sig, x['n']), f.loc(), '%s%s leaves member %s (%s) uninitialised on some path' % (f.qn, sig, x['n'], x['t']))
        locals_(c, p, f, nr)
    c.floor('constructors decided', 100)
    c.floor('scalar members checked', 150)
    c.floor('local variables without initialiser checked', 5)


def locals_(c, p, f, nr):
    if not f.blocks:
        return
    vs = {}
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] != 'DeclStmt':
            continue
        par = f.parents.get(i)
        if par is not None and f.nodes[par]['k'] == 'CXXForRangeStmt':
            continue
        for v in nd.get('vars', ()):
            if v['init'] < 0 and not v.get('static') and not v.get('st') and scalar_type(p, v):
                vs[v['v']] = (i, v)
    # exception variables and bindings have no DeclStmt in a body
    if not vs:
        return
    decl = {}
    for v, (i, d) in vs.items():
        decl.setdefault(i, []).append(v)
    # classify the references: read when the variable is loaded, otherwise it is assigned, bound to a reference or its address is taken
    reads = {}; writes = {}
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] == 'LambdaExpr':
            for cap in f.walk(i):
                if f.nodes[cap].get('v') in vs and f.nodes[cap]['k'] == 'DeclRefExpr':
                    writes.setdefault(i, set()).add(f.nodes[cap]['v'])
        if nd['k'] != 'DeclRefExpr' or nd.get('v') not in vs:
            continue
        v = nd['v']
        y = i; par = f.parents.get(y)
        while par is not None and f.nodes[par]['k'] == 'ParenExpr':
            y = par; par = f.parents.get(y)
        pn = f.nodes[par] if par is not None else {}
        if pn.get('k') == 'ImplicitCastExpr' and pn.get('ck') == 'LValueToRValue':
            reads.setdefault(par, set()).add(v)
        elif pn.get('k') == 'BinaryOperator' and pn['op'] == '=' and pn['c'][0] == y:
            writes.setdefault(par, set()).add(v)
        elif pn.get('k') in ('CompoundAssignOperator', 'UnaryOperator') and pn.get('op') not in ('&',):
            if pn['k'] == 'UnaryOperator' and pn['op'] in ('++', '--') or pn['k'] == 'CompoundAssignOperator' and pn['c'][0] == y:
                reads.setdefault(par, set()).add(v)
            else:
                writes.setdefault(i, set()).add(v)
        else:
            writes.setdefault(i, set()).add(v)
    els = set()
    for b in f.blocks.values():
        els.update(e for e in b['e'] if isinstance(e, int))
    # references that are no CFG element of their own (never in practice) count as assigned from the start
    start = frozenset()
    found = {}

    def transfer(s, el, report=False):
        if not isinstance(el, int):
            return s
        nd = f.nodes[el]
        if report and el in reads:
            for v in reads[el]:
                if v not in s:
                    found.setdefault(v, el)
        if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr:
            return None
        if el in decl:
            s = s - frozenset(decl[el])
        if el in writes:
            s = s | frozenset(writes[el])
        return s

    def edge(s, blk, k):
        t = blk.get('term')
        if t is not None and f.nodes[t]['k'] == 'CXXTryStmt' and blk['s'][k] == f.exit:
            return None
        return s
    inn = flow.forward(f, start, transfer, edge=edge, join=lambda a, b: a & b)
    # blocks of exception handlers: what was assigned before the try
    for b, s in inn.items():
        for el in f.blocks[b]['e']:
            s = transfer(s, el, True)
            if s is None:
                break
    for v, (i, d) in vs.items():
        c.ok('local variables without initialiser checked', '%s %s in %s' % (f.loc(i), d['n'], f.qn))
        if v in found:
            c.violate('local %s in %s' % (d['n'], f.qn), f.loc(found[v]), '%s reads the local variable %s on a path where it has not been assigned' % (f.qn, d['n']))
