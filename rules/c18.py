"""C18: exit status of the program mewa."""
import flow, cg
from c01 import handler_exits
from facts import CALLS, CTORS

PROP = {
    'title': 'The program mewa exits with 0 only if nothing failed',
    'statement': 'Whenever the program mewa reports a failure - a message on stderr about invalid or conflicting options, missing or superfluous arguments, warnings about conflicts in the grammar, an error thrown while reading, building or writing, '
                 'a system error with any error code, running out of memory - it ends with an exit status that is not 0 (and not 0 modulo 256). No such report can be followed by exit status 0, no exception leaves main, no exception is swallowed below main, '
                 'and no argument is read beyond the end of the command line.',
    'over': ['inputs'],
    'quant': 'every command line, every error code, every path through main',
    'why': 'Build systems rely on the exit status; tests check a handful of successful calls and compare outputs.',
    'files': ['src/mewa.cpp'],
    'mech': [('main', 'src/mewa.cpp')],
    'technique': 'path-sensitive dataflow over the CFG of main with constant evaluation of exit values for every error code',
    'design': 'Paths of main: each path that writes to std::cerr or enters a handler has to reach exit/return with a value that is not 0 mod 256, judged for the set of all error codes. argv indices by their guard.',
    'level_note': 'All CFG paths of main; exit expressions are evaluated for every possible error code. A failure is what is thrown or written to std::cerr; errors detected by nothing are outside.',
}

EXITS = ('exit', '_exit', 'quick_exit', '_Exit', 'std::exit', 'std::_Exit', 'std::quick_exit')


def thrown_type(f, i):
    nd = f.nodes[i]
    ks = f.kids(i)
    return f.nodes[ks[0]].get('t') if ks else None


def writes_cerr(f):
    return any(f.nodes[i]['k'] == 'DeclRefExpr' and (f.nodes[i].get('qn') or '').split('::')[-1] in ('cerr', 'stderr', 'clog') for i in f.walk())


class Val:
    """evaluates an exit expression to the set of its possible values; err.code() and errno range over all codes"""

    def __init__(self, p, codes):
        self.p = p; self.codes = codes

    def ev(self, f, i, env, code):
        i = f.strip(i, True)
        nd = f.nodes[i]
        v = f.cv(i)
        if v is not None:
            return v
        k = nd['k']
        if k == 'DeclRefExpr':
            return env.get(nd.get('v'))
        if k == 'ConditionalOperator':
            c = self.ev(f, nd['c'][0], env, code)
            if c is None:
                a = self.ev(f, nd['c'][1], env, code); b = self.ev(f, nd['c'][2], env, code)
                return a if a == b else (0 if 0 in (a, b) else None)
            return self.ev(f, nd['c'][1 if c else 2], env, code)
        if k in CALLS and nd.get('qn', '').split('::')[-1] in ('code', '__errno_location', 'value'):
            return code
        if k == 'UnaryOperator':
            a = self.ev(f, nd['c'][0], env, code)
            if a is None:
                return None
            return {'!': int(not a), '-': -a, '~': ~a, '+': a, '*': a}.get(nd['op'])
        if k == 'BinaryOperator':
            a = self.ev(f, nd['c'][0], env, code); b = self.ev(f, nd['c'][1], env, code); op = nd['op']
            if op == '&&':
                if a == 0 or b == 0:
                    return 0
                return None if None in (a, b) else 1
            if op == '||':
                if a not in (None, 0) or b not in (None, 0):
                    return 1
                return None if None in (a, b) else 0
            if op == ',':
                return b
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
                        '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a - int(a / b) * b, '&': lambda: a & b, '|': lambda: a | b,
                        '>>': lambda: a >> b, '<<': lambda: a << b}[op]()
            except (KeyError, ZeroDivisionError):
                return None
        if k in CALLS and nd.get('fn'):
            t = self.p.targets(nd['fn'])
            if len(t) == 1:
                g = t[0]
                rets = [x for x in g.walk() if g.nodes[x]['k'] == 'ReturnStmt' and g.kids(x)]
                e2 = {}
                for kx, a in enumerate(f.args(i)):
                    if kx < len(g.params):
                        e2[g.params[kx]['v']] = self.ev(f, a, env, code)
                vs = {self.ev(g, g.kids(x)[0], e2, code) for x in rets}
                if len(vs) == 1:
                    return vs.pop()
                if 0 in vs:
                    return 0
        return None


def run(c):
    c.rule('path-sensitive dataflow over main: no path from an error (exception handler, message on stderr) to exit status 0 for any error code; handlers cover every thrown type; argv is read only below argc')
    p = c.prog()
    c.assume('the system passes at least the program name (argc >= 1)')
    mains = [f for f in p.fns.values() if f.qn == 'main']
    if len(mains) != 1:
        c.broken('anchor vanished: main')
    f = mains[0]
    nr = flow.NR.of(p)
    codes = {0, 1, 2, 127, 128, 255, 256, 512, -1, -256, 32767, 65536}
    codes |= set(range(0, 1025))
    for e in p.enums.get('mewa::Error::Code', {'e': []})['e']:
        codes.add(int(e[1]))
    V = Val(p, codes)
    # reach
    reach = set(); st = [f.key]
    while st:
        k = st.pop()
        if k in reach:
            continue
        reach.add(k)
        for (i, key, nd) in p.call_sites(p.fns[k]):
            st.extend(t.key for t in p.targets(key) if t.key not in reach)
    c.count('functions reachable from main', set_to=len(reach))
    # 1. nothing leaves main
    T = cg.Throws(p)
    caught = set()
    for i in f.walk():
        if f.nodes[i]['k'] == 'CXXTryStmt' and not f.nodes[i].get('try'):
            for h in f.nodes[i]['handlers']:
                caught.add(f.nodes[h]['ct'])
    thrown = {}
    for k in reach:
        g = p.fns[k]
        for i in g.walk():
            if g.nodes[i]['k'] == 'CXXThrowExpr':
                t = thrown_type(g, i)
                if t:
                    thrown.setdefault(t, []).append((g, i))

    def covered(t):
        t = (t or '').replace('const ', '').rstrip(' &')
        if any(x == '...' for x in caught):
            return True
        cs = {x.replace('const ', '').rstrip(' &') for x in caught}
        if t in cs:
            return True
        if t.startswith('std::'):
            return 'std::exception' in cs
        if t in p.recs:
            return any(covered(b) for b in p.recs[t].get('bases', ()))
        return False
    for t, sites in sorted(thrown.items()):
        c.ok('thrown types covered by the handlers of main', '%s (%d throw sites)' % (t, len(sites)))
        if not covered(t):
            c.violate('uncaught %s' % t, sites[0][0].loc(sites[0][1]), 'an exception of type %s is not caught by main (handlers: %s)' % (t, sorted(caught)))
    if not covered('std::length_error'):
        c.violate('uncaught std::exception', f.loc(), 'main has no handler for std::exception: standard library exceptions leave it')
    tries = {i for i in f.walk() if f.nodes[i]['k'] == 'CXXTryStmt'}
    for i, key, nd in p.call_sites(f):
        q = nd.get('qn', '')
        if q.startswith('std::') and ('operator<<' in q or q.split('<')[0] in ('std::endl', 'std::flush')):
            continue        # streams with exceptions disabled
        o = T.site_escapes(f, i, key, nd)
        if o and o[2].startswith('std::') and ('operator<<' in o[2] or 'endl' in o[2]):
            continue
        if not nd.get('try') and o:
            if not any(f.nodes[a]['k'] == 'CXXCatchStmt' for a in f.ancestors(i)):
                c.violate('outside try %s' % nd.get('qn'), f.loc(i), 'call of %s outside the try block of main may throw' % nd.get('qn'))
    # 2. swallowed below main
    for k in sorted(reach - {f.key}):
        g = p.fns[k]
        if not g.blocks or g.cls == 'mewa::Error':
            continue
        n, bad = handler_exits(p, nr, g)
        c.count('catch handlers below main', n)
        for lab in bad:
            c.violate('swallowed %s' % g.qn, g.loc(lab), '%s (reachable from main): control can leave this handler normally; the failure is swallowed' % g.qn)
    # 3. exit values
    usage = set()
    for i, key, nd in p.call_sites(f):
        if nd.get('qn', '').split('::')[-1] == 'strcmp' and any(f.string(a) in ('--help', '-h') for a in f.args(i)):
            for a in f.ancestors(i):
                if f.nodes[a]['k'] == 'IfStmt':
                    then = f.nodes[a]['c'][1] if len(f.nodes[a]['c']) > 1 else -1
                    for x in f.walk(then) if then >= 0 else ():
                        if f.nodes[x]['k'] in CALLS and f.nodes[x].get('fn') in p.fns:
                            usage.add(f.nodes[x]['fn'])
                    break
    reporters = {}
    for i, key, nd in p.call_sites(f):
        for g in p.targets(key) if key else ():
            if g.key not in usage and g.file == f.file and writes_cerr(g):
                reporters[i] = g.qn
    errs = dict(reporters)
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] == 'DeclRefExpr' and (nd.get('qn') or '').split('::')[-1] in ('cerr', 'stderr', 'clog'):
            errs[i] = 'message on stderr'
    c.count('places reporting an error or warning in main', len(errs))
    ints = set()
    for i in f.walk():
        for v in f.nodes[i].get('vars', ()):
            if v.get('t') in ('int', 'unsigned int', 'bool', 'long') or v.get('t', '').endswith('int'):
                ints.add(v['v'])
    rets = {}

    def assign(env, v, val):
        d = dict(env)
        d[v] = val
        return tuple(sorted(d.items(), key=str))

    def isret(el):
        nd = f.nodes[el]
        return nd['k'] == 'ReturnStmt' or (nd['k'] in CALLS and nd.get('qn') in EXITS)

    tracked = set()
    # only variables that reach an exit expression are tracked
    for i in f.walk():
        if isret(i):
            for x in f.walk(i):
                if f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x].get('v') in ints:
                    tracked.add(f.nodes[x]['v'])

    def value(state_env, e):
        env = {k: v for k, v in state_env}
        vs = set()
        for code in codes:
            vs.add(V.ev(f, e, env, code))
            if len(vs) > 3 and (0 in vs or None in vs):
                break
        return vs

    def transfer(s, el):
        if not isinstance(el, int):
            return s
        nd = f.nodes[el]
        if nd['k'] == 'CXXThrowExpr' or ((nd.get('nr') or nd.get('fn') in nr) and not isret(el)):
            return None
        if isret(el):
            e = (f.kids(el)[-1:] if nd['k'] == 'ReturnStmt' else f.args(el)[:1])
            for err, env in s:
                rets.setdefault(el, set()).add((err, env))
            return None
        out = set()
        for err, env in s:
            if el in errs:
                err = errs[el]
            if nd['k'] == 'DeclStmt':
                for v in nd.get('vars', ()):
                    if v['v'] in tracked and v['init'] >= 0:
                        env = assign(env, v['v'], V.ev(f, v['init'], dict(env), None))
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.path(nd['c'][0]) in tracked:
                env = assign(env, f.path(nd['c'][0]), V.ev(f, nd['c'][1], dict(env), None))
            elif nd['k'] in ('CompoundAssignOperator', 'UnaryOperator') and f.path(nd['c'][0]) in tracked and nd.get('op') in ('++', '--', '+=', '-=', '|='):
                env = assign(env, f.path(nd['c'][0]), None)
            out.add((err, env))
        if len(out) > 200:
            c.broken('too many states in main')
        return frozenset(out)

    def enter(s, b):
        lab = f.blocks[b].get('lab')
        if lab is not None and f.nodes[lab]['k'] == 'CXXCatchStmt':
            return frozenset({('exception caught: ' + f.nodes[lab]['ct'], env) for err, env in s})
        return s

    def edge(s, blk, k):
        cond = blk.get('cond')
        if cond is not None and len(blk['s']) == 2 and tracked:
            s2 = set()
            for err, env in s:
                v = V.ev(f, cond, dict(env), None)
                if v is None or bool(v) == (k == 0):
                    s2.add((err, env))
            if not s2:
                return None
            s = frozenset(s2)
        return enter(s, blk['s'][k])
    init = frozenset({('', ())})
    # catch blocks have no predecessors in the CFG when exceptional edges are not modelled: seed them
    inn = flow.forward(f, init, transfer, edge=edge, join=lambda a, b: a | b)
    for b, blk in f.blocks.items():
        lab = blk.get('lab')
        if lab is not None and f.nodes[lab]['k'] == 'CXXCatchStmt':
            c.ok('exception handlers of main', f.nodes[lab]['ct'])
            if b not in inn:
                st = [b]; cur = {b: enter(init, b)}
                seen = set()
                while st:
                    x = st.pop()
                    s = cur[x]
                    if (x, s) in seen:
                        continue
                    seen.add((x, s))
                    for el in f.blocks[x]['e']:
                        s = transfer(s, el)
                        if s is None:
                            break
                    if s is None:
                        continue
                    for y in f.blocks[x]['s']:
                        if y >= 0:
                            if y == f.exit:
                                continue
                            cur[y] = s
                            st.append(y)
    for el, sts in sorted(rets.items()):
        nd = f.nodes[el]
        e = (f.kids(el)[-1:] if nd['k'] == 'ReturnStmt' else f.args(el)[:1])
        c.ok('exits of main', '%s %s' % (f.loc(el), f.path(e[0]) if e else ''))
        for err, env in sorted(sts, key=str):
            if not err or not e:
                continue
            vs = value(env, e[0])
            if any(v is not None and v % 256 == 0 for v in vs):
                c.violate('exit 0 after %s' % err, f.loc(el), 'main can return 0 (modulo 256) after: %s (%s)' % (err, f.path(e[0])))
            elif None in vs:
                c.count('exit values not resolved')
    # 4. argv
    argc = f.params[0]['v'] if f.params else None
    argv = f.params[1]['v'] if len(f.params) > 1 else None
    reads = {}
    idxvars = set()
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] == 'ArraySubscriptExpr' and f.path(nd['c'][0]) == argv:
            q = f.path(nd['c'][1])
            reads[i] = q
            if q.startswith('L:'):
                idxvars.add(q)
    INF = 1 << 20
    for var in sorted(idxvars):
        def tr(s, el, report=False):
            if not isinstance(el, int):
                return s
            nd = f.nodes[el]
            if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr:
                return None
            if el in reads and reads[el] == var and report:
                c.ok('reads of argv', '%s argv[%s] at most %d below argc' % (f.loc(el), var, -s))
                if s >= INF:
                    c.violate('argv %s' % var, f.loc(el), 'argv[%s] is read where nothing bounds the index by argc' % var)
                elif s > -1:
                    c.violate('argv %s' % var, f.loc(el), 'argv[%s] can be read at index argc%s: beyond the last argument' % (var, '+%d' % s if s else ''))
            if nd['k'] == 'UnaryOperator' and nd['op'] in ('++', '--') and f.path(nd['c'][0]) == var:
                return min(INF, s + (1 if nd['op'] == '++' else -1)) if s < INF else s
            if nd['k'] == 'CompoundAssignOperator' and f.path(nd['c'][0]) == var:
                v = f.cv(nd['c'][1])
                return INF if v is None or nd['op'] not in ('+=', '-=') else min(INF, s + (v if nd['op'] == '+=' else -v))
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.path(nd['c'][0]) == var:
                v = f.cv(nd['c'][1])
                return v - 1 if v is not None and v >= 0 else INF
            for v in nd.get('vars', ()):
                if v['v'] == var:
                    k = f.cv(v['init']) if v['init'] >= 0 else None
                    return k - 1 if k is not None and k >= 0 else INF
            return s

        def diff(e):
            """(var + k, argc + m) form of an operand: ('v', k) or ('c', m)"""
            e = f.strip(e, True)
            nd = f.nodes[e]
            q = f.path(e)
            if q == var:
                return ('v', 0)
            if q == argc:
                return ('c', 0)
            if nd['k'] == 'BinaryOperator' and nd['op'] in ('+', '-'):
                a = diff(nd['c'][0]); v = f.cv(nd['c'][1])
                if a and v is not None:
                    return (a[0], a[1] + (v if nd['op'] == '+' else -v))
            return None

        def ed(s, blk, k):
            t = blk.get('term')
            if t is not None and f.nodes[t]['k'] == 'CXXTryStmt' and blk['s'][k] == f.exit:
                return None
            cond = blk.get('cond')
            if cond is not None and len(blk['s']) == 2:
                e = f.strip(cond, True)
                nd = f.nodes[e]
                neg = k == 1
                while nd['k'] == 'UnaryOperator' and nd['op'] == '!':
                    neg = not neg
                    e = f.strip(nd['c'][0], True); nd = f.nodes[e]
                if nd['k'] == 'BinaryOperator' and nd['op'] in ('<', '>', '<=', '>=', '==', '!='):
                    a = diff(nd['c'][0]); b = diff(nd['c'][1])
                    if a and b and {a[0], b[0]} == {'v', 'c'}:
                        op = nd['op']
                        if a[0] == 'c':
                            a, b = b, a
                            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                        if neg:
                            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
                        m = b[1] - a[1]        # var - argc  op  m
                        if op == '<':
                            return min(s, m - 1)
                        if op == '<=':
                            return min(s, m)
                        if op == '==':
                            return min(s, m) if s >= m else None
                        if op == '!=':
                            return s - 1 if s == m else s
                        if op == '>':
                            return s if s > m else None
                        if op == '>=':
                            return s if s >= m else None
            return s
        inn = flow.forward(f, INF, tr, edge=ed, join=max)
        for b, s in inn.items():
            for el in f.blocks[b]['e']:
                s = tr(s, el, True)
                if s is None:
                    break
    c.floor('exits of main', 10)
    c.floor('exception handlers of main', 2)
    c.floor('thrown types covered by the handlers of main', 1)
