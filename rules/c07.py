"""C07: the packed integers of the generated tables and of the parser construction lose nothing."""
import re
import absint, flow
from absint import Bits, Eval, State, TOP, bits_of
from facts import CALLS, CTORS

PROP = {
    'title': 'Packed table entries lose nothing within the enforced limits',
    'statement': 'Every key and entry of the generated parser tables and of the parser construction (states, terminals, nonterminals, productions, positions, counts, priorities, action types) '
                 'survives packing into its integer representation and unpacking: no field is cut, none overlaps another, and the packed number fits into 31 bits. '
                 'A grammar with more states, productions, terminals, nonterminals, elements of a production or a higher priority than the representation can hold is rejected with an error instead of producing a table with wrapped values.',
    'over': ['inputs'],
    'quant': 'every value of every packed field up to the declared limits; every grammar beyond a limit',
    'why': 'Tests use small grammars; bit overlap and off-by-one limits show only for values next to the limits.',
    'files': ['src/automaton.hpp', 'src/automaton_structs.hpp', 'src/automaton.cpp', 'src/automaton_parser.cpp'],
    'mech': [('shift/mask constants and packed()/unpack() functions', 'src/automaton.hpp'), ('size checks of the construction', 'src/automaton.cpp')],
    'technique': 'bit-provenance abstract interpretation of pack/unpack pairs and must-guard dataflow for limits',
    'design': 'Each field is a vector of symbolic bits within the declared limit; packed() is interpreted on them, unpack() on the result; every bit has to come back at its place. Limits: for each bounded quantity there has to be a guard that rejects everything from the limit on every path to a finished table.',
    'level_note': 'Complete over all field values within the declared limits (symbolic bits). Limit guards are judged by evaluating the guard condition at and beyond the limit and requiring that it cannot be bypassed.',
}

A = 'mewa::Automaton::'
# class -> field -> the values the field can take: an enumerator naming the exclusive maximum, an enumeration (its enumerators), or several of them
WIDTHS = {
    'mewa::Automaton::ActionKey': {'m_state': ['MaxState'], 'm_terminal': ['MaxTerminal']},
    'mewa::Automaton::Action': {'m_type': ['enum mewa::Automaton::Action::Type'], 'm_scopeflag': ['enum mewa::Automaton::Action::ScopeFlag'],
                                'm_value': ['MaxState', 'MaxNonterminal'], 'm_call': ['MaxNofProductions'], 'm_count': ['MaxProductionLength']},
    'mewa::Automaton::GotoKey': {'m_state': ['MaxState'], 'm_nonterminal': ['MaxNonterminal']},
    'mewa::Automaton::Goto': {'m_state': ['MaxState']},
    'mewa::TransitionItem': {'prodindex': ['MaxNofProductions'], 'prodpos': ['MaxProductionLength'], 'follow': ['MaxTerminal']},
    'mewa::Priority': {'value': ['MaxPriority'], 'assoziativity': ['enum mewa::Assoziativity']},
}

# quantity that is bounded before it is packed: (what, predicate on the expression read, exclusive limit enumerator, slack)
# slack: the guard has to reject every value v >= limit + slack (0: largest index is the quantity itself, 1: it is the quantity - 1)
QUANT = [
    ('number of productions', r'prodlist\.size\(\)$', 'MaxNofProductions', 1),
    ('number of terminals', r'nofTerminals\(\)$', 'MaxTerminal', 0),
    ('number of nonterminals', r'onTerminalIdMap\.size\(\)$|nonterminals\.size\(\)$', 'MaxNonterminal', 0),
    ('length of a production', r'right\.size\(\)$', 'MaxProductionLength', 0),
    ('priority of a production', r'priority\.value$', 'MaxPriority', 0),
    ('number of states', r'stateAssignmentsLr0\.size\(\)$|alr1States\.size\(\)$', 'MaxState', 0),
    ('number of follow sets', r'm_followMap\.size\(\)$', 'MaxTerminal', 0),
]


def plain(path):
    return re.sub(r'L:(\w+)#\d+', r'\1', path)


def enumerators(p):
    r = {}
    for e in p.enums.values():
        for qn, v, l in e['e']:
            if qn.startswith('mewa::Automaton::') and qn.count('::') == 2:
                r[qn.split('::')[-1]] = int(v)
        # anonymous enum of the class
    return r


def width_of(c, p, lim, spec):
    m = 0
    for s in spec:
        if s.startswith('enum '):
            e = p.enums.get(s[5:])
            if not e:
                c.broken('anchor vanished: ' + s)
            m = max(m, max(int(x[1]) for x in e['e']))
        else:
            if s not in lim:
                c.broken('anchor vanished: limit ' + s)
            m = max(m, lim[s] - 1)
    return m


def run(c):
    c.rule('bit-provenance abstract interpretation of every packed()/unpack() pair (unpack(packed(x)) == x for all field values within the declared limits, '
           'result in 31 bits, no bit shared by two fields); every limit is enforced on every path to a finished table')
    p = c.prog()
    lim = enumerators(p)
    for cls in sorted(WIDTHS):
        pk = [f for f in p.fns.values() if f.qn == cls + '::packed']
        up = [f for f in p.fns.values() if f.qn == cls + '::unpack']
        if len(pk) != 1 or len(up) != 1:
            c.broken('anchor vanished: %s::packed/unpack' % cls)
        pk, up = pk[0], up[0]
        fields = {x['n']: x for x in p.recs[cls]['fields']}
        if set(fields) != set(WIDTHS[cls]):
            extra = set(fields) ^ set(WIDTHS[cls])
            c.violate('fields %s' % cls, 'src/%s:%d' % (p.recs[cls]['file'].split('/')[-1], p.recs[cls]['l']),
                      'fields of %s and the packed representation differ: %s' % (cls, sorted(extra)))
            continue
        st = State()
        this = ('this',)
        for n, fl in fields.items():
            mx = width_of(c, p, lim, WIDTHS[cls][n])
            w = max(mx.bit_length(), 1)
            st.mem[this + (n,)] = Bits.var(n, w)
            cap = fl['ti'][0] - (1 if fl['ti'][1] else 0)
            c.ok('fields wide enough for their limit', '%s::%s %d bits for values up to %d' % (cls, n, cap, mx))
            if w > cap:
                c.violate('narrow field %s::%s' % (cls, n), '%s:%d' % (p.recs[cls]['file'], fl['l']), 'field %s::%s (%d value bits) cannot hold values up to %d' % (cls, n, cap, mx))
        outs = Eval(p).call(pk, st, this, [])
        vals = [o.value for o in outs if o.kind == 'return']
        if len(vals) != 1:
            c.violate('packed %s' % cls, pk.loc(), '%s does not compute one packed value: %r' % (pk.qn, [o.kind for o in outs]))
            continue
        v = vals[0]
        b = bits_of(v)
        lost = []
        for n in fields:
            mx = width_of(c, p, lim, WIDTHS[cls][n])
            for i in range(max(mx.bit_length(), 1)):
                if (n, i) not in b:
                    lost.append('%s bit %d' % (n, i))
        c.count('packed bits tracked', sum(isinstance(x, tuple) for x in b))
        if lost:
            c.violate('lossy %s' % cls, pk.loc(), '%s loses or mixes %s: packed value is %r' % (pk.qn, ', '.join(lost[:6]), v))
        if any(isinstance(x, tuple) or x not in (0,) for x in b[31:]):
            c.violate('overflow %s' % cls, pk.loc(), 'the packed value of %s exceeds 31 bits: %r' % (cls, v))
        uo = [o for o in Eval(p).call(up, State(), None, [v])]
        okk = 0
        for o in uo:
            if o.kind != 'return' or not (isinstance(o.value, tuple) and o.value[:1] == ('ref',)):
                c.violate('unpack %s' % cls, up.loc(), '%s: result not computable (%s)' % (up.qn, o.kind))
                continue
            base = o.value[1]
            seen = 0
            while base + ('#copyof',) in o.state.mem and seen < 5 and not any(base + (n,) in o.state.mem for n in fields):
                base = o.state.mem[base + ('#copyof',)][1]; seen += 1
            for n in fields:
                want = st.mem[this + (n,)]
                got = o.state.mem.get(base + (n,), TOP)
                gb = bits_of(got)
                wb = bits_of(want)
                # signed fields: compare the value bits
                c.ok('fields restored by unpack', '%s::%s = %r' % (cls, n, got))
                if gb != wb:
                    c.violate('roundtrip %s::%s' % (cls, n), up.loc(), 'unpack(packed(x)) does not restore %s::%s: got %r, stored %r in %r' % (cls, n, got, want, v))
                else:
                    okk += 1
        if not uo:
            c.violate('unpack %s' % cls, up.loc(), '%s does not return' % up.qn)
    # limits
    nr = flow.NR.of(p)
    for what, pat, limit, slack in QUANT:
        r = re.compile(pat)
        L = lim[limit] + slack
        found = []
        for f in p.fns.values():
            if not f.file.startswith('src/automaton'):
                continue
            for g in guards(p, f, r, L, nr):
                found.append(g)
        c.count('limit guards found', len(found))
        good = [g for g in found if g[2] is None]
        if good:
            for g in good:
                c.ok('limits enforced', '%s: %s %s' % (what, g[0].loc(g[1]), g[0].path(g[1])[:80]))
        elif found:
            g = found[0]
            c.violate('limit %s' % what, g[0].loc(g[1]), '%s: the guard lets the value %d pass, the encoding holds values below %d (%s)' % (what, g[2], lim[limit], g[0].path(g[1])[:100]))
        else:
            c.violate('limit %s' % what, 'src/automaton.cpp', 'no guard rejects a %s of %s (%d) or more on every path before the tables are finished' % (what, limit, lim[limit]))
    c.floor('fields restored by unpack', 14)
    c.floor('limits enforced', 6)


def guards(p, f, r, L, nr):
    """[(fn, node, None | first value that passes)] for throwing guards on the quantity in f that no normal return can avoid"""
    hits = []
    for i in f.walk():
        nd = f.nodes[i]
        if nd['k'] in ('CXXMemberCallExpr', 'MemberExpr', 'DeclRefExpr', 'CallExpr') and r.search(plain(f.path(i))):
            hits.append(i)
    if not hits:
        return []
    hitset = set(hits)
    blocks = f.blocks
    # variables holding exactly the quantity
    held = set()
    for i in f.walk():
        for v in f.nodes[i].get('vars', ()):
            if v['init'] >= 0 and f.strip(v['init'], True) in hitset:
                held.add(v['v'])

    def subst(i, val):
        """evaluate a condition with the quantity replaced; None if unknown"""
        j = i
        nd = f.nodes[j]
        if j in hitset or (nd['k'] == 'DeclRefExpr' and nd.get('v') in held):
            return val
        if 'cv' in nd:
            return int(nd['cv'])
        k = nd['k']
        if k == 'UnaryOperator' and nd['op'] == '!':
            x = subst(nd['c'][0], val)
            return None if x is None else int(not x)
        if k == 'BinaryOperator':
            a = subst(nd['c'][0], val); b = subst(nd['c'][1], val)
            op = nd['op']
            if op == '&&':
                return 0 if (a == 0 and a is not None) or (b == 0 and b is not None) else (None if a is None or b is None else 1)
            if op == '||':
                return 1 if (a not in (None, 0)) or (b not in (None, 0)) else (None if a is None or b is None else 0)
            if a is None or b is None:
                return None
            try:
                return {'<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                        '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '>>': lambda: a >> b, '<<': lambda: a << b, '&': lambda: a & b}[op]()
            except KeyError:
                return None
        c = [x for x in nd.get('c', ()) if x >= 0]
        if len(c) == 1 and (k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr')):
            return subst(c[0], val)
        return None

    out = []
    probe = [L, L + 1, L + 7, 2 * L, 65535]

    def contains_hit(i):
        return any(x in hitset or f.nodes[x].get('v') in held for x in f.walk(i))
    bo = flow.block_of(f)
    for b, blk in blocks.items():
        # guards by a branch
        cn = blk.get('lcond', blk.get('cond'))
        if cn is not None and len(blk['s']) == 2 and contains_hit(cn):
            passes = None; judged = True
            for v in probe:
                t = subst(cn, v)
                if t is None:
                    judged = False
                    break
                s = blk['s'][0] if t else blk['s'][1]
                if s >= 0 and flow.returns_from(f, s, nr):
                    passes = v
                    break
            if judged:
                thr = [s for s in blk['s'] if s >= 0 and not flow.returns_from(f, s, nr)]
                if thr and unavoidable(f, b, nr):
                    out.append((f, cn, passes))
        # guards by a helper call
        for el in blk['e']:
            if isinstance(el, int) and f.nodes[el]['k'] in CALLS:
                a = f.args(el)
                if any(f.strip(x, True) in hitset or f.nodes[f.strip(x, True)].get('v') in held for x in a):
                    t = p.targets(f.nodes[el].get('fn'))
                    if len(t) != 1 or not t[0].blocks:
                        continue
                    passes = None; any_throw = False
                    for v in probe:
                        vals = [subst(x, v) for x in a]
                        try:
                            o = Eval(p, noreturn=nr, max_steps=20000).call(t[0], State(), None, [TOP if x is None else x for x in vals])
                        except Exception:
                            o = None
                        if o is None:
                            passes = v
                            break
                        if any(x.kind in ('return', 'bound') for x in o):
                            passes = v
                            break
                        any_throw = True
                    if any_throw and unavoidable(f, b, nr):
                        out.append((f, el, passes))
    return out


def unavoidable(f, b, nr):
    """no normal return avoids block b, except by an empty loop or one that never enters the loop body holding b"""
    if not flow.returns_from(f, f.entry, nr, avoid=(b,)):
        return True
    # in a loop body: every iteration passes b. loop head = a block that reaches b and is reached from b
    def reach(src, avoid=()):
        st = [src]; seen = set()
        while st:
            x = st.pop()
            if x in seen or x < 0 or x in avoid:
                continue
            seen.add(x)
            st.extend(f.blocks[x]['s'])
        return seen
    fromb = reach(b)
    for h in fromb:
        if h == b or len(f.blocks[h]['s']) != 2:
            continue
        t = f.blocks[h].get('term')
        if t is None or f.nodes[t]['k'] not in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            continue
        body = f.blocks[h]['s'][0]
        if body < 0 or b not in reach(body, avoid=(h,)) and b != body:
            continue
        # from the body start back to the head only through b (or not at all)
        if h not in reach(body, avoid=(b,)) and not flow.returns_from(f, f.entry, nr, avoid=(h,)):
            return True
    return False
