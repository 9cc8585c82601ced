"""C39: the automaton built for a grammar is its LALR(1) automaton, conflicts are decided by priorities or reported"""
import concurrent.futures
import itertools
import multiprocessing
import os
import sys
import time
from facts import Broken
from lreval import LrApi, FlatApi
from coll import It
from dbeval import Unknown, Thrown

PROP = {
    'title': 'The automaton built is the LALR(1) automaton of the grammar',
    'statement': 'The tables built for a grammar are those of its LALR(1) automaton up to the numbering of the states: shift and goto follow the transitions of the LR(0) states, a production is reduced for its LALR(1) lookahead '
    'with its left side, length, call and scope flag, besides that at most for other symbols that can follow the left side or the end of input; the start production is accepted at the end of the input. A grammar without LALR(1) conflict is built without complaint. '
    'A conflict of shift and reduce is decided by the higher priority, for equal priorities by the associativity (L reduces, R shifts); any other conflict, also of two reductions, is reported.',
    'over': ['programs', 'inputs'],
    'quant': 'every grammar',
    'why': 'Tests build a handful of grammars, most of them simple; lookahead through nullable symbols, kernels shared by states, chains of FIRST sets and precision of the lookahead are hardly sampled.',
    'files': ['src/automaton.cpp', 'src/automaton_structs.hpp'],
    'mech': [('Automaton::build, closures, FIRST and FOLLOW sets, LALR(1) states, insertAction', 'src/automaton.cpp'), ('TransitionState, ProductionDefList, IntSetHandleMap, FlatSet', 'src/automaton_structs.hpp')],
    'technique': 'abstract interpretation of the construction of the automaton with models of the containers over a finite family of grammars, compared with an independent construction of the LALR(1) tables',
    'level_note': 'Family: grammars with known traps (nullable symbols, kernels with several productions, LALR(1) but not SLR(1), LR(1) but not LALR(1), ambiguous with and without priorities, calls and scope flags, long FIRST chains) and small grammars enumerated. '
    'The parser of the grammar text is replaced by its result; sets of integers are models, their functions are evaluated apart. Not decided: larger grammars, nonterminals without sentence, conflicts of three actions, shifts of one symbol with different priorities, texts of the reports. The thorough tier examines the same family with a larger time budget.',
    'design': 'lib/lreval.py evaluates Automaton::build on its CFG for a list of productions: ordered and unordered maps, multimaps and sets have models, ordered ones with the operator< of the key class evaluated; sets of integers are one cell. '
    'The resulting action and goto tables and the number of warnings are compared (states renumbered along their transitions) with tables made by a textbook construction in the rule (canonical LR(1) item sets merged). '
    'The functions of FlatSet<int> are evaluated on all sequences of up to four insertions of three numbers and all pairs of subsets.',
    }


# ------------------------------------------------------------------ reference
def reference(g):
    """(actions, gotos, conflicts, skipped): tables of the LALR(1) automaton"""
    nts = []
    for p in g:
        if p[0] not in nts:
            nts.append(p[0])
    prods = [(p[0], tuple(p[1])) for p in g]
    attr = [(tuple(p[2:]) + ((0, 0), 0, 0)[len(p) - 2:])[:3] for p in g]
    ts = []
    for p in prods:
        for x in p[1]:
            if x not in nts and x not in ts:
                ts.append(x)
    first = {n: set() for n in nts}
    null = set()
    ch = True
    while ch:
        ch = False
        for l, r in prods:
            if l not in null and all(x in null for x in r):
                null.add(l); ch = True
            for x in r:
                f = first[x] if x in first else {x}
                if not f <= first[l]:
                    first[l] |= f; ch = True
                if x not in null:
                    break

    def firsts(seq, la):
        r = set()
        for x in seq:
            r |= first[x] if x in first else {x}
            if x not in null:
                return r
        return r | {la}

    def closure(k):
        todo, got = list(k), set(k)
        while todo:
            i, d, la = todo.pop()
            r = prods[i][1]
            if d < len(r) and r[d] in first:
                for b in firsts(r[d + 1:], la):
                    for j, q in enumerate(prods):
                        if q[0] == r[d] and (j, 0, b) not in got:
                            got.add((j, 0, b)); todo.append((j, 0, b))
        return frozenset(got)
    core = lambda st: frozenset((i, d) for i, d, _ in st)
    start = closure({(0, 0, '$')})
    lr1, todo, trans = {start}, [start], {}
    while todo:
        st = todo.pop()
        for x in {prods[i][1][d] for i, d, _ in st if d < len(prods[i][1])}:
            to = closure({(i, d + 1, la) for i, d, la in st if d < len(prods[i][1]) and prods[i][1][d] == x})
            trans[core(st), x] = core(to)
            if to not in lr1:
                lr1.add(to); todo.append(to)
    lalr = {}
    for st in lr1:
        lalr.setdefault(core(st), set()).update(st)
    acts, gotos, conf, skip = {}, {}, [], False
    for c, st in lalr.items():
        sh, red = {}, {}
        for i, d, la in st:
            r = prods[i][1]
            if d < len(r):
                if r[d] in first:
                    gotos[c, nts.index(r[d]) + 1] = trans[c, r[d]]
                else:
                    sh.setdefault(r[d], set()).add(attr[i][0])
            else:
                red.setdefault(la, set()).add(i)
        for x, pr in sh.items():
            if len(pr) > 1:
                skip = True
        for x in set(sh) | set(red):
            key = (c, ts.index(x) + 1 if x != '$' else 0)
            rs = red.get(x, set())
            if len(rs) > 1 and x in sh:
                skip = True
            if len(rs) > 1:
                conf.append('reduce/reduce')
                continue
            if not rs:
                acts[key] = ('shift', trans[c, x])
                continue
            i = next(iter(rs))
            a = ('accept' if i == 0 else 'reduce', nts.index(prods[i][0]) + 1, len(prods[i][1]), attr[i][1], attr[i][2])
            if x in sh:
                p, q = attr[i][0], next(iter(sh[x]))
                if (p == (0, 0)) != (q == (0, 0)):
                    conf.append('shift/reduce')
                elif p[0] != q[0]:
                    acts[key] = a if p[0] > q[0] else ('shift', trans[c, x])
                elif p[1] != q[1] or p[1] == 0:
                    conf.append('shift/reduce')
                else:
                    acts[key] = a if p[1] == 1 else ('shift', trans[c, x])
            else:
                acts[key] = a
    # symbols that can follow a nonterminal, for the bound of additional reductions
    foll = {n: {'$'} for n in nts}
    ch = True
    while ch:
        ch = False
        for l, r in prods:
            for d, x in enumerate(r):
                if x in first:
                    f = set().union(*(firsts(r[d + 1:], b) for b in foll[l]))
                    if not f <= foll[x]:
                        foll[x] |= f; ch = True
    more = {}
    for c, st in lalr.items():
        for i, d, la in st:
            if d == len(prods[i][1]) and i:
                for b in foll[prods[i][0]]:
                    more.setdefault((c, ts.index(b) + 1 if b != '$' else 0), set()).add((1, nts.index(prods[i][0]) + 1, d, attr[i][1], attr[i][2]))
    return acts, gotos, conf, skip, core(start), ts, nts, more


def compare(g, got):
    """message for a difference or None"""
    acts, gotos, conf, skip, start, ts, nts, more = reference(g)
    ga, gg, nw = got
    if conf:
        return ('conflict', 'the conflict (%s) is not reported' % conf[0]) if not nw else (None, None)
    if nw:
        return 'complaint for %s' % show(g), 'a conflict is reported though there is none left in the LALR(1) automaton'
    KIND = {'shift': 0, 'reduce': 1, 'accept': 2}
    name = {start: 1}
    todo = [start]
    sym = lambda t: '$' if t == 0 else ts[t - 1] if 0 < t <= len(ts) else '#%d' % t
    while todo:
        st = todo.pop(0)
        n = name[st]
        want = {t: a for (c, t), a in acts.items() if c == st}
        have = {t: a for (c, t), a in ga.items() if c == n}
        where = 'in the state %s ' % '; '.join('%s = %s' % (g[i][0], ' '.join(list(g[i][1])[:d] + ['.'] + list(g[i][1])[d:])) for i, d in sorted(st))
        for t in sorted(set(want) | set(have)):
            if t not in have:
                return 'missing ' + want[t][0], '%sthere is no action for %s, expected %s' % (where, sym(t), want[t][0])
            if t not in want:
                if have[t] in more.get((st, t), ()):
                    continue
                return 'extra action', '%sthere is an action (%s) for %s that cannot follow' % (where, ['shift', 'reduce', 'accept'][have[t][0]] if 0 <= have[t][0] < 3 else '?', sym(t))
            w, h = want[t], have[t]
            if KIND[w[0]] != h[0]:
                return 'action', '%sthe action for %s is %s instead of %s' % (where, sym(t), ['shift', 'reduce', 'accept'][h[0]] if 0 <= h[0] < 3 else '?', w[0])
            if w[0] == 'shift':
                if name.setdefault(w[1], h[1]) != h[1]:
                    return 'shift', '%sthe shift of %s goes to the wrong state' % (where, sym(t))
            elif w[1:] != h[1:]:
                return w[0], '%sthe %s for %s has (left side, length, call, scope) %r instead of %r' % (where, w[0], sym(t), h[1:], w[1:])
        want = {t: a for (c, t), a in gotos.items() if c == st}
        have = {t: a for (c, t), a in gg.items() if c == n}
        if set(want) != set(have):
            return 'goto', '%sthere are gotos for %s instead of %s' % (where, [nts[t - 1] for t in sorted(have)], [nts[t - 1] for t in sorted(want)])
        for t in want:
            if name.setdefault(want[t], have[t][0]) != have[t][0]:
                return 'goto', '%sthe goto for %s has the wrong state' % (where, nts[t - 1])
        for x in [a[1] for (c, t), a in acts.items() if c == st and a[0] == 'shift'] + list(want.values()):
            if x not in todo and x not in compare.done:
                todo.append(x)
        compare.done.add(st)
    compare.done = set()
    if len(set(name.values())) != len(name):
        return 'states', 'two states of the automaton have the same number'
    if len(gg) != len(gotos):
        return 'size', 'the goto table has entries for states that do not exist'
    return None, None


compare.done = set()

L, R = 1, 2


def grammar(s, **attr):
    """'S:T  T:a T b|' -> productions"""
    g = []
    for rule in s.split(';'):
        l, r = rule.split(':')
        for alt in r.split('|'):
            g.append((l.strip(), tuple(alt.split())))
    return g


NAMED = [
    'S:T; T:a T b|', 'S:a', 'S:', 'S:T;T:', 'S:A B;A:a|;B:b|', 'S:A B C;A:a|;B:b|;C:c|',
    # lookahead of one kernel is not that of the others
    'S:T;T:A|B;A:x A y|c;B:x A y y',
    # nullable symbol in front of another one
    'S:T;T:A B c|X;A:a;B:b|;X:a', 'S:A B C;A:a|a d;B:b|;C:c|', 'S:T;T:A B C d|A d e;A:a;B:b|;C:c|',
    # not SLR(1)
    'S:T;T:L = R|R;L:* R|i;R:L', 'S:T;T:A a|b A c|d c|b d a;A:d',
    # LR(1), not LALR(1)
    'S:T;T:a A d|b B d|a B e|b A e;A:c;B:c',
    # ambiguous
    'S:E;E:E + E|i', 'S:T;T:i T|i T e T|x', 'S:T;T:A|B;A:a;B:a', 'S:T;T:T T|a', 'S:T;T:T|a', 'S:A B;A:a|;B:a|',
    # recursion
    'S:T;T:T a|a', 'S:T;T:a T|a', 'S:T;T:T a|', 'S:T;T:a T|', 'S:T;T:( T )|( )|T ( )',
    # expressions
    'S:E;E:E + M|M;M:M * F|F;F:( E )|i',
    # chains
    'S:A d;A:B;B:C;C:D;D:a|', 'S:X z;V:v;W:V;Y:W;X:Y', 'S:X z;V:v|;U:u V;W:U;Y:y W;X:Y|W', 'S:T;E:e;D:D1 E;D1:d|;C:c D;B:C|b;A:a B;T:A z|B y', 'S:A A2 e;A:B C;B:C D;C:D D;D:a|;A2:C', 'S:X Z z;Z:Y;Y:X;X:x|', 'S:T;T:N N N a;N:',
    'S:T;T:A x|B y;A:N a;B:N b;N:n|', 'S:T;T:P Q;P:p P|;Q:q Q|p', 'S:D1;D1:D2;D2:D3 , D3;D3:d D4;D4:e|D2 f',
    'S:Q;Q:s L f;L:I|L I;I:k', 'S:Q;Q:B L;L:C L|;C:c B;B:b|', 'S:Q;Q:A|B;A:u V w;B:u V z;V:v|V v',
    'S:Q;Q:l A r|l B t;A:m N;B:m N n;N:n|',
    'S:U;U:a V x|b V y;V:W;W:c|c W', 'S:U;U:a V x|b W x|a W y|b V z;V:c V2;W:c W2;V2:d;W2:e',
]


def attributed():
    """grammars with priorities, calls and scope flags"""
    r = []
    E = lambda pp, pt, pn=None: [('S', ('E',)), ('E', ('E', '+', 'E'), pp), ('E', ('E', '*', 'E'), pt), ('E', ('i',))]
    for pp, pt in [((1, L), (2, L)), ((2, L), (1, L)), ((1, R), (2, L)), ((1, L), (1, L)), ((1, R), (1, R)), ((1, L), (1, R)), ((1, L), (0, 0)), ((0, L), (0, L)), ((0, L), (1, L)), ((3, R), (2, R))]:
        r.append(E(pp, pt))
    for p in [(1, L), (1, R), (0, L), (5, R), (3, 0)]:
        r.append([('S', ('E',)), ('E', ('E', '+', 'E'), p), ('E', ('i',))])
    for p, q in [((1, L), (2, L)), ((2, L), (1, L)), ((1, L), (1, L)), ((1, R), (1, R)), ((0, 0), (1, L))]:
        r.append([('S', ('T',)), ('T', ('i', 'T'), p), ('T', ('i', 'T', 'e', 'T'), q), ('T', ('x',))])
    for p, q in [((4, L), (3, L)), ((3, L), (4, L))]:
        r.append([('S', ('E',)), ('E', ('-', 'E'), p), ('E', ('E', '+', 'E'), q), ('E', ('i',))])
    some = [(0, 0), (1, L), (2, R), (0, L), (1, R), (2, L)]
    for p, q in itertools.product(some, repeat=2):
        r.append([('S', ('E',)), ('E', ('-', 'E'), p), ('E', ('E', '+'), q), ('E', ('i',))])
    for call, scope in itertools.product((0, 1, 3), (0, 1, 2)):
        r.append([('S', ('T',), (0, 0), call, scope), ('T', ('a', 'T'), (0, 0), scope, call % 3), ('T', (), (0, 0), 2, scope)])
    return r


def enumerated():
    """grammars with two nonterminals beside the start symbol and short right sides"""
    syms = ('T', 'U', 'a', 'b')
    rhs = [()] + [(x,) for x in syms] + [q for q in itertools.product(syms, repeat=2)] + [('a', 'T', 'U'), ('U', 'T', 'a'), ('U', 'U', 'b'), ('a', 'U', 'b')]
    out = []
    k = 0
    for (i, r1), (j, r2) in itertools.combinations(enumerate(rhs), 2):
        for m, r3 in enumerate(rhs):
            k += 1
            used = set(r1) | set(r2)
            if 'U' not in used or r3 == ('U',) or ('T' in r1 and 'T' in r2):
                continue
            if k % 80:
                continue
            out.append([('S', ('T',)), ('T', r1), ('T', r2), ('U', r3), ('U', ('b',))] if r3 != ('b',) else [('S', ('T',)), ('T', r1), ('T', r2), ('U', r3)])
    return out


def families():
    return [grammar(x) for x in NAMED] + attributed() + enumerated()


JOB = None


def show(g):
    def one(p):
        pr = p[2] if len(p) > 2 else (0, 0)
        t = ' (call %d, scope flag %d)' % (p[3], p[4]) if len(p) > 4 and (p[3] or p[4]) else ''
        return '%s%s = %s%s' % (p[0], '/%s%d' % (' LR'[pr[1]].strip(), pr[0]) if pr != (0, 0) else '', ' '.join(p[1]) or 'empty', t)
    return '; '.join(one(p) for p in g)


def job(i):
    p, jobs, deadline = JOB
    bad, und, n = {}, {}, 0
    try:
        api = LrApi(p)
    except (Unknown, Broken) as e:
        return {}, {str(e): 1}, 0
    for g in jobs[i]:
        if time.time() > deadline:
            und['time budget used up'] = und.get('time budget used up', 0) + 1
            continue
        sk = reference(g)
        if sk[3]:
            continue
        key = None
        try:
            r = api.build(g)
            compare.done = set()
            key, msg = compare(g, r)
            n += 1
        except Thrown as e:
            o = e.o
            key, msg = 'error', 'an error is thrown%s' % (' in %s' % o.fn.qn if o.fn else '')
            n += 1
        except (Unknown, Broken) as e:
            und[str(e)] = und.get(str(e), 0) + 1
        except RecursionError:
            und['recursion'] = und.get('recursion', 0) + 1
        if key:
            m = 'for the grammar %s: %s' % (show(g), msg)
            o = bad.get(key)
            bad[key] = (m if o is None or len(m) < len(o[0]) else o[0], (o[1] if o else 0) + 1)
    return bad, und, n


def sets(p, bad, und):
    """the sets of integers the construction of the automaton is based on: number of obligations"""
    n = 0

    def want(key, got, exp, what):
        nonlocal n
        n += 1
        if got != exp:
            bad.setdefault('set: ' + key, ('%s is %r instead of %r' % (what, got, exp), 0))
            bad['set: ' + key] = (bad['set: ' + key][0], bad['set: ' + key][1] + 1)
    try:
        a = FlatApi(p)
        for seq in itertools.chain.from_iterable(itertools.product((0, 1, 2), repeat=k) for k in range(5)):
            a.clear()
            have = set()
            for x in seq:
                r = a.call1('insert', 'F', [x])
                want('result of insert', bool(r), x not in have, 'the result of the last insert of %r' % (seq,))
                have.add(x)
            want('insert', a.items('F'), sorted(have), 'the set after inserting %r' % (seq,))
            for x in (0, 1, 2):
                want('contains', bool(a.call1('contains', 'F', [x])), x in have, 'contains(%d) for %r' % (x, sorted(have)))
        subs = [q for k in range(4) for q in itertools.combinations((0, 1, 2), k)]
        for x, y in itertools.product(subs, repeat=2):
            a.clear()
            for l, q in (('F', x), ('G', y)):
                for v in q:
                    a.call1('insert', l, [v])
            eq, ne, lt = (bool(a.call1(o, 'F', [('ref', ('G',))])) for o in ('operator==', 'operator!=', 'operator<'))
            gt = bool(a.call1('operator<', 'G', [('ref', ('F',))]))
            want('operator==', (eq, ne), (x == y, x != y), '(==, !=) of %r and %r' % (x, y))
            want('operator<', lt + gt, int(x != y), 'the number of true ones of a < b, b < a for %r and %r' % (x, y))
            r = a.call1('insert', 'G', [It(('F',), 0), It(('F',), len(x))], ('normal_iterator',))
            want('insert of a range', (bool(r), a.items('G')), (not set(x) <= set(y), sorted(set(x) | set(y))), 'the result of inserting %r into %r' % (x, y))
            a.call1('operator=', 'G', [('ref', ('F',))], ('const',))
            want('assignment', (a.items('G'), a.items('F')), (list(x), list(x)), 'the copy of %r' % (x,))
            a.call1('FlatSet', 'H', [('ref', ('F',))], ('const mewa::FlatSet',))
            want('copy', a.items('H'), list(x), 'the copy of %r' % (x,))
            a.call1('clear', 'F', [])
            want('clear', a.items('F'), [], 'the cleared set %r' % (x,))
    except (Unknown, Broken) as e:
        und['functions of sets: ' + str(e)] = 1
    except Thrown as e:
        bad['set: error'] = ('a function of a set of integers throws', 1)
    return n


def run(c):
    c.rule('the action and goto tables built are those of the LALR(1) automaton of the grammar up to the numbering of states, conflicts are decided by priority and associativity or reported; for every member of a finite family of grammars')
    p = c.prog()
    thorough = c.tier == 'thorough'
    gs = families()
    work = gs
    work.sort(key=lambda w: -sum(2 + len(q[1]) for q in w))
    jobs = [work[i::96] for i in range(96)]
    global JOB
    JOB = (p, jobs, time.time() + (650 if thorough else 300))
    sys.setrecursionlimit(20000)
    und, n, bad = {}, 0, {}
    c.count('obligations of the sets of integers', sets(p, bad, und))
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for f in [pool.submit(job, i) for i in range(len(jobs))]:
            try:
                b, u, m = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und['process ended'] = und.get('process ended', 0) + 1
                continue
            n += m
            for k, (msg, cnt) in b.items():
                o = bad.get(k)
                bad[k] = (min((msg, o[0]), key=lambda q: (len(q), q)) if o else msg, (o[1] if o else 0) + cnt)
            for k, x in u.items():
                und[k] = und.get(k, 0) + x
    c.count('grammars built and compared', n)
    f = next((f for f in p.fns.values() if f.blocks and f.qn == 'mewa::Automaton::build'), None)
    for k, (msg, cnt) in sorted(bad.items()):
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/automaton.cpp', '%s%s' % (msg, '; %d cases' % cnt if cnt > 1 else ''))
    for u, x in sorted(und.items()):
        c.count('cases not decided', x)
        c.ok('cases not decided', '%s (%d)' % (u, x))
    if n and not und and not bad:
        c.ok('grammars with the expected tables', '%d grammars' % n)
