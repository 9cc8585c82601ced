"""C13: orderings and equality of keys; containment of scopes."""
import itertools
import absint, fieldinit
from absint import Atom, Eval, State, TOP
from facts import CALLS, CTORS

PROP = {
    'title': 'Key orderings are consistent and complete; scope containment is exact',
    'statement': 'Every comparison operator used to order or identify keys (states, items, productions, types, scopes, serialization keys, queue elements) is a strict weak ordering (irreflexive, asymmetric, transitive), '
                 'two keys that differ in a member are never treated as equal, == and != are exact complements and agree with the ordering, and > is the inverse of <. '
                 'A scope contains another one if and only if its start is not greater and its end not smaller; it contains a step if and only if start <= step < end.',
    'over': ['inputs'],
    'quant': 'all pairs and triples of keys, all pairs of scopes and steps',
    'why': 'A broken comparator corrupts maps and sets only for particular combinations of keys; tests insert a few.',
    'files': ['src/automaton.hpp', 'src/automaton_structs.hpp', 'src/automaton.cpp', 'src/scope.hpp', 'src/typedb.hpp', 'src/typedb.cpp', 'src/lua_serialize.cpp', 'src/iterator.hpp'],
    'mech': [('operator< and operator== of key structures', 'src/automaton_structs.hpp'), ('Scope::contains and ScopeCompare', 'src/scope.hpp')],
    'technique': 'abstract interpretation of comparison functions over the domain of order types (finite, complete for comparison-only code)',
    'design': 'Comparators are evaluated on all order types of two and three keys (each member pair <,=,>): complete for comparators that only compare members.',
    'level_note': 'Complete for comparators that only compare members (every order type of two and three keys is covered); comparators outside this class (containers, floating point NaN) are not judged and counted.',
}


def sgn(op, x, y):
    return int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])


def lexcmp(op, a, b):
    if len(a) != len(b):
        return TOP
    x, y = [], []
    for p, q in zip(a, b):
        if isinstance(p, Atom) and isinstance(q, Atom):
            x.append(p.rank); y.append(q.rank)
        elif isinstance(p, int) and isinstance(q, int):
            x.append(p); y.append(q)
        else:
            return TOP
    return sgn(op, x, y)


def extern(ev, st, fr, fn, el, args, objloc):
    nd = fn.nodes[el]
    qn = nd.get('qn', '')
    base = qn.split('<')[0]
    last = base.split('::')[-1]

    def load(v):
        seen = 0
        while isinstance(v, tuple) and v[:1] == ('ref',) and seen < 6:
            if v[1] not in st.mem:
                return v
            v = st.mem[v[1]]; seen += 1
        return v
    op = nd.get('op')
    t = [] if not nd.get('fn') else ev.p.targets(nd['fn'])
    if t and nd['k'] not in CTORS:
        return NotImplemented
    if nd['k'] == 'CXXOperatorCallExpr' and op in ('==', '!=', '<', '>', '<=', '>='):
        l = load(('ref', objloc)) if objloc is not None and nd.get('cls') else None
        a = ([l] if l is not None else []) + [load(x) for x in args]
        if len(a) == 2:
            if all(isinstance(x, tuple) and x[:1] == ('tup',) for x in a):
                return lexcmp(op, [load(x) for x in a[0][1]], [load(x) for x in a[1][1]])
            return lexcmp(op, [a[0]], [a[1]])
        return TOP
    if base in ('std::tie', 'std::make_tuple', 'std::make_pair', 'std::forward_as_tuple'):
        return ('tup', tuple(load(x) for x in args))
    if nd['k'] in CTORS and base.startswith(('std::pair', 'std::tuple')):
        a = [load(x) for x in args]
        if len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] == ('tup',):
            return a[0]
        if len(a) >= 2:
            return ('tup', tuple(a))
        return TOP
    if nd['k'] in CTORS and len(args) == 1 and isinstance(load(args[0]), (Atom,)):
        return load(args[0])
    if last in ('compare',) and objloc is not None and len(args) == 1:
        a, b = load(('ref', objloc)), load(args[0])
        if isinstance(a, Atom) and isinstance(b, Atom):
            return (a.rank > b.rank) - (a.rank < b.rank)
        return TOP
    if last in ('strcmp', 'memcmp') and len(args) >= 2:
        a, b = load(args[0]), load(args[1])
        if isinstance(a, Atom) and isinstance(b, Atom):
            return (a.rank > b.rank) - (a.rank < b.rank)
        return TOP
    if base in ('std::get', 'std::get_if', 'std::move', 'std::forward') and args:
        return args[0]
    return NotImplemented


def leaves(p, cls, prefix=()):
    """comparable members: [(path, kind)] or None when a member is outside the domain"""
    r = []
    rec = p.recs.get(cls)
    if rec is None:
        return None
    if rec.get('bases'):
        return None
    for x in rec['fields']:
        t = fieldinit.type_name(x['t'])
        if x['t'].rstrip().endswith('*') and 'char' not in x['t'] and 'variant' not in x['t']:
            r.append((prefix + (x['n'],), 'atom', x['t']))
        elif t in p.enums or any(e == t or e.endswith('::' + t) for e in p.enums):
            e = p.enums.get(t) or [v for k, v in p.enums.items() if k.endswith('::' + t)][0]
            r.append((prefix + (x['n'],), 'enum', sorted(int(q[1]) for q in e['e'])))
        elif x.get('sc') or x.get('ti') or t in ('float', 'double', 'bool') or 'basic_string' in t or t in ('std::string', 'std::string_view') or t.startswith('std::variant'):
            r.append((prefix + (x['n'],), 'atom', x['t']))
        elif t in p.recs:
            s = leaves(p, t, prefix + (x['n'],))
            if s is None:
                return None
            r += s
        else:
            return None
    return r


class Cmp:
    def __init__(self, p, c):
        self.p = p; self.c = c

    def run(self, f, free, la, lb, va, vb):
        """value of comparator f for objects a, b with leaf values va, vb (None: not decided)"""
        st = State()
        for (path, k, t), x in zip(la, va):
            st.mem[('a',) + path] = x if k == 'enum' else Atom(x)
        for (path, k, t), x in zip(lb, vb):
            st.mem[('b',) + path] = x if k == 'enum' else Atom(x)
        if free:
            this = ('functor',); args = [('ref', ('a',)), ('ref', ('b',))]
        else:
            this = ('a',); args = [('ref', ('b',))]
        o = Eval(self.p, extern=extern, max_steps=20000).call(f, st, this, args)
        vals = set()
        for x in o:
            if x.kind != 'return' or isinstance(x.value, bool) is False and not isinstance(x.value, int):
                return None
            vals.add(int(bool(x.value)))
        return vals.pop() if len(vals) == 1 else None

    def table(self, f, free, lv, doms):
        keys = list(itertools.product(*doms))
        r = {}
        for a in keys:
            for b in keys:
                v = self.run(f, free, lv, lv, a, b)
                if v is None:
                    return keys, None
                r[(a, b)] = v
        return keys, r


def doms_of(lv, n):
    d = []
    for path, k, t in lv:
        d.append(t[:4] if k == 'enum' else list(range(n)))
    return d


def show(lv, a):
    return '(' + ', '.join('%s=%s' % ('.'.join(p), v) for (p, k, t), v in zip(lv, a)) + ')'


def run(c):
    c.rule('abstract interpretation of every comparison function over order types of its members: strict weak ordering, distinguishes every member, == / != / > agree; '
           'containment of scopes equals the interval relation')
    c.assume('order comparisons of numbers and strings are total orders (no NaN)')
    p = c.prog()
    C = Cmp(p, c)
    # comparators: member operators and functors with two parameters of the same class
    byc = {}
    for f in p.fns.values():
        if f.d.get('dflt') or not f.blocks:
            continue
        if f.name in ('operator<', 'operator==', 'operator!=', 'operator>', 'operator<=', 'operator>=') and f.cls and len(f.params) == 1 and \
                fieldinit.type_name(f.params[0]['t']) == f.cls:
            byc.setdefault(f.cls, {})[f.name[8:]] = (f, False)
        elif f.name == 'operator()' and f.cls and len(f.params) == 2 and f.ret == 'bool':
            t0 = fieldinit.type_name(f.params[0]['t']); t1 = fieldinit.type_name(f.params[1]['t'])
            if t0 == t1 and t0 in p.recs:
                byc.setdefault(f.cls + ':' + t0, {})['<'] = (f, True)
    for cls in sorted(byc):
        ops = byc[cls]
        base = cls.split(':')[-1] if any(fr for f, fr in ops.values()) else cls
        if ':' in cls and any(fr for f, fr in ops.values()):
            base = fieldinit.type_name(list(ops.values())[0][0].params[0]['t'])
        lv = leaves(p, base)
        if not lv or len(lv) > 5:
            c.count('classes with comparators outside the domain (not judged)')
            continue
        n = 3 if len(lv) <= 3 else 2
        doms = doms_of(lv, n)
        tabs = {}
        keys = None
        for op, (f, free) in sorted(ops.items()):
            keys, t = C.table(f, free, lv, doms)
            if t is None:
                c.count('comparators outside the domain (not judged)')
                sub = [i for i in f.walk() if f.nodes[i]['k'] == 'BinaryOperator' and f.nodes[i]['op'] == '-' and f.cv(i) is None]
                if sub:
                    c.violate('subtract %s%s' % (cls, op), f.loc(sub[0]), '%s compares by subtraction, which overflows for distant values' % f.qn)
                continue
            tabs[op] = t
        name = base.split('<')[0] if '<' in base else base

        def vio(op, what, f, msg):
            c.violate('%s %s operator%s' % (what, name, op), f.loc(), '%s: %s' % (f.qn, msg))
        if '<' in tabs:
            t = tabs['<']; f = ops['<'][0]
            c.ok('orderings judged', '%s %s over %s: %d pairs' % (f.loc(), f.qn, [x[0][-1] for x in lv], len(t)))
            eq = tabs.get('==')
            for a in keys:
                if t[(a, a)]:
                    vio('<', 'irreflexive', f, 'x < x holds for x = %s' % show(lv, a))
                    break
            for a in keys:
                for b in keys:
                    if a != b and t[(a, b)] and t[(b, a)]:
                        vio('<', 'asymmetric', f, 'a < b and b < a for a = %s, b = %s' % (show(lv, a), show(lv, b)))
                        break
                    if a != b and not t[(a, b)] and not t[(b, a)]:
                        d = [lv[k][0] for k in range(len(lv)) if a[k] != b[k]]
                        # a member excluded from == as well is no part of the key
                        if eq is not None and eq[(a, b)]:
                            continue
                        vio('<', 'complete', f, 'keys that differ in %s are equivalent in the ordering: %s and %s' % (', '.join('.'.join(x) for x in d), show(lv, a), show(lv, b)))
                        break
            c.count('pairs of keys compared', len(t))
            less = {a: set(b for b in keys if t[(a, b)]) for a in keys}
            for a in keys:
                for b in less[a]:
                    x = less[b] - less[a]
                    if x:
                        vio('<', 'transitive', f, 'a < b < c but not a < c for a = %s, b = %s, c = %s' % (show(lv, a), show(lv, b), show(lv, sorted(x)[0])))
                        break
                c.count('triples of keys covered', len(less[a]) * len(keys))
        if '==' in tabs:
            f = ops['=='][0]; t = tabs['==']
            c.ok('equalities judged', f.qn)
            # members the class does not compare at all (e.g. iterators comparing positions only) have to be ignored consistently
            for a in keys:
                if not t[(a, a)]:
                    vio('==', 'reflexive', f, 'x == x does not hold for x = %s' % show(lv, a))
                    break
            for a in keys:
                bad = [b for b in keys if t[(a, b)] != t[(b, a)]]
                if bad:
                    vio('==', 'symmetric', f, 'a == b differs from b == a for %s, %s' % (show(lv, a), show(lv, bad[0])))
                    break
            same = {}
            for k in range(len(lv)):
                same[k] = all(t[(a, b)] for a in keys for b in keys if all(a[j] == b[j] for j in range(len(lv)) if j != k))
            ign = [k for k in same if same[k]]
            if ign and not base.endswith('iterator'):
                vio('==', 'complete', f, 'member %s is ignored: keys that differ in it are treated as equal' % ', '.join('.'.join(lv[k][0]) for k in ign))
            for a in keys:
                bad = [b for b in keys if t[(a, b)] and any(a[k] != b[k] for k in range(len(lv)) if k not in ign)]
                if bad:
                    vio('==', 'exact', f, 'different keys are equal: %s and %s' % (show(lv, a), show(lv, bad[0])))
                    break
            if '<' in tabs:
                for a in keys:
                    bad = [b for b in keys if t[(a, b)] and (tabs['<'][(a, b)] or tabs['<'][(b, a)])]
                    if bad:
                        vio('==', 'agrees', f, 'a == b and a < b for %s, %s' % (show(lv, a), show(lv, bad[0])))
                        break
        if '!=' in tabs and '==' in tabs:
            f = ops['!='][0]
            c.ok('complements judged', f.qn)
            for a in keys:
                bad = [b for b in keys if tabs['!='][(a, b)] == tabs['=='][(a, b)]]
                if bad:
                    vio('!=', 'complement', f, '!= is not the complement of == for %s, %s' % (show(lv, a), show(lv, bad[0])))
                    break
        for op, inv in (('>', lambda t, a, b: t[(b, a)]), ('>=', lambda t, a, b: 1 - t[(a, b)]), ('<=', lambda t, a, b: 1 - t[(b, a)])):
            if op in tabs and '<' in tabs:
                f = ops[op][0]
                c.ok('complements judged', f.qn)
                for a in keys:
                    bad = [b for b in keys if tabs[op][(a, b)] != inv(tabs['<'], a, b)]
                    if bad:
                        vio(op, 'inverse', f, '%s disagrees with < for %s, %s' % (op, show(lv, a), show(lv, bad[0])))
                        break
    # scopes
    S = 'mewa::Scope'
    lv = leaves(p, S)
    names = [x[0][0] for x in lv] if lv else []
    if sorted(names) != ['m_end', 'm_start']:
        c.broken('anchor vanished: members of mewa::Scope')
    si, ei = names.index('m_start'), names.index('m_end')
    R = range(5)
    for f in p.fns.values():
        if f.qn != S + '::contains' or not f.blocks:
            continue
        t = fieldinit.type_name(f.params[0]['t'])
        bad = None; n = 0; und = 0
        for a in itertools.product(R, R):
            if a[si] > a[ei]:
                continue
            if t == S:
                for b in itertools.product(R, R):
                    if b[si] > b[ei]:
                        continue
                    v = C.run(f, False, lv, lv, a, b)
                    n += 1
                    if v is None:
                        und += 1
                    elif v != int(a[si] <= b[si] and b[ei] <= a[ei]) and bad is None:
                        bad = (show(lv, a), show(lv, b), v)
            else:
                for b in R:
                    st = State()
                    for (path, k, ty), x in zip(lv, a):
                        st.mem[('a',) + path] = Atom(x)
                    o = Eval(p, extern=extern).call(f, st, ('a',), [Atom(b)])
                    n += 1
                    vals = set(x.value if x.kind == 'return' else None for x in o)
                    if len(vals) != 1 or not isinstance(list(vals)[0], int):
                        und += 1
                    elif int(bool(list(vals)[0])) != int(a[si] <= b < a[ei]) and bad is None:
                        bad = (show(lv, a), 'step %d' % b, vals.pop())
        if und:
            c.count('scope predicates not decided', und)
        else:
            c.ok('scope predicates judged', '%s(%s): %d order types' % (f.qn, t, n))
        if bad:
            c.violate('contains %s' % t, f.loc(), '%s returns %s for %s and %s' % (f.qn, bool(bad[2]), bad[0], bad[1]))
    c.floor('orderings judged', 8)
    c.floor('equalities judged', 5)
    c.floor('scope predicates judged', 1)
