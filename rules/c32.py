"""C32: a lookup in the type database returns the definition of the innermost scope"""
import itertools
import multiprocessing
import os
import concurrent.futures
import time
import resource
import sys
from facts import Broken
from dbeval import Api, Unknown, Thrown, INF

PROP = {
    'title': 'A lookup finds exactly the definition in the innermost scope around it',
    'statement': 'For definitions with non empty scopes that are nested or disjoint, in whatever order they are made: getObjectInstance with a step returns the value set with the innermost scope containing the step '
    '(start included, end excluded), and nothing if no scope contains it; getObjectInstanceOfScope returns the value of exactly this scope, setting a value again for the same scope replaces it. '
    'A type is defined once for scope, context, name and parameter types, a second definition is refused; getType and getTypes return the types of exactly this scope, resolveType without reductions the types of the innermost scope that has any. '
    'A reduction selected by the tags is visible in the steps of its scope and hides those of enclosing scopes between the same types; an equal definition in the same scope is ignored, a different one refused with an error. '
    'The tree of objects has each definition once, under the one of the innermost scope around it.',
    'over': ['histories', 'requests'],
    'quant': 'every sequence of definitions with nested or disjoint scopes, every lookup',
    'why': 'Tests sample some histories at random; the links between scopes depend on the order in which inner, outer and neighbouring scopes get their definitions.',
    'files': ['src/scope.hpp', 'src/typedb.cpp', 'src/typedb.hpp'],
    'mech': [('ScopedInstance, ScopedMap, ScopedRelationMap, ScopedUpValueInvTree', 'src/scope.hpp'), ('TypeDatabase', 'src/typedb.cpp')],
    'technique': 'abstract interpretation of the type database with the positions of scopes as elements of an order, over all order types of definitions up to a bound',
    'level_note': 'Positions are symbolic, only their order is known, so a case stands for all numbers in this order. All order types of up to 3 definitions (4 for objects when thorough), including shared ends, neighbours, repeated scopes, '
    'the start 0 and the unlimited end, all orders of definition, definitions of other names in between. Longer histories are outside of the bound. Partly overlapping and empty scopes are outside of the statement, the compiler does not create them. '
    'Two reductions between the same types in the same scope with different tags are not looked up with both tags.',
    'design': 'The methods of mewa::TypeDatabase are evaluated on the control flow graphs with a model of the containers (vector, map with the order given by operator<, set) and an abstract memory. Start and end of scopes and the steps of lookups are '
    'elements of a linear order with 0 as the smallest and the maximum as the biggest element: comparisons are decided, any other operation on them gives an unknown value. For each order type of nested or disjoint scopes and each order of definition the state of the database '
    'is computed (shared between sequences with a common prefix), and all lookups between and at the positions are evaluated and compared with the definition of the innermost scope. What has no model is counted as not decided.'}

STEPS = 0


def canon(seq):
    pts = sorted({x for a in seq for x in a})
    m = {q: i for i, q in enumerate(pts)}
    return tuple((m[a], m[b]) for a, b in seq)


def laminar(s):
    for (a, b), (c, d) in itertools.combinations(s, 2):
        if not (b <= c or d <= a or (a <= c and d <= b) or (c <= a and b <= d)):
            return False
    return True


def families(n):
    """order types of sequences of n nested or disjoint scopes"""
    r = {()}
    for _ in range(n):
        out = set()
        for s in r:
            m = len({x for a in s for x in a})
            base = [(2 * a, 2 * b) for a, b in s]
            for a, b in itertools.combinations(range(-3, 2 * m + 2), 2):
                t = base + [(a, b)]
                if laminar(t):
                    out.add(canon(t))
        r = out
    return sorted(r)


def place(seq, ends):
    """positions of a canonical sequence; ends: the first is 0, the last is unlimited"""
    m = max(b for a, b in seq)
    f = lambda x: 0 if ends and x == 0 else INF if ends and x == m else 2 * x + 2
    return [(f(a), f(b)) for a, b in seq]


def steps(seq):
    q = sorted({x for a in seq for x in a if x not in (0, INF)})
    return ([0] if any(a == 0 for a, b in seq) else []) + sorted({y for x in q for y in (x - 1, x, x + 1)} if q else {1})


def inner(defs, step):
    """the innermost scope of the definitions containing the step"""
    c = [d for d in defs if d[0] <= step < d[1]]
    return min(c, key=lambda d: (d[1] - d[0] if d[1] != INF or d[0] else 1 << 40, -d[0])) if c else None


def within(a, b):
    return b[0] <= a[0] and a[1] <= b[1]


def say(sc):
    return ', '.join('[%s,%s)' % (a if a else '0', 'INF' if b == INF else b) for a, b in sc)


class Check:
    def __init__(self, p):
        self.a = Api(p)
        self.cache = {}
        self.bad = []
        self.n = 0

    def state(self, kind, prefix, mk):
        k = (kind, prefix)
        if k not in self.cache:
            if len(self.cache) > 400:
                self.cache.clear()
            self.cache[k] = mk()
        return self.cache[k]

    def report(self, key, msg):
        self.bad.append((key, msg))

    # ------------------------------------------------------------ objects
    def objects(self, seq, keys, tree):
        a = self.a
        s = a.new()
        val = {}
        for h, (sc, k) in enumerate(zip(seq, keys)):
            def mk(s=s, sc=sc, k=k, h=h):
                return a.set_object(s, k, sc, h + 1)
            s = self.state('obj', tuple(zip(seq, keys))[:h + 1], mk)
            val[(k, sc)] = h + 1
        for k in sorted(set(keys)):
            d = [sc for q, sc in val if q == k]
            for x in steps(seq):
                i = inner(d, x)
                want = val[(k, i)] if i else -1
                got = a.get_object(s, k, x)
                self.n += 1
                if got != want:
                    self.report('object at a step', 'objects set with the scopes %s: the lookup at step %d gives the value of definition %s instead of %s' % (say(seq), x, got if got > 0 else 'none', want if want > 0 else 'none'))
            for sc in sorted(set(seq)):
                want = val.get((k, sc), -1)
                got = a.get_object_of(s, k, sc)
                self.n += 1
                if got != want:
                    self.report('object of a scope', 'objects set with the scopes %s: the lookup of scope %s gives the value of definition %s instead of %s' % (say(seq), say([sc]), got if got > 0 else 'none', want if want > 0 else 'none'))
            if tree:
                t = a.object_tree(s, k)
                want = sorted((sc, val[(k, sc)], self.parent(d, sc)) for sc in d if sc != (0, INF))
                got = sorted((sc, v, par) for sc, v, par in t if sc != (0, INF))
                root = [v for sc, v, par in t if sc == (0, INF)]
                self.n += 1
                if got != want or len(root) != 1 or root[0] != val.get((k, (0, INF)), -1):
                    self.report('tree of objects', 'objects set with the scopes %s: the tree has %s' % (say(seq), ', '.join('%s under %s' % (say([x]), say([q])) for x, v, q in got)))

    @staticmethod
    def parent(d, sc):
        c = [q for q in d if q != sc and within(sc, q)]
        return min(c, key=lambda q: (q[1] if q[1] != INF else 1 << 40) - q[0]) if c else (0, INF)

    # ------------------------------------------------------------ types
    def types(self, seq, keys, sigs):
        a = self.a

        def base():
            s = a.new()
            for i in range(2):
                h, s = a.def_type(s, (0, INF), 0, 'base%d' % i, 0, [])
            return s
        s = self.state('typ', (), base)
        defs = []
        for h, (sc, k, g) in enumerate(zip(seq, keys, sigs)):
            par = [(1 + j, 90 + j) for j in range(g)]

            def mk(s=s):
                v, t = a.def_type(s, sc, k[0], k[1], 40 + h, par)
                return v, t
            v, s = self.state('typ', tuple(zip(seq, keys, sigs))[:h + 1], mk)
            dup = any(q[:3] == (sc, k, g) for q in defs)
            self.n += 1
            if dup and v != -1:
                self.report('duplicate type', 'a type defined again with the same scope, context, name and parameter types is not refused (scopes %s)' % say(seq))
                return
            if not dup:
                if v <= 0 or any(q[3] == v for q in defs):
                    self.report('definition of a type', 'types defined with the scopes %s: the definition number %d is refused or gets the handle of another one' % (say(seq), h + 1))
                    return
                defs.append((sc, k, g, v))
        for k in sorted(set(keys)):
            d = {}
            for sc, q, g, v in defs:
                if q == k:
                    d.setdefault(sc, []).append((g, v))
            for sc in sorted(set(seq)):
                got = a.get_types(s, sc, k[0], k[1])
                self.n += 1
                if sorted(got) != sorted(v for g, v in d.get(sc, ())):
                    self.report('types of a scope', 'types defined with the scopes %s: the types of scope %s are %s instead of %s' % (say(seq), say([sc]), got, [v for g, v in d.get(sc, ())]))
                for g in sorted(set(sigs)):
                    got = a.get_type(s, sc, k[0], k[1], [1 + j for j in range(g)])
                    want = [v for q, v in d.get(sc, ()) if q == g] or [0]
                    self.n += 1
                    if [got] != want:
                        self.report('type of a scope', 'types defined with the scopes %s: the type of scope %s with %d parameters is %s instead of %s' % (say(seq), say([sc]), g, got, want[0]))
            for x in steps(seq):
                i = inner(list(d), x)
                got = a.resolve(s, x, k[0], k[1])
                self.n += 1
                want = sorted(v for g, v in d[i]) if i else []
                if sorted(got[2]) != want:
                    self.report('types at a step', 'types defined with the scopes %s: resolving at step %d gives %s instead of %s' % (say(seq), x, got[2], want))

    # ------------------------------------------------------------ reductions
    def reductions(self, seq, keys, tags):
        a = self.a

        def base():
            s = a.new()
            for i in range(3):
                h, s = a.def_type(s, (0, INF), 0, 'base%d' % i, 0, [])
            return s
        s = self.state('red', (), base)
        defs = []
        for h, (sc, (to, fr), tag) in enumerate(zip(seq, keys, tags)):
            def mk(s=s):
                try:
                    return a.def_redu(s, sc, to, fr, 50 + h, tag, 0.5 + h), False
                except Thrown as t:
                    return s, True
            s, refused = self.state('red', tuple(zip(seq, keys, tags))[:h + 1], mk)
            dup = any(q[:4] == (sc, to, fr, tag) for q in defs)
            self.n += 1
            if refused != dup:
                self.report('duplicate reduction', 'reductions defined with the scopes %s: the definition number %d is %s' % (say(seq), h + 1, 'not refused although there is another one between the same types with the same scope and tag' if dup else 'refused'))
                return
            if dup:
                return
            defs.append((sc, to, fr, tag, 50 + h, 0.5 + h))
            if h == len(seq) - 1:
                # an equal definition is ignored
                try:
                    s = a.def_redu(s, sc, to, fr, 50 + h, tag, 0.5 + h)
                except Thrown:
                    self.report('equal reduction', 'a reduction equal to one defined with the same scope is refused (scopes %s)' % say(seq))
        masks = [(t,) for t in sorted(set(tags))] + ([tuple(sorted(set(tags)))] if len(set(tags)) > 1 else [])
        for m in masks:
            for fr in sorted({k[1] for k in keys}):
                for x in steps(seq):
                    want = []
                    skip = False
                    for to in sorted({k[0] for k in keys if k[1] == fr}):
                        d = [q for q in defs if q[1] == to and q[2] == fr and q[3] in m]
                        i = inner([q[0] for q in d], x)
                        if i:
                            c = [q for q in d if q[0] == i]
                            skip |= len(c) > 1
                            want.append((to, c[0][4], c[0][5], int(c[0][3] == 1)))
                    if skip:
                        continue
                    got = a.get_redus(s, x, fr, m, (1,))
                    self.n += 1
                    if sorted(got) != sorted(want):
                        self.report('reductions at a step', 'reductions defined with the scopes %s and tags %s: those selected by the tags %s at step %d are the definitions %s instead of %s' % (
                            say(seq), list(tags), list(m), x, sorted(q[1] - 49 for q in got), sorted(q[1] - 49 for q in want)))
                    for to, cn, w, ct in want[:1]:
                        got = a.get_redu(s, x, to, fr, m)
                        self.n += 1
                        if got != (cn, w):
                            self.report('reduction at a step', 'reductions defined with the scopes %s: the reduction at step %d is definition %s instead of %s' % (say(seq), x, got[0] - 49, cn - 49))


JOB = None
START = 0.0


def job(i):
    p, jobs, budget = JOB
    if i == -1:
        return [], {}, 0
    c = Check(p)
    und = {}
    skipped = 0
    for kind, args in jobs[i]:
        if time.time() - START > budget:
            skipped += 1
            continue
        try:
            getattr(c, kind)(*args)
        except (Unknown, Broken) as b:
            und[(kind, str(b))] = und.get((kind, str(b)), 0) + 1
        except Thrown as t:
            c.report('%s: error' % kind, 'with the scopes %s the evaluation ends with the exception at %s' % (say(args[0]), t.o.fn.loc(t.o.node)))
        except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as b:
            und[(kind, type(b).__name__)] = und.get((kind, type(b).__name__), 0) + 1
        if c.a.e.lost:
            del c.a.e.lost[:]
    if skipped:
        und[('time', 'sequences left out because of the time limit')] = skipped
    return c.bad, und, c.n


def cases(thorough):
    r = []
    for n in range(1, 5 if thorough else 4):
        for q in families(n):
            for ends in (False, True):
                seq = place(q, ends)
                if n <= 3 or not ends:
                    r.append(('objects', (seq, ('x',) * n, n <= 3)))
                if n == 2 or (n == 3 and not ends and thorough):
                    for ks in itertools.product('xy', repeat=n - 1):
                        if 'y' in ks:
                            r.append(('objects', (seq, ('x',) + ks, False)))
                if n > 3 or (n == 3 and ends and not thorough):
                    continue
                # types: other name, other context
                K = [(0, 'x'), (0, 'y'), (1, 'x')]
                dup = len(set(seq)) < n
                pats = [(K[0],) * n] + [(K[0],) + ks for ks in itertools.product(K[:2] if n > 2 else K, repeat=n - 1) if set(ks) != {K[0]}]
                if n > 2:
                    pats = pats[:1] + (pats[1:] + [tuple(K[2] if k == K[1] else k for k in ks) for ks in pats[1:]] if thorough else [pats[1 + len(r) % 3]])
                for ks in pats:
                    sg = [(0,) * n]
                    if dup:
                        sg += [g for g in itertools.product((0, 1, 2) if n == 2 else (0, 1), repeat=n) if any(g)]
                    elif ks == pats[0] and n > 1:
                        sg += [tuple(j % 2 for j in range(n))]
                    if n > 2 and not thorough:
                        sg = sg[:1] + sg[2::2]
                    if n > 2 and len(set(seq)) == 1 and len(set(ks)) == 1:
                        sg += [(0, 1, 2), (2, 1, 0), (0, 1, 0), (1, 2, 2)]
                    for g in sg:
                        r.append(('types', (seq, ks, g)))
                K = [(1, 2), (3, 2), (1, 3)]
                pats = [(K[0],) + ks for ks in itertools.product(K, repeat=n - 1)]
                if n > 2 and not thorough:
                    pats = [pats[0], pats[1 + len(r) % 8]]
                for ks in pats:
                    r.append(('reductions', (seq, ks, (1,) * n)))
                if n > 1:
                    for ts in itertools.product((1, 2), repeat=n - 1):
                        if 2 in ts and (thorough or n == 2 or ts[0] == 2):
                            r.append(('reductions', (seq, (K[0],) * n, (1,) + ts)))
    return r


def run(c):
    c.rule('a lookup in the type database returns the definition made for the innermost scope around the step, for every order type of nested scopes and every order of definition')
    p = c.prog()
    thorough = c.tier == 'thorough'
    cs = cases(thorough)
    global JOB, START
    START = time.time()
    budget = 650 if thorough else 300
    # sequences with a common prefix belong together
    groups = {}
    for k, args in cs:
        groups.setdefault((k, tuple(args[0][:2])), []).append((k, args))
    jobs = sorted(groups.values(), key=len, reverse=True)
    JOB = (p, jobs, budget)
    sys.setrecursionlimit(20000)
    und, n, bad = {}, 0, {}
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        fs = [pool.submit(job, i) for i in range(len(jobs))]
        for f in fs:
            try:
                b, u, m = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und[('process', 'ended')] = und.get(('process', 'ended'), 0) + 1
                continue
            n += m
            for k, msg in b:
                bad.setdefault(k, []).append(msg)
            for k, x in u.items():
                und[k] = und.get(k, 0) + x
    c.count('lookups and definitions compared', n)
    for k in ('objects', 'types', 'reductions'):
        c.count('sequences of definitions of %s' % k, sum(1 for q, _ in cs if q == k))
    loc = {'object': 'getObjectInstance', 'type': 'getTypes', 'duplicate': 'defineType', 'reduction': 'getReductions', 'tree': 'getObjectInstanceTree', 'equal': 'defineReduction', 'definition': 'defineType'}
    for k, l in sorted(bad.items()):
        a = Api(p)
        f = (a.m.get(loc.get(k.split(' ')[0].rstrip('s:'), 'getObjectInstance')) or [None])[0]
        l.sort(key=lambda m: (len(m), m))
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/typedb.cpp', '%s%s' % (l[0], '; %d cases' % len(l) if len(l) > 1 else ''))
    for (w, u), x in sorted(und.items()):
        c.count('sequences not decided', x)
        c.ok('sequences not decided', '%s: %s (%d)' % (w, u, x))
