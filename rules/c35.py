"""C35: the search for reductions finds a path with minimal weight"""
import itertools
import multiprocessing
import os
import concurrent.futures
import time
import sys
from facts import Broken
from dbeval import Api, Unknown, Thrown, INF

PROP = {
    'title': 'Deriving and resolving types finds the cheapest path and reports ties',
    'statement': 'deriveType returns a sequence of reductions visible at the step and selected by the tags that leads from the source to the target type without visiting a type twice, with the smallest sum of weights of all such sequences '
    'having no more counted reductions than allowed, and this sum; if there is no such sequence the result is undefined. '
    'resolveType returns the same for the paths from one of the context types passed to a context that has a type with the name: the index of the context passed, the context found, all its types with the name visible in the innermost scope, and the path. '
    'A conflict is reported if and only if another sequence has the same minimal sum of weights.',
    'over': ['histories', 'requests'],
    'quant': 'every graph of reductions, every query',
    'why': 'Tests check fixed graphs and one random comparison; ties, cycles, limits of counted reductions and their combination with tags are rarely sampled.',
    'files': ['src/typedb.cpp', 'src/typedb.hpp', 'src/scope.hpp'],
    'mech': [('TypeDatabase::deriveType, TypeDatabase::resolveType, ReduStack, ReduQueueElem', 'src/typedb.cpp')],
    'technique': 'abstract interpretation of the type database over a finite domain of graphs and weights, compared with the set of all paths',
    'level_note': 'Weights from {0, 1, 2, 3}, so that their sums are exact; graphs with up to 4 types, tags from two classes, up to two context types, reductions of an inner scope. Bigger graphs and rounding of sums of weights are outside of the bound.',
    'design': 'The methods are evaluated like for C32, with a model of std::priority_queue ordered by the comparison of the elements in the code. For each graph of a finite family the result is compared with the set of all paths without repeated types calculated from the graph: '
    'defined, sum of weights, the path being one of the minimal paths, the conflict being another one. The family has all graphs of 3 types with weights from a small set, the acyclic ones with 4 types, all combinations of counted reductions on a smaller family with all limits, '
    'the combination with tags that are not selected and with reductions of an inner scope. For resolveType all sets of contexts that have the name and several lists of context types. What has no model is counted as not decided.'}


def paths(edges, start, goal):
    """all paths without repeated types: (weight, count, ((type, constructor)...))"""
    res = []

    def rec(at, seen, w, n, path):
        if goal(at):
            res.append((w, n, tuple(path)))
        for (f, t), (wt, ct, cn) in edges.items():
            if f == at and t not in seen:
                rec(t, seen | {t}, w + wt, n + ct, path + [(t, cn)])
    rec(start, {start}, 0, 0, [])
    return res


def text(edges):
    return ', '.join('%d->%d weight %s%s' % (f, t, w, ' counted' if c else '') for (f, t), (w, c, n) in sorted(edges.items())) or 'no reductions'


class Check:
    def __init__(self, p):
        self.a = Api(p)
        self.cache = {}
        self.bad = []
        self.n = 0

    def report(self, key, msg):
        self.bad.append((key, msg))

    def base(self, n):
        if ('b', n) not in self.cache:
            s = self.a.new()
            for i in range(n):
                h, s = self.a.def_type(s, (0, INF), 0, 't%d' % i, 0, [])
                if h != i + 1:
                    raise Unknown('handle of a type')
            self.cache[('b', n)] = s
        return self.cache[('b', n)]

    def graph(self, n, defs):
        """state with the definitions (scope, from, to, weight, tag)"""
        if not defs:
            return self.base(n)
        k = (n, defs)
        if k not in self.cache:
            if len(self.cache) > 600:
                b = self.cache.get(('b', n))
                self.cache.clear()
                if b is not None:
                    self.cache[('b', n)] = b
            s = self.graph(n, defs[:-1])
            sc, f, t, w, tag = defs[-1]
            self.cache[k] = self.a.def_redu(s, sc, t, f, 100 + len(defs), tag, float(w))
        return self.cache[k]

    @staticmethod
    def visible(defs, step, tags, counted):
        r = {}
        for i, (sc, f, t, w, tag) in enumerate(defs):
            if tag in tags and sc[0] <= step < sc[1]:
                if (f, t) not in r or r[(f, t)][3][0] < sc[0]:
                    r[(f, t)] = (w, int(tag in counted), 101 + i, sc)
        return {k: v[:3] for k, v in r.items()}

    def derive(self, n, defs, queries):
        s = self.graph(n, defs)
        for step, fr, to, tags, counted, maxc in queries:
            edges = self.visible(defs, step, tags, counted)
            ps = [q for q in paths(edges, fr, lambda x: x == to) if maxc < 0 or q[1] <= maxc]
            best = min((q[0] for q in ps), default=None)
            mins = {q[2] for q in ps if q[0] == best}
            d, path, w, conf = self.a.derive(s, step, to, fr, tags, counted, maxc)
            self.n += 1
            what = 'reductions %s, from %d to %d%s: ' % (text(edges), fr, to, '' if maxc < 0 else ', at most %d counted' % maxc)
            if bool(d) != bool(ps):
                self.report('derivation defined', what + ('no sequence of reductions found although %s is one' % (min(mins),) if ps else 'the sequence %s is returned although there is none' % (path,)))
                continue
            if not ps:
                continue
            if tuple(path) not in mins:
                self.report('derivation', what + 'the sequence of types %s is returned instead of %s' % ([q[0] for q in path], sorted([q[0] for q in m] for m in mins)))
            elif w != best:
                self.report('sum of weights', what + 'the sum of weights returned is %s instead of %s' % (w, best))
            others = {tuple(q[0] for q in m) for m in mins if m != tuple(path)}
            if bool(conf) != bool(others) or (conf and tuple(conf) not in others):
                self.report('conflict of derivations', what + ('the conflicting path %s is reported, %s' % (conf, 'others are %s' % sorted(others) if others else 'there is no other path with this weight') if conf else 'no conflict is reported although the path over the types %s has the same weight' % (min(others),)))

    def resolve(self, n, defs, having, contexts, tags):
        s = self.graph(n, defs)
        items = {}
        for j, ctx in enumerate(having):
            k = (n, defs, tuple(having[:j + 1]))
            if k not in self.cache:
                self.cache[k] = self.a.def_type(s, (0, INF), ctx, 'x', 0, [])
            h, s = self.cache[k]
            items[ctx] = h
        edges = self.visible(defs, 5, tags, ())
        allp = []
        for i, c in enumerate(contexts):
            if c in contexts[:i]:
                continue
            for w, _, q in paths(edges, c, lambda x: x in items):
                allp.append((w, i + 1, c, q))
        root, ctx, its, path, conf, w = self.a.resolve(s, 5, contexts[0] if len(contexts) == 1 else list(contexts), 'x', tags)
        self.n += 1
        what = 'reductions %s, contexts with the name %s, resolving from the contexts %s: ' % (text(edges), list(having), list(contexts))
        best = min((q[0] for q in allp), default=None)
        mins = [q for q in allp if q[0] == best]
        if bool(its) != bool(allp):
            self.report('resolution defined', what + ('nothing found although there is a path' if allp else 'the types %s are returned although there is no path' % its))
            return
        if not allp:
            return
        hit = [q for q in mins if q[1] == root and q[3] == tuple(path) and (q[3][-1][0] if q[3] else q[2]) == ctx]
        if not hit:
            self.report('resolution', what + 'the result is context %s over %s from the context number %s instead of one of %s' % (ctx, [q[0] for q in path], root, sorted((q[1], [x[0] for x in q[3]]) for q in mins)))
            return
        if its != [items[ctx]]:
            self.report('types of the resolution', what + 'the types returned are %s instead of %s' % (its, [items[ctx]]))
        if w != best:
            self.report('sum of weights', what + 'the sum of weights returned is %s instead of %s' % (w, best))
        if (conf >= 0) != (len(mins) > 1):
            self.report('conflict of resolutions', what + ('a conflict with context %s is reported' % conf if conf >= 0 else 'no conflict is reported although there is another path with the same weight'))


A = (0, INF)


def cases(thorough):
    r = []
    E3 = [(1, 2), (1, 3), (2, 3), (3, 2), (2, 1), (3, 1)]
    W = (None, 1, 2, 0) if thorough else (None, 1, 2)
    q3 = [(5, 1, 3, (1,), (), -1)]
    for ws in itertools.product(W, repeat=4):
        for back in itertools.product((None, 1), repeat=2):
            d = tuple((A, f, t, w, 1) for (f, t), w in zip(E3, ws + back) if w is not None)
            r.append(('derive', 3, d, q3 + ([(5, 1, 1, (1,), (), -1)] if not any(back) else [])))
    if not thorough:
        for ws in itertools.product((None, 0, 1), repeat=3):
            d = tuple((A, f, t, w, 1) for (f, t), w in zip(E3, ws) if w is not None)
            r.append(('derive', 3, d, q3))
    # cycles without weight
    for ws in itertools.product((None, 0, 1), repeat=3):
        for b in (((2, 1, 0),), ((2, 1, 0), (3, 2, 0)), ((3, 2, 0),)):
            d = tuple((A, f, t, w, 1) for (f, t), w in zip(E3, ws) if w is not None) + tuple((A, f, t, w, 1) for f, t, w in b)
            r.append(('derive', 3, d, q3))
    E4 = [(1, 2), (1, 3), (2, 4), (3, 4), (2, 3), (1, 4), (3, 2)]
    for ws in itertools.product((1, 2, 3) if thorough else (1, 2), repeat=4):
        for extra in itertools.product((None, 1, 3), (None, 2, 4), (None, 1)):
            d = tuple((A, f, t, w, 1) for (f, t), w in zip(E4, ws + extra) if w is not None)
            r.append(('derive', 4, d, [(5, 1, 4, (1,), (), -1)]))
            if thorough:
                r.append(('derive', 4, d[::-1], [(5, 1, 4, (1,), (), -1)]))
    # counted reductions
    dom = (None, (1, 1), (1, 2), (2, 1), (2, 2))
    for ws in itertools.product(dom, repeat=3):
        for w4 in ((None, (1, 2)) if not thorough else dom):
            d = tuple((A, f, t, w[0], w[1]) for (f, t), w in zip(E3, ws + (w4,)) if w is not None)
            if any(q[4] == 2 for q in d):
                r.append(('derive', 3, d, [(5, 1, 3, (1, 2), (2,), m) for m in (0, 1, 2, -1)] + [(5, 1, 3, (1,), (2,), 0)]))
    for tags in itertools.product((1, 2), repeat=4 if thorough else 3):
        for last in ((3, 4),) if not thorough else ((3, 4), (1, 4)):
            e = [(1, 2), (2, 3), last, (1, 3)]
            d = tuple((A, f, t, 1 if (f, t) != (1, 3) else 2, g) for (f, t), g in zip(e, tags))
            if 2 in tags:
                r.append(('derive', 4, d, [(5, 1, 4, (1, 2), (2,), m) for m in (0, 1, 2)]))
    # reductions of an inner scope, hiding and not selected
    dom = (None, (A, 1, 1), (A, 3, 1), ((4, 8), 1, 1), ((4, 8), 2, 2))
    for ws in itertools.product(dom, repeat=3):
        d = [(w[0], f, t, w[1], w[2]) for (f, t), w in zip(E3, ws) if w is not None]
        for hide in (None, (1, 2)) if thorough else ((1, 2),):
            x = d + ([((4, 8), 1, 2, 4, 1)] if hide and not any(q[1:3] == hide and q[0] != A for q in d) else [])
            r.append(('derive', 3, tuple(x), [(st, 1, 3, (1,), (), -1) for st in (2, 5)] + [(5, 1, 3, (1, 2), (2,), 1)]))
    # resolving
    for ws in itertools.product((None, 1, 2), repeat=4):
        d = tuple((A, f, t, w, 1) for (f, t), w in zip(E3, ws) if w is not None)
        for k in range(4):
            for having in itertools.combinations((1, 2, 3), k):
                for ctx in ((1,), (1, 2), (2, 1, 2)) if thorough else ((1,), (2, 1)):
                    r.append(('resolve', 3, d, having, ctx, (1,)))
    for having in ((0,), (0, 2), (0, 1), (0, 3), (2, 3)):
        for ctx in ((0,), (0, 1), (1, 0), (1, 1), (3, 1, 0), (1, 1, 0), (3, 3, 2)):
            for d in ((), ((A, 1, 2, 1, 1),), ((A, 1, 2, 1, 1), (A, 2, 3, 1, 1)), ((A, 1, 2, 1, 2), (A, 1, 3, 1, 1))):
                r.append(('resolve', 3, d, having, ctx, (1,)))
    return r


JOB = None
START = 0.0


def job(i):
    p, jobs, budget = JOB
    c = Check(p)
    und = {}
    for cs in jobs[i]:
        if time.time() - START > budget:
            und[('time', 'cases left out because of the time limit')] = und.get(('time', 'cases left out because of the time limit'), 0) + 1
            continue
        try:
            getattr(c, cs[0])(*cs[1:])
        except (Unknown, Broken) as b:
            und[(cs[0], str(b))] = und.get((cs[0], str(b)), 0) + 1
        except Thrown as t:
            c.report('%s: error' % cs[0], 'with %s the evaluation ends with the exception at %s' % (cs[2], t.o.fn.loc(t.o.node)))
        except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as b:
            und[(cs[0], type(b).__name__)] = und.get((cs[0], type(b).__name__), 0) + 1
        if c.a.e.lost:
            del c.a.e.lost[:]
    return c.bad, und, c.n


def run(c):
    c.rule('deriveType and resolveType return a path with the minimal sum of weights, and a conflict if and only if there is another one, for every graph of a finite family')
    p = c.prog()
    thorough = c.tier == 'thorough'
    cs = cases(thorough)
    global JOB, START
    START = time.time()
    # cases with a common beginning belong together
    cs.sort(key=lambda q: (q[0], q[1], str(q[2])))
    size = max(1, len(cs) // 48)
    jobs = [cs[i:i + size] for i in range(0, len(cs), size)]
    JOB = (p, jobs, 650 if thorough else 300)
    sys.setrecursionlimit(20000)
    und, n, bad = {}, 0, {}
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for f in [pool.submit(job, i) for i in range(len(jobs))]:
            try:
                b, u, m = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und[('process', 'ended')] = und.get(('process', 'ended'), 0) + 1
                continue
            n += m
            for k, msg in b:
                bad.setdefault(k, []).append(msg)
            for k, x in u.items():
                und[k] = und.get(k, 0) + x
    c.count('queries compared with the set of all paths', n)
    for k in ('derive', 'resolve'):
        c.count('graphs for %s' % k, sum(1 for q in cs if q[0] == k))
    a = Api(p)
    for k, l in sorted(bad.items()):
        f = ([f for f in a.m.get('resolveType' if 'resol' in k else 'deriveType', ())] or [None])[0]
        l.sort(key=lambda m: (len(m), m))
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/typedb.cpp', '%s%s' % (l[0], '; %d cases' % len(l) if len(l) > 1 else ''))
    for (w, u), x in sorted(und.items()):
        c.count('cases not decided', x)
        c.ok('cases not decided', '%s: %s (%d)' % (w, u, x))
