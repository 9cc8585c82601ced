"""C37: the trees of types and reductions have every definition in the node of its scope"""
import itertools
import multiprocessing
import os
import concurrent.futures
import sys
import time
from facts import Broken
from dbeval import Api, Unknown, Thrown, INF
import c32

PROP = {
    'title': 'The trees of types and reductions show every definition at its scope',
    'statement': 'The tree returned by type_tree has, for every scope with a type defined, one node with exactly the types defined in this scope, all with the same name included; the tree returned by reduction_tree the same for reductions with their types, constructor, tag and weight. '
    'A node is a descendant of exactly the nodes of the scopes around its own, the root is the unlimited scope. This holds for every order of definition.',
    'over': ['histories'],
    'quant': 'every sequence of definitions with nested or disjoint scopes',
    'why': 'One test prints the tree of one sequence of definitions; overloads, scopes with common ends and the order of definition are not varied.',
    'files': ['src/scope.hpp', 'src/typedb.cpp', 'src/tree.hpp'],
    'mech': [('TypeDatabase::getTypeDefinitionTree, TypeDatabase::getReductionDefinitionTree', 'src/typedb.cpp'), ('ScopeHierarchyTreeBuilder, ScopeListMap, getTree', 'src/scope.hpp'), ('Tree', 'src/tree.hpp')],
    'technique': 'abstract interpretation of the type database with the positions of scopes as elements of an order, over all order types of definitions up to a bound',
    'level_note': 'As for C32: order types of up to 3 definitions (4 when thorough, for one pattern of names), up to three names or pairs of types. The bindings walking through the trees are part of C28.',
    'design': 'The evaluation of C32. For each sequence of definitions of types (same and different names, different numbers of parameters) and reductions (same and different types and tags) the tree is evaluated and compared with the one computed from the sequence.'}


class Check:
    def __init__(self, p):
        self.a = Api(p)
        self.cache = {}
        self.bad = []
        self.n = 0

    def report(self, key, msg):
        self.bad.append((key, msg))

    def state(self, k, mk):
        if k not in self.cache:
            if len(self.cache) > 300:
                self.cache.clear()
            self.cache[k] = mk()
        return self.cache[k]

    def base(self, n):
        s = self.a.new()
        for i in range(n):
            h, s = self.a.def_type(s, (0, INF), 0, 'base%d' % i, 0, [])
        return s

    def compare(self, what, key, want, got):
        """scope -> definitions"""
        self.n += 1
        root = (0, INF)
        g = {}
        for sc, l, par in got:
            if sc in g:
                return self.report(key, '%s: the scope %s has two nodes' % (what, c32.say([sc])))
            g[sc] = (sorted(l), par)
        if root not in g:
            return self.report(key, what + ': no node of the unlimited scope')
        for sc in sorted(set(want) | set(g)):
            w = sorted(want.get(sc, ()))
            if sc not in g:
                return self.report(key, '%s: the scope %s is missing in the tree' % (what, c32.say([sc])))
            if sc not in want and sc != root:
                return self.report(key, '%s: the tree has a node for the scope %s without definitions' % (what, c32.say([sc])))
            if g[sc][0] != w:
                return self.report(key, '%s: the node of the scope %s has %s instead of %s' % (what, c32.say([sc]), g[sc][0], w))
            if sc != root and g[sc][1] != c32.Check.parent(list(want), sc):
                return self.report(key + ': hierarchy', '%s: the node of the scope %s is a child of %s instead of %s' % (what, c32.say([sc]), c32.say([g[sc][1]]), c32.say([c32.Check.parent(list(want), sc)])))

    def types(self, seq, keys, sigs):
        s = self.state(('t',), lambda: self.base(2))
        want = {(0, INF): [1, 2]}
        for j, (sc, k, g) in enumerate(zip(seq, keys, sigs)):
            h, s = self.state(('t', tuple(zip(seq, keys, sigs))[:j + 1]), lambda: self.a.def_type(s, sc, k[0], k[1], 40 + j, [(1, 90)] * g))
            if h > 0:
                want.setdefault(sc, []).append(h)
        self.compare('types named %s with the numbers of parameters %s defined with the scopes %s' % (', '.join(k[1] for k in keys), list(sigs), c32.say(seq)), 'tree of types', want, self.a.type_tree(s))

    def reductions(self, seq, keys, tags):
        s = self.state(('r',), lambda: self.base(3))
        want = {}
        for j, (sc, (to, fr), tag) in enumerate(zip(seq, keys, tags)):
            if any(q[:2] == (to, fr) and q[3] == tag for q in want.get(sc, ())):
                return
            s0 = s
            s = self.state(('r', tuple(zip(seq, keys, tags))[:j + 1]), lambda: self.a.def_redu(s0, sc, to, fr, 50 + j, tag, 0.5 + j))
            want.setdefault(sc, []).append((to, fr, 50 + j, tag, 0.5 + j))
        self.compare('reductions (to, from) %s with the tags %s defined with the scopes %s' % (', '.join(map(str, keys)), list(tags), c32.say(seq)), 'tree of reductions', want, self.a.redu_tree(s))


def cases(thorough):
    r = []
    K = [(0, 'x'), (0, 'y'), (1, 'x')]
    R = [(1, 2), (3, 2), (1, 3)]
    for n in range(1, 5 if thorough else 4):
        for q in c32.families(n):
            for ends in (False, True):
                if n == 4 and ends:
                    continue
                seq = c32.place(q, ends)
                pats = [(0,) * n, tuple(j % 2 for j in range(n)), tuple(range(n)) if n <= 3 else (0, 1, 2, 0)] + ([(0, 0, 1), (0, 1, 1)] if n == 3 else [])
                if n == 3 and not thorough:
                    pats = pats[:1] if ends else pats[:2]
                sg = {(0,) * n, tuple(range(n))}
                for pi in pats if n < 4 else pats[:2]:
                    for g in sorted(sg) if len(set(seq)) < n or thorough or n < 3 else [(0,) * n]:
                        r.append(('types', seq, tuple(K[j] for j in pi), g))
                    for t in sorted({(1,) * n, tuple(1 + j % 2 for j in range(n))}) if n < 4 else [(1,) * n]:
                        r.append(('reductions', seq, tuple(R[j] for j in pi), t))
    return r


JOB = None
START = 0.0


def job(i):
    p, jobs, budget = JOB
    c = Check(p)
    und = {}
    for cs in jobs[i]:
        if time.time() - START > budget:
            und['cases left out because of the time limit'] = und.get('cases left out because of the time limit', 0) + 1
            continue
        try:
            getattr(c, cs[0])(*cs[1:])
        except (Unknown, Broken) as b:
            und[str(b)] = und.get(str(b), 0) + 1
        except Thrown as t:
            c.report('error', '%s defined with the scopes %s: the evaluation ends with the exception at %s' % (cs[0], c32.say(cs[1]), t.o.fn.loc(t.o.node)))
        except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as b:
            und[type(b).__name__] = und.get(type(b).__name__, 0) + 1
        if c.a.e.lost:
            del c.a.e.lost[:]
    return c.bad, und, c.n


def run(c):
    c.rule('the tree of types and the tree of reductions have every definition in the one node of its scope, nodes are nested like the scopes, for every order type of scopes and order of definition')
    p = c.prog()
    thorough = c.tier == 'thorough'
    cs = cases(thorough)
    global JOB, START
    START = time.time()
    size = max(1, len(cs) // 48)
    jobs = [cs[i:i + size] for i in range(0, len(cs), size)]
    JOB = (p, jobs, 650 if thorough else 300)
    sys.setrecursionlimit(20000)
    und, n, bad = {}, 0, {}
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for f in [pool.submit(job, i) for i in range(len(jobs))]:
            try:
                b, u, m = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und['process ended'] = und.get('process ended', 0) + 1
                continue
            n += m
            for k, msg in b:
                bad.setdefault(k, []).append(msg)
            for k, x in u.items():
                und[k] = und.get(k, 0) + x
    c.count('trees compared', n)
    a = Api(p)
    for k, l in sorted(bad.items()):
        f = (a.m.get('getReductionDefinitionTree' if 'reductions' in k else 'getTypeDefinitionTree') or [None])[0]
        l.sort(key=lambda m: (len(m), m))
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/typedb.cpp', '%s%s' % (l[0], '; %d cases' % len(l) if len(l) > 1 else ''))
    for u, x in sorted(und.items()):
        c.count('cases not decided', x)
        c.ok('cases not decided', '%s (%d)' % (u, x))
