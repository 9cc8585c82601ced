"""C30: a call that ends in an error leaves the type database as it was"""
import itertools
import multiprocessing
import os
import concurrent.futures
import sys
import time
from facts import Broken
from dbeval import Api, Unknown, Thrown, INF
from c02 import reg_tables
from c16 import SETTER
import c32

PROP = {
    'title': 'A call refused with an error leaves the type database unchanged',
    'statement': 'If a definition (set_instance, def_type, def_reduction) is refused - because its scope overlaps others, a handle is invalid, a duplicate exists or an argument is wrong - every lookup of objects, types and reductions made with any scope and step '
    'returns the same as if the call had not been made, and later definitions have the same effect. A call of scope or step with a wrong argument leaves the current scope and step unchanged.',
    'over': ['histories', 'inputs'],
    'quant': 'every refused call in every state of the database',
    'why': 'Scripts catch errors with pcall and go on. Tests check that an error is raised, not what it has left behind.',
    'files': ['src/lualib_mewa.cpp', 'src/typedb.cpp', 'src/scope.hpp'],
    'mech': [('mewa_typedb_scope, mewa_typedb_step, mewa_typedb_set_instance, mewa_typedb_def_*', 'src/lualib_mewa.cpp'), ('TypeDatabase::define*', 'src/typedb.cpp'), ('ScopedInstance::set and others', 'src/scope.hpp')],
    'technique': 'order of effects on the control flow graph (no raising call after the first change of state) for the bindings; abstract interpretation of refused definitions over order types of scopes for the database',
    'level_note': 'Database: all order types of up to 2 definitions followed by one with any scope (3 when thorough), also partly overlapping, and definitions with invalid handles and duplicates. Bindings: all paths. Running out of memory is not covered. Handles of refused types are not reused, the numbers of later handles are not compared.',
    'design': 'Bindings: in every registered method that may set the current scope or step or calls a defining method of the database, no call that can raise an error other than being out of memory is reachable after the first of these on the control flow graph. '
    'Database: the evaluation of C32; each definition that ends with an exception or is refused by its result is followed by all lookups in the state left behind, compared with those in the state before, and by another definition and the same lookups.'}


class Check:
    def __init__(self, p):
        self.a = Api(p)
        self.p = p
        self.bad = []
        self.n = self.refused = 0

    def report(self, key, msg):
        self.bad.append((key, msg))

    def base(self):
        a = self.a
        s = a.new()
        for i in range(2):
            h, s = a.def_type(s, (0, INF), 0, 'base%d' % i, 0, [])
        return s

    def look(self, s, seq, kind):
        a = self.a
        r = []
        for x in c32.steps(seq):
            if kind == 'objects':
                r.append(('the object at step %d' % x, a.get_object(s, 'x', x)))
            elif kind == 'types':
                for ctx in (0, 1):
                    r.append(('the types at step %d' % x, [self.canon(h) for h in a.resolve(s, x, ctx, 'x')[2]]))
            else:
                r.append(('the reductions at step %d' % x, sorted(a.get_redus(s, x, 1, (1, 2), (2,)))))
        for sc in sorted(set(seq)):
            if kind == 'objects':
                r.append(('the object of the scope %s' % c32.say([sc]), a.get_object_of(s, 'x', sc)))
            elif kind == 'types':
                r.append(('the types of the scope %s' % c32.say([sc]), [self.canon(h) for h in a.get_types(s, sc, 0, 'x')]))
        return r

    def canon(self, h):
        return self.handle.get(h, h)

    def define(self, s, kind, sc, j, bad=None):
        """(state, refused)"""
        a = self.a
        try:
            if kind == 'objects':
                return a.set_object(s, 'x', sc, j + 1), False
            if kind == 'types':
                ctx, par = {None: (0, []), 'context': (99, []), 'parameter': (0, [(1, 80), (99, 81)]), 'duplicate': (0, [])}[bad]
                h, t = a.def_type(s, sc, ctx, 'x', 40 + j, par)
                if h > 0:
                    self.handle[h] = 'definition %d' % (j + 1)
                return t, h <= 0
            to, fr, tag = {None: (2, 1, 1), 'to': (99, 1, 1), 'from': (2, 99, 1), 'from nothing': (2, 0, 1), 'itself': (1, 1, 1), 'duplicate': (2, 1, 1)}[bad]
            return a.def_redu(s, sc, to, fr, 50 + j, tag, 0.5 + j), False
        except Thrown as t:
            return self.a.e.prune(t.o.state.copy(), [('DB',)]), True

    def case(self, kind, seq, bad):
        self.handle = {}
        s = self.base()
        for j, sc in enumerate(seq[:-1]):
            s, ref = self.define(s, kind, sc, j)
            if ref:
                return
        t, ref = self.define(s, kind, seq[-1], len(seq) - 1, bad)
        self.n += 1
        if not ref:
            return
        self.refused += 1
        what = '%s defined with the scopes %s, then one with %s refused%s: ' % (kind, c32.say(seq[:-1]) or 'none', c32.say(seq[-1:]), ' (%s)' % bad if bad else '')
        x, y = self.look(s, seq, kind), self.look(t, seq, kind)
        for (n, u), (_, v) in zip(x, y):
            if u != v:
                self.report('refused definition of %s' % kind, what + '%s: %s, before %s' % (n, v, u))
                return
        after = [(0, INF), seq[0], (seq[0][0], INF)]
        for sc in after[:2]:
            h = dict(self.handle)
            s2, r1 = self.define(s, kind, sc, 7)
            x = self.look(s2, seq, kind)
            self.handle = h
            t2, r2 = self.define(t, kind, sc, 7)
            y = self.look(t2, seq, kind)
            if r1 != r2:
                self.report('definition after a refused one of %s' % kind, what + 'after that a definition with the scope %s is %s' % (c32.say([sc]), 'refused' if r2 else 'accepted, without the refused one it is not'))
                return
            for (n, u), (_, v) in zip(x, y):
                if u != v:
                    self.report('definition after a refused one of %s' % kind, what + 'after that and a definition with the scope %s, %s: %s instead of %s' % (c32.say([sc]), n, v, u))
                    return


def sequences(n):
    r = set()
    for s in (c32.families(n - 1) if n > 1 else [()]):
        m = len({x for a in s for x in a})
        base = [(2 * a, 2 * b) for a, b in s]
        for a, b in itertools.combinations(range(-3, 2 * m + 2), 2):
            r.add(c32.canon(base + [(a, b)]))
    return sorted(r)


def cases(thorough):
    r = []
    for n in range(1, 5 if thorough else 4):
        for q in sequences(n):
            seq = c32.place(q, False)
            over = not c32.laminar(seq)
            dup = seq[-1] in seq[:-1]
            for kind, bads in (('objects', ()), ('types', ('context', 'parameter')), ('reductions', ('to', 'from', 'from nothing', 'itself'))):
                if (over or n < 3) and (n < 4 or kind == 'objects'):
                    r.append((kind, seq, None))
                if n <= 2:
                    for b in bads:
                        r.append((kind, seq, b))
                if dup and n < 4 and kind != 'objects':
                    r.append((kind, seq, 'duplicate'))
    return r


JOB = None
START = 0.0


def job(i):
    p, jobs, budget = JOB
    c = Check(p)
    und = {}
    for cs in jobs[i]:
        if time.time() - START > budget:
            und['cases left out because of the time limit'] = und.get('cases left out because of the time limit', 0) + 1
            continue
        try:
            c.case(*cs)
        except (Unknown, Broken) as b:
            und[str(b)] = und.get(str(b), 0) + 1
        except Thrown as t:
            c.report('lookup after a refused definition', 'scopes %s: a lookup ends with the exception at %s' % (c32.say(cs[1]), t.o.fn.loc(t.o.node)))
        except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as b:
            und[type(b).__name__] = und.get(type(b).__name__, 0) + 1
        if c.a.e.lost:
            del c.a.e.lost[:]
    return c.bad, und, c.n, c.refused


# ------------------------------------------------------------------ bindings
OOM = ('luaL_checkstack',)
RAISE = ('luaL_error', 'lua_error', 'luaL_argerror', 'lua_call', 'lua_callk', 'lua_callmeta')


def raising(p):
    """functions that can raise an error other than being out of memory, with a witness"""
    r = {}
    for f in p.fns.values():
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'CXXThrowExpr' and nd.get('c') and 'bad_alloc' not in nd.get('ct', '') + str(f.nodes[nd['c'][0]].get('t', '')):
                r.setdefault(f.key, (f, i))
    def direct(qn):
        return qn in RAISE or qn.startswith(('luaL_check', 'luaL_opt')) and qn not in OOM
    for f in p.fns.values():
        for i, k, nd in p.call_sites(f):
            if direct(nd.get('qn') or ''):
                r.setdefault(f.key, (f, i))
    ch = True
    while ch:
        ch = False
        for f in p.fns.values():
            if f.key in r:
                continue
            for i, k, nd in p.call_sites(f):
                if k and any(g.key in r for g in p.targets(k)) and nd['k'] not in ('LambdaExpr',):
                    r[f.key] = (f, i); ch = True
                    break
    return r, direct


def order(c, p):
    R, direct = raising(p)
    db = 'mewa::TypeDatabase'
    for var, l in reg_tables(p).items():
        names = {n for n, k in l}
        if not {'def_type', 'get_reduction'} <= names:
            continue
        for n, key in l:
            f = p.fns.get(key)
            if not f or n.startswith('__') or n not in set(SETTER) | {'scope', 'step'} or not f.blocks:
                continue
            eff, risk = {}, {}
            pos = {}
            for b, bl in f.blocks.items():
                for j, e in enumerate(bl['e']):
                    for x in ([e] if isinstance(e, int) else [e.get('s')] if isinstance(e, dict) and 's' in e else []):
                        pos.setdefault(x, (b, j))
            for i in f.walk():
                nd = f.nodes[i]
                if nd['k'] in ('BinaryOperator', 'CompoundAssignOperator') and (nd.get('op') or '').endswith('=') and nd.get('op') not in ('==', '!=', '<=', '>='):
                    if userdata(f, nd['c'][0]):
                        eff[i] = f.path(nd['c'][0])
                elif nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=' and len(f.args(i)):
                    o = f.args(i)[0] if len(f.args(i)) > 1 else f.obj(i)
                    if o is not None and userdata(f, o):
                        eff[i] = f.path(o)
                elif nd['k'] == 'UnaryOperator' and nd.get('op') in ('++', '--') and userdata(f, nd['c'][0]):
                    eff[i] = f.path(nd['c'][0])
            for i, k, nd in p.call_sites(f):
                t = p.targets(k) if k else []
                if any(g.cls == db and not g.d.get('const') for g in t):
                    eff[i] = t[0].qn
                    continue
                if direct(nd.get('qn') or '') or any(g.key in R and not stackcheck(g) for g in t):
                    risk[i] = nd.get('qn') or (t[0].qn if t else '?')
            if not eff:
                c.count('methods without change of state')
                continue
            bad = False
            for i, what in sorted(eff.items()):
                for j, q in sorted(risk.items()):
                    if i == j or i in f.ancestors(j) or incatch(f, j):
                        continue
                    if after(f, pos, i, j):
                        bad = True
                        c.violate('%s: %s after a change' % (n, q), f.loc(j), 'typedb:%s changes the state (%s, line %s) before the call of %s that can raise an error' % (n, what, f.loc(i).split(':')[-1], q))
            if not bad:
                c.ok('methods that change the state after the last possible error', '%s (%d changes, %d calls that can raise)' % (n, len(eff), len(risk)))


def stackcheck(g):
    return any(f is not None for f in [g]) and g.name.lower().startswith('checkstack')


def incatch(f, j):
    return any(f.nodes[a]['k'] == 'CXXCatchStmt' for a in f.ancestors(j))


def userdata(f, i):
    """an access to a member of an object passed by Lua"""
    i = f.strip(i, True)
    nd = f.nodes[i]
    while nd['k'] == 'MemberExpr' and nd.get('c'):
        b = f.strip(nd['c'][0], True)
        t = f.nodes[b].get('t', '')
        if 'userdata' in t or 'userdata' in f.nodes[b].get('ct', ''):
            return True
        i, nd = b, f.nodes[b]
    return False


def position(f, pos, i):
    while i is not None:
        if i in pos:
            return pos[i]
        i = f.parents.get(i) if isinstance(f.parents, dict) else f.parents[i]
    return None


def after(f, pos, i, j):
    """is j reachable after i"""
    a, b = position(f, pos, i), position(f, pos, j)
    if a is None or b is None:
        return False
    if a[0] == b[0] and b[1] > a[1]:
        return True
    st = [s for s in f.blocks[a[0]]['s'] if s is not None]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or x not in f.blocks:
            continue
        seen.add(x)
        if x == b[0]:
            return True
        st += [s for s in f.blocks[x]['s'] if s is not None]
    return False


def run(c):
    c.rule('no call that can raise an error follows the first change of state in a binding; a definition refused by the database leaves all lookups as they were, for every order type of scopes')
    p = c.prog()
    thorough = c.tier == 'thorough'
    order(c, p)
    cs = cases(thorough)
    global JOB, START
    START = time.time()
    size = max(1, len(cs) // 40)
    jobs = [cs[i:i + size] for i in range(0, len(cs), size)]
    JOB = (p, jobs, 650 if thorough else 300)
    sys.setrecursionlimit(20000)
    und, n, ref, bad = {}, 0, 0, {}
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for f in [pool.submit(job, i) for i in range(len(jobs))]:
            try:
                b, u, m, k = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                und['process ended'] = und.get('process ended', 0) + 1
                continue
            n += m; ref += k
            for q, msg in b:
                bad.setdefault(q, []).append(msg)
            for q, x in u.items():
                und[q] = und.get(q, 0) + x
    c.count('definitions evaluated', n)
    c.count('of these refused', ref)
    a = Api(p)
    for k, l in sorted(bad.items()):
        m = 'setObjectInstance' if 'objects' in k else 'defineReduction' if 'reductions' in k else 'defineType'
        f = (a.m.get(m) or [None])[0]
        l.sort(key=lambda m: (len(m), m))
        c.violate(k, '%s:%d' % (f.file, f.line) if f else 'src/typedb.cpp', '%s%s' % (l[0], '; %d cases' % len(l) if len(l) > 1 else ''))
    for u, x in sorted(und.items()):
        c.count('cases not decided', x)
        c.ok('cases not decided', '%s (%d)' % (u, x))
