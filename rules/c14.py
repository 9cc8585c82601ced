"""C14: copying, moving and assigning an object transfers every member from its counterpart."""
import re
import fieldinit, flow
from facts import CALLS, CTORS

PROP = {
    'title': 'Copying, moving or assigning an object transfers all of it',
    'statement': 'Every copy constructor, move constructor, copy assignment and move assignment written in the library transfers every member (and the base class part) from the same member of the source object, '
                 'on every path, leaving nothing of the previous value in the assigned object, and assignments return the object assigned to. '
                 'A copied scope, lexem, production, state, action, error or definition is therefore indistinguishable from the original.',
    'over': ['inputs'],
    'quant': 'every copy/move constructor and assignment operator, every member of its class',
    'why': 'Copies happen inside containers and sorting at times tests do not control; a forgotten or exchanged member shows only for objects where it has an unusual value.',
    'files': ['src/automaton.hpp', 'src/automaton_structs.hpp', 'src/error.hpp', 'src/scope.hpp', 'src/lexer.hpp', 'src/typedb.hpp', 'src/identmap.hpp'],
    'mech': [('memberwise copy constructors and assignments', 'src/automaton_structs.hpp'), ('memberwise copy constructors and assignments', 'src/lexer.hpp')],
    'technique': 'member-flow dataflow over initialisation lists and CFG (must-touch on every path, provenance of every member)',
    'design': 'Provenance of each member at the exit of each special member function, on all paths; self assignment paths are exempt.',
    'level_note': 'Every user written special member function is decided; those of template instances not generated by the library are not seen; members filled element by element in loops are checked for provenance only.',
}

COPY = ('copyctor', 'movector', 'copyassign', 'moveassign')


def accessors(p, cls):
    """method name -> field returned"""
    r = {}
    for f in p.fns.values():
        if f.cls == cls and not f.params:
            rets = [i for i in f.walk() if f.nodes[i]['k'] == 'ReturnStmt' and f.kids(i)]
            if len(rets) == 1:
                q = f.path(f.kids(rets[0])[0])
                if q.startswith('this.') and '.' not in q[5:]:
                    r.setdefault(f.name, q[5:].split('(')[0].split('[')[0])
                    m = re.match(r'this\.(\w+)$', q)
                    if m:
                        r[f.name] = m.group(1)
    return r


def may_assign(p, g, seen=None):
    """members of *this a method may write"""
    seen = set() if seen is None else seen
    if g.key in seen:
        return set()
    seen.add(g.key)
    r = set()
    for i in g.walk():
        nd = g.nodes[i]
        x = None
        if nd['k'] in ('BinaryOperator', 'CompoundAssignOperator') and nd['op'].endswith('=') and nd['op'] not in ('==', '!=', '<=', '>='):
            x = nd['c'][0]
        elif nd['k'] in CALLS and g.obj(i) >= 0 and not nd.get('cm'):
            x = g.obj(i)
            if g.path(x) in ('this', '*this'):
                for h in p.targets(nd.get('fn')) if nd.get('fn') else ():
                    r |= may_assign(p, h, seen)
                continue
        elif nd['k'] in CALLS and g.args(i):
            x = g.args(i)[0]
        if x is not None:
            m = re.match(r'[&*]?this\.(\w+)', g.path(x))
            if m:
                r.add(m.group(1))
    return r


class Flow:
    def __init__(self, p, f):
        self.p = p; self.f = f
        self.acc = accessors(p, f.cls)
        self.o = f.params[0]['v']
        self.locs = {}
        for i in f.walk():
            for v in f.nodes[i].get('vars', ()):
                if v['init'] >= 0:
                    self.locs.setdefault(v['v'], []).append(v['init'])
            nd = f.nodes[i]
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                q = f.path(nd['c'][0])
                if q.startswith('L:') and '.' not in q and q != self.o:
                    self.locs.setdefault(q, []).append(nd['c'][1])

    def sources(self, i, seen=()):
        """members of the source object an expression reads; '*' for the object as a whole"""
        r = set()
        f = self.f
        for x in f.walk(i):
            nd = f.nodes[x]
            if nd['k'] == 'MemberExpr' and nd.get('c') and f.path(nd['c'][0]) == self.o:
                n = nd.get('n') or nd.get('qn', '?').split('::')[-1]
                n = n.split('(')[0]
                r.add(self.acc.get(n, n))
            elif nd['k'] == 'DeclRefExpr':
                v = nd.get('v')
                if v == self.o:
                    # as a whole when it is not the object of a member access
                    y = x
                    while True:
                        par = f.parents.get(y)
                        if par is None:
                            r.add('*'); break
                        k = f.nodes[par]['k']
                        if k == 'MemberExpr':
                            break
                        if k in ('ImplicitCastExpr', 'ParenExpr'):
                            y = par; continue
                        r.add('*'); break
                elif v in self.locs and v not in seen:
                    for e in self.locs[v]:
                        r |= self.sources(e, seen + (v,))
        return r

    def touched(self, i):
        """[(member or '#base' or '*', source nodes)] of one evaluated node"""
        f = self.f; nd = f.nodes[i]; k = nd['k']
        out = []

        def member(x):
            q = f.path(x)
            if q.startswith('&') or q.startswith('*'):
                q = q[1:]
            m = re.match(r'this\.(\w+)', q)
            if m:
                return m.group(1)
            if q in ('this', '*this'):
                return '*'
            return None
        if k in ('BinaryOperator', 'CompoundAssignOperator') and nd['op'].endswith('=') and nd['op'] not in ('==', '!=', '<=', '>='):
            n = member(nd['c'][0])
            if n:
                out.append((n, [nd['c'][1]]))
        elif k in CALLS:
            ob = f.obj(i)
            a = f.args(i)
            if ob >= 0:
                n = member(ob)
                nm = nd.get('qn', '').split('::')[-1]
                if n and not nd.get('cm'):
                    if n == '*':
                        cq = (nd.get('cls') or '')
                        n = '*' if cq == f.cls else '#base'
                        if n == '*' and not any('*' in self.sources(x) for x in a):
                            for g in self.p.targets(nd.get('fn')) if nd.get('fn') else ():
                                for m in may_assign(self.p, g):
                                    out.append((m, a))
                            return out
                    out.append((n, a))
                elif f.path(ob) == self.o and nm == 'swap' and a:
                    n = member(a[0])
                    if n:
                        out.append((n, [ob]))
                elif nm == 'swap' and a and member(a[0]):
                    out.append((member(a[0]), [ob]))
            elif a:
                n = member(a[0])
                base = nd.get('qn', '').split('<')[0].split('::')[-1]
                if n and base in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'copy', 'snprintf', 'memset', 'swap', 'exchange'):
                    out.append((n, a[1:]))
                elif base == 'swap' and len(a) == 2 and member(a[1]):
                    out.append((member(a[1]), [a[0]]))
                elif base in ('copy', 'copy_n', 'move') and len(a) >= 3 and member(a[-1]):
                    out.append((member(a[-1]), a[:-1]))
        return out


def inloop(f, i):
    return any(f.nodes[a]['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') for a in f.ancestors(i))


def run(c):
    c.rule('for every user written copy/move constructor and assignment: each member is written on every path, from an expression reading the same member of the source, and from no other member of it; assignments return *this')
    p = c.prog()
    nr = flow.NR.of(p)
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.d.get('sp') not in COPY or f.d.get('dflt') or not f.cls or f.cls not in p.recs:
            continue
        sp = f.d['sp']
        F = Flow(p, f)
        rec = p.rec_of(f)
        if rec is None:
            continue
        fields = [x['n'] for x in rec['fields'] if x['n']]
        bases = [b for b in rec.get('bases', ()) if not (b in p.recs and not p.recs[b]['fields'] and not p.recs[b].get('bases'))]
        targets = fields + (['#base'] if bases else [])
        src = {}; touch0 = set()
        for it in f.inits:
            if it['e'] < 0:
                continue
            if it.get('f'):
                n = it['f'].split('::')[-1]
            elif it.get('base'):
                n = '#base'
            else:
                n = '*'          # delegating constructor
            s = F.sources(it['e'])
            src.setdefault(n, set()).update(s)
            if it.get('w') or n != '#base':
                touch0.add(n)
        effects = {}
        whole = False
        for i in f.walk(f.body) if f.body >= 0 else ():
            for n, es in F.touched(i):
                effects.setdefault(i, []).append(n)
                s = set()
                for e in es:
                    s |= F.sources(e)
                src.setdefault(n, set()).update(s)
        must = None
        if f.blocks:
            loopn = set()
            for i, ns in effects.items():
                if inloop(f, i):
                    loopn.update(ns)

            def transfer(s, el):
                if not isinstance(el, int):
                    return s
                nd = f.nodes[el]
                if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr:
                    return None
                e = effects.get(el)
                return s | frozenset(e) if e else s

            def edge(s, blk, k):
                t = blk.get('term')
                if t is not None and f.nodes[t]['k'] == 'CXXTryStmt' and blk['s'][k] == f.exit:
                    return None
                cond = blk.get('cond')
                if cond is not None and len(blk['s']) == 2:
                    q = f.path(cond)
                    eq = re.match(r'\((.*)(==|!=)(.*)\)$', q)
                    if eq:
                        a, op, b = eq.groups()
                        same = {a, b} == {'this', '&' + F.o}
                        if not same:
                            # comparing a member with its counterpart: nothing to transfer when equal
                            ma = re.match(r'this\.(\w+)$', a); mb = re.match(re.escape(F.o) + r'\.(\w+)$', b)
                            if not ma:
                                ma = re.match(r'this\.(\w+)$', b); mb = re.match(re.escape(F.o) + r'\.(\w+)$', a)
                            if ma and mb and ma.group(1) == mb.group(1):
                                if (k == 0) == (op == '=='):
                                    return s | frozenset([ma.group(1)])
                        elif (k == 0) == (op == '=='):
                            return None
                return s
            st = flow.forward(f, frozenset(touch0 | loopn), transfer, edge=edge, join=lambda a, b: a & b)
            must = st.get(f.exit)
            if must is None:
                must = frozenset(['*'])
        else:
            must = frozenset(touch0)
        c.ok('copy and move operations decided', '%s %s (%s), %d members' % (f.loc(), f.qn, sp, len(targets)))
        if '*' in must:
            whole = src.get('*') or '*' not in src
            if whole:
                c.count('operations delegating to another one')
        for n in targets:
            c.ok('members checked', '%s <- %s' % (n, sorted(src.get(n, ()))))
            label = 'the base class part' if n == '#base' else 'member ' + n
            s = src.get(n, set())
            if '*' in must and whole and n not in src:
                continue
            if n not in src:
                c.violate('left out %s %s %s' % (f.qn, sp, n), f.loc(), '%s (%s) does not transfer %s' % (f.qn, sp, label))
            elif n == '#base' or '*' in s or n in s:
                other = s - {n, '*'} if n != '#base' else set()
                if n not in must and '*' not in must:
                    c.violate('conditional %s %s %s' % (f.qn, sp, n), f.loc(), '%s (%s) transfers %s only on some paths, on others the previous value stays' % (f.qn, sp, label))
                elif n == '#base' and not s:
                    c.violate('not from source %s %s %s' % (f.qn, sp, n), f.loc(), '%s (%s) does not transfer %s from the source object' % (f.qn, sp, label))
            elif s & set(fields):
                c.violate('exchanged %s %s %s' % (f.qn, sp, n), f.loc(), '%s (%s) takes %s from %s of the source object' % (f.qn, sp, label, ', '.join(sorted(s))))
            else:
                unresolved = any(x not in fields for x in s)
                if unresolved:
                    c.count('members transferred through a method of the source (not resolved)')
                else:
                    c.violate('not from source %s %s %s' % (f.qn, sp, n), f.loc(), '%s (%s) does not transfer %s from the source object' % (f.qn, sp, label))
        if sp.endswith('assign'):
            for i in f.walk():
                if f.nodes[i]['k'] == 'ReturnStmt' and f.kids(i):
                    q = f.path(f.kids(i)[0])
                    c.ok('assignments returning the object assigned to')
                    if q not in ('*this',) and q.lstrip('(') != '*this':
                        if f.nodes[f.strip(f.kids(i)[0], True)]['k'] in CALLS and '*this' in q or '.operator=' in q:
                            continue
                        c.violate('returns %s %s' % (f.qn, sp), f.loc(i), '%s (%s) returns %s instead of the object assigned to' % (f.qn, sp, q))
    c.floor('copy and move operations decided', 60)
    c.floor('members checked', 150)
