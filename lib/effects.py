"""Interprocedural effect summaries: which objects a function may modify, by the root they are reached from.

Roots: ('this', field) object the method is called on; ('p', k) what parameter k refers to; ('global', name); ('udata', field) an object
taken out of Lua userdata; objects created in the function itself are no roots. `field` is the first member on the way, None if the object itself."""
from facts import CALLS, CTORS
from cg import _last

STD_READ = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'data', 'get', 'operator*', 'operator->', 'operator[]', 'at', 'front', 'back', 'size', 'empty', 'count',
            'c_str', 'top', 'first', 'second', 'base', 'operator bool', 'str'}
ALGO_WRITE = {'sort', 'stable_sort', 'reverse', 'fill', 'swap', 'iter_swap', 'remove', 'remove_if', 'unique', 'iota', 'rotate', 'make_heap', 'push_heap', 'pop_heap', 'generate', 'partition'}
ALGO_DEST = {'transform', 'copy', 'move', 'copy_if', 'back_inserter', 'inserter', 'merge', 'set_union'}
C_READ = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strstr', 'memcmp', 'memchr', 'strrchr', 'printf', 'fprintf', 'fputs', 'puts', 'strerror'}
C_FIRST = {'memcpy', 'memmove', 'memset', 'snprintf', 'sprintf', 'vsnprintf', 'strcpy', 'strncpy', 'strcat', 'fread', 'strtol'}


def is_ref(t):
    return t.rstrip().endswith('&')


def const_pointee(t):
    t = t.strip()
    if t.endswith('&&'):
        t = t[:-2].strip()
    elif t.endswith('&'):
        t = t[:-1].strip()
        return t.startswith('const ') and not t.endswith('*') or t.endswith('const')
    while t.endswith('const') and '*' in t:
        t = t[:-5].strip()
    if t.endswith('*'):
        b = t[:-1].strip()
        return b.startswith('const ') and '*' not in b or b.endswith('const')
    return False


def indirect_type(t):
    """does a value of the type give access to something outside of it?"""
    t = t.strip()
    return t.endswith('*') or t.endswith('&') or t.endswith('* const') or 'iterator' in t or 'reference_wrapper' in t or t.startswith('std::shared_ptr')


class Effects:
    def __init__(self, p):
        self.p = p
        self.sum = {k: {} for k in p.fns}      # key -> {root: (fn, node, text)}
        self.vars = {}
        self._defs = {}
        self.dtors = {f.cls: f for f in p.fns.values() if f.name.startswith('~') and f.cls}
        self._solve()

    # ---- local definitions
    def defs(self, f):
        if f.key in self._defs:
            return self._defs[f.key]
        d = {}
        for k, q in enumerate(f.params):
            d[q['v']] = ('parm', k, q['t'], [])
        for i in f.walk():
            nd = f.nodes[i]
            for v in nd.get('vars', ()):
                d.setdefault(v['v'], ('local', None, v['t'] + ('&' if v.get('ref') and not v['t'].rstrip().endswith('&') else ''), []))[3].append(v['init'])
                for b in v.get('bind', ()):
                    d.setdefault(b[0], ('local', None, 'auto&', []))[3].append(v['init'])
            if nd['k'] == 'CXXForRangeStmt':
                pass
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                l = f.strip(nd['c'][0])
                if f.nodes[l]['k'] == 'DeclRefExpr' and f.nodes[l].get('v') in d:
                    d[f.nodes[l]['v']][3].append(nd['c'][1])
        self._defs[f.key] = d
        return d

    def ident(self, f, i, seen=()):
        """roots of the object an lvalue expression designates"""
        i = f.strip(i, True)
        if i < 0 or (i, 0) in seen:
            return set()
        seen = seen + ((i, 0),)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'CXXThisExpr':
            return {('this', None)}
        if k == 'DeclRefExpr':
            dk = nd.get('dk')
            if dk in ('global', 'slocal'):
                return {('global', nd.get('qn') or nd.get('v'))}
            d = self.defs(f).get(nd.get('v'))
            if not d:
                return set()
            if is_ref(d[2]):
                if d[0] == 'parm':
                    return {('p', d[1])}
                r = set()
                for x in d[3]:
                    r |= self.ident(f, x, seen)
                return r
            return {('local', nd.get('v'))}
        if k == 'MemberExpr':
            if nd.get('dk') == 'fn':
                return set()
            c = nd.get('c')
            if not c:
                return {('global', nd.get('qn'))} if nd.get('dk') in ('global', 'slocal') else {('this', nd.get('n'))}
            b = self.pointee(f, c[0], seen) if nd.get('arrow') else self.ident(f, c[0], seen)
            return {(r[0], nd.get('n')) if r[0] in ('this', 'udata') and r[1] is None else r for r in b}
        if k == 'UnaryOperator' and nd['op'] == '*':
            return self.pointee(f, nd['c'][0], seen)
        if k == 'UnaryOperator' and nd['op'] in ('++', '--'):
            return self.ident(f, nd['c'][0], seen)
        if k == 'ArraySubscriptExpr':
            a = nd['c'][0]
            return self.pointee(f, a, seen)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.ident(f, nd['c'][1] if nd['op'] == ',' else nd['c'][0], seen)
        if k == 'ConditionalOperator':
            return self.ident(f, nd['c'][1], seen) | self.ident(f, nd['c'][2], seen)
        if k in CALLS:
            return self.call_value(f, i, seen)
        return set()

    def pointee(self, f, i, seen=()):
        """roots of the object a pointer, iterator or reference valued expression gives access to"""
        i = f.strip(i, True)
        if i < 0 or (i, 1) in seen:
            return set()
        seen = seen + ((i, 1),)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'CXXThisExpr':
            return {('this', None)}
        if k == 'DeclRefExpr':
            dk = nd.get('dk')
            if dk in ('global', 'slocal'):
                return {('global', nd.get('qn') or nd.get('v'))}
            d = self.defs(f).get(nd.get('v'))
            if not d:
                return set()
            if d[0] == 'parm' and (indirect_type(d[2]) or not d[2].replace('const ', '').split('<')[0] in ()):
                return {('p', d[1])}
            r = set()
            if d[2].rstrip().endswith(']'):
                return {('local', nd.get('v'))}
            for x in d[3]:
                if x >= 0:
                    r |= self.pointee(f, x, seen)
            return r | {('local', nd.get('v'))}
        if k == 'UnaryOperator' and nd['op'] == '&':
            return self.ident(f, nd['c'][0], seen)
        if k == 'UnaryOperator':
            return self.pointee(f, nd['c'][0], seen)
        if k == 'MemberExpr':
            return self.ident(f, i, seen)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if nd['op'] == '=':
                return self.pointee(f, nd['c'][1], seen)
            if nd['op'] == ',':
                return self.pointee(f, nd['c'][1], seen)
            return self.pointee(f, nd['c'][0], seen) | self.pointee(f, nd['c'][1], seen)
        if k == 'ConditionalOperator':
            return self.pointee(f, nd['c'][1], seen) | self.pointee(f, nd['c'][2], seen)
        if k in CALLS:
            return self.call_value(f, i, seen)
        if k in CTORS:
            r = set()
            for a in f.args(i):
                if a >= 0:
                    r |= self.pointee(f, a, seen)
            return r
        if k == 'ArraySubscriptExpr' or k == 'CXXForRangeStmt':
            return self.ident(f, i, seen)
        return set()

    def call_value(self, f, i, seen):
        """what the result of a call gives access to"""
        nd = f.nodes[i]
        q = nd.get('qn') or ''
        if q in ('luaL_checkudata', 'lua_touserdata', 'luaL_testudata'):
            return {('udata', None)}
        if q in ('lua_newuserdata', 'malloc', 'calloc', 'std::malloc', 'aligned_alloc'):
            return {('local', 'new')}
        t = nd.get('t', '')
        if not (nd.get('lv') or indirect_type(t) or t.startswith('std::pair') or 'string_view' in t):
            return {('local', 'tmp')}
        r = set()
        o = f.obj(i)
        if o >= 0:
            on = f.nodes[f.strip(o, True)]
            m = f.strip(nd['c'][0]) if nd['k'] == 'CXXMemberCallExpr' else -1
            arrow = m >= 0 and f.nodes[m].get('arrow')
            r |= self.pointee(f, o, seen) if arrow else self.ident(f, o, seen)
            if not arrow and on['k'] == 'DeclRefExpr':
                # operators of iterators and smart pointers lead to what they refer to
                x = self.pointee(f, o, seen)
                r |= {z for z in x if z[0] != 'local'}
        elif nd['k'] == 'CXXMemberCallExpr':
            r.add(('this', None))
        for a in f.args(i):
            if a >= 0 and (f.nodes[a].get('lv') or indirect_type(f.nodes[a].get('t', ''))) and 'lua_State' not in f.nodes[a].get('t', ''):
                r |= self.pointee(f, a, seen) if not f.nodes[a].get('lv') else self.ident(f, a, seen) | (self.pointee(f, a, seen) if indirect_type(f.nodes[a].get('t', '')) else set())
        return r

    # ---- effects
    def _writes(self, f):
        out = {}

        def add(roots, i, what):
            for r in roots:
                if r[0] != 'local' and r not in out:
                    out[r] = (f, i, what)
        for i in f.walk():
            nd = f.nodes[i]
            k = nd['k']
            if k == 'BinaryOperator' and nd['op'] == '=' or k == 'CompoundAssignOperator':
                add(self.ident(f, nd['c'][0]), i, 'assigns ' + f.path(nd['c'][0]))
            elif k == 'UnaryOperator' and nd['op'] in ('++', '--'):
                add(self.ident(f, nd['c'][0]), i, 'modifies ' + f.path(nd['c'][0]))
            elif k == 'CXXDeleteExpr':
                c = [x for x in nd.get('c', ()) if x >= 0]
                if c:
                    add(self.pointee(f, c[0]), i, 'deletes ' + f.path(c[0]))
            elif k in CALLS or k in CTORS:
                self.call(f, i, nd, add)
            for v in nd.get('vars', ()):
                # destructors of local objects write through the pointers they hold
                g = self.dtors.get(v['t']) if v.get('init', -1) >= 0 and not v.get('ref') else None
                if g:
                    for r, w in self.sum[g.key].items():
                        if r[0] == 'this' and r[1] and self.indirect_field(g.cls, r[1]):
                            add(self.pointee(f, v['init']), i, 'the destructor of %s at its end (%s)' % (v['n'], w[2]))
                        elif r[0] == 'global':
                            add({r}, i, 'the destructor of %s (%s)' % (v['n'], w[2]))
        return out

    def indirect_field(self, cls, name):
        for r in self.p.recs_all.get(cls, ()):
            for x in r['fields']:
                if x['n'] == name:
                    return indirect_type(x['t'])
        return False

    def call(self, f, i, nd, add):
        k = nd['k']
        key = nd.get('fn')
        q = nd.get('qn') or ''
        t = self.p.targets(key) if key else []
        args = f.args(i)
        if t:
            for g in t:
                for r, w in self.sum[g.key].items():
                    txt = 'calls %s (%s)' % (g.qn, w[2])
                    if r[0] == 'this':
                        if k in CTORS:
                            continue
                        add(self.objroots(f, i, nd), i, txt)
                        if r[1] and self.indirect_field(g.cls, r[1]):
                            o = f.obj(i)
                            if o >= 0:
                                add({x for x in self.pointee(f, o) if x[0] != 'this'}, i, txt)
                    elif r[0] == 'p':
                        if r[1] < len(args) and args[r[1]] >= 0 and r[1] < len(g.params):
                            pt = g.params[r[1]]['t']
                            a = args[r[1]]
                            add(self.ident(f, a) if is_ref(pt) else self.pointee(f, a), i, txt)
                    elif r[0] == 'udata':
                        add({r}, i, txt)
                    else:
                        add({r}, i, txt)
            return
        last = _last(q)
        if nd.get('cls', '').startswith('std::') or nd.get('cls', '').startswith('__gnu_cxx') or q.startswith('std::'):
            if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and nd.get('cls'):
                if nd.get('cm') or last in STD_READ and not (last == 'operator[]' and 'map<' in nd['cls']):
                    return
                add(self.objroots(f, i, nd), i, 'calls %s of %s' % (last, f.path(f.obj(i)) if f.obj(i) >= 0 else '?'))
                return
            if k in CTORS:
                return
            if last in ALGO_WRITE:
                for a in args:
                    add(self.pointee(f, a) | (self.ident(f, a) if f.nodes[a].get('lv') else set()), i, 'calls ' + q)
            elif last in ALGO_DEST and len(args) > 1:
                add(self.pointee(f, args[-1]) | self.pointee(f, args[-2]), i, 'calls ' + q)
            elif last in ('operator<<', 'operator>>', 'getline') and args:
                add(self.ident(f, args[0]), i, 'writes to ' + f.path(args[0]))
                if last != 'operator<<':
                    for a in args[1:]:
                        add(self.ident(f, a), i, 'reads into ' + f.path(a))
            return
        if k in CTORS:
            return
        if q in C_READ or q.startswith('lua') or q.split('::')[-1] in C_READ or nd.get('nr'):
            return
        for n, a in enumerate(args):
            if a < 0:
                continue
            at = f.nodes[a].get('t', '')
            if q.split('::')[-1] in C_FIRST and n:
                continue
            if at.rstrip().endswith('*') and not const_pointee(at) and 'lua_State' not in at and 'FILE' not in at:
                # an argument converted to a pointer to constant is not written
                add(self.pointee(f, a), i, 'passes %s to %s' % (f.path(a), q or 'a function'))

    def objroots(self, f, i, nd):
        o = f.obj(i)
        if nd['k'] == 'CXXMemberCallExpr':
            m = f.strip(nd['c'][0])
            if f.nodes[m].get('arrow'):
                return self.pointee(f, o) if o >= 0 else {('this', None)}
            return self.ident(f, o) if o >= 0 else {('this', None)}
        return self.ident(f, o) if o >= 0 else set()

    def _solve(self):
        p = self.p
        work = set(p.fns)
        callers = {}
        for f in p.fns.values():
            for i, key, nd in p.call_sites(f):
                if key:
                    for g in p.targets(key):
                        callers.setdefault(g.key, set()).add(f.key)
            for i in f.walk():
                for v in f.nodes[i].get('vars', ()):
                    if v['t'] in self.dtors:
                        callers.setdefault(self.dtors[v['t']].key, set()).add(f.key)
        while work:
            k = work.pop()
            w = self._writes(p.fns[k])
            if set(w) != set(self.sum[k]):
                for r in self.sum[k]:
                    w.setdefault(r, self.sum[k][r])
                ch = set(w) != set(self.sum[k])
                self.sum[k] = w
                if ch:
                    work |= callers.get(k, set())
