"""Call-graph level summaries: who can throw what past whom, which functions never return normally, effects."""
from facts import CALLS, CTORS

# Library functions that are not declared noexcept but have no failure mode (reference/scalar helpers and debug-checked accessors).
STD_NOTHROW = {
    'std::min', 'std::max', 'std::get_if', 'std::numeric_limits', 'std::addressof', 'std::forward', 'std::move', 'std::swap',
    'std::make_pair', 'std::floor', 'std::isdigit', 'std::isalpha', 'std::isspace',
}
# Accessors of standard containers/strings/iterators that do not allocate and have no specified exception
STD_NOTHROW_METHODS = {
    'operator[]', 'operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-=', 'front', 'back', 'data', 'c_str', 'size', 'length', 'empty', 'begin', 'end', 'rbegin',
    'rend', 'clear', 'pop_back', 'get', 'base', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator bool', 'resource', 'top', 'swap', 'remove_prefix', 'remove_suffix',
    'operator<=', 'operator>=', 'operator=='
}
STD_ALLOC_CLASSES_THROWING_PLUS = ('basic_string',)


LUA_RAISE = {'lua_error', 'luaL_error', 'luaL_argerror'}


def std_nothrow(nd):
    qn = nd.get('qn', '')
    if nd['k'] in CTORS and nd.get('cls') == 'mewa::Error':
        return True
    if nd.get('nx') or nd.get('xc'):
        return True
    base = qn.split('<')[0]
    if base in STD_NOTHROW:
        return True
    cls = nd.get('cls', '')
    last = _last(qn)
    if cls.startswith('std::') and nd['k'] in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and last in STD_NOTHROW_METHODS:
        if last in ('operator[]',) and ('map<' in cls):
            return False
        if last in ('operator+=', ) and 'basic_string<' in cls:
            return False
        return True
    if base.startswith('__gnu_cxx::') or base.startswith('std::operator'):
        if base.startswith('std::operator+') and 'basic_string' in nd.get('t', ''):
            return False
        if last in STD_NOTHROW_METHODS:
            return True
    if cls.startswith('__gnu_cxx::__normal_iterator'):
        return True
    if ('iterator' in cls.split('<')[0]) and cls.startswith('std::'):
        return True
    return False


def _last(qn):
    # last component of a qualified name, ignoring template arguments
    depth = 0; out = ''
    if 'operator' in qn:
        i = qn.rfind('operator')
        return qn[i:].split('<char')[0] if qn[i:].startswith('operator<<') else _strip_targs(qn[i:])
    for ch in qn:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out += ch
    return out.split('::')[-1]


def _strip_targs(op):
    for o in ('operator<=', 'operator<<', 'operator<', 'operator>=', 'operator>>', 'operator->', 'operator>', ):
        if op.startswith(o):
            return o
    return op.split('<')[0]


class Throws:
    """escapes[key] = {site description: (fn, node)} of throw sites/may-throw library calls not contained by a catch-all"""

    def __init__(self, prog):
        self.p = prog
        self.esc = {k: {} for k in prog.fns}
        self._solve()

    def contained(self, fn, i):
        for t in fn.nodes[i].get('try', ()):
            for h in fn.nodes[t].get('handlers', ()):
                if fn.nodes[h]['ct'] == '...':
                    return True
        return False

    def site_escapes(self, fn, i, key, nd):
        """what can come out of this call: None or a representative origin"""
        t = self.p.targets(key) if key else []
        if nd['k'] in CTORS and nd.get('cls') == 'mewa::Error':
            return None
        if nd['k'] == 'LambdaExpr':
            t = self.p.targets(key)
        if t:
            if nd.get('nx'):
                return None
            for g in t:
                if g.d.get('nx'):
                    continue
                for o in self.esc[g.key].values():
                    return o
            if nd['k'] != 'CXXNewExpr':
                return None
        if nd['k'] == 'CXXNewExpr':
            if nd.get('nx'):
                return None
            return (fn, i, 'operator new')
        if nd['k'] in CTORS and nd.get('triv'):
            return None
        if nd['k'] == 'LambdaExpr':
            return None
        if nd['k'] == 'CXXDeleteExpr':
            return None
        if nd.get('in') and not t and nd.get('nx'):
            return None
        if nd.get('ind'):
            return None if nd.get('nx') else (fn, i, 'indirect call')
        if std_nothrow(nd):
            return None
        if nd.get('qn', '').startswith('__builtin'):
            return None
        return (fn, i, nd.get('qn', '?'))

    def _solve(self):
        changed = True
        local = {}
        for f in self.p.fns.values():
            l = []
            for i in f.walk():
                nd = f.nodes[i]
                if nd['k'] == 'CXXThrowExpr' and not self.contained(f, i):
                    l.append(i)
            local[f.key] = l
            for i in l:
                self.esc[f.key][i] = (f, i, 'throw')
        while changed:
            changed = False
            for f in self.p.fns.values():
                e = self.esc[f.key]
                for (i, key, nd) in self.p.call_sites(f):
                    if i in e or self.contained(f, i):
                        continue
                    o = self.site_escapes(f, i, key, nd)
                    if o:
                        e[i] = o
                        changed = True


def noreturn_fns(prog):
    """functions of the tree that never return normally; seeds: noreturn attribute and lua_error/luaL_error family"""
    nr = set()
    seeds = LUA_RAISE

    def call_stops(fn, i):
        nd = fn.nodes[i]
        if nd.get('nr') or nd.get('qn') in seeds:
            return True
        if nd.get('fn') in nr:
            return True
        return False

    def returns(fn):
        b = fn.blocks
        if not b:
            return True
        st = [fn.entry]; seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            blk = b[x]
            stop = False
            thrown = False
            for el in blk['e']:
                if isinstance(el, int):
                    nd = fn.nodes[el]
                    if (nd['k'] in CALLS) and call_stops(fn, el):
                        stop = True
                        break
                    if nd['k'] == 'CXXThrowExpr':
                        thrown = True
            if stop:
                continue
            for s in blk['s']:
                if s < 0:
                    continue
                if s == fn.exit and thrown:
                    continue
                # unhandled edge out of a try dispatch block: an exception, not a normal return
                t = blk.get('term')
                if s == fn.exit and t is not None and fn.nodes[t]['k'] == 'CXXTryStmt':
                    continue
                st.append(s)
        return fn.exit in seen
    changed = True
    while changed:
        changed = False
        for f in prog.fns.values():
            if f.key in nr:
                continue
            if f.d.get('nr') or not returns(f):
                nr.add(f.key)
                changed = True
    return nr


def lua_entries(prog):
    """functions handed to Lua: signature int(lua_State*) and address taken (registration tables, pushcclosure, ...)"""
    keys = {}

    def take(fn_or_var, nodes, where):
        for nd in nodes:
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'fn' and nd.get('fn') in prog.fns:
                g = prog.fns[nd['fn']]
                if g.ret == 'int' and len(g.params) == 1 and g.params[0]['t'] == 'lua_State *':
                    keys.setdefault(g.key, set()).add(where)
    for v in prog.vars.values():
        take(v, v.get('nodes', ()), 'table ' + v['n'])
    for f in prog.fns.values():
        callee_refs = set()
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'CallExpr':
                callee_refs.add(f.strip(nd['c'][0]))
        for i in f.walk():
            if i in callee_refs:
                continue
            nd = f.nodes[i]
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'fn':
                take(f, [nd], 'passed by ' + f.qn)
    for f in prog.fns.values():
        if f.d.get('xc') and f.name.startswith('luaopen_'):
            keys.setdefault(f.key, set()).add('module entry point')
    return {k: sorted(v) for k, v in keys.items()}
