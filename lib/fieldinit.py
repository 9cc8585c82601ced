"""Which fields of an object are definitely assigned: forward must-analysis over the CFG, interprocedural through method calls."""
from facts import CALLS, CTORS
import flow


def type_name(t):
    return t.replace('const ', '').replace('struct ', '').replace('class ', '').rstrip(' *&')


def all_fields(p, cls, seen=()):
    """[(field name, field record, owning class)] including bases"""
    r = []
    rec = p.recs.get(cls)
    if rec is None:
        return r
    for b in rec.get('bases', ()):
        bn = b['n'] if isinstance(b, dict) else b
        if bn not in seen:
            r += all_fields(p, bn, seen + (cls,))
    for x in rec['fields']:
        r.append((x['n'], x, cls))
    return r


class FieldInit:
    def __init__(self, p):
        self.p = p
        self.nr = flow.NR.of(p)
        self.cache = {}

    def method_sets(self, f):
        """fields of *this assigned on every path to the normal exit of f"""
        if f.key in self.cache:
            return self.cache[f.key]
        self.cache[f.key] = frozenset()         # recursion: nothing
        s = set()
        for it in f.inits:
            if it.get('f') and it.get('w', 1):
                s.add(it['f'].split('::')[-1])
            elif it.get('f'):
                s.add(it['f'].split('::')[-1])
        r = self.at_exit(f, 'this', frozenset(s))
        self.cache[f.key] = r
        return r

    def param_sets(self, f, k):
        key = (f.key, k)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = frozenset()
        r = self.at_exit(f, f.params[k]['v'], frozenset()) if k < len(f.params) else frozenset()
        self.cache[key] = r
        return r

    def at_exit(self, f, base, init):
        if not f.blocks:
            return frozenset()
        res = self.states(f, base, init)
        ex = res.get(f.exit)
        return ex if ex is not None else frozenset(['*'])        # never returns

    def effect(self, f, base, i):
        """fields of base assigned by evaluating node i itself"""
        nd = f.nodes[i]
        k = nd['k']
        out = set()

        def field_of(x):
            q = f.path(x)
            if q.startswith('&'):
                q = q[1:]
            if q.startswith(base + '.'):
                rest = q[len(base) + 1:]
                return rest.split('.')[0].split('[')[0]
            return None
        if k == 'BinaryOperator' and nd['op'] == '=':
            n = field_of(nd['c'][0])
            if n:
                out.add(n)
        elif k == 'CXXNewExpr':
            for x in f.kids(i):
                n = field_of(x) if f.path(x).startswith('&') else None
                if n:
                    out.add(n)
        elif k in CALLS:
            o = f.obj(i)
            t = [g for g in self.p.targets(nd.get('fn'))] if nd.get('fn') else []
            if o >= 0:
                po = f.path(o)
                if po == base or po == '*' + base:
                    if t:
                        s = None
                        for g in t:
                            m = self.method_sets(g)
                            s = m if s is None else s & m
                        out |= s
                elif po.startswith(base + '.'):
                    n = field_of(o)
                    # init()/create()/operator= of a member object: assigns it when it is its own initialiser
                    if n and (nd.get('op') == '=' or any(self.inits_object(g) for g in t)):
                        out.add(n)
            for kx, a in enumerate(f.args(i)):
                pa = f.path(a)
                if pa == base or pa == '*' + base or pa == '&' + base:
                    s = None
                    for g in t:
                        m = self.param_sets(g, kx)
                        s = m if s is None else s & m
                    out |= s or set()
                elif pa.startswith('&' + base + '.') or pa.startswith(base + '.'):
                    if nd.get('qn', '').split('::')[-1] in ('memset', 'memcpy', 'snprintf', 'strcpy', 'strncpy') and kx == 0:
                        out.add(field_of(a))
        return out

    def inits_object(self, g):
        """does method g assign all scalar fields of its own class?"""
        if not g.cls:
            return False
        s = self.method_sets(g)
        return all(n in s or '*' in s for n, x, c in all_fields(self.p, g.cls) if True) or not all_fields(self.p, g.cls)

    def states(self, f, base, init, start=None):
        """{block: fields definitely assigned at block entry} (None: unreachable); the exit block maps to the state at normal returns"""
        def transfer(s, el):
            if not isinstance(el, int):
                return s
            nd = f.nodes[el]
            if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in self.nr:
                return None
            e = self.effect(f, base, el)
            return s | e if e else s

        def edge(s, blk, k):
            t = blk.get('term')
            if t is not None and f.nodes[t]['k'] == 'CXXTryStmt' and blk['s'][k] == f.exit:
                return None
            return s
        return flow.forward(f, init, transfer, edge=edge, join=lambda a, b: a & b)

    def before(self, f, base, init, node):
        """fields assigned right before CFG element `node` (None: not an element or unreachable)"""
        st = self.states(f, base, init)
        for b, s in st.items():
            for el in f.blocks[b]['e']:
                if el == node:
                    return s
                if not isinstance(el, int):
                    continue
                nd = f.nodes[el]
                if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in self.nr:
                    break
                s = s | self.effect(f, base, el)
        return None
