"""Abstract evaluation with models of the standard containers, output streams, numbers in floating point and the stack of the Lua interpreter.
A sequence is stored as its number of elements with the elements as sub objects, so are the pairs of a map in the order of their keys."""
from absint import State, TOP, Outcome, trunc
from strabs import StrEval, Str, Ptr, Lin, Sy, NeedSplit, lin, lin_op, number, lin_trunc, digits, cstr, show, base, codes
from facts import CALLS, CTORS, CASTS


class Seq:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Seq) and o.n == self.n

    def __hash__(self):
        return hash(('seq', self.n))

    def __repr__(self):
        return 'Seq(%d)' % self.n


class Mp(Seq):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Mp) and o.n == self.n

    def __hash__(self):
        return hash(('map', self.n))

    def __repr__(self):
        return 'Map(%d)' % self.n


class It:
    """position in a container"""
    __slots__ = ('loc', 'i', 'rev')

    def __init__(self, loc, i, rev=1):
        self.loc = loc; self.i = i; self.rev = rev        # rev: -1 for reverse iterators

    def move(self, k):
        return It(self.loc, self.i + k * self.rev, self.rev)

    def __eq__(self, o):
        return isinstance(o, It) and (o.loc, o.i) == (self.loc, self.i)

    def __hash__(self):
        return hash((self.loc, self.i))

    def __repr__(self):
        return 'It(%s,%d)' % (self.loc, self.i)


class Num:
    """a number that is written with unknown digits"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Num) and o.v == self.v

    def __hash__(self):
        return hash(('num', self.v))

    def __repr__(self):
        return 'Num(%r)' % (self.v,)


def tmpl(t):
    """('std::map', ['K','V']) of a type string"""
    t = t.strip()
    while True:
        for pre in ('const ', 'volatile ', 'class ', 'struct '):
            if t.startswith(pre):
                t = t[len(pre):]
                break
        else:
            break
    while t.endswith('&') or t.endswith(' const'):
        t = t[:-1].rstrip() if t.endswith('&') else t[:-6].rstrip()
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    args = []; d = 0; cur = ''
    for ch in t[i + 1:-1]:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            args.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return t[:i], args


SEQS = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list')
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')
STREAMS = ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ostream', 'std::__cxx11::basic_ostringstream', 'std::ostringstream', 'std::stringstream')
STRINGS = ('std::basic_string', 'std::string', 'std::basic_string_view', 'std::string_view', 'std::__cxx11::basic_string')


class CollEval(StrEval):
    # ------------------------------------------------------------- memory
    def final(self, s, loc):
        k = 0
        while k < 50 and isinstance(s.mem.get(loc), tuple) and s.mem[loc][:1] == ('ref',) and s.mem[loc][1] != loc:
            loc = s.mem[loc][1]; k += 1
        return loc

    def put(self, s, dst, v, t=''):
        """store the value or a copy of the object v at dst"""
        if isinstance(v, tuple) and v[:1] == ('ref',) and not self.is_ptr(t):
            src = self.final(s, v[1])
            if src in s.mem and not s.mem.hassub(src):
                self.store(s, dst, s.mem[src])
            elif len(src) == 2 and src[0] == 'PC':
                self.store(s, dst, src[1])
            else:
                items = [(k, s.mem[k]) for k in s.mem.under(src) if k[-1:] != ('#copyof',)]
                for k in s.mem.under(dst):
                    del s.mem[k]
                for k, x in items:
                    s.mem[dst + k[len(src):]] = x
            return
        self.store(s, dst, v)

    def default(self, s, loc, t, depth=0):
        """value initialisation of a type"""
        n, a = tmpl(t)
        if self.is_ptr(t):
            s.mem[loc] = 0
        elif n in STRINGS or n in STREAMS:
            s.mem[loc] = Str(())
        elif n in SEQS or n in SETS:
            s.mem[loc] = Seq(0)
        elif n in MAPS:
            s.mem[loc] = Mp(0)
        elif n == 'std::bitset':
            s.mem[loc] = frozenset()
        elif n == 'std::pair':
            self.default(s, loc + ('first',), a[0]); self.default(s, loc + ('second',), a[1])
        elif n in ('int', 'bool', 'char', 'short', 'long', 'unsigned int', 'unsigned long', 'unsigned char', 'double', 'float'):
            s.mem[loc] = 0
        else:
            r = self.p.recs.get(n)
            if r and depth < 4:
                for f in r.get('fields', ()):
                    self.default(s, loc + (f['n'],), f['t'], depth + 1)
            else:
                s.mem[loc] = TOP

    def elem(self, loc, i):
        return loc + ('#%d' % i,)

    def push(self, s, loc, v, t):
        q = s.mem.get(loc)
        if not isinstance(q, Seq):
            return None
        e = self.elem(loc, q.n)
        self.put(s, e, v, t)
        s.mem[loc] = type(q)(q.n + 1)
        return e

    def drop(self, s, loc, i):
        """remove element i"""
        q = s.mem[loc]
        for j in range(i, q.n):
            e = self.elem(loc, j)
            for k in s.mem.under(e):
                del s.mem[k]
            if j + 1 < q.n:
                nx = self.elem(loc, j + 1)
                for k in s.mem.under(nx):
                    s.mem[e + k[len(e):]] = s.mem[k]
        s.mem[loc] = type(q)(q.n - 1)

    def tree(self, s, loc, seen=()):
        """content of the object at loc as dictionary of relative paths"""
        loc = self.final(s, loc)
        r = {}
        for k in s.mem.under(loc):
            v = s.mem[k]
            if k[-1:] != ('#copyof',):
                rel = k[len(loc):]
                if isinstance(v, tuple) and v[:1] == ('ref',):
                    if v[1] in seen:
                        continue
                    for a, b in self.tree(s, v[1], seen + (loc,)).items():
                        r[rel + a] = b
                elif isinstance(v, Ptr):
                    r[rel] = Str(v.rest())
                elif isinstance(v, str):
                    r[rel] = Str(codes(v))
                else:
                    r[rel] = v
        return {k: (v.chars if isinstance(v, Str) else v) for k, v in r.items()}

    def same(self, s, a, b):
        """equality of two objects: True, False or None (unknown)"""
        x, y = self.tree(s, a), self.tree(s, b)
        if set(x) != set(y):
            return None if any(v is TOP for v in list(x.values()) + list(y.values())) else False
        unsure = False
        for k in x:
            u, v = x[k], y[k]
            if u is TOP or v is TOP:
                unsure = True
            elif isinstance(u, tuple) and isinstance(v, tuple):
                r = self.cmpseq(list(u), list(v), None, False, True)
                if r is TOP:
                    unsure = True
                elif r:
                    return False
            elif isinstance(u, (int, Lin)) and isinstance(v, (int, Lin)):
                r = lin_op('==', lin(u), lin(v))
                if r is TOP:
                    unsure = True
                elif not r:
                    return False
            elif u != v:
                return False
        return None if unsure else True

    def rank(self, s, a, b):
        """order of two constant keys: -1, 0, 1 or None"""
        x, y = self.tree(s, a), self.tree(s, b)
        if set(x) == set(y) == {()}:
            u, v = x[()], y[()]
            if isinstance(u, tuple) and isinstance(v, tuple) and all(isinstance(c, int) for c in u + v):
                u, v = [c & 255 for c in u], [c & 255 for c in v]
                return (u > v) - (u < v)
            if isinstance(u, int) and isinstance(v, int):
                return (u > v) - (u < v)
        e = self.same(s, a, b)
        return 0 if e else None

    def load(self, st, loc, t=''):
        if loc not in st.mem and len(loc) == 2 and loc[0] == 'G':
            # global that is never written (C19)
            v = self.p.vars.get(loc[1])
            if v and v.get('def') and 'init' in v:
                i = v['init']
                while 0 <= i < len(v.get('nodes', ())):
                    nd = v['nodes'][i]
                    if nd['k'] == 'StringLiteral' and 's' in nd:
                        return nd['s']
                    if 'cv' in nd:
                        return int(nd['cv'])
                    if len(nd.get('c', ())) != 1:
                        break
                    i = nd['c'][0]
        return super().load(st, loc, t)

    def chareq(self, x, y):
        if isinstance(x, Num) or isinstance(y, Num):
            if x == y:
                return True
            o = y if isinstance(x, Num) else x
            return False if isinstance(o, int) and chr(o & 255) not in '0123456789-' else None
        return super().chareq(x, y)

    # ------------------------------------------------------------- expressions
    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        k = nd['k']
        if k == 'FloatingLiteral' and 'fv' in nd:
            v = float(nd['fv'])
            return v
        if k == 'CXXStdInitializerListExpr':
            return self.val(fn, fr, s, nd['c'][0], this)
        if k == 'CXXDefaultInitExpr' and nd.get('c'):
            return self.val(fn, fr, s, nd['c'][0], this)
        if k == 'InitListExpr':
            t = nd.get('t', '')
            n, a = tmpl(t)
            c = nd.get('c', ())
            rec = self.p.recs.get(n)
            if rec and len(rec.get('fields', ())) >= len(c) and not self.is_ptr(t):
                self.frames += 1
                loc = ('T%d' % self.frames,)
                for f, e in zip(rec['fields'], list(c) + [None] * 20):
                    if e is None:
                        self.default(s, loc + (f['n'],), f['t'])
                    else:
                        self.put(s, loc + (f['n'],), self.val(fn, fr, s, e, this), f['t'])
                return ('ref', loc)
            par = fn.parents.get(i)
            if t.endswith(']') and par is not None and fn.nodes[par]['k'] == 'CXXStdInitializerListExpr' or (par is not None and fn.nodes[par].get('k') == 'MaterializeTemporaryExpr'):
                self.frames += 1
                loc = ('T%d' % self.frames,)
                for j, e in enumerate(c):
                    self.put(s, self.elem(loc, j), self.val(fn, fr, s, e, this), '')
                s.mem[loc] = Seq(len(c))
                return ('ref', loc)
        if k == 'UnaryOperator' and nd.get('op') == '-':
            v = self.val(fn, fr, s, nd['c'][0], this)
            if isinstance(v, float):
                return -v
        r = self.arrayptr(fn, fr, s, nd, k, this)
        if r is not NotImplemented:
            return r
        if (k in CASTS or k == 'ImplicitCastExpr') and nd.get('ck') in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast') and 'cv' not in nd:
            v = self.val(fn, fr, s, nd['c'][0], this)
            if isinstance(v, tuple) and v[:1] == ('ref',):
                v = self.load(s, v[1])
            if nd['ck'] == 'FloatingToIntegral':
                if isinstance(v, float):
                    v = int(v)
                return lin_trunc(v, nd.get('ti')) if isinstance(v, Lin) else trunc(v, nd.get('ti'))
            return v
        return super().eval(fn, fr, s, i, this)

    def arrayptr(self, fn, fr, s, nd, k, this):
        """pointers into arrays with elements known"""
        c = nd.get('c', ())
        if k in ('ImplicitCastExpr',) and nd.get('ck') == 'ArrayToPointerDecay':
            v = self.val(fn, fr, s, c[0], this)
            if isinstance(v, tuple) and v[:1] == ('ref',):
                l = self.final(s, v[1])
                if l + ('[0]',) in s.mem:
                    return ('ref', l + ('[0]',))
            return NotImplemented
        if k == 'ArraySubscriptExpr':
            b = fn.nodes[c[0]]
            ix = self.num(s, self.val(fn, fr, s, c[1], this))
            if not isinstance(ix, int):
                return NotImplemented
            if b.get('ck') == 'ArrayToPointerDecay':
                v = self.val(fn, fr, s, b['c'][0], this)
                if isinstance(v, tuple) and v[:1] == ('ref',) and self.final(s, v[1]) + ('[0]',) in s.mem:
                    return ('ref', self.final(s, v[1]) + ('[%d]' % ix,))
                return NotImplemented
            a = self.arrayix(self.rvp(s, self.val(fn, fr, s, c[0], this)))
            return ('ref', a[0] + ('[%d]' % (a[1] + ix),)) if a else NotImplemented
        if k == 'BinaryOperator' and nd.get('op') in ('+', '-', '==', '!=', '<', '>', '<=', '>=') and len(c) == 2:
            t = [fn.nodes[x].get('t', '').rstrip() for x in c]
            if not t[0].endswith('*') or 'char' in t[0] and t[0].count('*') == 1:
                return NotImplemented
            x, y = (self.rvp(s, self.val(fn, fr, s, q, this)) for q in c)
            a, b = self.arrayix(x), self.arrayix(y)
            op = nd['op']
            if a and op in '+-' and isinstance(y, int):
                return ('ref', a[0] + ('[%d]' % (a[1] + (y if op == '+' else -y)),))
            if a and b and a[0] == b[0]:
                return a[1] - b[1] if op == '-' else int({'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]) if op != '+' else NotImplemented
            return NotImplemented
        if k == 'UnaryOperator' and nd.get('op') == '*' and c and fn.nodes[c[0]].get('t', '').count('*') > 1:
            v = self.rvp(s, self.val(fn, fr, s, c[0], this))
            return v if self.arrayix(v) else NotImplemented
        if k == 'UnaryOperator' and nd.get('op') in ('++', '--') and nd.get('t', '').rstrip().endswith('*'):
            v = self.val(fn, fr, s, c[0], this)
            if isinstance(v, tuple) and v[:1] == ('ref',):
                old = s.mem.get(v[1])
                a = self.arrayix(old)
                if a:
                    self.store(s, v[1], ('ref', a[0] + ('[%d]' % (a[1] + (1 if nd['op'] == '++' else -1)),)))
                    return old if nd.get('post') else v
        return NotImplemented

    def rvp(self, s, v):
        if isinstance(v, tuple) and v[:1] == ('ref',) and isinstance(s.mem.get(v[1]), tuple) and s.mem[v[1]][:1] == ('ref',):
            return s.mem[v[1]]
        return v

    @staticmethod
    def arrayix(v):
        if isinstance(v, tuple) and v[:1] == ('ref',) and len(v) > 1 and v[1] and isinstance(v[1][-1], str) and v[1][-1][:1] == '[' and v[1][-1][1:-1].lstrip('-').isdigit():
            return v[1][:-1], int(v[1][-1][1:-1])
        return None

    def binop(self, op, l, r, nd):
        if isinstance(l, float) or isinstance(r, float):
            for a in (l, r):
                if isinstance(a, float) and a == int(a):
                    pass
            l2 = int(l) if isinstance(l, float) and l == int(l) else l
            r2 = int(r) if isinstance(r, float) and r == int(r) else r
            if isinstance(l2, Lin) or isinstance(r2, Lin):
                if isinstance(l2, float) or isinstance(r2, float):
                    return TOP
                return super().binop(op, l2, r2, nd)
            if isinstance(l, (int, float)) and isinstance(r, (int, float)):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    return int({'==': l2 == r2, '!=': l2 != r2, '<': l2 < r2, '>': l2 > r2, '<=': l2 <= r2, '>=': l2 >= r2}[op])
                try:
                    return {'+': lambda: l + r, '-': lambda: l - r, '*': lambda: l * r, '/': lambda: l / r}[op]()
                except (KeyError, ZeroDivisionError):
                    return TOP
            return TOP
        return super().binop(op, l, r, nd)

    # ------------------------------------------------------------- library
    def ext(self, s, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn', '')
        if qn in self.models:
            r = self.models[qn](self, s, args, objloc, fn, el)
            if r is not NotImplemented:
                return r
        r = self.lib(s, fr, fn, el, args, objloc, nd, qn)
        if r is not NotImplemented:
            return r
        return StrEval.ext(self, s, fr, fn, el, args, objloc)

    def __init__(self, prog, models=None, **kw):
        super().__init__(prog, models, **kw)
        self.extern = CollEval.ext

    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        if nd['k'] in CTORS:
            return self.ctor(s, fr, fn, el, args, nd)
        if (qn.startswith('lua_') or qn.startswith('luaL_')) and not any(f.blocks for f in (self.p.targets(nd.get('fn')) if nd.get('fn') else [])):
            return self.lua(s, fn, el, qn, args)
        b = base(qn)
        n = None
        ismem = objloc is not None
        if ismem:
            ol = self.final(s, objloc)
            ov = s.mem.get(ol)
        else:
            ol = ov = None
        # operators may be members or free functions
        if b.startswith('operator'):
            ops = [self.num(s, a) for a in args]
            allv = ([ov] if ismem else []) + ops
            if isinstance(allv[0] if allv else None, It) and (qn.startswith('std::') or qn.startswith('__gnu_cxx')):
                return self.iterop(s, fn, el, b, ol if ismem else None, allv, args)
            if isinstance(allv[0] if allv else None, Ptr) and qn.startswith('__gnu_cxx'):
                return self.ptrop(s, fn, el, b, ol if ismem else None, allv)
            if b == 'operator=' and ismem:
                t = self.p.targets(nd.get('fn')) if nd.get('fn') else []
                if isinstance(ov, Str) and '_string' in qn:
                    return NotImplemented
                if not (len(t) == 1 and t[0].blocks and not t[0].d.get('dflt')) and args:
                    if '_Bit_reference' in qn:
                        self.store(s, ol, self.num(s, args[0]))
                    else:
                        self.put(s, ol, args[0])
                    return ('ref', ol)
                return NotImplemented
            if b == 'operator<<' and (qn.startswith('std::basic_ostream') or qn.startswith('std::operator<<') or qn.startswith('std::ostream')):
                dst = ol if ismem else (self.final(s, args[0][1]) if isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None)
                if dst is None:
                    return self.lose(fn, el)
                return self.stream(s, fn, el, dst, args[0] if ismem else args[1], nd)
            if b == 'operator[]' and ismem and isinstance(ov, Mp):
                e = self.mapslot(s, ol, args[0], fn, el)
                if e is None:
                    return self.lose(fn, el)
                return ('ref', e + ('second',))
            if b == 'operator[]' and ismem and isinstance(ov, Seq):
                i = ops[0]
                if isinstance(i, int):
                    if not 0 <= i < ov.n:
                        return self.oob(s, fn, el, i, ov.n)
                    return ('ref', self.elem(ol, i))
                return self.lose(fn, el)
        if ismem and b.startswith('operator') and 'string_view' in b or (ismem and 'operator basic_string_view' in qn):
            c = self.str_at(s, ol)
            return self.temp(s, Str(c)) if c is not None else self.lose(fn, el)
        if ismem and isinstance(ov, Seq) and qn.startswith('std::'):
            return self.contop(s, fn, el, b, ol, ov, args, nd, qn)
        if ismem and 'stringstream' in qn or 'basic_ostream' in qn:
            c = self.str_at(s, ol) if ismem else None
            if c is not None:
                if b == 'str':
                    return self.temp(s, Str(c))
                if b in ('put',):
                    self.store(s, ol, Str(c + (self.num(s, args[0]),)))
                    return ('ref', ol)
                if b == 'write':
                    p = self.ptr(s, args[0]); k = self.num(s, args[1])
                    if p is not None and isinstance(k, int):
                        self.store(s, ol, Str(c + p.rest()[:k]))
                        return ('ref', ol)
        if b == 'floor' or b == 'ceil' or b == 'trunc':
            v = self.num(s, args[0])
            return v if isinstance(v, (int, Lin)) else (float(int(v)) if isinstance(v, float) else TOP)
        if qn.startswith('std::numeric_limits') and b == 'epsilon':
            return 2.220446049250313e-16
        if qn.startswith('std::bitset'):
            q = s.mem.get(ol) if ismem else None
            k = self.num(s, args[0]) if args else None
            if isinstance(q, frozenset) and b in ('test', 'operator[]', 'set', 'reset', 'any', 'none', 'count') and (k is None or isinstance(k, int)):
                if b in ('test', 'operator[]'):
                    return int(k in q)
                if b in ('any', 'none', 'count'):
                    return len(q) if b == 'count' else int(bool(q) == (b == 'any'))
                if k is not None and (len(args) < 2 or self.num(s, args[1]) in (0, 1)):
                    on = (b == 'set') == (len(args) < 2 or self.num(s, args[1]) == 1)
                    s.mem[ol] = q | {k} if on else q - {k}
                    return ('ref', ol)
            if ismem and b not in ('test', 'any', 'none', 'count', 'size', 'operator[]'):
                s.mem[ol] = TOP
            return TOP
        if qn.startswith('std::multimap') or qn.startswith('std::multiset'):
            return TOP
        if b == 'get' and qn.startswith('std::get<') and len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',) and 'variant' in (fn.nodes[fn.strip(fn.args(el)[0])].get('t', '')):
            return args[0]
        if b in ('sort', 'stable_sort') and qn.startswith('std::'):
            return self.sort(s, fn, el, args)
        if b in ('make_pair',) and len(args) == 2:
            self.frames += 1
            loc = ('T%d' % self.frames,)
            self.put(s, loc + ('first',), args[0]); self.put(s, loc + ('second',), args[1])
            return ('ref', loc)
        if b in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty') and len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
            l = self.final(s, args[0][1])
            if isinstance(s.mem.get(l), Seq):
                return self.contop(s, fn, el, b, l, s.mem[l], [], nd, qn)
        return NotImplemented

    def sort(self, s, fn, el, args):
        """insertion sort with the order of the elements"""
        a = [self.num(s, x) for x in args]
        if len(a) != 2 or not all(isinstance(x, It) and x.rev == 1 for x in a) or a[0].loc != a[1].loc:
            if a and isinstance(a[0], It):
                s.mem[a[0].loc] = TOP
            return self.lose(fn, el)
        loc, lo, hi = a[0].loc, a[0].i, a[1].i
        t = self.elemtype(fn, el)
        lt = [f for f in self.p.fns.values() if f.blocks and f.name == 'operator<' and (f.cls == t and len(f.params) == 1)]
        order = []
        for j in range(lo, hi):
            e = self.elem(loc, j)
            k = len(order)
            while k > 0:
                r = self.less(s, lt, e, self.elem(loc, order[k - 1]))
                if r is None:
                    s.mem[loc] = TOP
                    return self.lose(fn, el)
                if not r:
                    break
                k -= 1
            order.insert(k, j)
        old = {}
        for j in range(lo, hi):
            e = self.elem(loc, j)
            old[j] = [(k[len(e):], s.mem[k]) for k in s.mem.under(e)]
            for k in s.mem.under(e):
                del s.mem[k]
        for j, o in zip(range(lo, hi), order):
            for rel, v in old[o]:
                s.mem[self.elem(loc, j) + rel] = v
        return TOP

    def permute(self, s, loc, order):
        """element j becomes the element order[j]"""
        old = {}
        for j in range(len(order)):
            e = self.elem(loc, j)
            ks = list(s.mem.under(e))
            old[j] = [(k[len(e):], s.mem[k]) for k in ks]
            if order[j] != j:
                for k in ks:
                    del s.mem[k]
        for j, o in enumerate(order):
            if o != j:
                for rel, v in old[o]:
                    s.mem[self.elem(loc, j) + rel] = v

    def elemtype(self, fn, el):
        i = fn.args(el)[0]
        t = fn.nodes[fn.strip(i)].get('t', '') or fn.nodes[i].get('t', '')
        n, a = tmpl(t)
        a = [x for x in a if not x.startswith('std::')] or a
        return a[0].rstrip(' *').replace('const ', '') if a else ''

    def less(self, s, lt, x, y):
        """is the element x less than y, None if unknown"""
        if lt:
            outs = self.call(lt[0], s, x, [('ref', y)], 1)
            vs = {o.value for o in outs if o.kind == 'return'}
            return bool(next(iter(vs))) if len(outs) == len([o for o in outs if o.kind == 'return']) and len(vs) == 1 and isinstance(next(iter(vs)), int) else None
        r = self.rank(s, x, y)
        return None if r is None else r < 0

    def oob(self, s, fn, el, i, n):
        return self.lose(fn, el)

    def ctor(self, s, fr, fn, el, args, nd):
        cls = nd.get('cls', '') or nd.get('t', '')
        n, a = tmpl(nd.get('t', '') if '<' not in cls else cls)
        n0 = tmpl(cls)[0]
        self.frames += 1
        loc = ('T%d' % self.frames,)
        n1 = n0 if n0.startswith('std::') else n
        if n1 in STREAMS:
            s.mem[loc] = Str(())
            return ('ref', loc)
        if n1 in STRINGS:
            return NotImplemented
        if (nd.get('cc') or nd.get('mc')) and args and n1.startswith('std::'):
            self.put(s, loc, args[0])
            return ('ref', loc)
        if n1 in SEQS + MAPS + SETS:
            src = [x for x in args if isinstance(x, tuple) and x[:1] == ('ref',)]
            mk = Mp if n1 in MAPS else Seq
            il = self.initlist(fn, el)
            if not args:
                s.mem[loc] = mk(0)
            elif il is not None and n1 in SEQS:
                s.mem[loc] = Seq(0)
                for x in il:
                    self.push(s, loc, self.val(fn, fr, s, x, None), a[0] if a else '')
            elif src and isinstance(s.mem.get(self.final(s, src[0][1])), Seq) and n1 not in MAPS:
                self.put(s, loc, src[0])
            elif len(args) >= 2 and all(isinstance(self.num(s, x), It) for x in args[:2]):
                x, y = (self.num(s, q) for q in args[:2])
                s.mem[loc] = Seq(0)
                for j in range(x.i, y.i):
                    self.push(s, loc, ('ref', self.elem(x.loc, j)), '')
            elif isinstance(self.num(s, args[0]), int) and 'allocator' not in fn.nodes[fn.args(el)[0]].get('t', ''):
                s.mem[loc] = Seq(0)
                for j in range(self.num(s, args[0])):
                    if len(args) > 1 and not ('allocator' in fn.nodes[fn.args(el)[1]].get('t', '')):
                        self.push(s, loc, args[1], '')
                    else:
                        self.default(s, self.elem(loc, j), a[0] if a else '')
                        s.mem[loc] = Seq(j + 1)
            else:
                s.mem[loc] = mk(0) if 'allocator' in fn.nodes[fn.args(el)[0]].get('t', '') else TOP
                if s.mem[loc] is TOP:
                    self.lose(fn, el)
            return ('ref', loc)
        if n1 == 'std::pair':
            if len(args) == 2:
                self.put(s, loc + ('first',), args[0], a[0] if a else ''); self.put(s, loc + ('second',), args[1], a[1] if len(a) > 1 else '')
            elif len(args) == 1:
                self.put(s, loc, args[0])
            else:
                self.default(s, loc, nd.get('t', ''))
            for j, f in enumerate(('first', 'second')):
                v = s.mem.get(loc + (f,))
                if isinstance(v, (str, Ptr)) and len(a) > j and tmpl(a[j])[0] in STRINGS:
                    s.mem[loc + (f,)] = Str(cstr(self.ptr(s, v).rest()))
            return ('ref', loc)
        if n1 in ('std::basic_regex', 'std::regex'):
            v = self.strv(s, args[0]) if args else ()
            s.mem[loc] = Str(('rx',) + tuple(v)) if v is not None else TOP
            return ('ref', loc)
        if n1 in ('std::variant', 'std::optional') and len(args) == 1:
            self.put(s, loc, args[0])
            return ('ref', loc)
        if n1.startswith('std::bitset') or n1.startswith('std::multimap'):
            s.mem[loc] = frozenset() if not args and n1.startswith('std::bitset') else ('opaque',)
            return ('ref', loc)
        t = self.p.targets(nd.get('fn')) if nd.get('fn') else []
        if 'iterator' in n1 and len(args) == 1 and not (t and t[0].blocks and not t[0].d.get('dflt')) and n1 not in self.p.recs and not n1.startswith('mewa::'):
            s.mem[loc] = self.num(s, args[0])
            return ('ref', loc)
        if not args and not (t and t[0].blocks and not t[0].d.get('dflt')) and self.p.recs.get(n0):
            self.default(s, loc, n0)
            return ('ref', loc)
        return NotImplemented

    def initlist(self, fn, el):
        a = fn.args(el)
        if not a:
            return None
        i = a[0]
        seen = False
        while True:
            n = fn.nodes[i]
            if n['k'] == 'CXXStdInitializerListExpr':
                seen = True
            if n['k'] == 'InitListExpr':
                return n.get('c', ()) if seen else None
            if n['k'] not in ('CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') or not n.get('c'):
                return None
            i = n['c'][0]

    def stream(self, s, fn, el, dst, arg, nd):
        cur = self.str_at(s, dst)
        if cur is None:
            return self.lose(fn, el)
        ai = fn.args(el)
        t = fn.nodes[fn.strip(ai[-1])].get('t', '')
        t1 = fn.nodes[ai[-1]].get('t', '')
        v = self.num(s, arg)
        out = None
        if isinstance(v, tuple) and v[:1] == ('fnref',):
            out = (10,) if 'endl' in str(v[1]) else ()
        elif self.is_ptr(t1) or t1.endswith(']') or isinstance(v, (Ptr, str)):
            q = self.ptr(s, arg)
            out = cstr(q.rest()) if q is not None else None
        elif '_string' in t1 or 'string_view' in t1 or isinstance(v, Str):
            out = self.strv(s, arg)
        elif 'char' in t1 and isinstance(v, (int, Lin)):
            out = (v,)
        elif isinstance(v, bool):
            out = (48 + int(v),)
        elif isinstance(v, int):
            out = codes(str(v))
        elif isinstance(v, Lin):
            d = digits(v)
            out = tuple(d) if d is not None else (Num(v),)
        if out is None:
            out = (Num(TOP),)
            self.lose(fn, el)
        self.store(s, dst, Str(tuple(cur) + tuple(out)))
        return ('ref', dst)

    def iterop(self, s, fn, el, b, loc, v, args):
        it = v[0]
        if b in ('operator*', 'operator->') and len(v) == 1:
            return ('ref', self.elem(it.loc, it.i))
        if b in ('operator++', 'operator--') and loc is not None:
            nw = it.move(1 if b == 'operator++' else -1)
            s.mem[loc] = nw
            return ('ref', loc) if len(v) == 1 else it
        if b in ('operator==', 'operator!=') and len(v) == 2 and isinstance(v[1], It):
            return int((v[0] == v[1]) == (b == 'operator=='))
        if b in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(v) == 2 and isinstance(v[1], It):
            x, y = v[0].i * it.rev, v[1].i * it.rev
            return int({'operator<': x < y, 'operator>': x > y, 'operator<=': x <= y, 'operator>=': x >= y}[b])
        if b == 'operator-' and len(v) == 2 and isinstance(v[1], It):
            return (it.i - v[1].i) * it.rev
        if b in ('operator+', 'operator-') and len(v) == 2 and isinstance(v[1], int):
            return it.move(v[1] if b == 'operator+' else -v[1])
        if b in ('operator+=', 'operator-=') and len(v) == 2 and isinstance(v[1], int) and loc is not None:
            s.mem[loc] = it.move(v[1] if b == 'operator+=' else -v[1])
            return ('ref', loc)
        if b == 'operator=' and len(v) == 2 and isinstance(v[1], It) and loc is not None:
            s.mem[loc] = v[1]
            return ('ref', loc)
        if b == 'operator[]' and len(v) == 2 and isinstance(v[1], int):
            return ('ref', self.elem(it.loc, it.i + v[1] * it.rev))
        return self.lose(fn, el)

    def ptrop(self, s, fn, el, b, loc, v):
        """iterator of a string"""
        p = v[0]
        q = v[1] if len(v) > 1 else None
        if b == 'operator*' and q is None:
            return ('ref', ('PC', self.at(p)))
        if b in ('operator++', 'operator--') and loc is not None:
            nw = Ptr(p.id, p.chars, p.pos + (1 if b == 'operator++' else -1))
            s.mem[loc] = nw
            return ('ref', loc) if q is None else p
        if b == 'operator[]' and isinstance(q, int):
            return ('ref', ('PC', self.at(p, q)))
        if b in ('operator+', 'operator-') and isinstance(q, int):
            return Ptr(p.id, p.chars, p.pos + (q if b == 'operator+' else -q))
        if b == 'operator-' and isinstance(q, Ptr) and q.id == p.id:
            return p.pos - q.pos
        if b == 'operator=' and isinstance(q, Ptr) and loc is not None:
            s.mem[loc] = q
            return ('ref', loc)
        if isinstance(q, Ptr) and q.id == p.id and b[8:] in ('==', '!=', '<', '>', '<=', '>='):
            return self.binop(b[8:], p, q, {})
        return self.lose(fn, el)

    def findkey(self, s, loc, key):
        """index of the element with the key, None if there is none, TOP if unknown"""
        q = s.mem[loc]
        if not (isinstance(key, tuple) and key[:1] == ('ref',)):
            key = self.box(s, Str(cstr(self.ptr(s, key).rest())) if isinstance(key, (str, Ptr)) else key)
        unsure = False
        for j in range(q.n):
            e = self.elem(loc, j)
            r = self.same(s, e + ('first',) if isinstance(q, Mp) else e, key[1])
            if r is True:
                return j
            if r is None:
                unsure = True
        return TOP if unsure else None

    def mapinsert(self, s, loc, key, val, vt=None):
        """(index, inserted), None if unknown"""
        q = s.mem[loc]
        j = self.findkey(s, loc, key)
        if j is TOP:
            return None
        if j is not None:
            return j, False
        if not (isinstance(key, tuple) and key[:1] == ('ref',)):
            key = self.box(s, Str(cstr(self.ptr(s, key).rest())) if isinstance(key, (str, Ptr)) else key)
        pos = q.n
        for i in range(q.n):
            e = self.elem(loc, i)
            r = self.rank(s, e + ('first',) if isinstance(q, Mp) else e, key[1])
            if r is None:
                pos = q.n
                break
            if r > 0:
                pos = i
                break
        # keep a copy before the elements are moved
        tk = self.temp(s, TOP)
        self.put(s, tk[1], key)
        for i in range(q.n, pos, -1):
            src, dst = self.elem(loc, i - 1), self.elem(loc, i)
            for k in s.mem.under(dst):
                del s.mem[k]
            for k in s.mem.under(src):
                s.mem[dst + k[len(src):]] = s.mem.pop(k)
        e = self.elem(loc, pos)
        if isinstance(q, Mp):
            self.put(s, e + ('first',), tk)
            if vt is not None:
                self.default(s, e + ('second',), vt)
            else:
                self.put(s, e + ('second',), val)
        else:
            self.put(s, e, tk)
        s.mem[loc] = type(q)(q.n + 1)
        return pos, True

    def mapslot(self, s, loc, key, fn, el):
        t = tmpl(fn.nodes[fn.strip(fn.obj(el) if fn.obj(el) >= 0 else fn.args(el)[0])].get('t', ''))[1]
        vt = t[1] if len(t) > 1 else ''
        r = self.mapinsert(s, loc, key, None, vt)
        return None if r is None else self.elem(loc, r[0])

    def contop(self, s, fn, el, b, loc, q, args, nd, qn):
        n = [self.num(s, a) for a in args]
        ot = fn.nodes[fn.strip(fn.obj(el))].get('t', '') if fn.obj(el) >= 0 else ''
        cn, ta = tmpl(ot)
        if not ta:
            cn, ta = tmpl(qn[:qn.rfind('::')])
        et = ta[0] if ta else ''
        if b in ('begin', 'cbegin'):
            return It(loc, 0)
        if b in ('end', 'cend'):
            return It(loc, q.n)
        if b in ('rbegin', 'crbegin'):
            return It(loc, q.n - 1, -1)
        if b in ('rend', 'crend'):
            return It(loc, -1, -1)
        if b == 'size':
            return q.n
        if b == 'empty':
            return int(q.n == 0)
        if b in ('reserve', 'shrink_to_fit'):
            return TOP
        if b == 'clear':
            self.store(s, loc, type(q)(0))
            return TOP
        if b in ('back', 'front'):
            return ('ref', self.elem(loc, q.n - 1 if b == 'back' else 0)) if q.n else self.lose(fn, el)
        if b == 'pop_back' and q.n:
            self.drop(s, loc, q.n - 1)
            return TOP
        if b == 'swap' and isinstance(args[0], tuple):
            o = self.final(s, args[0][1])
            t = self.temp(s, TOP)
            self.put(s, t[1], ('ref', loc)); self.put(s, loc, ('ref', o)); self.put(s, o, t)
            return TOP
        if isinstance(q, Mp) or cn in SETS or cn.endswith('set'):
            mp = isinstance(q, Mp)
            if b in ('find', 'count', 'at', 'erase'):
                j = self.findkey(s, loc, args[0]) if not isinstance(n[0], It) else n[0].i
                if j is TOP:
                    return self.lose(fn, el)
                if b == 'find':
                    return It(loc, q.n if j is None else j)
                if b == 'count':
                    return int(j is not None)
                if b == 'at':
                    return ('ref', self.elem(loc, j) + ('second',)) if j is not None else self.lose(fn, el)
                if j is not None:
                    self.drop(s, loc, j)
                return int(j is not None)
            if b in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                if mp and len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                    pl = self.final(s, args[0][1])
                    k, v = ('ref', pl + ('first',)), ('ref', pl + ('second',))
                elif mp and len(args) == 2:
                    k, v = args
                elif not mp and len(args) == 1:
                    k, v = args[0], None
                else:
                    return self.lose(fn, el)
                r = self.mapinsert(s, loc, k, v)
                if r is None:
                    return self.lose(fn, el)
                if b == 'insert_or_assign' and not r[1]:
                    self.put(s, self.elem(loc, r[0]) + ('second',), v)
                self.frames += 1
                t = ('T%d' % self.frames,)
                s.mem[t + ('first',)] = It(loc, r[0]); s.mem[t + ('second',)] = int(r[1])
                return ('ref', t)
            return self.lose(fn, el)
        if b == 'push_back':
            e = self.push(s, loc, args[0], et)
            v = s.mem.get(e)
            if isinstance(v, (str, Ptr)) and tmpl(et)[0] in STRINGS:
                s.mem[e] = Str(cstr(self.ptr(s, v).rest()))
            return TOP
        if b == 'at' and isinstance(n[0], int) and 0 <= n[0] < q.n:
            return ('ref', self.elem(loc, n[0]))
        if b == 'resize' and isinstance(n[0], int):
            while s.mem[loc].n > n[0]:
                self.drop(s, loc, s.mem[loc].n - 1)
            while s.mem[loc].n < n[0]:
                j = s.mem[loc].n
                if len(args) > 1:
                    self.push(s, loc, args[1], et)
                else:
                    self.default(s, self.elem(loc, j), et)
                    s.mem[loc] = Seq(j + 1)
            return TOP
        if b == 'emplace_back':
            e = self.elem(loc, q.n)
            tn = tmpl(et)[0]
            if tn in STRINGS:
                v = self.strv(s, args[0]) if args else ()
                if v is None:
                    return self.lose(fn, el)
                if isinstance(args[0], (Ptr, str)) and len(args) == 1:
                    v = cstr(v)
                if len(args) > 1 and isinstance(n[1], int):
                    v = (tuple(v) + (0,) * n[1])[:n[1]]
                s.mem[e] = Str(v)
            elif tn == 'std::pair' and len(args) == 2:
                self.put(s, e + ('first',), args[0]); self.put(s, e + ('second',), args[1])
            elif len(args) == 1 and (self.p.recs.get(tn) is None or (isinstance(args[0], tuple) and tmpl(fn.nodes[fn.strip(fn.args(el)[0])].get('t', ''))[0] == tn)):
                self.put(s, e, args[0], et)
            else:
                c = [f for f in self.p.fns.values() if f.cls == tn and f.name == tn.split('::')[-1] and len(f.params) == len(args) and f.blocks and not (len(args) == 1 and tn in f.params[0]['t'])]
                if len(c) != 1:
                    return self.lose(fn, el)
                s.mem[loc] = Seq(q.n + 1)
                conv = []
                for a, pm in zip(args, c[0].params):
                    v = a
                    if tmpl(pm['t'])[0] in STRINGS and not (isinstance(a, tuple) and a[:1] == ('ref',)):
                        q2 = self.ptr(s, a)
                        v = self.temp(s, Str(cstr(q2.rest()))) if q2 is not None else TOP
                    elif isinstance(a, tuple) and a[:1] == ('ref',) and not pm['t'].rstrip().endswith('&') and isinstance(self.num(s, a), (int, Lin)):
                        v = self.num(s, a)
                    conv.append(v)
                r = self.call(c[0], s, e, conv, 1)
                for o in r:
                    if o.kind == 'return':
                        o.value = ('ref', e)
                return r
            s.mem[loc] = Seq(q.n + 1)
            return ('ref', e)
        if b in ('insert', 'emplace') and args and isinstance(n[0], It) and n[0].loc == loc and n[0].rev == 1 and n[0].i <= q.n and not isinstance(q, Mp) and (len(args) >= 2) and not any(isinstance(x, It) for x in n[1:]) and (b == 'emplace' or len(args) == 2):
            # appended and then moved to its place
            if b == 'insert':
                r = self.contop(s, fn, el, 'push_back', loc, q, args[1:], nd, qn)
            else:
                r = self.contop(s, fn, el, 'emplace_back', loc, q, args[1:], nd, qn)
            if isinstance(r, list):
                sts = [o.state for o in r if o.kind == 'return']
                for o in r:
                    if o.kind == 'return':
                        o.value = It(loc, n[0].i)
            else:
                sts = [s]
            for x in sts:
                if isinstance(x.mem.get(loc), Seq) and x.mem[loc].n == q.n + 1:
                    self.permute(x, loc, list(range(n[0].i)) + [q.n] + list(range(n[0].i, q.n)))
            return r if isinstance(r, list) else It(loc, n[0].i) if isinstance(s.mem.get(loc), Seq) and s.mem[loc].n == q.n + 1 else r
        if b == 'erase' and args and isinstance(n[0], It) and n[0].loc == loc and n[0].rev == 1 and not isinstance(q, Mp):
            lo, hi = n[0].i, n[1].i if len(args) == 2 and isinstance(n[1], It) else n[0].i + 1
            if 0 <= lo <= hi <= q.n:
                self.permute(s, loc, list(range(lo)) + list(range(hi, q.n)) + list(range(lo, hi)))
                for j in range(q.n - 1, q.n - 1 - (hi - lo), -1):
                    self.drop(s, loc, j)
                return It(loc, lo)
        if b in ('insert',) and len(args) == 3 and all(isinstance(x, It) for x in n):
            if n[0].i == q.n:
                for j in range(n[1].i, n[2].i):
                    self.push(s, loc, ('ref', self.elem(n[1].loc, j)), et)
                return It(loc, n[0].i)
        return self.lose(fn, el)

    # ------------------------------------------------------------- Lua stack
    def lua(self, s, fn, el, qn, args):
        st = s.mem.get(('LS',))
        if st is None:
            return NotImplemented
        if not isinstance(st, tuple):
            return self.lose(fn, el)
        st = list(st)
        n = [self.num(s, a) if j else a for j, a in enumerate(args)]

        def done(v=TOP):
            s.mem[('LS',)] = tuple(st)
            return v

        def at(i):
            if not isinstance(i, int):
                return None
            i = i - 1 if i > 0 else len(st) + i
            return st[i] if 0 <= i < len(st) else None

        def ltype(v):
            if v is None:
                return -1
            return {'nil': 0, 'bool': 1, 'num': 3, 'str': 4, 'tab': 5, 'fun': 6, 'obj': 7}[v[0]]
        if qn == 'lua_gettop':
            return len(st)
        if qn == 'lua_pushvalue':
            v = at(n[1])
            if v is None:
                return self.lose(fn, el)
            st.append(v)
            return done()
        if qn == 'lua_pushnil':
            st.append(('nil',))
            return done()
        if qn in ('lua_pushinteger', 'lua_pushnumber'):
            st.append(('num', n[1]))
            return done()
        if qn == 'lua_settop':
            if not isinstance(n[1], int):
                return self.lose(fn, el)
            m = n[1] if n[1] >= 0 else len(st) + n[1] + 1
            st = (st + [('nil',)] * m)[:m]
            return done()
        if qn == 'lua_next':
            t = at(n[1])
            if t is None or t[0] != 'tab' or not st:
                return self.lose(fn, el)
            key = st.pop()
            ent = t[1]
            j = 0 if key[0] == 'nil' else next((x + 1 for x, (k, v) in enumerate(ent) if k is key or k == key), None)
            if j is None:
                return self.lose(fn, el)
            if j >= len(ent):
                return done(0)
            st += [ent[j][0], ent[j][1]]
            return done(1)
        if qn == 'lua_type':
            v = at(n[1])
            return ltype(v) if isinstance(n[1], int) else self.lose(fn, el)
        if qn == 'lua_isnumber':
            v = at(n[1])
            if v is not None and v[0] == 'str':
                return self.lose(fn, el)
            return int(v is not None and v[0] == 'num')
        if qn == 'lua_isstring':
            v = at(n[1])
            return int(v is not None and v[0] in ('num', 'str'))
        if qn == 'lua_iscfunction':
            return 0
        if qn in ('lua_tonumberx', 'lua_tointegerx'):
            v = at(n[1])
            return v[1] if v is not None and v[0] == 'num' else (0 if v is None or v[0] != 'str' else self.lose(fn, el))
        if qn == 'lua_toboolean':
            v = at(n[1])
            return int(not (v is None or v[0] == 'nil' or (v[0] == 'bool' and not v[1])))
        if qn == 'lua_tolstring':
            v = at(n[1])
            if v is None or v[0] not in ('str', 'num'):
                return 0
            ch = v[1] if v[0] == 'str' else (digits(v[1]) if isinstance(v[1], (int, Lin)) else None)
            if ch is None:
                ch = (Num(v[1]),)
            if len(args) > 2 and isinstance(args[2], tuple) and args[2][:1] == ('ref',):
                self.store(s, args[2][1], len(ch))
            return Ptr(('lua', tuple(map(repr, ch))), ch)
        if qn in ('lua_rawlen', 'lua_objlen', 'luaL_len'):
            v = at(n[1])
            if v is None or v[0] != 'tab':
                return self.lose(fn, el)
            return sum(1 for k, _ in v[1] if k[0] == 'num')
        if qn in ('lua_rawgeti', 'lua_geti', 'lua_getfield', 'lua_rawget', 'lua_gettable'):
            t = at(n[1])
            if t is None or t[0] != 'tab':
                return self.lose(fn, el)
            if qn in ('lua_rawgeti', 'lua_geti'):
                key = ('num', n[2])
            elif qn == 'lua_getfield':
                q = self.ptr(s, args[2])
                key = ('str', tuple(q.rest())) if q is not None else None
            else:
                key = st.pop() if st else None
            v = next((x for k, x in t[1] if k == key), ('nil',))
            st.append(v)
            return done(ltype(v))
        if qn == 'lua_absindex':
            return n[1] if n[1] > 0 else len(st) + n[1] + 1
        if qn in ('lua_checkstack',):
            return 1
        if qn in ('luaL_checkstack',):
            return TOP
        if qn in ('lua_remove', 'lua_insert', 'lua_replace'):
            i = n[1] - 1 if n[1] > 0 else len(st) + n[1]
            if qn == 'lua_remove':
                del st[i]
            elif qn == 'lua_insert':
                st.insert(i, st.pop())
            else:
                st[i] = st[-1]; st.pop()
            return done()
        if qn == 'lua_pushboolean':
            st.append(('bool', n[1]) if isinstance(n[1], int) else ('obj', 'bool'))
            return done()
        if qn in ('lua_pushstring', 'lua_pushlstring'):
            q = self.ptr(s, args[1])
            if q is not None and (qn == 'lua_pushstring' or isinstance(n[2], int)):
                ch = tuple(q.rest())
                ch = ch[:n[2]] if qn == 'lua_pushlstring' else cstr(ch)
                st.append(('str', tuple(ch)))
                return done(Ptr(('lua', tuple(map(repr, ch))), tuple(ch)))
        if qn == 'lua_typename':
            return 'type'
        if qn in ('lua_newtable', 'lua_createtable'):
            st.append(('obj', 'new table'))
            return done()
        s.mem[('LS',)] = TOP
        return self.lose(fn, el)


class BadLua(Exception):
    pass


def inset(ch, cs):
    """is the character in a set; splits the case if undecided"""
    if isinstance(ch, int):
        return ch in cs
    if isinstance(ch, Lin):
        t = ch.table()
        if t is None:
            lo, hi = ch.bounds()
            if not any(lo <= x <= hi for x in cs):
                return False
            raise BadLua('unknown character')
        z = {x for x, y in t.items() if y in cs}
        if len(z) in (0, len(t)):
            return bool(z)
        raise NeedSplit(ch.root(), z)
    return False


SP = {ord(c) for c in ' \t\n\r'}
ID0 = {ord(c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'}
DG = {ord(c) for c in '0123456789'}
HX = {ord(c) for c in '0123456789abcdefABCDEF'}
KW = {'and', 'break', 'do', 'else', 'elseif', 'end', 'false', 'for', 'function', 'goto', 'if', 'in', 'local', 'nil', 'not', 'or', 'repeat', 'return', 'then', 'true', 'until', 'while'}


class LuaText:
    """reader of a Lua table constructor with symbolic characters"""

    def __init__(self, chars, reverse=False):
        self.c = tuple(chars); self.i = 0; self.reverse = reverse

    def ch(self, k=0):
        return self.c[self.i + k] if self.i + k < len(self.c) else 0

    def ws(self):
        while self.i < len(self.c) and inset(self.ch(), SP):
            self.i += 1

    def eat(self, c):
        self.ws()
        if self.i < len(self.c) and inset(self.ch(), {ord(c)}):
            self.i += 1
            return True
        return False

    def need(self, c):
        if not self.eat(c):
            raise BadLua('%r expected at %s' % (c, show(self.c[self.i:self.i + 20])))

    def ident(self):
        if not (self.i < len(self.c) and inset(self.ch(), ID0)):
            raise BadLua('identifier expected at %s' % show(self.c[self.i:self.i + 20]))
        a = self.i
        while self.i < len(self.c) and inset(self.ch(), ID0 | DG):
            self.i += 1
        r = self.c[a:self.i]
        if all(isinstance(x, int) for x in r) and ''.join(map(chr, r)) in KW:
            raise BadLua('the keyword %s is used as name' % ''.join(map(chr, r)))
        return r

    def string(self):
        q = self.ch()
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.c):
                raise BadLua('unfinished string')
            x = self.ch()
            if inset(x, {q}):
                self.i += 1
                return tuple(out)
            if inset(x, {10, 13}):
                raise BadLua('a string contains a line break')
            if inset(x, {92}):
                self.i += 1
                y = self.ch()
                m = {ord('n'): 10, ord('r'): 13, ord('t'): 9, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11, 92: 92, 34: 34, 39: 39, 10: 10}
                for k, v in m.items():
                    if inset(y, {k}):
                        out.append(v); self.i += 1
                        break
                else:
                    if inset(y, DG):
                        ds = []
                        while len(ds) < 3 and inset(self.ch(), DG):
                            ds.append(self.ch()); self.i += 1
                        if not all(isinstance(d, int) for d in ds):
                            raise BadLua('symbolic digits in an escape sequence')
                        v = int(''.join(map(chr, ds)))
                        if v > 255:
                            raise BadLua('escape sequence with a number that is no character')
                        out.append(v - 256 if v > 127 else v)
                    elif inset(y, {ord('x')}) and isinstance(self.ch(1), int) and isinstance(self.ch(2), int) and self.ch(1) in HX and self.ch(2) in HX:
                        v = int(chr(self.ch(1)) + chr(self.ch(2)), 16)
                        out.append(v - 256 if v > 127 else v); self.i += 3
                    elif inset(y, {ord('x')}) and inset(self.ch(1), HX) and inset(self.ch(2), HX):
                        a, b = (lin(self.ch(k)) for k in (1, 2))
                        r = (a.root() or b.root()) if a.co or b.co else None
                        if r is None or (a.co and a.root() is not r) or (b.co and b.root() is not r):
                            raise BadLua('symbolic digits in an escape sequence')
                        ta, tb = (t.table() if t.co else dict.fromkeys(r.set, t.k) for t in (a, b))
                        m = {x: int(chr(ta[x]) + chr(tb[x]), 16) for x in r.set}
                        m = {x: v - 256 if v > 127 else v for x, v in m.items()}
                        out.append(Lin({r: 1}) if all(x == v for x, v in m.items()) else Lin({r: 1}).derived('esc', lambda x: m[x])); self.i += 3
                    else:
                        raise BadLua('invalid escape sequence at %s' % show(self.c[self.i - 1:self.i + 5]))
                continue
            out.append(x)
            self.i += 1

    def value(self, key=None):
        self.ws()
        x = self.ch()
        if self.i >= len(self.c):
            raise BadLua('value expected at the end of the text')
        if isinstance(x, Num):
            self.i += 1
            if isinstance(self.ch(), Num) or inset(self.ch(), DG | ID0):
                raise BadLua('two numbers without separator')
            return ('num', x.v)
        if inset(x, {34, 39}):
            return ('str', self.string())
        if inset(x, {ord('{')}):
            return self.table()
        if inset(x, DG | {ord('-')}):
            a = self.i
            neg = inset(x, {ord('-')})
            self.i += neg
            b = self.i
            while self.i < len(self.c) and inset(self.ch(), DG):
                self.i += 1
            t = self.c[b:self.i]
            if not t or self.i < len(self.c) and inset(self.ch(), ID0 | {ord('.')}):
                raise BadLua('number expected at %s' % show(self.c[a:a + 20]))
            v = number([lin_op('-', lin(y), lin(48)) for y in t])
            v = v if isinstance(v, int) or not v.co else v
            return ('num', lin_op('-', lin(0), lin(v)) if neg else v)
        a = self.i
        try:
            p = [self.ident()]
        except BadLua:
            w = self.c[a:self.i]
            w = ''.join(map(chr, w)) if all(isinstance(x, int) for x in w) else ''
            if w in ('true', 'false', 'nil'):
                return ('nil',) if w == 'nil' else ('bool', int(w == 'true'))
            raise
        while self.eat('.'):
            p.append(self.ident())
        return ('path', tuple(p))

    def table(self):
        self.need('{')
        arr = []; rec = []
        while not self.eat('}'):
            self.ws()
            if self.eat('['):
                k = self.value()
                self.need(']'); self.need('=')
                rec.append((k, self.value()))
            else:
                j = self.i
                nm = None
                if self.i < len(self.c) and inset(self.ch(), ID0):
                    nm = self.ident()
                    if not self.eat('='):
                        nm = None; self.i = j
                if nm is not None:
                    v = self.value()
                    if v[0] == 'path':
                        v = ('fun' if bytes(x & 255 for x in nm if isinstance(x, int)) == b'proc' else 'obj', v[1])
                    rec.append((('str', nm), v))
                else:
                    arr.append((('num', len(arr) + 1), self.value()))
            if not (self.eat(',') or self.eat(';')):
                self.need('}')
                break
        d = []
        for k, v in arr + (rec[::-1] if self.reverse else rec):
            if v[0] == 'path':
                v = ('obj', v[1])
            if any(k == k2 for k2, _ in d):
                raise BadLua('duplicate key %r' % (k,))
            d.append((k, v))
        return ('tab', tuple(d))
