"""Evaluation of the type database: positions of scopes are elements of an order (only comparisons are known), models for ordered maps, priority queues, unique pointers,
memory resources and the map of identifiers"""
from absint import State, TOP, Atom, Outcome
from strabs import Str, Ptr, codes, base
from facts import CTORS
from coll import CollEval, Seq, Mp, It, tmpl

INF = 2147483647
T = 'mewa::TypeDatabase'


def place(a, op, b):
    """comparison of a position with a constant: the constants known are 0, below all positions, and the maximum"""
    def r(x):
        return x.rank if isinstance(x, Atom) else (0 if x == 0 else -1 if isinstance(x, int) and x < 0 else 10 ** 6 if x == INF else None)
    x, y = r(a), r(b)
    if x is None or y is None:
        return None
    return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]


def pos(r):
    return r if r in (0, INF, -1) else Atom(r, place)


class Unknown(Exception):
    pass


class Thrown(Exception):
    def __init__(self, o):
        self.o = o


class Db(CollEval):
    def __init__(self, p, **kw):
        kw.setdefault('max_steps', 400000); kw.setdefault('max_visits', 400); kw.setdefault('max_depth', 24)
        super().__init__(p, **kw)
        self.max_paths = 60
        self.lts = {}
        self.models['mewa::IdentMap::get'] = lambda ev, s, args, objloc, fn, el: ev.ident(s, objloc, args[0], True)
        self.models['mewa::IdentMap::lookup'] = lambda ev, s, args, objloc, fn, el: ev.ident(s, objloc, args[0], False)
        self.models['mewa::IdentMap::inv'] = lambda ev, s, args, objloc, fn, el: ev.identinv(s, objloc, args[0])
        self.models['mewa::string_format'] = lambda ev, s, args, objloc, fn, el: ev.temp(s, Str(codes('x')))

    # ---------------------------------------------------------- order of keys
    def binop(self, op, l, r, nd):
        if (isinstance(l, Atom) or isinstance(r, Atom)) and op in ('==', '!=', '<', '>', '<=', '>='):
            x = place(l, op, r)
            return TOP if x is None else int(x)
        return super().binop(op, l, r, nd)

    def lt(self, cls):
        """order of a class of keys"""
        if cls not in self.lts:
            c = [f for f in self.p.fns.values() if f.blocks and f.name == 'operator<' and (f.cls == cls and len(f.params) == 1)]
            self.lts[cls] = c[0] if len(c) == 1 else None
        return self.lts[cls]

    def truthof(self, outs):
        if outs and all(o.kind == 'return' for o in outs):
            v = {self.truth(o.value) for o in outs}
            if len(v) == 1:
                return next(iter(v))
        return None

    def before(self, s, kt, cmp_, a, b):
        """is the key at a before the key at b: True, False or None"""
        n, ta = tmpl(kt)
        if cmp_ and not cmp_.startswith('std::less') and not cmp_.startswith('std::greater'):
            f = [f for f in self.p.fns.values() if f.blocks and f.name == 'operator()' and f.cls == cmp_ and len(f.params) == 2]
            return self.truthof(self.call(f[0], s, ('CMP',), [('ref', a), ('ref', b)], 1)) if len(f) == 1 else None
        if cmp_ and cmp_.startswith('std::greater'):
            a, b = b, a
            f = [f for f in self.p.fns.values() if f.blocks and f.name == 'operator>' and f.cls == kt and len(f.params) == 1]
            if f:
                return self.truthof(self.call(f[0], s, b, [('ref', a)], 1))
        if n == 'std::pair':
            for j, q in enumerate(('first', 'second')):
                x = self.before(s, ta[j], '', a + (q,), b + (q,))
                if x is None or x:
                    return x
                y = self.before(s, ta[j], '', b + (q,), a + (q,))
                if y is None or y:
                    return None if y is None else False
            return False
        f = self.lt(kt)
        if f is not None:
            return self.truthof(self.call(f, s, a, [('ref', b)], 1))
        x, y = s.mem.get(self.final(s, a)), s.mem.get(self.final(s, b))
        if isinstance(x, (int, Atom)) and isinstance(y, (int, Atom)):
            return place(x, '<', y) if isinstance(x, Atom) or isinstance(y, Atom) else x < y
        return None

    def keytype(self, fn, el):
        ot = fn.nodes[fn.strip(fn.obj(el))].get('t', '') if fn.obj(el) >= 0 else ''
        cn, ta = tmpl(ot)
        if not ta:
            qn = fn.nodes[el].get('qn', '')
            cn, ta = tmpl(qn[:qn.rfind('::')])
        return cn, ta

    def lower(self, s, loc, kt, cmp_, key, upper=False):
        """index of the first element not before the key (after the key if upper), None if unknown"""
        q = s.mem[loc]
        for j in range(q.n):
            e = self.elem(loc, j) + (('first',) if isinstance(q, Mp) else ())
            r = self.before(s, kt, cmp_, key, e) if upper else self.before(s, kt, cmp_, e, key)
            if r is None:
                return None
            if r == upper:
                return j
        return q.n

    def asref(self, s, v):
        return v if isinstance(v, tuple) and v[:1] == ('ref',) else self.box(s, v)

    def contop(self, s, fn, el, b, loc, q, args, nd, qn):
        cn, ta = self.keytype(fn, el)
        ordered = cn in ('std::map', 'std::set') and ta
        if ordered and b in ('upper_bound', 'lower_bound', 'find', 'count', 'insert', 'emplace', 'at', 'operator[]'):
            kt = ta[0]
            mp = cn == 'std::map'
            cm = ta[2] if mp and len(ta) > 2 else ta[1] if not mp and len(ta) > 1 else ''
            if cm.startswith('std::pmr::') or 'allocator' in cm:
                cm = ''
            if b in ('insert', 'emplace'):
                if mp and len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                    pl = self.final(s, args[0][1])
                    key, v = ('ref', pl + ('first',)), ('ref', pl + ('second',))
                elif mp and len(args) == 2 and not isinstance(self.num(s, args[0]), It):
                    key, v = args
                elif not mp and len(args) == 1:
                    key, v = args[0], None
                else:
                    return self.lose(fn, el)
            else:
                key = args[0]
            key = self.asref(s, key)
            kl = self.final(s, key[1])
            if b in ('upper_bound', 'lower_bound'):
                j = self.lower(s, loc, kt, cm, kl, b == 'upper_bound')
                return self.lose(fn, el) if j is None else It(loc, j)
            j = self.lower(s, loc, kt, cm, kl)
            if j is None:
                return self.lose(fn, el)
            hit = False
            if j < q.n:
                r = self.before(s, kt, cm, kl, self.elem(loc, j) + (('first',) if mp else ()))
                if r is None:
                    return self.lose(fn, el)
                hit = not r
            if b == 'find':
                return It(loc, j if hit else q.n)
            if b == 'count':
                return int(hit)
            if b in ('at', 'operator[]'):
                if hit:
                    return ('ref', self.elem(loc, j) + ('second',))
                return super().contop(s, fn, el, b, loc, q, args, nd, qn)
            if not hit:
                tk = self.temp(s, TOP)
                self.put(s, tk[1], key)
                tv = None
                if mp:
                    tv = self.temp(s, TOP)
                    self.put(s, tv[1], v)
                for i in range(q.n, j, -1):
                    src, dst = self.elem(loc, i - 1), self.elem(loc, i)
                    for k in s.mem.under(dst):
                        del s.mem[k]
                    for k in s.mem.under(src):
                        s.mem[dst + k[len(src):]] = s.mem.pop(k)
                e = self.elem(loc, j)
                self.put(s, e + ('first',) if mp else e, tk)
                if mp:
                    self.put(s, e + ('second',), tv)
                s.mem[loc] = type(q)(q.n + 1)
            self.frames += 1
            t = ('T%d' % self.frames,)
            s.mem[t + ('first',)] = It(loc, j); s.mem[t + ('second',)] = int(not hit)
            return ('ref', t)
        if b == 'data':
            return ('ref', self.elem(loc, 0))
        if b == 'insert' and len(args) == 3 and cn not in ('std::map', 'std::set'):
            n = [self.num(s, a) for a in args]
            if isinstance(n[0], It) and n[0].i == q.n:
                src = self.span(s, args[1], args[2])
                if src is not None:
                    at = q.n
                    for e in src:
                        self.push(s, loc, ('ref', e), '')
                    return It(loc, at)
        return super().contop(s, fn, el, b, loc, q, args, nd, qn)

    def span(self, s, a, b):
        """locations between two iterators of an array"""
        def at(v):
            if isinstance(v, tuple) and v[:1] == ('ref',):
                l = v[1]
                k = [x for x in s.mem.under(l) if x != l]
                for x in [l] + k:
                    w = s.mem.get(x)
                    if isinstance(w, It):
                        return self.elem(w.loc, 0)[:-1], w.i
                    z = self.arrayix(w) if isinstance(w, tuple) else None
                    if z:
                        return z
                return None
            return None
        x, y = at(a), at(b)
        if x is None or y is None or x[0] != y[0]:
            return [] if x == y == None and self.num(s, a) == 0 else None
        return [self.elem(x[0], i) for i in range(x[1], y[1])]

    @staticmethod
    def arrayix(v):
        r = CollEval.arrayix(v)
        if r is None and isinstance(v, tuple) and v[:1] == ('ref',) and len(v) > 1 and v[1] and isinstance(v[1][-1], str) and v[1][-1][:1] == '#' and v[1][-1][1:].lstrip('-').isdigit():
            return v[1][:-1], int(v[1][-1][1:])
        return r

    def arrayptr(self, fn, fr, s, nd, k, this):
        """pointers to elements of vectors"""
        c = nd.get('c', ())

        def mk(a, i, like):
            return ('ref', a[0] + ((('#%d' if like[1][-1][:1] == '#' else '[%d]') % i),))
        if k == 'ArraySubscriptExpr' or (k == 'BinaryOperator' and nd.get('op') in ('+', '-')) or (k == 'UnaryOperator' and nd.get('op') in ('++', '--') and nd.get('t', '').rstrip().endswith('*')) or (k == 'UnaryOperator' and nd.get('op') == '*'):
            if k == 'UnaryOperator' and nd['op'] in ('++', '--'):
                v = self.val(fn, fr, s, c[0], this)
                if isinstance(v, tuple) and v[:1] == ('ref',):
                    old = s.mem.get(v[1])
                    a = Db.arrayix(old)
                    if a and old[1][-1][:1] == '#':
                        self.store(s, v[1], mk(a, a[1] + (1 if nd['op'] == '++' else -1), old))
                        return old if nd.get('post') else v
                return super().arrayptr(fn, fr, s, nd, k, this)
            if k == 'UnaryOperator':
                v = self.val(fn, fr, s, c[0], this)
                if Db.arrayix(v) and v[1][-1][:1] == '#':
                    return v
                return super().arrayptr(fn, fr, s, nd, k, this)
            v = self.val(fn, fr, s, c[0], this)
            a = Db.arrayix(v)
            if a and v[1][-1][:1] == '#' and fn.nodes[c[0]].get('t', '').rstrip().endswith('*'):
                w = self.val(fn, fr, s, c[1], this)
                if isinstance(w, int):
                    return mk(a, a[1] - w if nd.get('op') == '-' else a[1] + w, v)
            if k == 'ArraySubscriptExpr' and isinstance(v, tuple) and v[:1] == ('ref',) and not CollEval.arrayix(v) and fn.nodes[c[0]].get('t', '').rstrip().endswith('*') and self.num(s, self.val(fn, fr, s, c[1], this)) == 0:
                w = s.mem.get(v[1])
                return w if isinstance(w, tuple) and w[:1] == ('ref',) and fn.nodes[c[0]].get('lv') else v
        return super().arrayptr(fn, fr, s, nd, k, this)

    # ---------------------------------------------------------- library
    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        b = base(qn)
        ol = self.final(s, objloc) if objloc is not None else None
        if qn.startswith('std::unique_ptr') or qn.startswith('std::shared_ptr'):
            if objloc is not None and nd['k'] not in CTORS:
                v = s.mem.get(objloc, TOP)
                if b == 'reset':
                    s.mem[objloc] = args[0] if args else 0
                    return TOP
                if b in ('operator->', 'get', 'operator*'):
                    return v
                if b == 'operator bool':
                    return int(isinstance(v, tuple)) if v is not TOP else TOP
        if qn.startswith('std::priority_queue') and ol is not None and nd['k'] not in CTORS:
            return self.queue(s, fn, el, b, ol, args, nd)
        if b in ('move', 'forward') and qn.startswith('std::') and len(args) == 1:
            return args[0]
        if qn.startswith(('std::max', 'std::min')) and len(args) == 2:
            x, y = self.num(s, args[0]), self.num(s, args[1])
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return max(x, y) if qn.startswith('std::max') else min(x, y)
        if b == 'reverse' and qn.startswith('std::'):
            a = [self.num(s, x) for x in args]
            if len(a) == 2 and all(isinstance(x, It) for x in a):
                i, j = a[0].i, a[1].i - 1
                while i < j:
                    x, y = self.elem(a[0].loc, i), self.elem(a[0].loc, j)
                    t = self.temp(s, TOP)[1]
                    self.put(s, t, ('ref', x)); self.put(s, x, ('ref', y)); self.put(s, y, ('ref', t))
                    i += 1; j -= 1
                return TOP
        if b in ('aligned_alloc', 'malloc') and objloc is None:
            self.frames += 1
            s.mem[('H%d' % self.frames,)] = ('opaque',)
            return ('ref', ('H%d' % self.frames,))
        if b == 'epsilon':
            return 1.1920928955078125e-07 if 'float' in qn or fn.nodes[el].get('t', '') == 'float' else 2.220446049250313e-16
        return super().lib(s, fr, fn, el, args, objloc, nd, qn)

    def queue(self, s, fn, el, b, ol, args, nd):
        cn, ta = self.keytype(fn, el)
        q = s.mem.get(ol)
        if not isinstance(q, Seq) or not ta:
            return self.lose(fn, el)
        et = ta[0]
        cm = ta[2] if len(ta) > 2 else 'std::less'
        if b == 'empty':
            return int(q.n == 0)
        if b == 'size':
            return q.n
        if b == 'top':
            return ('ref', self.elem(ol, 0)) if q.n else self.lose(fn, el)
        if b == 'pop' and q.n:
            self.drop(s, ol, 0)
            return TOP
        if b in ('push', 'emplace'):
            if b == 'emplace':
                c = [f for f in self.p.fns.values() if f.cls == et and f.name == et.split('::')[-1] and len(f.params) == len(args) and f.blocks]
                if len(c) != 1:
                    return self.lose(fn, el)
                t = self.temp(s, TOP)
                outs = self.call(c[0], s, t[1], args, 1)
                if len(outs) != 1 or outs[0].kind != 'return':
                    return self.lose(fn, el)
                s.mem = outs[0].state.mem
                v = t
            else:
                v = args[0]
            tv = self.temp(s, TOP)
            self.put(s, tv[1], v)
            j = q.n
            for i in range(q.n):
                # the element with the highest priority is in front: comp(a,b) says that b comes before a
                r = self.before(s, et, cm, self.elem(ol, i), tv[1])
                if r is None:
                    return self.lose(fn, el)
                if r:
                    j = i
                    break
            for i in range(q.n, j, -1):
                src, dst = self.elem(ol, i - 1), self.elem(ol, i)
                for k in s.mem.under(dst):
                    del s.mem[k]
                for k in s.mem.under(src):
                    s.mem[dst + k[len(src):]] = s.mem.pop(k)
            self.put(s, self.elem(ol, j), tv)
            s.mem[ol] = Seq(q.n + 1)
            return TOP
        return self.lose(fn, el)

    def ctor(self, s, fr, fn, el, args, nd):
        cls = nd.get('cls', '') or nd.get('t', '')
        n0 = tmpl(cls)[0]
        n = tmpl(nd.get('t', ''))[0]
        if n0 == 'mewa::IdentMap' or n == 'mewa::IdentMap':
            self.frames += 1
            loc = ('T%d' % self.frames,)
            s.mem[loc + ('names',)] = ()
            return ('ref', loc)
        if 'monotonic_buffer_resource' in n0 or 'monotonic_buffer_resource' in n or n0.endswith('ResultBuffer'):
            self.frames += 1
            loc = ('T%d' % self.frames,)
            s.mem[loc] = ('opaque',)
            return ('ref', loc)
        if n0 == 'std::priority_queue' or n == 'std::priority_queue':
            self.frames += 1
            loc = ('T%d' % self.frames,)
            s.mem[loc] = Seq(0)
            return ('ref', loc)
        if n0 in ('std::vector', 'std::map', 'std::set') and len(args) == 1:
            at = [fn.nodes[q].get('t', '').replace('const ', '').rstrip(' &*') for q in (fn.args(el)[0], fn.strip(fn.args(el)[0]))]
            if not nd.get('cc') and not nd.get('mc') and any(q.startswith('std::pmr::polymorphic_allocator') or q.endswith('memory_resource') or q.endswith('buffer_resource') for q in at):
                self.frames += 1
                loc = ('T%d' % self.frames,)
                s.mem[loc] = Mp(0) if n0 == 'std::map' else Seq(0)
                return ('ref', loc)
        return super().ctor(s, fr, fn, el, args, nd)

    # ---------------------------------------------------------- identifiers
    def ident(self, s, loc, v, add):
        c = self.strv(s, v)
        l = self.final(s, loc) + ('names',)
        if c is None or not isinstance(s.mem.get(l), tuple):
            return TOP
        c = tuple(c)
        if c not in s.mem[l]:
            if not add:
                return 0
            s.mem[l] = s.mem[l] + (c,)
        return s.mem[l].index(c) + 1

    def identinv(self, s, loc, v):
        l = self.final(s, loc) + ('names',)
        v = self.num(s, v)
        t = s.mem.get(l)
        return self.temp(s, Str(t[v - 1])) if isinstance(t, tuple) and isinstance(v, int) and 0 < v <= len(t) else TOP

    def run(self, f, s, loc, args):
        self.steps = 0
        outs = self.call(f, s, loc, list(args))
        if len(outs) == 1 and outs[0].kind == 'return':
            return outs[0].value, outs[0].state
        if outs and all(o.kind == 'throw' for o in outs):
            raise Thrown(outs[0])
        raise Unknown('%s has %s' % (f.qn, [o.kind for o in outs][:4]))

    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        if nd['k'] == 'CXXNewExpr' and not nd.get('arr'):
            for c in nd.get('c', ()):
                v = self.val(fn, fr, s, c, this)
                if isinstance(v, tuple) and v[:1] == ('ref',):
                    return v
        return super().eval(fn, fr, s, i, this)

    def prune(self, s, roots):
        """forget what is not reachable from the roots"""
        todo = [r[0] for r in roots]; live = set()
        by = {}
        for k in s.mem:
            by.setdefault(k[0], []).append(k)
        while todo:
            r = todo.pop()
            if r in live:
                continue
            live.add(r)
            for k in by.get(r, ()):
                v = s.mem[k]
                l = v[1] if isinstance(v, tuple) and v[:1] == ('ref',) and len(v) > 1 else v.loc if isinstance(v, It) else None
                if isinstance(l, tuple) and l and k[-1:] != ('#copyof',):
                    todo.append(l[0])
        for r, ks in by.items():
            if r not in live:
                for k in ks:
                    del s.mem[k]
        for k in [k for k in s.mem if k[-1:] == ('#copyof',)]:
            del s.mem[k]
        s.vals = {}
        s.trail = ()
        return s


class Api:
    """calls of the methods of the type database"""
    def __init__(self, p):
        self.p = p
        self.e = Db(p)
        self.m = {}
        for f in p.fns.values():
            if f.cls == T and f.blocks:
                self.m.setdefault(f.name, []).append(f)

    def fn(self, name, types):
        """the overload with the words given in the types of its parameters"""
        c = [f for f in self.m.get(name, ()) if len(f.params) == len(types) and all((q['t'].replace('const ', '').rstrip(' &') == w if w in ('int', 'float') else w in q['t']) for w, q in zip(types, f.params))]
        if len(c) != 1:
            raise Unknown('method %s not found' % name)
        return c[0]

    def new(self):
        c = [f for f in self.m.get('TypeDatabase', ()) if len(f.params) == 1 and f.params[0]['t'].replace('const ', '') in ('unsigned long', 'std::size_t', 'size_t')]
        if len(c) != 1:
            raise Unknown('constructor not found')
        v, s = self.e.run(c[0], State(), ('DB',), [1024])
        return self.e.prune(s, [('DB',)])

    def loc(self, s):
        self.e.frames += 1
        return ('S%d' % self.e.frames,)

    def scope(self, s, sc):
        l = self.loc(s)
        f = self.fields('mewa::Scope', 2)
        s.mem[l + (f[0],)] = pos(sc[0]); s.mem[l + (f[1],)] = pos(sc[1])
        return ('ref', l)

    def fields(self, rec, n):
        r = self.p.recs.get(rec)
        if not r or len(r['fields']) != n:
            raise Unknown('fields of %s' % rec)
        return [q['n'] for q in r['fields']]

    def name(self, s, x):
        return self.e.temp(s, Str(codes(x)))

    def mask(self, s, tags):
        """set of tags"""
        l = self.loc(s)
        m = 0
        for t in tags:
            m |= 1 << (t - 1)
        s.mem[l + (self.fields('mewa::TagMask', 1)[0],)] = m
        return ('ref', l)

    def plist(self, s, l, rec='TypeConstructorPair'):
        """list of parameters (pairs of type and constructor) or of types"""
        loc = self.loc(s)
        a = loc + ('arr',)
        s.mem[a] = Seq(len(l))
        for j, x in enumerate(l):
            if isinstance(x, tuple):
                s.mem[a + ('#%d' % j, 'type')], s.mem[a + ('#%d' % j, 'constructor')] = x
            else:
                s.mem[a + ('#%d' % j,)] = x
        s.mem[loc + ('arsize',)] = len(l)
        s.mem[loc + ('ar',)] = ('ref', a + ('#0',))
        return ('ref', loc)

    def buf(self, s):
        l = self.loc(s)
        s.mem[l] = ('opaque',)
        return ('ref', l)

    def run(self, s, f, args):
        s = s.copy()
        s.trail = ()
        v, s = self.e.run(f, s, ('DB',), [a(s) if callable(a) else a for a in args])
        return v, s

    def do(self, s, f, args):
        v, s = self.run(s, f, args)
        return v, self.e.prune(s, [('DB',)])

    def err(self, o):
        """code of the error thrown"""
        nd = o.fn.nodes[o.node] if o.fn and o.node is not None else {}
        return o.fn.path(o.node) if o.fn else ''

    def seq(self, s, v, field):
        """elements of a sequence of a structure"""
        l = self.e.final(s, v[1]) + (field,) if field else self.e.final(s, v[1])
        q = s.mem.get(l)
        if not isinstance(q, Seq):
            raise Unknown('sequence %s' % field)
        return [self.e.elem(l, j) for j in range(q.n)]

    def num(self, s, l):
        v = s.mem.get(l)
        if v is None:
            v = s.mem.get(self.e.final(s, l))
        if not isinstance(v, (int, float)):
            raise Unknown('value %s' % (l[-1:],))
        return v

    # -------------------------------------------------------- the interface
    def set_object(self, s, name, sc, h):
        return self.do(s, self.fn('setObjectInstance', ('', 'Scope', 'int')), [lambda s: self.name(s, name), lambda s: self.scope(s, sc), h])[1]

    def get_object(self, s, name, step):
        v, t = self.run(s, self.fn('getObjectInstance', ('', 'int')), [lambda s: self.name(s, name), pos(step)])
        return self.int(t, v)

    def get_object_of(self, s, name, sc):
        v, t = self.run(s, self.fn('getObjectInstanceOfScope', ('', 'Scope')), [lambda s: self.name(s, name), lambda s: self.scope(s, sc)])
        return self.int(t, v)

    def int(self, s, v):
        if isinstance(v, tuple) and v[:1] == ('ref',):
            v = s.mem.get(self.e.final(s, v[1]))
        if not isinstance(v, (int, float)):
            raise Unknown('value returned')
        return v

    def def_type(self, s, sc, ctx, name, constructor, params):
        v, t = self.do(s, self.fn('defineType', ('Scope', 'int', '', 'int', 'List')), [lambda s: self.scope(s, sc), ctx, lambda s: self.name(s, name), constructor, lambda s: self.plist(s, params)])
        return self.int(t, v), t

    def get_type(self, s, sc, ctx, name, types):
        v, t = self.run(s, self.fn('getType', ('Scope', 'int', '', 'List')), [lambda s: self.scope(s, sc), ctx, lambda s: self.name(s, name), lambda s: self.plist(s, types)])
        return self.int(t, v)

    def get_types(self, s, sc, ctx, name):
        v, t = self.run(s, self.fn('getTypes', ('Scope', 'int', '', '')), [lambda s: self.scope(s, sc), ctx, lambda s: self.name(s, name), self.buf])
        return [self.num(t, l) for l in self.seq(t, v, 'types')]

    def resolve(self, s, step, ctx, name, tags=()):
        """(index of the context, context type, types found, reductions, conflict, weight)"""
        if isinstance(ctx, int):
            a, fn = [ctx], self.fn('resolveType', ('int', 'int', '', 'TagMask', ''))
        else:
            a, fn = [lambda s: self.vec(s, ctx)], self.fn('resolveType', ('int', 'vector', '', 'TagMask', ''))
        v, t = self.run(s, fn, [pos(step)] + a + [lambda s: self.name(s, name), lambda s: self.mask(s, tags), self.buf])
        l = self.e.final(t, v[1])
        return (self.num(t, l + ('rootIndex',)), self.num(t, l + ('contextType',)), [self.num(t, x) for x in self.seq(t, v, 'items')],
                [(self.num(t, x + ('type',)), self.num(t, x + ('constructor',))) for x in self.seq(t, v, 'reductions')], self.num(t, l + ('conflictType',)), self.num(t, l + ('weightsum',)))

    def vec(self, s, l):
        loc = self.loc(s)
        s.mem[loc] = Seq(len(l))
        for j, x in enumerate(l):
            s.mem[self.e.elem(loc, j)] = x
        return ('ref', loc)

    def def_redu(self, s, sc, to, fr, constructor, tag, weight):
        return self.do(s, self.fn('defineReduction', ('Scope', 'int', 'int', 'int', 'int', 'float')), [lambda s: self.scope(s, sc), to, fr, constructor, tag, weight])[1]

    def get_redu(self, s, step, to, fr, tags):
        v, t = self.run(s, self.fn('getReduction', ('int', 'int', 'int', 'TagMask')), [pos(step), to, fr, lambda s: self.mask(s, tags)])
        l = self.e.final(t, v[1])
        return self.num(t, l + ('constructor',)), self.num(t, l + ('weight',))

    def get_redus(self, s, step, fr, tags, count):
        v, t = self.run(s, self.fn('getReductions', ('int', 'int', 'TagMask', 'TagMask', '')), [pos(step), fr, lambda s: self.mask(s, tags), lambda s: self.mask(s, count), self.buf])
        return [tuple(self.num(t, l + (q,)) for q in ('type', 'constructor', 'weight', 'count')) for l in self.seq(t, v, 'reductions')]

    def derive(self, s, step, to, fr, tags, count, maxcount):
        """(defined, reductions, weight, path of the conflict)"""
        v, t = self.run(s, self.fn('deriveType', ('int', 'int', 'int', 'TagMask', 'TagMask', 'int', '')), [pos(step), to, fr, lambda s: self.mask(s, tags), lambda s: self.mask(s, count), maxcount, self.buf])
        l = self.e.final(t, v[1])
        return (self.num(t, l + ('defined',)), [(self.num(t, x + ('type',)), self.num(t, x + ('constructor',))) for x in self.seq(t, v, 'reductions')], self.num(t, l + ('weightsum',)),
                [self.num(t, x) for x in self.seq(t, v, 'conflictPath')])

    def object_tree(self, s, name):
        """list of (scope, value, scope of the parent) of the tree of objects"""
        v, t = self.run(s, self.fn('getObjectInstanceTree', ('',)), [lambda s: self.name(s, name)])
        return self.tree(t, v, 'ScopeHierarchyTreeNode<int>', lambda t, l: self.num(t, l))

    def type_tree(self, s):
        v, t = self.run(s, self.fn('getTypeDefinitionTree', ()), [])
        return self.tree(t, v, 'ScopeHierarchyTreeNode<std::vector<int>', lambda t, l: [self.num(t, x) for x in self.seq(t, ('ref', l), '')])

    def redu_tree(self, s):
        v, t = self.run(s, self.fn('getReductionDefinitionTree', ()), [])
        return self.tree(t, v, 'ReductionDefinition', lambda t, l: [tuple(self.num(t, x + (q,)) for q in ('toType', 'fromType', 'constructor', 'tag', 'weight')) for x in self.seq(t, ('ref', l), '')])

    def tree(self, t, v, item_t, value):
        l = self.e.final(t, v[1])

        def meth(cls, n):
            c = [f for f in self.p.fns.values() if f.blocks and f.name == n and item_t in f.cls and f.cls.startswith('mewa::Tree') and (f.cls.endswith('Node') == cls) and f.nodes and not f.params[1:]]
            c = [f for f in c if not (n == 'item' and not f.d.get('const', 'const' in f.ret))] or c
            if not c:
                raise Unknown('method %s of the tree' % n)
            return c[0]
        at, item, nx, ch = meth(False, 'operator[]'), meth(True, 'item'), meth(True, 'next'), meth(True, 'chld')
        f = self.fields('mewa::Scope', 2)
        back = lambda x: x if isinstance(x, int) else x.rank
        res = []
        todo = [(1, (0, INF))]
        while todo:
            i, par = todo.pop()
            if len(res) > 50:
                raise Unknown('endless tree')
            nd, t = self.e.run(at, t, l, [i])
            nl = self.e.final(t, nd[1])
            iv, t = self.e.run(item, t, nl, [])
            il = self.e.final(t, iv[1])
            sc = tuple(back(t.mem[il + ('scope', q)]) for q in f)
            res.append((sc, value(t, self.e.final(t, il + ('value',))), par))
            n, t = self.e.run(nx, t, nl, [])
            k, t = self.e.run(ch, t, nl, [])
            n, k = self.int(t, n), self.int(t, k)
            if n:
                todo.append((n, par))
            if k:
                todo.append((k, sc))
        return res
