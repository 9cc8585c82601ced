"""Evaluation of the construction of the automaton for a grammar given as list of productions"""
import re
from absint import State, TOP
from strabs import Str, Ptr, codes, base
from facts import CTORS
from coll import Seq, Mp, It, tmpl
from dbeval import Db, Unknown, Thrown
from lexeval import Lx, View

class Vec:
    """set of numbers in one cell"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Vec) and o.v == self.v

    def __hash__(self):
        return hash(('vec', self.v))

    def __repr__(self):
        return 'Vec%r' % (self.v,)


class Mg(Mp):
    """multimap with keys of any type"""


def intset(t):
    n, a = tmpl(t)
    return n in ('mewa::FlatSet', 'std::set', 'std::pmr::set', 'std::unordered_set') and a[:1] == ['int']


class Lr(Lx):
    """evaluation with the parser of the grammar replaced by its result"""
    def __init__(self, p, **kw):
        kw.setdefault('max_steps', 30000000); kw.setdefault('max_visits', 100000)
        super().__init__(p, **kw)
        self.grammar = None
        self.models['mewa::parseLanguageDef'] = lambda ev, s, args, objloc, fn, el: ('ref', ('LD',))
        opaque = lambda ev, s, args, objloc, fn, el: ev.temp(s, Str(codes('x')))
        for f in p.fns.values():
            if f.blocks and f.file.endswith(('automaton.cpp', 'automaton_structs.hpp', 'error.cpp', 'error.hpp')) and tmpl(f.ret or '')[0] in ('std::basic_string', 'std::string', 'std::__cxx11::basic_string'):
                self.models[f.qn] = opaque
        self.models['mewa::Lexer::nofTerminals'] = lambda ev, s, args, objloc, fn, el: ev.grammar['nt']

    def default(self, s, loc, t, depth=0):
        if intset(t):
            s.mem[loc] = Vec(())
        elif tmpl(t)[0] in ('std::multimap', 'std::unordered_multimap', 'std::pmr::multimap'):
            s.mem[loc] = Mg(0)
        else:
            super().default(s, loc, t, depth)

    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        if nd['k'] not in CTORS:
            if objloc is not None:
                ol = self.final(s, objloc)
                v = s.mem.get(ol)
                if v is None and not s.mem.hassub(ol):
                    # members without initializer are default constructed
                    ct = nd.get('cls', '') or qn[:qn.rfind('::')]
                    if intset(ct):
                        v = s.mem[ol] = Vec(())
                    elif tmpl(ct)[0] in ('std::multimap', 'std::unordered_multimap'):
                        v = s.mem[ol] = Mg(0)
                    elif tmpl(ct)[0] in ('std::map', 'std::unordered_map', 'std::vector'):
                        self.default(s, ol, ct)
                        v = s.mem[ol]
                if isinstance(v, Vec):
                    return self.vecop(s, fn, el, base(qn), ol, v, args)
                if isinstance(v, It) and base(qn) in ('operator*', 'operator->') and not args and isinstance(s.mem.get(v.loc), Vec):
                    q = s.mem[v.loc].v
                    return q[v.i] if 0 <= v.i < len(q) else self.lose(fn, el)
                if isinstance(v, Mg) and qn.startswith('std::'):
                    return self.mgop(s, fn, el, base(qn), ol, v, args, nd, qn)
            if base(qn) in ('operator==', 'operator!=') and len(args) == 2:
                x, y = (s.mem.get(self.final(s, a[1])) if isinstance(a, tuple) and a[:1] == ('ref',) else None for a in args)
                if isinstance(x, Vec) and isinstance(y, Vec):
                    return int((x == y) == (base(qn) == 'operator=='))
            if base(qn) == 'distance' and len(args) == 2:
                a = [self.num(s, x) for x in args]
                if all(isinstance(x, It) for x in a):
                    return (a[1].i - a[0].i) * a[0].rev
        return super().lib(s, fr, fn, el, args, objloc, nd, qn)

    def ctor(self, s, fr, fn, el, args, nd):
        t = nd.get('cls', '') or nd.get('t', '')
        if not intset(t):
            t = nd.get('t', '')
        if intset(t):
            l = self.temp(s, Vec(()))
            il = self.initlist(fn, el)
            src = s.mem.get(self.final(s, args[0][1])) if args and isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None
            if isinstance(src, Vec):
                s.mem[l[1]] = src
            elif il is not None:
                v = [self.num(s, self.val(fn, fr, s, x, None)) for x in il]
                s.mem[l[1]] = Vec(sorted(set(v))) if all(isinstance(x, int) for x in v) else TOP
            elif isinstance(src, Seq):
                v = [s.mem.get(self.elem(self.final(s, args[0][1]), j)) for j in range(src.n)]
                s.mem[l[1]] = Vec(sorted(set(v))) if all(isinstance(x, int) for x in v) else TOP
            elif args and not any(w in fn.nodes[fn.args(el)[0]].get('t', '') + fn.nodes[fn.strip(fn.args(el)[0])].get('t', '') for w in ('allocator', 'memory_resource', 'buffer_resource')):
                self.lose(fn, el)
                s.mem[l[1]] = TOP
            return l
        n = tmpl(t)[0]
        if n in ('std::multimap', 'std::unordered_multimap', 'std::pmr::multimap'):
            l = self.temp(s, TOP)
            if nd.get('cc') or nd.get('mc'):
                self.put(s, l[1], args[0])
            else:
                s.mem[l[1]] = Mg(0)
            return l
        if n in ('std::unordered_map', 'std::map') and not (nd.get('cc') or nd.get('mc')) and args and isinstance(self.num(s, args[0]), int):
            return self.temp(s, Mp(0))
        return super().ctor(s, fr, fn, el, args, nd)

    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        k = nd['k']
        c = nd.get('c', ())
        if k == 'UnaryOperator' and nd.get('op') in ('*', '++') and c and fn.nodes[c[0]].get('t', '').rstrip(' const').endswith('*'):
            v = self.val(fn, fr, s, c[0], this)
            w = s.mem.get(v[1]) if isinstance(v, tuple) and v[:1] == ('ref',) else v
            if isinstance(w, It):
                if nd['op'] == '*':
                    return ('ref', self.elem(w.loc, w.i))
                if v is not w:
                    s.mem[v[1]] = w.move(1)
                    return w if nd.get('post') else v
        if k == 'BinaryOperator' and nd.get('op') in ('==', '!=') and len(c) == 2 and fn.nodes[c[0]].get('t', '').rstrip(' const').endswith('*'):
            x, y = (self.num(s, self.val(fn, fr, s, q, this)) for q in c)
            if isinstance(x, It) and isinstance(y, It):
                return int((x == y) == (nd['op'] == '=='))
        return super().eval(fn, fr, s, i, this)

    def span2(self, s, a, b):
        x, y = self.num(s, a), self.num(s, b)
        if isinstance(x, It) and isinstance(y, It) and x.loc == y.loc:
            q = s.mem.get(x.loc)
            v = list(q.v) if isinstance(q, Vec) else [s.mem.get(self.elem(x.loc, j)) for j in range(q.n)] if isinstance(q, Seq) else [None]
            v = v[x.i:y.i]
            if all(isinstance(k, int) for k in v):
                return v
        return None

    def vecop(self, s, fn, el, b, loc, q, args):
        n = [self.num(s, a) for a in args]
        if b in ('begin', 'cbegin'):
            return It(loc, 0)
        if b in ('end', 'cend'):
            return It(loc, len(q.v))
        if b == 'size':
            return len(q.v)
        if b == 'empty':
            return int(not q.v)
        if b in ('reserve', 'increaseCapacity'):
            return TOP
        if b == 'clear':
            s.mem[loc] = Vec(())
            return TOP
        if b == 'operator[]' and isinstance(n[0], int):
            return q.v[n[0]] if 0 <= n[0] < len(q.v) else self.lose(fn, el)
        flat = 'FlatSet' in (fn.nodes[el].get('qn', '') + fn.nodes[el].get('cls', ''))
        if b in ('operator=', 'operator==', 'operator!=', 'operator<', 'compare', 'swap', 'join') and args and isinstance(args[0], tuple):
            ol = self.final(s, args[0][1])
            o = s.mem.get(ol)
            if isinstance(o, Vec):
                if b == 'operator=':
                    s.mem[loc] = o
                    return ('ref', loc)
                if b == 'swap':
                    s.mem[loc], s.mem[ol] = o, q
                    return TOP
                k = ((len(q.v), q.v) > (len(o.v), o.v)) - ((len(q.v), q.v) < (len(o.v), o.v)) if flat else (q.v > o.v) - (q.v < o.v)
                return k if b == 'compare' else int({'operator==': k == 0, 'operator!=': k != 0, 'operator<': k < 0}[b]) if b != 'join' else self.lose(fn, el)
        if b in ('insert', 'emplace') and len(args) == 2:
            v = self.span2(s, args[0], args[1])
            if v is not None:
                w = Vec(sorted(set(q.v) | set(v)))
                s.mem[loc] = w
                return int(w != q)
        if b in ('insert', 'emplace', 'insertInOrder') and len(args) == 1 and isinstance(n[0], int):
            w = Vec(sorted(set(q.v) | {n[0]}))
            s.mem[loc] = w
            if flat:
                return int(w != q)
            t = self.temp(s, TOP)
            s.mem[t[1] + ('first',)] = It(loc, w.v.index(n[0])); s.mem[t[1] + ('second',)] = int(w != q)
            return t
        if b in ('find', 'lower_bound', 'upper_bound') and isinstance(n[0], int):
            if b == 'find':
                return It(loc, q.v.index(n[0]) if n[0] in q.v else len(q.v))
            return It(loc, sum(1 for x in q.v if x < n[0] or (b == 'upper_bound' and x == n[0])))
        if b in ('contains', 'count') and isinstance(n[0], int):
            return int(n[0] in q.v)
        if b == 'erase' and isinstance(n[0], int):
            s.mem[loc] = Vec(x for x in q.v if x != n[0])
            return int(n[0] in q.v)
        s.mem[loc] = TOP if b not in ('back', 'front') else q
        return self.lose(fn, el)

    def mgop(self, s, fn, el, b, loc, q, args, nd, qn):
        cn, ta = self.keytype(fn, el)
        if b in ('insert', 'emplace') and ta:
            if len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                pl = self.final(s, args[0][1])
                key, v = ('ref', pl + ('first',)), ('ref', pl + ('second',))
            elif len(args) == 2:
                key, v = self.asref(s, args[0]), args[1]
            else:
                return self.lose(fn, el)
            j = q.n
            for i in range(q.n):
                r = self.before(s, ta[0], '', self.final(s, key[1]), self.elem(loc, i) + ('first',))
                if r is None:
                    return self.lose(fn, el)
                if r:
                    j = i
                    break
            for i in range(q.n, j, -1):
                src, dst = self.elem(loc, i - 1), self.elem(loc, i)
                for k in s.mem.under(dst):
                    del s.mem[k]
                for k in s.mem.under(src):
                    s.mem[dst + k[len(src):]] = s.mem.pop(k)
            e = self.elem(loc, j)
            self.put(s, e + ('first',), key); self.put(s, e + ('second',), v)
            s.mem[loc] = Mg(q.n + 1)
            return It(loc, j)
        if b in ('equal_range', 'lower_bound', 'upper_bound', 'find', 'count') and ta:
            key = self.final(s, self.asref(s, args[0])[1])
            lo = hi = None
            for i in range(q.n):
                e = self.elem(loc, i) + ('first',)
                x, y = self.before(s, ta[0], '', e, key), self.before(s, ta[0], '', key, e)
                if x is None or y is None:
                    return self.lose(fn, el)
                if not x and lo is None:
                    lo = i
                if y and hi is None:
                    hi = i
            lo = q.n if lo is None else lo
            hi = q.n if hi is None else hi
            if b == 'equal_range':
                t = self.temp(s, TOP)
                s.mem[t[1] + ('first',)] = It(loc, lo); s.mem[t[1] + ('second',)] = It(loc, hi)
                return t
            return hi - lo if b == 'count' else It(loc, lo if b == 'lower_bound' else hi if b == 'upper_bound' else lo if lo < hi else q.n)
        if b in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'clear'):
            return self.contop(s, fn, el, b, loc, q, args, nd, qn)
        return self.lose(fn, el)


class LrApi:
    def __init__(self, p):
        self.p = p
        self.e = Lr(p)

    def fn(self, cls, name, n, w=()):
        c = [f for f in self.p.fns.values() if f.cls == cls and f.name == name and f.blocks and len(f.params) == n and all(x in q['t'] for x, q in zip(w, f.params))]
        if len(c) != 1:
            raise Unknown('method %s::%s not found (%d)' % (cls, name, len(c)))
        return c[0]

    def run(self, s, f, loc, args):
        s.trail = ()
        return self.e.run(f, s, loc, args)

    def view(self, s, x):
        c = codes(x)
        return self.e.temp(s, View(Ptr(('arg', c), c), len(c)))

    def field(self, rec, t):
        r = [q['n'] for q in self.p.recs.get(rec, {}).get('fields', ()) if t(q['t'])]
        if len(r) != 1:
            raise Unknown('field of %s' % rec)
        return r[0]

    def node(self, s, loc, name, sym, grammar):
        """description of a symbol of a production at loc"""
        v, s = self.run(s, self.fn('mewa::ProductionNodeDef', 'ProductionNodeDef', 2), loc, [self.view(s, name), 1])
        if sym in grammar['nonterminals']:
            v, s = self.run(s, self.fn('mewa::ProductionNode', 'defineAsNonTerminal', 1), loc, [grammar['nonterminals'].index(sym) + 1])
        else:
            v, s = self.run(s, self.fn('mewa::ProductionNode', 'defineAsTerminal', 1), loc, [grammar['terminals'].index(sym) + 1])
        return s

    def build(self, g):
        """g: productions [(left, right symbols, (priority, associativity 0..2), call, scope)] -> (actions, gotos, number of warnings)"""
        nts = []
        for p in g:
            if p[0] not in nts:
                nts.append(p[0])
        ts = []
        for p in g:
            for x in p[1]:
                if x not in nts and x not in ts:
                    ts.append(x)
        gr = {'nonterminals': nts, 'terminals': ts, 'nt': len(ts) + 1}
        self.e.grammar = gr
        s = State()
        e = self.e
        e.default(s, ('LD',), 'mewa::LanguageDef')
        pl = ('LD', self.field('mewa::LanguageDef', lambda t: 'ProductionDef' in t))
        s.mem[pl] = Seq(len(g))
        lf = self.field('mewa::ProductionDef', lambda t: tmpl(t)[0] == 'mewa::ProductionNodeDef')
        rf = self.field('mewa::ProductionDef', lambda t: 'ProductionNodeDef' in t and tmpl(t)[0] != 'mewa::ProductionNodeDef')
        for i, p in enumerate(g):
            l = e.elem(pl, i)
            prio, call, scope = (tuple(p[2:]) + ((0, 0), 0, 0)[len(p) - 2:])[:3]
            pr = e.temp(s, TOP)
            v, s = self.run(s, self.fn('mewa::Priority', 'Priority', 2), pr[1], list(prio))
            emp = e.temp(s, Seq(0))
            v, s = self.run(s, self.fn('mewa::ProductionDef', 'ProductionDef', 6), l, [i + 1, self.view(s, p[0]), emp, pr, call, scope])
            s = self.node(s, l + (lf,), p[0], p[0], gr)
            s.mem[l + (rf,)] = Seq(len(p[1]))
            for j, x in enumerate(p[1]):
                s = self.node(s, e.elem(l + (rf,), j), x, x, gr)
        s = e.prune(s, [('LD',)])
        v, s = self.run(s, self.fn('mewa::Automaton', 'Automaton', 0), ('AU',), [])
        w = ('WARN',)
        s.mem[w] = Seq(0)
        s.mem[('SRC',)] = Str(codes('x'))
        s.mem[('OUT',)] = Str(())
        v, s = self.run(s, self.fn('mewa::Automaton::DebugOutput', 'DebugOutput', 1, ('ostream',)), ('DBG',), [('ref', ('OUT',))])
        v, s = self.run(s, self.fn('mewa::Automaton', 'build', 3), ('AU',), [('ref', ('SRC',)), ('ref', w), ('ref', ('DBG',))])
        return self.result(s)

    def result(self, s):
        e = self.e
        q = s.mem.get(('WARN',))
        if not isinstance(q, Seq):
            raise Unknown('warnings')
        out = []
        for m, kc, vc in (('actions', 'mewa::Automaton::ActionKey', 'mewa::Automaton::Action'), ('gotos', 'mewa::Automaton::GotoKey', 'mewa::Automaton::Goto')):
            v, s = self.run(s, self.fn('mewa::Automaton', m, 0), ('AU',), [])
            l = e.final(s, v[1])
            n = s.mem.get(l)
            if not isinstance(n, Seq):
                raise Unknown(m)
            d = {}
            for j in range(n.n):
                k = tuple(self.get(s, kc, x, e.elem(l, j) + ('first',)) for x in (('state', 'terminal') if m == 'actions' else ('state', 'nonterminal')))
                a = tuple(self.get(s, vc, x, e.elem(l, j) + ('second',)) for x in (('type', 'state', 'count', 'call', 'scopeflag') if m == 'actions' else ('state',)))
                if k in d:
                    raise Unknown('duplicate key')
                d[k] = a
            out.append(d)
        return out[0], out[1], q.n

    def get(self, s, cls, m, loc):
        v, _ = self.run(s, self.fn(cls, m, 0), e_final(self.e, s, loc), [])
        v = self.e.num(s, v)
        if not isinstance(v, int):
            raise Unknown('%s::%s' % (cls, m))
        return v


def e_final(e, s, loc):
    return e.final(s, loc)


class Flat(Lr):
    """the functions of FlatSet<int> on a vector"""
    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        b = base(qn)
        if b == 'lower_bound' and len(args) == 3:
            x, y, k = (self.num(s, a) for a in args)
            v = self.span2(s, x, y)
            if v is None or not isinstance(k, int):
                return self.lose(fn, el)
            # std::lower_bound bisects
            lo, n = 0, len(v)
            while n > 0:
                h = n // 2
                if v[lo + h] < k:
                    lo += h + 1
                    n -= h + 1
                else:
                    n = h
            return x.move(lo)
        if objloc is not None and qn.startswith('std::'):
            loc = self.final(s, objloc)
            q = s.mem.get(loc)
            if isinstance(q, Seq):
                if b == 'capacity':
                    return q.n
                if b in ('reserve', 'shrink_to_fit'):
                    return TOP
                if b in ('insert', 'emplace') and len(args) in (2, 3):
                    at = self.num(s, args[0])
                    new = [self.num(s, args[1])] if len(args) == 2 else self.span2(s, args[1], args[2])
                    v = [s.mem.get(self.elem(loc, j)) for j in range(q.n)]
                    if isinstance(at, It) and at.loc == loc and new is not None and all(isinstance(x, int) for x in v + new):
                        for j, x in enumerate(v[:at.i] + new + v[at.i:]):
                            s.mem[self.elem(loc, j)] = x
                        s.mem[loc] = Seq(q.n + len(new))
                        return It(loc, at.i)
        if objloc is not None and b in ('operator*',) and not args:
            v = s.mem.get(self.final(s, objloc))
            if isinstance(v, It) and isinstance(s.mem.get(v.loc), Seq):
                return ('ref', self.elem(v.loc, v.i)) if 0 <= v.i < s.mem[v.loc].n else self.lose(fn, el)
        return super().lib(s, fr, fn, el, args, objloc, nd, qn)


class FlatApi(LrApi):
    CLS = 'mewa::FlatSet<int>'

    def __init__(self, p):
        self.p = p
        self.e = Flat(p)
        self.s = State()
        for l in ('F', 'G', 'H'):
            self.s.mem[l,] = Seq(0)

    def clear(self):
        self.s = State()
        for l in ('F', 'G', 'H'):
            self.s.mem[l,] = Seq(0)

    def items(self, l):
        q = self.s.mem.get((l,))
        r = [self.s.mem.get(self.e.elem((l,), j)) for j in range(q.n)] if isinstance(q, Seq) else [None]
        if not all(isinstance(x, int) for x in r):
            raise Unknown('content of the set')
        return r

    def call1(self, name, l, args, w=()):
        v, self.s = self.run(self.s, self.fn(self.CLS, name, len(args), w), (l,), args)
        v = self.e.num(self.s, v)
        return v
