"""Abstract evaluation with characters and strings: a string is a sequence of abstract characters, each of them a constant or a symbol that stands for
every value of a set of characters. Conditions on symbols are decided by their set or split the path."""
import re
from absint import Eval, State, TOP, Outcome, trunc
from facts import CALLS, CTORS, CASTS


class NeedSplit(Exception):
    """a condition is true for some values of a symbol only: the case has to be split"""

    def __init__(self, sy, part):
        self.sy = sy; self.part = frozenset(part)


class Sy:
    """a symbol: any value of a set; a derived symbol is a function (fmap) of its root"""
    __slots__ = ('n', 'set', 'root', 'fmap')

    def __init__(self, n, s, root=None, fmap=None):
        self.n = n; self.set = frozenset(s); self.root = root or self; self.fmap = fmap

    def of(self, rv):
        return self.fmap[rv] if self.fmap is not None else rv

    def __repr__(self):
        return self.n


class Lin:
    """linear form over symbols"""
    __slots__ = ('co', 'k')

    def __init__(self, co, k=0):
        self.co = {s: c for s, c in co.items() if c}; self.k = k

    def bounds(self):
        lo = hi = self.k
        for s, c in self.co.items():
            a, b = c * min(s.set), c * max(s.set)
            lo += min(a, b); hi += max(a, b)
        return lo, hi

    def root(self):
        r = {s.root for s in self.co}
        return next(iter(r)) if len(r) == 1 else None

    def table(self):
        """root value -> value, if there is one root"""
        r = self.root()
        return None if r is None else {x: self.k + sum(c * s.of(x) for s, c in self.co.items()) for x in r.set}

    def values(self):
        t = self.table()
        return None if t is None else list(t.values())

    def derived(self, name, f):
        t = self.table()
        m = {x: f(v) for x, v in t.items()}
        w = set(m.values())
        if len(w) == 1:
            return w.pop()
        key = (name, self.root(), tuple(sorted(m.items())))
        if key not in DIG:
            DIG[key] = Lin({Sy(name, w, self.root(), m): 1})
        return DIG[key]

    def __repr__(self):
        return ' + '.join(['%s%r' % ('' if c == 1 else '%d*' % c, s) for s, c in self.co.items()] + ([str(self.k)] if self.k or not self.co else []))

    def __eq__(self, o):
        return isinstance(o, Lin) and o.co == self.co and o.k == self.k

    def __hash__(self):
        return hash((frozenset(self.co.items()), self.k))


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return Lin({}, int(v))
    return None


def sym(name, values):
    return Lin({Sy(name, values): 1})


class Ptr:
    """pointer into a string; `chars` does not include the terminating null character"""
    __slots__ = ('id', 'chars', 'pos')

    def __init__(self, ident, chars, pos=0):
        self.id = ident; self.chars = tuple(chars); self.pos = pos

    def __repr__(self):
        return 'Ptr(%s+%s)' % (show(self.chars), self.pos)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (o.id, o.pos) == (self.id, self.pos)

    def __hash__(self):
        return hash((self.id, self.pos))

    def rest(self):
        return self.chars[self.pos:]


class Str:
    """content of a std::string, std::string_view or character buffer"""
    __slots__ = ('chars', 'id')
    cnt = 0

    def __init__(self, chars, ident=None):
        self.chars = tuple(chars)
        if ident is None:
            Str.cnt += 1
            ident = ('str', Str.cnt)
        self.id = ident

    def __repr__(self):
        return show(self.chars)

    def __eq__(self, o):
        return isinstance(o, Str) and o.chars == self.chars

    def __hash__(self):
        return hash(self.chars)


def codes(s):
    """python literal (from the fact file, UTF-8) -> signed character codes"""
    return tuple(b - 256 if b > 127 else b for b in (s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s))


def show(chars):
    r = ''
    for c in chars:
        r += chr(c & 255) if isinstance(c, int) else '<%r>' % (c,)
    return '"' + r + '"'


CHARSET = [c for c in range(-128, 128) if c]


_BASE = {}


def base(qn):
    """last component of a qualified name without template arguments"""
    if qn not in _BASE:
        m = re.match(r'(.*::)?(operator *(?:\(\)|\[\]|->|==|!=|<=|>=|<<=|>>=|<<|>>|&&|\|\||\+\+|--|[-+*/%&|^]=|[-+*/%&|^!~<>=]))(<.*)?$', qn)
        if m:
            _BASE[qn] = m.group(2).replace(' ', '')
        else:
            x = qn
            while True:
                y = re.sub(r'<[^<>]*>', '', x)
                if y == x:
                    break
                x = y
            _BASE[qn] = x.split('::')[-1]
    return _BASE[qn]


class StrEval(Eval):
    """models: dict qualified name -> f(ev, s, args, objloc, fn, el) for opaque functions of the program"""

    def __init__(self, prog, models=None, **kw):
        self.models = models or {}
        self.lost = []
        kw.setdefault('max_steps', 400000)
        kw.setdefault('max_visits', 400)
        super().__init__(prog, extern=StrEval.ext, **kw)

    # -------------------------------------------------------------- conversions
    def str_at(self, s, loc):
        """content of the buffer or string object at loc, None if unknown"""
        v = s.mem.get(loc)
        if isinstance(v, tuple) and v[:1] == ('ref',) and v[1] != loc:
            return self.str_at(s, v[1])
        base = None
        if isinstance(v, Str):
            base = list(v.chars)
        elif isinstance(v, str):
            base = list(codes(v))
        subs = {}
        n = len(loc)
        for k in s.mem.under(loc):
            x = s.mem[k]
            if len(k) == n + 1 and isinstance(k[n], str) and k[n].startswith('['):
                subs[int(k[n][1:-1])] = x
        if base is None and not subs:
            return None
        if base is None:
            base = []
        for i in sorted(subs):
            while len(base) <= i:
                base.append(None)
            base[i] = subs[i]
        if None in base:
            base = base[:base.index(None)] if 0 not in base[:base.index(None)] else base
        return tuple(base)

    def ptr(self, s, v):
        """value as char pointer"""
        if isinstance(v, Ptr):
            return v
        if isinstance(v, str):
            return Ptr(('lit', v), codes(v))
        if isinstance(v, tuple) and v[:1] == ('ref',):
            loc = v[1]
            if loc and isinstance(loc[-1], str) and loc[-1].startswith('[') and not isinstance(s.mem.get(loc), (Str, str)):
                b = self.str_at(s, loc[:-1])
                if b is not None:
                    return Ptr(('buf', loc[:-1]), cstr(b), int(loc[-1][1:-1]))
            x = s.mem.get(loc)
            if isinstance(x, Ptr):
                return x
            if isinstance(x, tuple) and x[:1] == ('ref',) and x[1] != loc:
                return self.ptr(s, x)
            b = self.str_at(s, loc)
            if b is not None:
                return Ptr(('buf', loc), cstr(b))
        return None

    def strv(self, s, v):
        """value as content of a string (view)"""
        if isinstance(v, Str):
            return v.chars
        if isinstance(v, str):
            return codes(v)
        if isinstance(v, Ptr):
            return v.rest()
        if isinstance(v, tuple) and v[:1] == ('ref',):
            x = s.mem.get(v[1])
            if isinstance(x, Ptr):
                return x.rest()
            return self.str_at(s, v[1])
        return None

    def at(self, p, k=0):
        if isinstance(k, Lin) and k.root() is not None:
            v = k.values()
            if len(v) <= 4096 and all(0 <= p.pos + x < len(p.chars) and isinstance(p.chars[p.pos + x], int) for x in v):
                return k.derived('at', lambda x: p.chars[p.pos + x])
        i = p.pos + k if isinstance(k, int) else None
        if i is None:
            return TOP
        if 0 <= i < len(p.chars):
            return p.chars[i]
        return 0 if i == len(p.chars) else TOP

    def num(self, s, v):
        if isinstance(v, tuple) and v[:1] == ('ref',):
            v = self.load(s, v[1])
        return v

    # -------------------------------------------------------------- expressions
    def load(self, st, loc, t=''):
        if loc in st.mem:
            return st.mem[loc]
        if loc and isinstance(loc[-1], str) and loc[-1].startswith('['):
            b = self.str_at(st, loc[:-1])
            if b is not None:
                return self.at(Ptr(None, b), int(loc[-1][1:-1]))
        if len(loc) == 2 and loc[0] == 'PC':
            return loc[1]
        return super().load(st, loc, t)

    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        k = nd['k']
        c = nd.get('c', ())
        if k == 'UnaryOperator' and not ('cv' in nd and not nd.get('lv')):
            op = nd['op']
            if op == '*':
                v = self.val(fn, fr, s, c[0], this)
                p = v if isinstance(v, (Ptr, str)) else None
                if p is None and isinstance(v, tuple) and v[:1] == ('ref',) and not isinstance(s.mem.get(v[1]), int):
                    p = self.ptr(s, v) if self.is_charptr(fn, c[0]) else None
                if p is not None:
                    return ('ref', ('PC', self.at(self.ptr(s, p))))
                return super().eval(fn, fr, s, i, this)
            if op in ('++', '--'):
                v = self.val(fn, fr, s, c[0], this)
                if isinstance(v, tuple) and v[:1] == ('ref',):
                    old = self.load(s, v[1], nd.get('t', ''))
                    if isinstance(old, (str, tuple)) and self.is_ptr(nd.get('t', '')):
                        old = self.ptr(s, old) or old
                    d = 1 if op == '++' else -1
                    if isinstance(old, Ptr):
                        self.store(s, v[1], Ptr(old.id, old.chars, old.pos + d))
                        return old if nd.get('post') else v
                    if isinstance(old, Lin):
                        self.store(s, v[1], Lin(old.co, old.k + d))
                        return old if nd.get('post') else v
                return super().eval(fn, fr, s, i, this)
            if op == '!':
                t = self.truth(self.val(fn, fr, s, c[0], this))
                return TOP if t is None else int(not t)
            if op == '-':
                v = self.val(fn, fr, s, c[0], this)
                if isinstance(v, Lin):
                    return Lin({a: -b for a, b in v.co.items()}, -v.k)
        if k == 'ArraySubscriptExpr':
            b = self.val(fn, fr, s, c[0], this)
            ix = self.num(s, self.val(fn, fr, s, c[1], this))
            if isinstance(b, (Ptr, str)):
                return ('ref', ('PC', self.at(self.ptr(s, b), ix)))
            if isinstance(b, tuple) and b[:1] == ('ref',):
                x = s.mem.get(b[1])
                if isinstance(x, Ptr):
                    return ('ref', ('PC', self.at(x, ix)))
                if isinstance(ix, int):
                    return ('ref', b[1] + ('[%d]' % ix,))
            return TOP
        if k == 'CompoundAssignOperator':
            l = self.val(fn, fr, s, c[0], this)
            r = self.val(fn, fr, s, c[1], this)
            if isinstance(l, tuple) and l[:1] == ('ref',):
                old = self.load(s, l[1], nd.get('t', ''))
                if self.is_ptr(nd.get('t', '')):
                    old = self.ptr(s, old) or old
                self.store(s, l[1], trunc(self.binop(nd['op'][:-1], old, r, nd), nd.get('ti')))
                return l
            return TOP
        if k in CASTS or k == 'ImplicitCastExpr':
            if not ('cv' in nd and not nd.get('lv')):
                v = self.val(fn, fr, s, c[0], this)
                if nd.get('ck') == 'LValueToRValue' and isinstance(v, tuple) and v[:1] == ('ref',):
                    v = self.load(s, v[1], nd.get('t', ''))
                    return v
                if isinstance(v, Lin) and nd.get('ck') not in ('LValueToRValue',):
                    if nd.get('ck') in ('IntegralToBoolean',):
                        t = self.truth(v)
                        return TOP if t is None else int(t)
                    return lin_trunc(v, nd.get('ti'))
                if isinstance(v, (Ptr, Str)):
                    if nd.get('ck') == 'PointerToBoolean':
                        return 1
                    return v
        return super().eval(fn, fr, s, i, this)

    def is_charptr(self, fn, i):
        return 'char' in fn.nodes[i].get('t', '')

    def truth(self, v):
        if isinstance(v, Lin):
            lo, hi = v.bounds()
            if not v.co:
                return v.k != 0
            if lo > 0 or hi < 0:
                return True
            t = v.table()
            if t is None:
                return None
            z = {x for x, y in t.items() if y}
            if len(z) in (0, len(t)):
                return bool(z)
            raise NeedSplit(v.root(), z)
        if isinstance(v, (Ptr, Str)):
            return True
        return super().truth(v)

    def switch_value(self, v, cases):
        if isinstance(v, Lin):
            for c in cases:
                if lin_op('==', v, lin(c)) == 1:
                    return c
            return max(list(cases) + [0]) + 1
        return v

    def binop(self, op, l, r, nd):
        if isinstance(l, str) and isinstance(r, (Ptr, int)) and not isinstance(r, bool):
            l = Ptr(('lit', l), codes(l))
        if isinstance(r, str) and isinstance(l, Ptr):
            r = Ptr(('lit', r), codes(r))
        if isinstance(l, Ptr):
            if isinstance(r, Ptr):
                if r.id == l.id:
                    if op == '-':
                        return l.pos - r.pos
                    if op in ('==', '!=', '<', '>', '<=', '>='):
                        a, b = l.pos, r.pos
                        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
                return TOP
            if isinstance(r, int):
                if op in ('+', '-'):
                    return Ptr(l.id, l.chars, l.pos + (r if op == '+' else -r))
                if r == 0 and op in ('==', '!='):
                    return int(op == '!=')
            return TOP
        if isinstance(r, Ptr):
            if isinstance(l, int):
                if op == '+':
                    return Ptr(r.id, r.chars, r.pos + l)
                if l == 0 and op in ('==', '!='):
                    return int(op == '!=')
            return TOP
        if isinstance(l, Lin) or isinstance(r, Lin):
            a, b = lin(l), lin(r)
            if a is None or b is None:
                return TOP
            return lin_op(op, a, b)
        return super().binop(op, l, r, nd)

    # -------------------------------------------------------------- library
    def ext(self, s, fr, fn, el, args, objloc):
        nd = fn.nodes[el]
        qn = nd.get('qn', '')
        if qn in self.models:
            r = self.models[qn](self, s, args, objloc, fn, el)
            if r is not NotImplemented:
                return r
        t = self.p.targets(nd.get('fn')) if nd.get('fn') else []
        if len(t) == 1 and t[0].blocks and not qn.startswith('std::'):
            return NotImplemented
        b = base(qn)
        n = [self.num(s, a) for a in args]
        if nd['k'] in CTORS:
            cls = nd.get('cls', '')
            if 'basic_string' in cls or 'string_view' in cls:
                v = self.mkstr(s, fn, el, args, n)
                self.frames += 1
                loc = ('T%d' % self.frames,)
                s.mem[loc] = v
                return ('ref', loc)
            return NotImplemented
        if qn.startswith('std::numeric_limits') and b in ('max', 'min', 'lowest') and nd.get('ti'):
            w, sg = nd['ti']
            return ((1 << (w - 1)) - 1 if sg else (1 << w) - 1) if b == 'max' else (-(1 << (w - 1)) if sg else 0)
        if b in ('strlen',) and args:
            p = self.ptr(s, args[0])
            return len(p.rest()) if p else self.lose(fn, el)
        if b in ('memcmp', 'strncmp', 'strcmp'):
            p, q = self.ptr(s, args[0]), self.ptr(s, args[1])
            m = n[2] if len(n) > 2 else None
            if p is None or q is None or (m is not None and not isinstance(m, int)):
                return self.lose(fn, el)
            r = self.cmpseq(list(p.rest()) + [0], list(q.rest()) + [0], m, b != 'memcmp')
            return r if r is TOP or r == 0 else self.cmpsign(list(p.rest()) + [0], list(q.rest()) + [0], m, b != 'memcmp')
        if b in ('strchr', 'strstr', 'strrchr'):
            p = self.ptr(s, args[0])
            if p is None:
                return self.lose(fn, el)
            if b == 'strstr':
                q = self.ptr(s, args[1])
                pat = list(q.rest()) if q else None
            else:
                pat = [n[1]]
            if pat is None or b == 'strrchr':
                return self.lose(fn, el)
            pos, unsure = self.findseq(p.rest() + ((0,) if pat == [0] else ()), pat)
            if unsure:
                return [0 if pos is None else Ptr(p.id, p.chars, p.pos + pos)] + [Ptr(p.id, p.chars, p.pos + u) for u in unsure]
            return 0 if pos is None else Ptr(p.id, p.chars, p.pos + pos)
        if b == 'memchr' and qn in ('memchr', 'std::memchr'):
            p = self.ptr(s, args[0])
            if p is None or not isinstance(n[2], int):
                return self.lose(fn, el)
            pos, unsure = self.findseq((p.rest() + (0,))[:n[2]], [n[1]])
            if unsure:
                return [0 if pos is None else Ptr(p.id, p.chars, p.pos + pos)] + [Ptr(p.id, p.chars, p.pos + u) for u in unsure]
            return 0 if pos is None else Ptr(p.id, p.chars, p.pos + pos)
        if b in ('memcpy', 'memmove', 'strcpy', 'strncpy'):
            q = self.ptr(s, args[1])
            m = n[2] if len(n) > 2 else None
            if q is None or not (isinstance(args[0], tuple) and args[0][:1] == ('ref',)):
                return self.lose(fn, el)
            ch = q.rest()
            if isinstance(m, int):
                ch = (ch + (0,) * m)[:m]
            else:
                if b != 'strcpy':
                    return self.lose(fn, el)
            self.store(s, args[0][1], Str(ch))
            return args[0]
        if b in ('snprintf', 'sprintf'):
            k = 2 if b == 'snprintf' else 1
            out = self.fmt(s, args[k], args[k + 1:])
            if out is None or not (isinstance(args[0], tuple) and args[0][:1] == ('ref',)):
                return self.lose(fn, el)
            full = len(out)
            if b == 'snprintf':
                if not isinstance(n[1], int):
                    return self.lose(fn, el)
                out = out[:max(0, n[1] - 1)]
            self.store(s, args[0][1], Str(out))
            return full
        if objloc is not None and qn.startswith('std::') and ('basic_string' in qn):
            return self.strop(s, fn, el, b, args, n, objloc)
        if qn.startswith('std::operator') and len(args) == 2:
            l, r = self.strv(s, args[0]), self.strv(s, args[1])
            if l is not None and r is not None:
                if b in ('operator==', 'operator!='):
                    e = self.cmpseq(list(l), list(r), None, False, True)
                    if e is TOP:
                        return TOP
                    return int((e == 0) == (b == 'operator=='))
                if b == 'operator+':
                    return self.temp(s, Str(l + r))
            if b == 'operator+' and l is not None and isinstance(n[1], (int, Lin)):
                return self.temp(s, Str(l + (n[1],)))
            if b == 'operator+' and r is not None and isinstance(n[0], (int, Lin)):
                return self.temp(s, Str((n[0],) + r))
        if b in ('min', 'max') and len(n) == 2 and all(isinstance(x, int) for x in n):
            return self.box(s, (min if b == 'min' else max)(n))
        if qn in ('std::move', 'std::forward') and args:
            return args[0]
        if nd.get('nr'):
            return NotImplemented
        if nd['k'] in CALLS and (qn.startswith('std::') or not t):
            return self.lose(fn, el)
        return NotImplemented

    def temp(self, s, v):
        self.frames += 1
        loc = ('T%d' % self.frames,)
        s.mem[loc] = v
        return ('ref', loc)

    def lose(self, fn, el):
        self.lost.append((fn, el))
        return TOP

    def cmpseq(self, a, b, m, stop, whole=False):
        """0 if equal, 1 if not, TOP if undecided"""
        n = m if m is not None else max(len(a), len(b))
        unsure = False
        for i in range(n):
            x = a[i] if i < len(a) else ('end' if whole or m is None else None)
            y = b[i] if i < len(b) else ('end' if whole or m is None else None)
            if x is None or y is None:
                return TOP
            if x == 'end' or y == 'end':
                if x != y:
                    return 1
                break
            e = self.chareq(x, y)
            if e is False:
                return 1
            if e is None:
                unsure = True
            if stop and x == 0 and y == 0:
                break
        return TOP if unsure else 0

    def cmpsign(self, a, b, m, stop):
        """sign of the comparison of the characters as unsigned values; None marks an end that is less than all characters"""
        for i in range(min(m if m is not None else max(len(a), len(b)), len(a), len(b))):
            x, y = a[i], b[i]
            if x is None or y is None:
                return (x is not None) - (y is not None)
            e = self.chareq(x, y)
            if e is True:
                if stop and x == 0 and y == 0:
                    return 0
                continue
            tx = {None: x} if isinstance(x, int) else x.table() if isinstance(x, Lin) else None
            ty = {None: y} if isinstance(y, int) else y.table() if isinstance(y, Lin) else None
            if tx is None or ty is None:
                return TOP
            sg = {}
            for u, p in tx.items():
                for v, q in ty.items():
                    d = (p & 255) - (q & 255)
                    sg.setdefault((d > 0) - (d < 0), set()).add((u, v))
            if len(sg) == 1:
                d = next(iter(sg))
                if d:
                    return d
                continue
            k = next(iter(sg))
            if len(ty) == 1 and isinstance(x, Lin):
                raise NeedSplit(x.root(), {u for u, _ in sg[k]})
            if len(tx) == 1 and isinstance(y, Lin):
                raise NeedSplit(y.root(), {v for _, v in sg[k]})
            return TOP
        return 0

    def chareq(self, x, y):
        if x is TOP or y is TOP:
            return None
        r = lin_op('==', lin(x), lin(y))
        return None if r is TOP else bool(r)

    def findseq(self, hay, pat):
        unsure = []
        for i in range(0, len(hay) - len(pat) + 1):
            r = self.cmpseq(list(hay[i:i + len(pat)]), list(pat), None, False, True)
            if r is TOP:
                unsure.append(i)
            elif r == 0:
                return i, unsure
        return None, unsure

    def mkstr(self, s, fn, el, args, n):
        if not args:
            return Str(())
        a = self.strv(s, args[0])
        p = args[0] if isinstance(args[0], Ptr) else (s.mem.get(args[0][1]) if isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None)
        if isinstance(p, Ptr):
            a = p.rest(); ident = (p.id, p.pos)
        else:
            ident = None
        if a is None:
            self.lose(fn, el)
            return TOP
        t0 = fn.nodes[fn.args(el)[0]].get('t', '') if fn.args(el) else ''
        if isinstance(args[0], tuple) and '[' in t0 or isinstance(p, Ptr) or isinstance(args[0], str):
            a0 = a
            a = cstr(a) if not (len(n) > 1 and isinstance(n[1], int)) else a0
        if len(n) > 1 and isinstance(n[1], int):
            a = (a + (0,) * n[1])[:n[1]]
        elif len(n) > 1 and n[1] is TOP and 'allocator' not in fn.nodes[fn.args(el)[1]].get('t', ''):
            self.lose(fn, el)
            return TOP
        return Str(a)

    def strop(self, s, fn, el, b, args, n, objloc):
        loc = objloc
        while isinstance(s.mem.get(loc), tuple) and s.mem[loc][:1] == ('ref',) and s.mem[loc][1] != loc:
            loc = s.mem[loc][1]
        cur = self.str_at(s, loc)
        if cur is None:
            return self.lose(fn, el)
        if b in ('push_back',) or (b == 'operator+=' and isinstance(n[0], (int, Lin))):
            self.store(s, loc, Str(cur + (n[0],)))
            return ('ref', loc)
        if b in ('append', 'operator+=', 'assign', 'operator='):
            a = self.strv(s, args[0])
            if isinstance(args[0], (Ptr, str)) and a is not None:
                a = cstr(a) if len(args) == 1 else a
            if a is None and isinstance(n[0], int) and len(n) > 1 and isinstance(n[1], (int, Lin)):
                a = (n[1],) * n[0]
            elif len(n) > 1 and isinstance(n[1], int) and a is not None:
                a = a[:n[1]]
            elif len(n) > 1:
                q = self.ptr(s, n[1]) if a is not None else None
                p = self.ptr(s, args[0])
                if q is not None and p is not None and q.id == p.id:
                    a = p.chars[p.pos:q.pos]
                else:
                    a = None
            if a is None:
                s.mem[loc] = TOP
                return self.lose(fn, el)
            self.store(s, loc, Str(a if b in ('assign', 'operator=') else cur + a))
            return ('ref', loc)
        if b in ('size', 'length'):
            return len(cur)
        if b == 'empty':
            return int(not cur)
        if b in ('c_str', 'data', 'begin', 'cbegin'):
            return Ptr(('obj', loc, cur), cur, 0)
        if b in ('end', 'cend'):
            return Ptr(('obj', loc, cur), cur, len(cur))
        if b in ('operator[]', 'at'):
            if isinstance(n[0], int):
                return ('ref', ('PC', self.at(Ptr(None, cur), n[0])))
            return self.lose(fn, el)
        if b in ('front', 'back') and cur:
            return ('ref', ('PC', cur[0 if b == 'front' else -1]))
        if b == 'clear':
            self.store(s, loc, Str(()))
            return TOP
        if b in ('pop_back',):
            self.store(s, loc, Str(cur[:-1]))
            return TOP
        if b in ('reserve', 'shrink_to_fit'):
            return TOP
        if b == 'substr':
            if all(isinstance(x, int) for x in n):
                a = n[0] if n else 0
                return self.temp(s, Str(cur[a:] if len(n) < 2 or n[1] < 0 else cur[a:a + n[1]]))
            return self.lose(fn, el)
        if b == 'find' and len(n) >= 1:
            pat = [n[0]] if isinstance(n[0], (int, Lin)) else self.strv(s, args[0])
            if pat is None or (len(n) > 1 and not isinstance(n[1], int)):
                return self.lose(fn, el)
            st = n[1] if len(n) > 1 else 0
            pos, unsure = self.findseq(cur[st:], list(pat))
            r = [trunc(-1, [64, 0]) if pos is None else pos + st] + [u + st for u in unsure]
            return r if len(r) > 1 else r[0]
        if b == 'compare' and len(args) == 1:
            a = self.strv(s, args[0])
            if a is not None:
                r = self.cmpseq(list(cur), list(a), None, False, True)
                return r if r is TOP or r == 0 else self.cmpsign(list(cur) + [None], list(a) + [None], None, False)
        return self.lose(fn, el)

    def fmt(self, s, f, args):
        p = self.ptr(s, f)
        if p is None or not all(isinstance(c, int) for c in p.rest()):
            return None
        f = ''.join(chr(c & 255) for c in p.rest())
        out = []
        k = 0; ai = 0
        while k < len(f):
            if f[k] != '%':
                out.append(ord(f[k]) - (256 if ord(f[k]) > 127 else 0)); k += 1
                continue
            j = k + 1
            while j < len(f) and f[j] in 'hlzj':
                j += 1
            cv = f[j] if j < len(f) else ''
            k = j + 1
            if cv == '%':
                out.append(37)
                continue
            if ai >= len(args):
                return None
            a = self.num(s, args[ai]) if cv in 'dicux' else args[ai]
            ai += 1
            if cv in 'diu':
                d = digits(a)
                if d is None:
                    return None
                out += d
            elif cv == 'c':
                if not isinstance(a, (int, Lin)):
                    return None
                out.append(a)
            elif cv == 's':
                q = self.ptr(s, a)
                if q is None:
                    return None
                out += list(cstr(q.rest()))
            else:
                return None
        return tuple(out)


DIG = {}


def number(ds):
    """the number written with the given digits (linear forms)"""
    r = 0
    for d in ds:
        r = lin_op('+', lin(lin_op('*', lin(r), lin(10))), lin(d))
    return r


def digits(v):
    if isinstance(v, int):
        return [ord(c) for c in str(v)]
    if isinstance(v, Lin) and not v.k:
        it = sorted(v.co.items(), key=lambda x: -x[1])
        if [c for _, c in it] == [10 ** (len(it) - 1 - i) for i in range(len(it))] and all(s.fmap is None and s.set <= frozenset(range(10)) for s, _ in it) and 0 not in it[0][0].set:
            return [Lin({s: 1}, 48) for s, _ in it]
    return None


def cstr(ch):
    ch = tuple(ch)
    for i, c in enumerate(ch):
        if isinstance(c, int) and c == 0:
            return ch[:i]
    return ch


def lin_trunc(v, ti):
    if ti is None:
        return v
    lo, hi = v.bounds()
    n, sg = ti
    mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
    if n == 1:
        return TOP
    if mn <= lo and hi <= mx:
        return v
    if v.table() is not None:
        return v.derived('(%s%d)%r' % ('i' if sg else 'u', n, v), lambda x: trunc(x, ti))
    return TOP


def lin_op(op, a, b):
    if op in ('+', '-'):
        co = dict(a.co)
        for s, c in b.co.items():
            co[s] = co.get(s, 0) + (c if op == '+' else -c)
        r = Lin(co, a.k + (b.k if op == '+' else -b.k))
        return r if r.co else r.k
    if op == '*' and (not a.co or not b.co):
        if not a.co:
            a, b = b, a
        r = Lin({s: c * b.k for s, c in a.co.items()}, a.k * b.k)
        return r if r.co else r.k
    if op in ('==', '!=', '<', '>', '<=', '>='):
        d = lin_op('-', a, b)
        d = lin(d)
        if not d.co:
            t = {0: d.k}
        else:
            t = d.table()
        if t is None:
            lo, hi = d.bounds()
            f = {'==': lambda: False if lo > 0 or hi < 0 else None, '!=': lambda: True if lo > 0 or hi < 0 else None,
                 '<': lambda: True if hi < 0 else (False if lo >= 0 else None), '>': lambda: True if lo > 0 else (False if hi <= 0 else None),
                 '<=': lambda: True if hi <= 0 else (False if lo > 0 else None), '>=': lambda: True if lo >= 0 else (False if hi < 0 else None)}[op]()
            return TOP if f is None else int(f)
        g = {'==': lambda x: x == 0, '!=': lambda x: x != 0, '<': lambda x: x < 0, '>': lambda x: x > 0, '<=': lambda x: x <= 0, '>=': lambda x: x >= 0}[op]
        z = {x for x, y in t.items() if g(y)}
        if len(z) in (0, len(t)):
            return int(bool(z))
        raise NeedSplit(d.root(), z)
    if op in ('/', '%', '&', '|', '^', '>>', '<<') and (not a.co or not b.co):
        v, k, left = (a, b.k, True) if not b.co else (b, a.k, False)

        def f(x):
            x, y = (x, k) if left else (k, x)
            return {'/': lambda: int(x / y), '%': lambda: x - int(x / y) * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                    '>>': lambda: x >> y, '<<': lambda: x << y}[op]()
        if v.table() is not None:
            try:
                return v.derived('(%r %s %r)' % (a, op, b), f)
            except (ZeroDivisionError, ValueError):
                return TOP
        if op == '/' and left and k > 0:
            lo, hi = v.bounds()
            key = (op, v, k)
            if key not in DIG:
                DIG[key] = Lin({Sy('(%r / %r)' % (a, b), (lo // k, hi // k)): 1})
            return DIG[key]
    return TOP


def split_run(symbols, run, limit=400):
    """run({name: Lin}) for all values of the symbols {name: set}, splitting the sets where a condition depends on them. Yields (sets, result)."""
    work = [dict(symbols)]
    n = 0
    while work:
        sets = work.pop()
        n += 1
        if n > limit:
            yield sets, None
            return
        sy = {k: Sy(k, v) for k, v in sets.items()}
        try:
            r = run({k: Lin({y: 1}) if len(y.set) > 1 else next(iter(y.set)) for k, y in sy.items()})
        except NeedSplit as e:
            for part in (e.part, e.sy.set - e.part):
                d = dict(sets)
                d[e.sy.n] = frozenset(part)
                work.append(d)
            continue
        yield sets, r
