"""Evaluation of the lexer and the scanner: pointers into the source keep their place, models for regular expressions and multimaps"""
import re
from absint import State, TOP
from strabs import Str, Ptr, codes, base, cstr
from facts import CTORS
from coll import Seq, Mp, It, tmpl
from dbeval import Db, Unknown, Thrown

CONTINUOUS, NOT_NULL = 0x40, 0x20


class View(Str):
    """part of a buffer: content of a std::string_view"""
    __slots__ = ('bid', 'buf', 'off')

    def __init__(self, p, n):
        super().__init__((tuple(p.chars) + (0,))[p.pos:p.pos + n])
        self.bid = p.id; self.buf = p.chars; self.off = p.pos


class Mm(Mp):
    """multimap: elements in the order of their keys"""


class Match:
    """result of a match"""
    def __init__(self, groups=()):
        self.g = tuple(groups)


def text(chars):
    return bytes(c & 255 for c in chars).decode('latin1')


# character classes of the locale "C"
CLASSES = {'alpha': 'a-zA-Z', 'digit': '0-9', 'alnum': 'a-zA-Z0-9', 'upper': 'A-Z', 'lower': 'a-z', 'space': ' \\t\\n\\v\\f\\r', 'xdigit': '0-9a-fA-F', 'punct': '!-/:-@\\[-`{-~', 'd': '0-9', 'w': 'a-zA-Z0-9_', 's': ' \\t\\n\\v\\f\\r'}


def pyre(r):
    """regular expression in the syntax of the model"""
    return re.sub(r'\[:([a-z]+):\]', lambda m: CLASSES.get(m.group(1), m.group(0)), r)


def viewcls(t):
    return 'string_view' in (t or '')


class Lx(Db):
    def __init__(self, p, **kw):
        kw.setdefault('max_steps', 200000); kw.setdefault('max_visits', 600)
        super().__init__(p, **kw)
        self.rx = {}
        self.outside = []
        # inline assembler: index of the highest bit set, counted from 1
        self.models['mewa::bitScanReverse'] = lambda ev, s, args, objloc, fn, el: (ev.num(s, args[0]) & 255).bit_length() if isinstance(ev.num(s, args[0]), int) else TOP

    def at(self, p, k=0):
        if isinstance(k, int) and not 0 <= p.pos + k <= len(p.chars) and p.id == ('src',):
            self.outside.append(p.pos + k)
        return super().at(p, k)

    # ------------------------------------------------------------- views
    def mkstr(self, s, fn, el, args, n):
        nd = fn.nodes[el]
        if viewcls(nd.get('cls', '') or nd.get('t', '')) and args:
            p = args[0] if isinstance(args[0], Ptr) else None
            if p is None and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                v = s.mem.get(self.final(s, args[0][1]))
                if isinstance(v, View) and len(args) == 1:
                    return v
                p = v if isinstance(v, Ptr) else None
            if p is not None:
                if len(n) > 1 and isinstance(n[1], int):
                    return View(p, n[1])
                if len(n) == 1:
                    return View(p, len(cstr(p.rest())))
        return super().mkstr(s, fn, el, args, n)

    def strop(self, s, fn, el, b, args, n, objloc):
        loc = self.final(s, objloc)
        v = s.mem.get(loc)
        if isinstance(v, View):
            if b in ('data', 'begin', 'cbegin'):
                return Ptr(v.bid, v.buf, v.off)
            if b in ('end', 'cend'):
                return Ptr(v.bid, v.buf, v.off + len(v.chars))
            if b == 'substr' and all(isinstance(x, int) for x in n):
                a = n[0] if n else 0
                m = len(v.chars) - a
                return self.temp(s, View(Ptr(v.bid, v.buf, v.off + a), min(m, n[1]) if len(n) > 1 and n[1] >= 0 else m))
            if b == 'remove_prefix' and isinstance(n[0], int):
                s.mem[loc] = View(Ptr(v.bid, v.buf, v.off + n[0]), len(v.chars) - n[0])
                return TOP
            if b == 'operator=' and args:
                x = s.mem.get(self.final(s, args[0][1])) if isinstance(args[0], tuple) and args[0][:1] == ('ref',) else None
                if isinstance(x, View):
                    s.mem[loc] = x
                    return ('ref', loc)
        return super().strop(s, fn, el, b, args, n, objloc)

    def before(self, s, kt, cmp_, a, b):
        x, y = s.mem.get(self.final(s, a)), s.mem.get(self.final(s, b))
        if isinstance(x, Str) and isinstance(y, Str) and (not cmp_ or cmp_.startswith('std::less')):
            if all(isinstance(c, int) for c in x.chars + y.chars):
                return [c & 255 for c in x.chars] < [c & 255 for c in y.chars]
            return None
        return super().before(s, kt, cmp_, a, b)

    # ----------------------------------------------------------- library
    def lib(self, s, fr, fn, el, args, objloc, nd, qn):
        b = base(qn)
        if nd['k'] in CTORS:
            cls = nd.get('cls', '') or nd.get('t', '')
            if 'match_results' in cls or 'match_results' in nd.get('t', ''):
                return self.temp(s, Match())
            return super().lib(s, fr, fn, el, args, objloc, nd, qn)
        ol = self.final(s, objloc) if objloc is not None else None
        ov = s.mem.get(ol) if ol is not None else None
        if ol is not None and 'operator basic_string_view' in qn:
            v = s.mem.get(ol)
            if isinstance(v, Str) and not isinstance(v, View):
                return self.temp(s, View(Ptr(('obj', ol, v.chars), v.chars), len(v.chars)))
            if isinstance(v, View):
                return self.temp(s, v)
        if b in ('operator|', 'operator&', 'operator~', 'operator|=') and 'regex_constants' in qn + fn.nodes[el].get('t', ''):
            n = [self.num(s, a) for a in args]
            if all(isinstance(x, int) for x in n):
                return n[0] | n[1] if b == 'operator|' else n[0] & n[1] if b == 'operator&' else ~n[0] if b == 'operator~' else TOP
        if qn in ('std::regex_search', 'std::regex_match') or b in ('regex_search', 'regex_match'):
            return self.search(s, fn, el, b, args)
        if b == 'lookup_classname' and len(args) >= 2:
            a = [self.num(s, x) for x in args[:2]]
            if all(isinstance(x, Ptr) for x in a) and a[0].id == a[1].id:
                return self.temp(s, Str(('cls',) + tuple(a[0].chars[a[0].pos:a[1].pos])))
        if b == 'isctype' and len(args) == 2 and isinstance(args[1], tuple) and args[1][:1] == ('ref',):
            v, k = s.mem.get(self.final(s, args[1][1])), self.num(s, args[0])
            if isinstance(v, Str) and v.chars[:1] == ('cls',) and isinstance(k, int) and text(v.chars[1:]) in CLASSES:
                return int(bool(re.match('[%s]' % CLASSES[text(v.chars[1:])], chr(k & 255))))
        if isinstance(ov, Match):
            n = [self.num(s, a) for a in args]
            if b == 'size':
                return len(ov.g)
            if b == 'empty':
                return int(not ov.g)
            k = n[0] if n else 0
            if isinstance(k, int) and 0 <= k < len(ov.g):
                if b == 'position':
                    return ov.g[k][0]
                if b == 'length':
                    return ov.g[k][1]
        if qn.startswith('std::multimap') and ol is not None and isinstance(ov, Mm):
            return self.contop(s, fn, el, b, ol, ov, args, nd, qn)
        return super().lib(s, fr, fn, el, args, objloc, nd, qn)

    def ctor(self, s, fr, fn, el, args, nd):
        cls = nd.get('cls', '') or nd.get('t', '')
        if tmpl(cls)[0] == 'std::multimap' or tmpl(nd.get('t', ''))[0] == 'std::multimap':
            self.frames += 1
            loc = ('T%d' % self.frames,)
            if nd.get('cc') or nd.get('mc'):
                self.put(s, loc, args[0])
            else:
                s.mem[loc] = Mm(0)
            return ('ref', loc)
        return super().ctor(s, fr, fn, el, args, nd)

    def contop(self, s, fn, el, b, loc, q, args, nd, qn):
        if isinstance(q, Mm):
            def key(e):
                v = s.mem.get(self.final(s, e))
                return v if isinstance(v, int) else None
            ks = [key(self.elem(loc, j) + ('first',)) for j in range(q.n)]
            if b in ('equal_range', 'lower_bound', 'upper_bound', 'find', 'count'):
                k = self.num(s, args[0])
                if not isinstance(k, int) or None in ks:
                    return self.lose(fn, el)
                k &= 255
                lo = sum(1 for x in ks if x < k); hi = sum(1 for x in ks if x <= k)
                if b == 'count':
                    return hi - lo
                if b != 'equal_range':
                    return It(loc, lo if b == 'lower_bound' else hi if b == 'upper_bound' else lo if lo < hi else q.n)
                t = self.temp(s, TOP)
                s.mem[t[1] + ('first',)] = It(loc, lo); s.mem[t[1] + ('second',)] = It(loc, hi)
                return t
            if b in ('insert', 'emplace'):
                if len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ('ref',):
                    pl = self.final(s, args[0][1])
                    k, v = (s.mem.get(self.final(s, pl + (x,))) for x in ('first', 'second'))
                elif len(args) == 2:
                    k, v = (self.num(s, a) for a in args)
                else:
                    return self.lose(fn, el)
                if not isinstance(k, int) or not isinstance(v, int) or None in ks:
                    return self.lose(fn, el)
                k &= 255
                j = sum(1 for x in ks if x <= k)
                for i in range(q.n, j, -1):
                    for x in ('first', 'second'):
                        s.mem[self.elem(loc, i) + (x,)] = s.mem[self.elem(loc, i - 1) + (x,)]
                s.mem[self.elem(loc, j) + ('first',)] = k; s.mem[self.elem(loc, j) + ('second',)] = v
                s.mem[loc] = Mm(q.n + 1)
                return It(loc, j)
        return super().contop(s, fn, el, b, loc, q, args, nd, qn)

    def search(self, s, fn, el, b, args):
        """match of a regular expression with a part of a buffer"""
        a = [self.num(s, x) for x in args]
        t = [fn.nodes[fn.strip(x)].get('t', '') for x in fn.args(el)]
        if len(a) < 4 or not (isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].id == a[1].id):
            return self.lose(fn, el)
        res = self.final(s, args[2][1]) if isinstance(args[2], tuple) and args[2][:1] == ('ref',) else None
        rx = s.mem.get(self.final(s, args[3][1])) if isinstance(args[3], tuple) and args[3][:1] == ('ref',) else None
        flags = a[4] if len(a) > 4 else 0
        if res is None or not isinstance(rx, Str) or rx.chars[:1] != ('rx',) or not isinstance(flags, int):
            return self.lose(fn, el)
        src = text(a[0].chars[a[0].pos:a[1].pos])
        k = rx.chars
        if k not in self.rx:
            self.rx[k] = re.compile(pyre(text(rx.chars[1:])))
        r = self.rx[k]
        m = r.fullmatch(src) if b == 'regex_match' else r.match(src) if flags & CONTINUOUS else r.search(src)
        if m and flags & NOT_NULL and m.end() == m.start():
            m = None
            for e in range(len(src), 0, -1):
                m = m or (r.fullmatch(src, 0, e) if flags & CONTINUOUS else None)
        if not m:
            s.mem[res] = Match()
            return 0
        s.mem[res] = Match([(m.start(g) if m.start(g) >= 0 else len(src), m.end(g) - m.start(g) if m.start(g) >= 0 else 0) for g in range(r.groups + 1)])
        return 1


class LexApi:
    """calls of the methods of the lexer and the scanner"""
    def __init__(self, p):
        self.p = p
        self.e = Lx(p)

    def fn(self, cls, name, types):
        c = [f for f in self.p.fns.values() if f.cls == cls and f.name == name and f.blocks and len(f.params) == len(types) and all(w in q['t'].replace('unsigned long', 'size_t') for w, q in zip(types, f.params))]
        if len(c) != 1:
            raise Unknown('method %s::%s not found' % (cls, name))
        return c[0]

    def run(self, s, f, loc, args):
        s = s.copy()
        s.trail = ()
        return self.e.run(f, s, loc, [a(s) if callable(a) else a for a in args])

    def view(self, x):
        c = codes(x)
        return lambda s: self.e.temp(s, View(Ptr(('arg', c), c), len(c)))

    def lexer(self, defs):
        """state with the lexer made of a list of definitions (kind, arguments...)"""
        v, s = self.run(State(), self.fn('mewa::Lexer', 'Lexer', ()), ('LX',), [])
        for d in defs:
            k, a = d[0], d[1:]
            if k == 'token':
                f, x = self.fn('mewa::Lexer', 'defineLexem', ('int', 'string_view', 'string_view', 'size_t')), [1, self.view(a[0]), self.view(a[1]), a[2] if len(a) > 2 else 0]
            elif k == 'keyword':
                f, x = self.fn('mewa::Lexer', 'defineLexem', ('string_view',)), [self.view(a[0])]
            elif k == 'ignore':
                f, x = self.fn('mewa::Lexer', 'defineIgnore', ('int', 'string_view')), [1, self.view(a[0])]
            elif k == 'bad':
                f, x = self.fn('mewa::Lexer', 'defineBadLexem', ('int', 'string_view')), [1, self.view(a[0])]
            elif k == 'comment' and len(a) == 1:
                f, x = self.fn('mewa::Lexer', 'defineEolnComment', ('int', 'string_view')), [1, self.view(a[0])]
            elif k == 'comment':
                f, x = self.fn('mewa::Lexer', 'defineBracketComment', ('int', 'string_view', 'string_view')), [1, self.view(a[0]), self.view(a[1])]
            elif k == 'indent':
                f, x = self.fn('mewa::Lexer', 'defineIndentLexems', ('int', 'string_view', 'string_view', 'string_view', 'int')), [1, self.view(a[0]), self.view(a[1]), self.view(a[2]), a[3]]
            v, s = self.run(s, f, ('LX',), x)
            s = self.e.prune(s, [('LX',)])
        return s

    def scanner(self, s, src):
        f = [f for f in self.p.fns.values() if f.cls == 'mewa::Scanner' and f.name == 'Scanner' and f.blocks and len(f.params) == 1 and 'string_view' in f.params[0]['t']]
        if len(f) != 1:
            raise Unknown('constructor of the scanner not found')
        c = codes(src)
        v, s = self.run(s, f[0], ('SC',), [lambda s: self.e.temp(s, View(Ptr(('src',), c), len(c)))])
        return self.e.prune(s, [('LX',), ('SC',)])

    def copy(self, s):
        """state with the lexer made of the definitions of the lexer"""
        v, s = self.run(s, self.fn('mewa::Lexer', 'getDefinitions', ()), ('LX',), [])
        f = [f for f in self.p.fns.values() if f.cls == 'mewa::Lexer' and f.name == 'Lexer' and f.blocks and len(f.params) == 1 and 'vector' in f.params[0]['t']]
        if len(f) != 1:
            raise Unknown('constructor of the lexer not found')
        v, s = self.run(s, f[0], ('LY',), [v])
        s = self.e.prune(s, [('LY',)])
        for k in [k for k in s.mem if k[0] == 'LY']:
            s.mem[('LX',) + k[1:]] = s.mem[k]
        for k, v in list(s.mem.items()):
            if isinstance(v, tuple) and v[:1] == ('ref',) and isinstance(v[1], tuple) and v[1][:1] == ('LY',):
                s.mem[k] = ('ref', ('LX',) + v[1][1:])
        return self.e.prune(s, [('LX',)])

    def next(self, s):
        """(name, id, value, line), state"""
        v, s = self.run(s, self.fn('mewa::Lexer', 'next', ('Scanner',)), ('LX',), [('ref', ('SC',))])
        if not (isinstance(v, tuple) and v[:1] == ('ref',)):
            raise Unknown('lexem')
        l = self.e.final(s, v[1])
        r = []
        for m in ('name', 'id', 'value', 'line'):
            x, _ = self.run(s, self.fn('mewa::Lexem', m, ()), l, [])
            if m in ('name', 'value'):
                x = self.e.strv(s, x)
                if x is None or not all(isinstance(c, int) for c in x):
                    raise Unknown(m)
                x = text(x)
            else:
                x = self.e.num(s, x)
                if not isinstance(x, int):
                    raise Unknown(m)
            r.append(x)
        return tuple(r), self.e.prune(s, [('LX',), ('SC',)])
