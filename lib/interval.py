"""Interval analysis of the numbers that enter from outside (Lua values, digit sequences of texts).

Forward dataflow over the CFG with widening to thresholds and two narrowing passes; functions that read such numbers or get them as scalar arguments are
analysed in the calling context, and their outcomes are kept apart by the truth of their result, so that `if (!get( ls, idx, lo, hi, result)) throw` and a
check written in the caller mean the same.  A value is an interval with: nan possible, known to be integral (0 no, 1 up to a rounding error above, 2 exact),
external (tainted), and a symbolic rounding of another value (floor( x), x - floor( x)), by which tests for a fractional part are recognised."""
import math
from facts import CALLS, CTORS, STRIP, CASTS, Broken
import flow

INF = float('inf')
SRC_FLOAT = {'lua_tonumberx', 'luaL_checknumber', 'luaL_optnumber'}
SRC_INT = {'lua_tointegerx'}
CHK_INT = {'luaL_checkinteger', 'luaL_optinteger', 'lua_tounsignedx', 'luaL_checkunsigned', 'luaL_optunsigned'}
ROUND = {'floor': 'floor', 'std::floor': 'floor', 'ceil': 'ceil', 'std::ceil': 'ceil', 'trunc': 'trunc', 'std::trunc': 'trunc', 'round': 'round', 'std::round': 'round',
         'rint': 'round', 'std::rint': 'round', 'nearbyint': 'round', 'std::nearbyint': 'round', 'floorf': 'floor', 'floorl': 'floor'}
LUA_PURE = {'lua_type', 'lua_isnumber', 'lua_isstring', 'lua_tonumberx', 'lua_tointegerx', 'lua_tolstring', 'lua_toboolean', 'lua_gettop', 'lua_touserdata', 'lua_rawlen',
            'lua_typename', 'lua_checkstack', 'lua_iscfunction', 'lua_isuserdata', 'lua_absindex', 'lua_rawequal', 'lua_compare', 'lua_topointer'}


class V:
    __slots__ = ('lo', 'hi', 'nan', 'integ', 'ext', 'rel', 'sym', 'org', 'split', 'isf')

    def __init__(self, lo, hi, isf=False, nan=None, integ=None, ext=False, rel=False, sym=None, org=(), split=None):
        self.lo = lo; self.hi = hi; self.isf = isf
        self.nan = isf if nan is None else nan
        self.integ = (0 if isf else 2) if integ is None else integ
        self.ext = ext; self.rel = rel; self.sym = sym; self.org = org; self.split = split

    def key(self):
        return (self.lo, self.hi, self.isf, self.nan, self.integ, self.ext, self.rel, self.sym, self.org, None if self.split is None else id(self.split))

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def upd(self, **kw):
        r = V(self.lo, self.hi, self.isf, self.nan, self.integ, self.ext, self.rel, self.sym, self.org, self.split)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __repr__(self):
        return '[%s..%s%s%s%s%s]' % (self.lo, self.hi, ' nan' if self.nan else '', ' int%d' % self.integ if self.isf else '', ' ext' if self.ext else '', ' %s' % (self.sym,) if self.sym else '')


def join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    return V(min(a.lo, b.lo), max(a.hi, b.hi), a.isf or b.isf, a.nan or b.nan, min(a.integ, b.integ), a.ext or b.ext, a.rel or b.rel,
             a.sym if a.sym == b.sym else None, tuple(x for x in a.org if x in b.org), a.split if a.split is b.split else None)


def meet(a, b):
    """a, about which b holds too"""
    lo, hi = max(a.lo, b.lo), min(a.hi, b.hi)
    if lo > hi:
        return a
    return a.upd(lo=lo, hi=hi, nan=a.nan and b.nan, integ=max(a.integ, b.integ), rel=a.rel or b.rel)


def trange(ti):
    n, s = ti
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s and n > 1 else (0, (1 << n) - 1)


def isfloat(t):
    return t.replace('const ', '').strip() in ('double', 'float', 'long double', 'lua_Number')


class Interval:
    MAXDEPTH = 7

    def __init__(self, p, report):
        self.p = p
        self.report = report        # report(kind, fn, node, msg)
        self.nr = flow.NR.of(p)
        self.stats = {}
        self.undec = set()
        self.chain = []
        self.memo = {}
        self._src = None
        self._cyc = {}

    def stat(self, k, what):
        self.stats.setdefault(k, set()).add(what)

    # ---- which functions read numbers
    def sources(self):
        if self._src is None:
            direct = set()
            for f in self.p.fns.values():
                for i in f.walk():
                    nd = f.nodes[i]
                    if nd.get('qn') in SRC_FLOAT | SRC_INT or nd['k'] in ('BinaryOperator', 'CompoundAssignOperator') and self.accumulation(f, i):
                        direct.add(f.key)
                        break
            r = set(direct)
            ch = True
            while ch:
                ch = False
                for f in self.p.fns.values():
                    if f.key in r or not self.scalar_result(f):
                        continue
                    if any(k in r for _, k, _ in self.p.call_sites(f)):
                        r.add(f.key); ch = True
            self._src = r
            self.direct = direct
        return self._src

    def scalar_result(self, f):
        return f.d.get('rti') is not None or isfloat(f.ret) or any(self.outparam(x) for x in f.params)

    def outparam(self, x):
        t = x['t']
        return (t.endswith('&') or t.endswith('*')) and 'const' not in t and t.rstrip('&* ') in (
            'int', 'long', 'long long', 'short', 'unsigned int', 'unsigned long', 'unsigned long long', 'double', 'float', 'bool', 'std::size_t', 'lua_Integer', 'lua_Number',
            'std::int64_t', 'std::uint32_t', 'std::int32_t', 'unsigned char', 'unsigned short', 'ptrdiff_t', 'size_t')

    # ---- digit accumulation: x = x * K + d, x *= K
    def accumulation(self, f, i):
        """(variable, K, node of the other operands) when node i multiplies a variable that is assigned the result, by a number base"""
        nd = f.nodes[i]
        if nd['k'] == 'CompoundAssignOperator' and nd['op'] in ('*=', '<<='):
            t = f.nodes[f.strip(nd['c'][0])]
            K = f.cv(nd['c'][1])
            if nd['op'] == '<<=' and K is not None:
                K = 1 << K if 0 < K < 8 else None
            if t['k'] == 'DeclRefExpr' and K in (10, 16, 8, 2) and t.get('v') and self.digits(f, t['v'], K, None):
                return (t['v'], K)
            return None
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('*', '<<'):
            for a, b in ((nd['c'][0], nd['c'][1]), (nd['c'][1], nd['c'][0])):
                K = f.cv(b)
                if nd['op'] == '<<':
                    if b != nd['c'][1]:
                        continue
                    K = 1 << K if K is not None and 0 < K < 8 else None
                t = f.nodes[f.strip(a, True)]
                if K not in (10, 16, 8, 2) or t['k'] != 'DeclRefExpr' or not t.get('v'):
                    continue
                par = f.parents
                j = i
                while j in par:
                    j = par[j]
                    x = f.nodes[j]
                    if x['k'] == 'BinaryOperator' and x['op'] == '=':
                        l = f.nodes[f.strip(x['c'][0])]
                        if l['k'] == 'DeclRefExpr' and l.get('v') == t['v'] and self.digits(f, t['v'], K, j):
                            return (t['v'], K)
                        break
                    if x['k'] not in STRIP and x['k'] not in CASTS and x['k'] not in ('BinaryOperator', 'ConditionalOperator', 'ImplicitCastExpr'):
                        break
        return None

    def digits(self, f, v, K, asg):
        """inside a loop, and the function takes digits from characters (c - '0')"""
        if not any(f.nodes[x]['k'] == 'BinaryOperator' and f.nodes[x]['op'] == '-' and f.cv(f.nodes[x]['c'][1]) in (48, 55, 87, 65, 97) for x in f.walk()):
            return K == 10
        return True

    def cyclic(self, f):
        """blocks on a cycle"""
        if f.key not in self._cyc:
            r = set()
            for b in f.blocks:
                st = [x for x in f.blocks[b]['s'] if x >= 0]; seen = set()
                while st:
                    x = st.pop()
                    if x == b:
                        r.add(b)
                        break
                    if x in seen:
                        continue
                    seen.add(x)
                    st.extend(y for y in f.blocks[x]['s'] if y >= 0)
            self._cyc[f.key] = r
        return self._cyc[f.key]

    # ---- types
    def top(self, nd):
        ti = nd.get('ti')
        if ti:
            lo, hi = trange(ti)
            return V(lo, hi)
        if isfloat(nd.get('t', '')):
            return V(-INF, INF, True)
        return None

    # ---- function level
    def run(self, f, env, frame, emit):
        """returns [(return value or None, env)] of the normal exits; env: refs -> V"""
        blocks = f.blocks
        keep = set()
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'ConditionalOperator':
                keep.update((nd['c'][1], nd['c'][2]))
            elif nd['k'] in CALLS:
                keep.add(i)
            elif nd['k'] == 'UnaryOperator' and nd['op'] in ('++', '--') or nd['k'] == 'BinaryOperator' and nd['op'] in ('&&', '||'):
                keep.add(i)
        thr = {0, 1, -1}
        for i in f.walk():
            cv = f.nodes[i].get('cv')
            if cv is not None:
                x = int(cv); thr.update((x - 1, x, x + 1))
        thr = sorted(thr)
        preds = {}
        for b, blk in blocks.items():
            for k, s in enumerate(blk['s']):
                if s >= 0:
                    preds.setdefault(s, []).append((b, k))
        cond = {}

        def out(b, st, em):
            for el in blocks[b]['e']:
                if isinstance(el, int):
                    st = self.transfer(f, frame, st, el, em, keep)
                    if st is None:
                        return None
            return st

        def edges(b, st):
            blk = blocks[b]
            c = blk.get('lcond', blk.get('cond'))
            r = []
            two = c is not None and len(blk['s']) == 2 and f.nodes[blk['term']]['k'] != 'SwitchStmt' if blk.get('term') is not None else False
            for k, s in enumerate(blk['s']):
                if s < 0:
                    continue
                if s == f.exit and blk.get('term') is not None and f.nodes[blk['term']]['k'] == 'CXXTryStmt':
                    continue
                t = self.refine(f, frame, st, c, k == 0) if two else st
                if t is not None:
                    r.append((s, k, t))
            return r
        bools = set()
        for i in f.walk():
            for v in f.nodes[i].get('vars', ()):
                if v['t'].replace('const ', '') == 'bool':
                    bools.add(('v', frame, v['v']))

        def part(st):
            """states that differ in a boolean local are kept apart"""
            return tuple(sorted((r, st[r].lo) for r in bools if r in st and st[r].lo == st[r].hi)) if bools else ()
        inn = {(f.entry, ()): dict(env)}
        post = []
        seen = set()
        stk = [(f.entry, iter(blocks[f.entry]['s']))]
        seen.add(f.entry)
        while stk:
            x, it = stk[-1]
            for y in it:
                if y >= 0 and y not in seen:
                    seen.add(y); stk.append((y, iter(blocks[y]['s'])))
                    break
            else:
                post.append(x); stk.pop()
        rpo = {b: k for k, b in enumerate(reversed(post))}
        cnt = {}
        work = [(f.entry, ())]
        n = 0
        while work:
            n += 1
            if n > 4000:
                raise Broken('interval analysis of %s does not converge' % f.qn)
            work.sort(key=lambda x: -rpo.get(x[0], 0))     # the first in reverse postorder is last
            b = work.pop()
            st = out(b[0], dict(inn[b]), False)
            if st is None:
                continue
            for s, k, t in edges(b[0], st):
                s = (s, part(t))
                if s not in inn:
                    inn[s] = t; work.append(s)
                else:
                    j = self.joinenv(inn[s], t)
                    if j != inn[s]:
                        cnt[s] = cnt.get(s, 0) + 1
                        if cnt[s] > 3 and rpo.get(b[0], 0) >= rpo.get(s[0], 0) or cnt[s] > 40:
                            j = self.widen(inn[s], j, thr, cnt[s] > 40)
                        if j != inn[s]:
                            inn[s] = j
                            if s not in work:
                                work.append(s)
        for _ in range(12):
            o2 = {}
            for b in list(inn):
                st = out(b[0], dict(inn[b]), False)
                o2[b] = [] if st is None else edges(b[0], st)
            new = {(f.entry, ()): dict(env)}
            for b in o2:
                for s, k, t in o2[b]:
                    s = (s, part(t))
                    new[s] = t if s not in new else self.joinenv(new[s], t)
            same = new == inn
            inn = new
            if same:
                break
        self.rets = []
        rets = []
        for bk in inn:
            st = dict(inn[bk])
            b = bk[0]
            for el in blocks[b]['e']:
                if not isinstance(el, int):
                    continue
                st = self.transfer(f, frame, st, el, emit, keep)
                if st is None:
                    break
                if f.nodes[el]['k'] == 'ReturnStmt':
                    c = f.nodes[el].get('c', ())
                    v = self.ev(f, frame, st, c[0]) if c else None
                    if f.ret == 'bool' and v is not None and not v.lo == v.hi:
                        for t in (0, 1):
                            s2 = self.refine(f, frame, st, c[0], bool(t))
                            if s2 is not None:
                                rets.append((V(t, t), s2))
                    else:
                        rets.append((v, st))
            if st is not None and f.exit in blocks[b]['s'] and not any(isinstance(e, int) and f.nodes[e]['k'] == 'ReturnStmt' for e in blocks[b]['e']) and f.ret == 'void':
                rets.append((None, st))
        return rets

    def joinenv(self, a, b):
        r = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if k[0] == 'e':         # value of a subexpression that one of the paths did not evaluate
                    r[k] = v
                continue
            r[k] = v if v is w else join(v, w)
        for k, w in b.items():
            if k[0] == 'e' and k not in a:
                r[k] = w
        return r

    def widen(self, old, new, thr, hard):
        r = {}
        for k, v in new.items():
            o = old.get(k)
            if o is not None and v != o:
                lo, hi = v.lo, v.hi
                if lo < o.lo:
                    c = [t for t in thr if t <= lo]
                    lo = -INF if hard or not c else c[-1]
                if hi > o.hi:
                    c = [t for t in thr if t >= hi]
                    hi = INF if hard or not c else c[0]
                if (lo, hi) != (v.lo, v.hi):
                    v = v.upd(lo=lo, hi=hi)
                if hard:
                    v = v.upd(org=(), sym=None, split=None)
            r[k] = v
        return r

    # ---- references
    def ref(self, f, fr, i):
        j = f.strip(i)
        nd = f.nodes[j]
        if nd['k'] == 'DeclRefExpr' and nd.get('v', '').startswith('L:'):
            return ('v', fr, nd['v'])
        return None

    def idxkey(self, f, fr, st, i):
        v = self.ev(f, fr, st, i)
        if v is not None and v.lo == v.hi:
            return ('L', ('c', v.lo))
        r = self.ref(f, fr, f.strip(i, True))
        if r is None:
            return None
        return st.get(('a',) + r[1:], ('L', r))

    def assign(self, st, ref, v):
        """unchanged copies and outcomes that mention the variable are void"""
        for k, w in list(st.items()):
            if not isinstance(w, V):
                continue
            if ref in w.org or w.sym is not None and w.sym[1] == ref or w.split is not None and any(ref in o for _, o in w.split):
                st[k] = w.upd(org=tuple(x for x in w.org if x != ref), sym=None if w.sym is not None and w.sym[1] == ref else w.sym,
                              split=None if w.split is not None and any(ref in o for _, o in w.split) else w.split)
        if v is None:
            st.pop(ref, None)
        else:
            if ref in v.org or v.sym is not None and v.sym[1] == ref or v.split is not None and any(ref in o for _, o in v.split):
                v = v.upd(org=tuple(x for x in v.org if x != ref), sym=None if v.sym is not None and v.sym[1] == ref else v.sym,
                          split=None if v.split is not None and any(ref in o for _, o in v.split) else v.split)
            st[ref] = v

    def havoc_lua(self, st):
        for k in [k for k in st if k[0] == 'L']:
            self.assign(st, k, None)

    # ---- expressions
    def ev(self, f, fr, st, i):
        if i is None or i < 0:
            return None
        nd = f.nodes[i]
        e = st.get(('e', fr, i))
        if e is not None:
            return e
        if 'cv' in nd and not nd.get('lv'):
            x = int(nd['cv'])
            return V(x, x)
        if 'fc' in nd and not nd.get('lv'):
            x = float(nd['fc'])
            return V(x, x, True, nan=x != x, integ=2 if x == x and abs(x) != INF and x == math.floor(x) else 0)
        k = nd['k']
        c = nd.get('c', ())
        if k == 'FloatingLiteral':
            try:
                x = float(nd.get('fv'))
            except (TypeError, ValueError):
                return V(-INF, INF, True)
            return V(x, x, True, nan=False, integ=2 if x == math.floor(x) else 0)
        if k in CASTS or k == 'ImplicitCastExpr':
            cc = [x for x in c if x >= 0]
            if not cc:
                return self.top(nd)
            if k in CASTS and nd.get('ck') in (None, 'NoOp') or nd.get('ck') in ('NoOp', 'LValueToRValue'):
                v = self.ev(f, fr, st, cc[0])
                return v if v is not None else self.top(nd)
            v = self.ev(f, fr, st, cc[0])
            if v is None:
                return self.top(nd)
            ck = nd.get('ck')
            ti = nd.get('ti')
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                return V(0, 1, split=v.split, org=('bool',) + tuple(v.org)) if not (v.lo == v.hi) else V(int(v.lo != 0), int(v.lo != 0))
            if ck in ('IntegralCast', 'FloatingToIntegral') and ti:
                lo, hi = trange(ti)
                if ck == 'FloatingToIntegral':
                    vlo = math.floor(v.lo) if abs(v.lo) != INF else v.lo
                    vhi = math.floor(v.hi) if abs(v.hi) != INF else v.hi
                    if v.nan or vlo < lo or vhi > hi:
                        return V(lo, hi)
                    src = [x for x in v.org if x != 'bool']
                    return V(vlo, vhi, ext=v.ext, sym=('conv', src[0]) if src else None)
                if v.lo < lo or v.hi > hi:
                    return V(lo, hi)
                return v
            if ck == 'IntegralToFloating':
                return V(float(v.lo) if abs(v.lo) != INF else v.lo, float(v.hi) if abs(v.hi) != INF else v.hi, True, False, 2, v.ext, v.rel, v.sym, v.org)
            if ck == 'FloatingCast':
                return v
            return self.top(nd)
        if k in STRIP:
            cc = [x for x in c if x >= 0]
            return self.ev(f, fr, st, cc[0]) if cc else self.top(nd)
        if k == 'DeclRefExpr':
            r = self.ref(f, fr, i)
            if r is not None and r in st:
                v = st[r]
                return v if r in v.org else v.upd(org=v.org + (r,))
            v = self.top(nd)
            return v.upd(org=(r,)) if v is not None and r is not None else v
        if k == 'UnaryOperator':
            op = nd['op']
            v = self.ev(f, fr, st, c[0])
            if op == '-' and v is not None:
                return V(-v.hi, -v.lo, v.isf, v.nan, 2 if v.integ == 2 else 0, v.ext)
            if op == '+':
                return v
            if op == '!':
                return V(0, 1)
            if op == '*' and v is not None:
                return self.top(nd)
            return self.top(nd)
        if k == 'BinaryOperator':
            op = nd['op']
            if op == ',':
                return self.ev(f, fr, st, c[1])
            if op == '=':
                return self.ev(f, fr, st, c[0])
            if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return V(0, 1)
            return self.arith(f, fr, st, i)
        if k == 'CompoundAssignOperator':
            return self.ev(f, fr, st, c[0])
        if k == 'ConditionalOperator':
            a = self.ev(f, fr, st, c[1]) if ('e', fr, c[1]) not in st else st[('e', fr, c[1])]
            b = self.ev(f, fr, st, c[2]) if ('e', fr, c[2]) not in st else st[('e', fr, c[2])]
            if a is None or b is None:
                return self.top(nd)
            return join(a, b)
        return self.top(nd)

    def arith(self, f, fr, st, i, vals=None):
        nd = f.nodes[i]
        op = nd['op'].rstrip('=') if nd['k'] == 'CompoundAssignOperator' else nd['op']
        c = nd['c']
        a, b = vals or (self.ev(f, fr, st, c[0]), self.ev(f, fr, st, c[1]))
        t = self.top(nd)
        if a is None or b is None:
            return t
        ext = a.ext or b.ext
        isf = a.isf or b.isf
        nan = a.nan or b.nan

        def safe(fn):
            try:
                r = fn()
                return r
            except (OverflowError, ValueError, ZeroDivisionError):
                return None
        lo = hi = None
        integ = 2 if a.integ == 2 and b.integ == 2 and op in '+-*' else 0
        if op == '+':
            lo, hi = a.lo + b.lo, a.hi + b.hi
            if isf and integ == 0 and {a.integ, b.integ} & {1, 2} and min(abs(a.lo), abs(b.lo)) < 1e-9:
                # x + epsilon
                x = a if a.integ else b
                integ = 1 if x.integ else 0
        elif op == '-':
            lo, hi = a.lo - b.hi, a.hi - b.lo
            cc = f.cv(c[1])
            if cc in (48, 55, 65, 87, 97) and f.nodes[f.strip(c[0], True)].get('t', '').replace('const ', '') in ('char', 'unsigned char', 'signed char'):
                # the value of a digit (assumed to be tested to be one)
                return V(0, 9) if cc == 48 else V(10, 35) if cc in (55, 87) else V(0, 25)
            if isf:
                for x in a.org:
                    if b.sym == ('floor', x):
                        return V(0.0, 1.0, True, True, 0, False, sym=('frac', x))
                    if b.sym is not None and b.sym[1] == x:
                        return V(-1.0, 1.0, True, True, 0, False, sym=('rnd', x))
                if b.sym is not None and b.sym[0] in ('floor', 'rnd', 'rv', 'conv') or a.sym is not None and a.sym[0] in ('floor', 'rnd', 'rv', 'conv'):
                    s = b.sym or a.sym
                    return V(-INF, INF, True, True, 0, False, sym=('rnd', s[1]))
        elif op == '*':
            cs = [0 if 0 in (x, y) else x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(cs), max(cs)
        elif op == '/':
            if not isf and b.lo == b.hi and b.lo > 0 and abs(a.lo) != INF and abs(a.hi) != INF:
                q = lambda x, y: int(abs(x) // y) * (1 if x >= 0 else -1)
                lo, hi = q(a.lo, b.lo), q(a.hi, b.lo)
            elif not isf and b.lo > 0 and abs(a.lo) != INF and abs(a.hi) != INF:
                lo, hi = min(a.lo, 0), max(a.hi, 0)
        elif op == '%' and not isf and b.lo > 0:
            lo, hi = (0 if a.lo >= 0 else -(b.hi - 1)), b.hi - 1
        elif op == '&' and not isf and (b.lo >= 0 or a.lo >= 0):
            lo, hi = 0, min([x.hi for x in (a, b) if x.lo >= 0])
        elif op == '>>' and not isf and b.lo == b.hi and 0 <= b.lo < 64 and abs(a.lo) != INF and abs(a.hi) != INF:
            lo, hi = int(a.lo) >> b.lo, int(a.hi) >> b.lo
        elif op == '<<' and not isf and b.lo == b.hi and 0 <= b.lo < 64 and a.lo >= 0 and abs(a.hi) != INF:
            lo, hi = int(a.lo) << b.lo, int(a.hi) << b.lo
        elif op == '|' and not isf and a.lo >= 0 and b.lo >= 0 and max(a.hi, b.hi) != INF:
            lo, hi = 0, (1 << max(int(a.hi).bit_length(), int(b.hi).bit_length())) - 1
        if lo is None or lo != lo or hi != hi:
            return t if t is None else t.upd(ext=False)
        if isf:
            return V(lo, hi, True, nan or abs(lo) == INF or abs(hi) == INF, integ, ext)
        r = V(lo, hi, ext=ext, rel=a.rel or b.rel)
        return r if ext else self.within(f, r, nd)

    def within(self, f, v, nd):
        """clip to the type of the node"""
        if v is None or v.isf:
            return v
        ti = nd.get('ti')
        if ti:
            lo, hi = trange(ti)
            if v.lo < lo or v.hi > hi:
                if not ti[1]:
                    return V(lo, hi)
                return v.upd(lo=max(v.lo, lo), hi=min(v.hi, hi)) if v.lo <= hi and v.hi >= lo else V(lo, hi)
        return v

    # ---- statements
    def transfer(self, f, fr, st, i, emit, keep):
        nd = f.nodes[i]
        k = nd['k']
        c = nd.get('c', ())
        if k in CALLS or k in CTORS:
            if nd.get('nr') or nd.get('qn') in flow.cg.LUA_RAISE or nd.get('fn') in self.nr:
                return None
            st = self.call(f, fr, st, i, emit)
            return st
        if k == 'CXXThrowExpr':
            return None
        if k == 'DeclStmt':
            for v in nd.get('vars', ()):
                if not v['v'].startswith('L:'):
                    continue
                r = ('v', fr, v['v'])
                if v.get('ti') or isfloat(v['t']):
                    if v['init'] >= 0:
                        x = self.ev(f, fr, st, v['init'])
                        x = self.within(f, x, v)
                        if v['t'].replace('const ', '') == 'bool' and x is not None and x.split is None and x.lo != x.hi:
                            x = self.splitcond(f, fr, st, v['init'])
                        self.assign(st, r, x.upd(org=x.org) if x is not None else None)
                    else:
                        self.assign(st, r, None)
                elif v['t'].endswith('&') and v['init'] >= 0:
                    # a reference to a scalar: not tracked, the referent neither
                    t = self.ref(f, fr, v['init'])
                    if t is not None:
                        self.assign(st, t, None); st[('x',) + t[1:]] = V(0, 0)
            return st
        if k == 'BinaryOperator' and nd['op'] == '=':
            r = self.ref(f, fr, c[0])
            v = self.within(f, self.ev(f, fr, st, c[1]), nd)
            if r is not None and ('x',) + r[1:] not in st:
                if v is not None and any(self.accumulation(f, x) for x in f.walk(c[1]) if f.nodes[x]['k'] == 'BinaryOperator'):
                    v = v.upd(ext=True)
                if nd['t'] == 'bool' and v is not None and v.split is None and v.lo != v.hi:
                    v = self.splitcond(f, fr, st, c[1])
                self.assign(st, r, v)
            return st
        if k == 'CompoundAssignOperator':
            r = self.ref(f, fr, c[0])
            if emit:
                self.sink_arith(f, fr, st, i)
            v = self.within(f, self.arith(f, fr, st, i), nd)
            if v is not None and self.accumulation(f, i):
                v = v.upd(ext=True)
            if r is not None and ('x',) + r[1:] not in st:
                self.assign(st, r, v.upd(sym=None, org=()) if v is not None else None)
            return st
        if k == 'UnaryOperator' and nd['op'] in ('++', '--'):
            r = self.ref(f, fr, c[0])
            v = self.ev(f, fr, st, c[0])
            if r is not None and v is not None and not v.isf and ('x',) + r[1:] not in st:
                d = 1 if nd['op'] == '++' else -1
                n = self.within(f, V(v.lo + d, v.hi + d, ext=False), f.nodes[f.strip(c[0])])
                st[('e', fr, i)] = (v if nd.get('post') else n).upd(org=(), sym=None, split=None)
                self.assign(st, r, n)
            elif r is not None:
                self.assign(st, r, None)
            return st
        if k == 'UnaryOperator' and nd['op'] == '&':
            t = self.ref(f, fr, c[0])
            if t is not None:
                # the address of a local goes somewhere: handled when it is passed directly to a function, unknown from here on otherwise
                par = f.parents.get(i)
                while par is not None and (f.nodes[par]['k'] in STRIP or f.nodes[par]['k'] in CASTS):
                    par = f.parents.get(par)
                if par is None or f.nodes[par]['k'] not in CALLS:
                    self.assign(st, t, None); st[('x',) + t[1:]] = V(0, 0)
            return st
        if emit:
            if k in CASTS or k == 'ImplicitCastExpr':
                self.sink_cast(f, fr, st, i)
            elif k == 'BinaryOperator' and nd['op'] in ('+', '-', '*', '<<'):
                self.sink_arith(f, fr, st, i)
        if i in keep and (nd.get('ti') or isfloat(nd.get('t', ''))):
            st.pop(('e', fr, i), None)
            v = self.ev(f, fr, st, i)
            if v is not None:
                st[('e', fr, i)] = v
        return st

    # ---- calls
    def call(self, f, fr, st, i, emit):
        nd = f.nodes[i]
        qn = nd.get('qn') or ''
        a = f.args(i)
        ek = ('e', fr, i)
        st.pop(ek, None)
        res = self.top(nd)
        if qn in SRC_FLOAT or qn in SRC_INT:
            upv = (f.cv(a[1]) or 0) < -1001000
            key = self.idxkey(f, fr, st, a[1])
            if upv:
                res = self.top(nd)
            elif qn in SRC_FLOAT:
                v = st.get(key) if key else None
                v = v or V(-INF, INF, True, True, 0, True)
                res = v.upd(org=v.org + ((key,) if key and key not in v.org else ()))
                if emit:
                    self.stat('numbers read from Lua', (f.qn, f.path(i)))
            else:
                v = st.get(key) if key else None
                lo, hi = trange(nd['ti'])
                if v is not None and v.integ and not v.nan and v.lo >= lo and v.hi <= hi + 1:
                    res = V(math.floor(v.lo), min(math.floor(v.hi), hi), ext=True)
                    if emit:
                        self.stat('integers read from Lua after a check', (f.qn, f.path(i)))
                else:
                    res = V(lo, hi, ext=True)
                    if emit:
                        if self.compared_only(f, i):
                            self.stat('integers read from Lua to compare only', (f.qn, f.path(i)))
                        else:
                            self.report('lossy', f, i, 'converts a Lua value to an integer without having checked that it is one (a fraction is cut off, a value of another type is 0)')
            if len(a) > 2 and f.cv(a[2]) != 0:
                self.undec.add('%s: number read with a success flag' % f.qn)
                res = self.top(nd)
            if res is not None:
                st[ek] = res
            return st
        if qn in CHK_INT:
            if res is not None:
                st[ek] = res.upd(ext=True)
            return st
        if qn in ROUND or qn.startswith('std::') and qn.split('::')[-1] in ROUND:
            kind = ROUND[qn.split('::')[-1]]
            v = self.ev(f, fr, st, a[0])
            if v is not None and res is not None and res.isf:
                fl = lambda x: float(math.floor(x)) if abs(x) != INF else x
                ce = lambda x: float(math.ceil(x)) if abs(x) != INF else x
                src = [x for x in v.org if x != 'bool']
                # rounding changes a fraction: the result is only taken as the same number when the argument is known to be (nearly) integral
                g = V(fl(v.lo), ce(v.hi), True, v.nan, 2, v.ext, sym=('floor' if kind == 'floor' else 'rv', src[0]) if src else None)
                st[ek] = g
            return st
        if qn.split('::')[-1] in ('fmod', 'modf', 'remainder', 'frexp', 'isnan', 'isfinite', 'isnormal') and a:
            v = self.ev(f, fr, st, a[0])
            src = [x for x in v.org if x != 'bool'] if v is not None else []
            if src and res is not None:
                st[ek] = res.upd(sym=('rnd', src[0]))
            for x in a[1:]:
                t = self.ref(f, fr, self.addr(f, x))
                if t is not None:
                    self.assign(st, t, None)
                    if src:
                        self.assign(st, t, V(-INF if v.lo == -INF else float(math.floor(v.lo)), INF if v.hi == INF else float(math.ceil(v.hi)), True, v.nan, 2, v.ext, sym=('rv', src[0])))
            return st
        if qn in ('atoi', 'atol', 'atoll', 'std::atoi', 'std::atol', 'std::atoll') and emit:
            self.report('atoi', f, i, '%s converts a text without any check: digits out of range or no number at all go unnoticed' % qn)
        if qn in ('std::min', 'std::max') and len(a) == 2 and res is not None:
            x, y = self.ev(f, fr, st, a[0]), self.ev(f, fr, st, a[1])
            if x is not None and y is not None and not x.isf:
                g = min if qn == 'std::min' else max
                st[ek] = V(g(x.lo, y.lo), g(x.hi, y.hi), ext=x.ext or y.ext)
            return st
        key = nd.get('fn')
        t = self.p.targets(key) if key else []
        # tree functions
        if len(t) == 1 and t[0].blocks and nd['k'] in CALLS and self.inlinable(f, fr, st, i, t[0], a):
            return self.inline(f, fr, st, i, t[0], a, emit)
        # unknown: scalars passed by reference or address change
        for x in a:
            r = self.ref(f, fr, self.addr(f, x))
            if r is not None and (self.addr(f, x) != x or self.byref(f, nd, t, a, x)):
                self.assign(st, r, None)
        if qn.startswith('lua') and qn not in LUA_PURE or (t and any('lua_State' in x['t'] for x in t[0].params)):
            self.havoc_lua(st)
        return st

    def addr(self, f, x):
        j = f.strip(x, True)
        if j >= 0 and f.nodes[j]['k'] == 'UnaryOperator' and f.nodes[j]['op'] == '&':
            return f.nodes[j]['c'][0]
        return x

    def byref(self, f, nd, t, a, x):
        """argument expression is passed as lvalue"""
        j = x
        while j >= 0 and f.nodes[j]['k'] in ('ParenExpr', 'ExprWithCleanups'):
            j = f.nodes[j]['c'][0]
        return bool(f.nodes[j].get('lv')) and 'const' not in f.nodes[j].get('t', '')

    def inlinable(self, f, fr, st, i, g, a):
        if len(self.chain) >= self.MAXDEPTH or g.key in self.chain:
            return False
        if g.cls and not g.d.get('static') and not g.d.get('lambda'):
            if not (g.key in self.sources() and any('lua_State' in x['t'] for x in g.params)):
                return False
        if g.key in self.sources():
            return True
        if not g.cls and any(v.ext for v in (self.ev(f, fr, st, x) for x in a) if v is not None):
            return True
        if not g.params or not all(x.get('ti') or isfloat(x['t']) or 'lua_State' in x['t'] or self.outparam(x) or 'char *' in x['t'] or x['t'].rstrip('& ').split(' ')[-1] in ('double', 'int', 'long') for x in g.params):
            return False
        return any((v.ext or v.sym) for v in (self.ev(f, fr, st, x) for x in a) if v is not None) or any('lua_State' in x['t'] for x in g.params) and len(g.blocks) <= 12

    def inline(self, f, fr, st, i, g, a, emit):
        nd = f.nodes[i]
        fr2 = fr + 1
        if g.d.get('lambda'):
            a = a[-len(g.params):] if g.params else []
        env = {k: v for k, v in st.items() if k[0] == 'L' and isinstance(v, V) and k[1][0] == 'c'}
        back = {}       # callee ref -> caller ref (only while the callee does not assign it)
        lkeys = {}
        strip_ = lambda v: v.upd(org=(), sym=None, split=None) if v is not None else None
        for x, pm in zip(a, g.params):
            if not (pm.get('ti') or isfloat(pm['t'])) and not pm['t'].endswith('&') and not pm['t'].endswith('*'):
                continue
            r2 = ('v', fr2, pm['v'])
            byref = pm['t'].endswith('&')
            tgt = self.addr(f, x)
            r1 = self.ref(f, fr, tgt)
            if pm['t'].endswith('*'):
                if tgt != x and r1 is not None:
                    back[('p', pm['v'])] = r1
                continue
            v = self.ev(f, fr, st, x)
            if v is None:
                continue
            if r1 is None:
                o = [y for y in v.org if y != 'bool' and y[0] in ('v', 'L')]
                r1 = o[0] if o and not byref else None
            env[r2] = strip_(v).upd(ext=v.ext)
            if r1 is not None:
                back[r2] = (r1, byref)
            # a position on the Lua stack
            if pm.get('ti'):
                lk = self.idxkey(f, fr, st, x)
                if lk is not None:
                    env[('a', fr2, pm['v'])] = lk
                    if lk in st:
                        env[lk] = strip_(st[lk])
        names = {x['v'] for x in g.params}
        mk = (g.key, frozenset((k, v) for k, v in env.items()), frozenset(back), bool(emit))
        if mk in self.memo:
            rets = self.memo[mk]
        else:
            self.chain.append(g.key)
            try:
                rets = self.run(g, dict(env), fr2, emit)
            finally:
                self.chain.pop()
            self.memo[mk] = rets
        if not rets:
            return None
        # group by truth of a boolean result
        grp = {}
        for v, e in rets:
            if v is not None and not v.isf and v.lo == v.hi and v.lo in (0, 1):
                grp.setdefault(int(v.lo), []).append((v, e))
            else:
                grp.setdefault(None, []).append((v, e))
        asg = self.assigned(g)

        def outenv(l):
            o = {}
            for r2, tgt in back.items():
                if r2[0] == 'p':
                    continue
                r1, byref = tgt
                vs = [e.get(r2) for _, e in l]
                if byref:
                    o[r1] = self.j(vs)
                elif r2[2] not in asg:
                    o[r1] = self.j(vs)
            for lk in {k for _, e in l for k in e if k[0] == 'L'}:
                # values at a position of the Lua stack named by a constant or a variable of the caller
                if lk[1][0] == 'v' and lk[1][1] == fr2:
                    continue
                o[lk] = self.j([e.get(lk) for _, e in l])
            return {k: (strip_(v) if v is not None else None) for k, v in o.items()}
        groups = [(k, outenv(l)) for k, l in grp.items()]
        stk = any('lua_State' in x['t'] for x in g.params) and self.touches_stack(g)
        if stk:
            self.havoc_lua(st)
        allo = {}
        for _, o in groups:
            for r in o:
                allo[r] = None
        # references and addresses change, by-value arguments get what is known on every outcome
        for r in list(allo):
            vs = [o.get(r) for _, o in groups]
            v = self.j(vs)
            byref = any(t != 'p' and isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], bool) and t[0] == r and t[1] for t in back.values())
            if r[0] == 'L' and stk:
                continue
            cur = st.get(r)
            if byref:
                self.assign(st, r, v)
            elif v is not None and cur is not None and cur.org and not byref:
                st[r] = v.upd(org=cur.org, sym=cur.sym, ext=cur.ext)
            elif v is not None and (cur is not None or r[0] == 'L'):
                st[r] = v if cur is None else v.upd(org=cur.org, sym=cur.sym)
        for r2, tgt in back.items():
            if r2[0] == 'p':
                self.assign(st, tgt, None)
                if tgt is not None:
                    self.undec.add('%s: result of %s through a pointer' % (f.qn, g.qn))
        res = self.j([v for v, _ in rets])
        if res is not None:
            res = res.upd(org=(), sym=None, split=None)
            # what the result is a rounding or a fraction of, seen from the caller
            syms = {v.sym for v, _ in rets if v is not None}
            if len(syms) == 1 and None not in syms:
                s = syms.pop()
                if s[1] in back and not isinstance(back[s[1]], str) and back[s[1]][0] is not None:
                    res = res.upd(sym=(s[0], back[s[1]][0]))
            orgs = [set(v.org) for v, _ in rets if v is not None]
            if None not in grp or len(grp) > 1:
                res = res.upd(split=tuple((k, o) for k, o in groups))
            elif orgs and len(rets) == 1:
                o = [back[x][0] for x in orgs[0] if x in back and x[0] == 'v']
                res = res.upd(org=tuple(o))
        if res is None:
            res = self.top(nd)
            if res is not None and (None not in grp or len(grp) > 1):
                res = res.upd(split=tuple((k, o) for k, o in groups))
        if res is not None:
            st[('e', fr, i)] = res
        return st

    def j(self, vs):
        r = vs[0] if vs else None
        for v in vs[1:]:
            r = join(r, v)
        return r

    def assigned(self, g):
        r = set()
        for i in g.walk():
            nd = g.nodes[i]
            if nd['k'] == 'CompoundAssignOperator' or nd['k'] == 'BinaryOperator' and nd['op'] == '=' or nd['k'] == 'UnaryOperator' and nd['op'] in ('++', '--', '&'):
                t = g.nodes[g.strip(nd['c'][0], True)]
                if t['k'] == 'DeclRefExpr':
                    r.add(t.get('v'))
        return r

    def touches_stack(self, g, seen=None):
        seen = seen or set()
        if g.key in seen:
            return False
        seen.add(g.key)
        for i, k, nd in self.p.call_sites(g):
            qn = nd.get('qn') or ''
            if qn.startswith('lua') and qn not in LUA_PURE and qn not in flow.cg.LUA_RAISE:
                return True
            if k in self.nr or nd.get('nr'):
                continue
            for t in self.p.targets(k) if k else ():
                if any('lua_State' in x['t'] for x in t.params) and self.touches_stack(t, seen):
                    return True
        return False

    def compared_only(self, f, i):
        par = f.parents
        j = par.get(i)
        while j is not None and (f.nodes[j]['k'] in STRIP or f.nodes[j]['k'] in CASTS):
            j = par.get(j)
        if j is None:
            return False
        nd = f.nodes[j]
        return nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!=')

    # ---- conditions
    def refine(self, f, fr, st, i, truth):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        c = nd.get('c', ())
        v = self.ev(f, fr, st, i)
        if v is not None and v.lo == v.hi and not v.isf:
            return st if bool(v.lo) == truth else None
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, fr, st, c[0], not truth)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                s = self.refine(f, fr, st, c[0], truth)
                return self.refine(f, fr, s, c[1], truth) if s is not None else None
            return st
        if k == 'ImplicitCastExpr' or k in CASTS:
            if nd.get('ck') in ('IntegralToBoolean', 'FloatingToBoolean', 'IntegralCast', 'LValueToRValue', 'NoOp'):
                x = self.ev(f, fr, st, c[0])
                if x is not None and x.split is None and nd['ck'] == 'IntegralToBoolean':
                    s = dict(st)
                    return self.cmp(f, fr, s, x, V(0, 0), '!=' if truth else '==')
                return self.refine(f, fr, st, c[0], truth)
            return st
        if k == 'BinaryOperator' and nd['op'] in ('<', '>', '<=', '>=', '==', '!='):
            op = nd['op']
            if not truth:
                op = {'<': '!<', '>': '!>', '<=': '!<=', '>=': '!>=', '==': '!=', '!=': '=='}[op]
            a, b = self.ev(f, fr, st, c[0]), self.ev(f, fr, st, c[1])
            if a is None or b is None:
                return st
            # a boolean result compared with a constant
            for x, y in ((a, b), (b, a)):
                if x.split is not None and y.lo == y.hi and y.lo in (0, 1) and op in ('==', '!='):
                    return self.pick(st, x, bool(y.lo) == (op == '=='))
            s = dict(st)
            return self.cmp(f, fr, s, a, b, op)
        if v is not None and v.split is not None:
            s = self.pick(st, v, truth)
            return self.cmp(f, fr, dict(s), v.upd(split=None), V(0, 0), '!=' if truth else '==') if s is not None and not v.isf and v.org else s
        if k == 'DeclRefExpr' and v is not None and not v.isf:
            return self.cmp(f, fr, dict(st), v, V(0, 0), '!=' if truth else '==')
        if v is not None and v.sym is not None and v.sym[0] == 'rnd':
            return self.tested(dict(st), v.sym[1])
        return st

    def splitcond(self, f, fr, st, i):
        """a condition stored in a variable: what holds in either case"""
        r = []
        for t in (1, 0):
            s = self.refine(f, fr, st, i, bool(t))
            if s is not None:
                r.append((t, {k: v for k, v in s.items() if k[0] in ('v', 'L') and isinstance(v, V) and v != st.get(k)}))
        # both outcomes name the same references
        refs = set().union(*[set(o) for _, o in r]) if r else set()
        r = [(t, {k: (o.get(k) or st.get(k)) for k in refs if o.get(k) or st.get(k)}) for t, o in r]
        return V(0, 1, split=tuple(r)) if r else V(0, 1)

    def pick(self, st, v, truth):
        sel = [o for k, o in v.split if k is None or bool(k) == truth]
        if not sel:
            return None
        s = dict(st)
        if not any(k is None for k, _ in v.split):
            for r in v.org:
                if r != 'bool' and r[0] == 'v' and r in s and s[r].split is v.split:
                    s[r] = V(int(truth), int(truth))
        refs = set()
        for o in sel:
            refs |= set(o)
        for r in refs:
            x = self.j([o.get(r) for o in sel])
            if x is None:
                continue
            cur = s.get(r)
            s[r] = x if cur is None else meet(cur, x)
            if r[0] == 'v' or r[0] == 'L':
                for k in [k for k, w in s.items() if k != r and isinstance(w, V) and r in w.org and k[0] in ('v', 'L')]:
                    s[k] = meet(s[k], x)
            if cur is not None:
                for k in cur.org:
                    if k in s and isinstance(s[k], V):
                        s[k] = meet(s[k], x)
        return s

    def tested(self, s, ref):
        """a test of the fractional part in a form that is not analysed: taken as sufficient"""
        self.apply(s, ref, lambda v: v.upd(integ=max(v.integ, 2)))
        return s

    def apply(self, s, ref, fn):
        done = set()
        todo = [ref]
        while todo:
            r = todo.pop()
            if r in done or r == 'bool':
                continue
            done.add(r)
            if r in s and isinstance(s[r], V):
                todo.extend(s[r].org)
                s[r] = fn(s[r])
                if not s[r].nan:
                    for k, w in s.items():
                        if isinstance(w, V) and w.nan and w.sym == ('floor', r):
                            s[k] = w.upd(nan=False)
            else:
                x = V(-INF, INF, True, True, 0, True) if r[0] == 'L' else None
                if x is not None:
                    s[r] = fn(x)
            for k, w in s.items():
                if isinstance(w, V) and r in w.org and k not in done and k[0] in ('v', 'L', 'e'):
                    todo.append(k)

    def cmp(self, f, fr, s, a, b, op):
        """s is a private copy"""
        neg = op.startswith('!') and op != '!='
        base = op[1:] if neg else op
        if neg:
            inv = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[base]
        eff = inv if neg else base

        # fraction tests: x - floor( x) < eps, x == floor( x)
        for x, y, o, ng in ((a, b, base, neg), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(base, base), neg)):
            if x.sym is not None and x.sym[0] == 'frac':
                if not ng and o in ('<', '<=') and y.hi < 0.1 or not ng and o == '==' and y.hi < 0.1:
                    self.apply(s, x.sym[1], lambda v: v.upd(integ=max(v.integ, 1 if o != '==' else 2), nan=False))
                elif ng and o in ('>', '>=') and y.hi < 0.1 or o == '!=' and False:
                    # not (frac > eps): integral or not a number
                    self.apply(s, x.sym[1], lambda v: v.upd(integ=max(v.integ, 1)))
                return s
            if x.sym is not None and x.sym[0] in ('floor', 'rnd', 'rv', 'conv') and (x.sym[1] in y.org):
                if o == '==':
                    self.apply(s, x.sym[1], lambda v: v.upd(integ=2, nan=False))
                elif o == '!=':
                    pass
                else:
                    return self.tested(s, x.sym[1])
                return s
            if x.sym is not None and x.sym[0] == 'rnd' and not y.ext and y.lo == y.hi and abs(y.lo) < 1:
                return self.tested(s, x.sym[1])
        def bound(x, y, o, ng):
            # constraint on x by  x o y  (o possibly from a negated comparison: does not exclude nan)
            lo, hi = x.lo, x.hi
            step = 0 if (x.isf or y.isf) else 1
            if o in ('<', '<='):
                h = y.hi - (step if o == '<' else 0)
                if o == '<' and y.isf and x.isf and y.lo == y.hi and abs(y.hi) != INF and y.hi == math.floor(y.hi) and abs(y.hi) >= 2.0 ** 53:
                    h = math.nextafter(y.hi, -INF)
                hi = min(hi, h)
            elif o in ('>', '>='):
                lo = max(lo, y.lo + (step if o == '>' else 0))
            elif o == '==':
                lo, hi = max(lo, y.lo), min(hi, y.hi)
            elif o == '!=' and y.lo == y.hi and not x.isf:
                if lo == y.lo:
                    lo += 1
                if hi == y.lo:
                    hi -= 1
            return lo, hi
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        for x, y, o in ((a, b, eff), (b, a, flip[eff])):
            lo, hi = bound(x, y, o, neg)
            dead = lo > hi
            nonan = not neg and o != '!='
            if dead:
                if x.isf and (x.nan or y.nan) and not nonan:
                    continue
                if not x.isf and not y.isf or nonan:
                    return None
                continue
            rel = not y.lo == y.hi
            for r in x.org:
                if r == 'bool':
                    continue

                def upd(v, lo=lo, hi=hi):
                    l, h = max(v.lo, lo), min(v.hi, hi)
                    if l > h:
                        l, h = v.lo, v.hi
                    return v.upd(lo=l, hi=h, nan=v.nan and not nonan, rel=v.rel or rel and h == hi and o in ('<', '<='))
                self.apply(s, r, upd)
            # a comparison of the rounded value bounds the value itself (by less than one)
            if x.sym is not None and x.sym[0] == 'floor':
                self.apply(s, x.sym[1], lambda v: v.upd(lo=max(v.lo, lo), hi=min(v.hi, hi if v.integ == 2 else hi + 1), nan=v.nan and not nonan)
                           if max(v.lo, lo) <= min(v.hi, hi + 1) else v)
        return s

    # ---- sinks
    def sink_cast(self, f, fr, st, i):
        nd = f.nodes[i]
        ck = nd.get('ck')
        ti = nd.get('ti')
        if ck not in ('IntegralCast', 'FloatingToIntegral') or not ti or 'cv' in nd:
            return
        v = self.ev(f, fr, st, [x for x in nd['c'] if x >= 0][0])
        if v is None or not v.ext:
            return
        lo, hi = trange(ti)
        if ck == 'IntegralCast':
            src = f.nodes[[x for x in nd['c'] if x >= 0][0]].get('ti')
            self.stat('integer conversions of external numbers judged', (f.qn, f.path(i), nd['t']))
            if src and trange(src)[0] >= lo and trange(src)[1] <= hi:
                return
            if v.rel and v.lo >= lo and v.hi - hi <= 16:
                self.undec.add('%s: bound of a digit accumulation relative to the digit' % f.qn)
            elif v.lo < lo or v.hi > hi:
                self.report('narrow', f, i, 'a number from outside in the range %s..%s is converted to %s: it becomes another number if it does not fit' % (v.lo, v.hi, nd['t']))
        else:
            self.stat('floating point to integer conversions of external numbers judged', (f.qn, f.path(i), nd['t']))
            if v.nan or v.lo < lo or v.hi >= hi + 1:
                self.report('range', f, i, 'a floating point number from outside (range %s..%s%s) is converted to %s without a check that it fits' % (v.lo, v.hi, ', possibly not a number' if v.nan else '', nd['t']))
            elif v.integ == 0 and self.compared_back(f):
                self.undec.add('%s: conversion compared with the number afterwards' % f.qn)
            elif v.integ == 0:
                self.report('fraction', f, i, 'a floating point number from outside is converted to %s without a check that it has no fractional part' % nd['t'])
            elif v.integ == 1 and v.lo < 0:
                self.report('trunc', f, i, 'the conversion to %s cuts towards zero: a negative number that is not exactly integral (or has an epsilon added) becomes another number' % nd['t'])

    def lastdigit(self, f, v, bound):
        """the boundary case is treated on its own: x == max / base"""
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '>=', '!=', '<'):
                for a, b in ((nd['c'][0], nd['c'][1]), (nd['c'][1], nd['c'][0])):
                    if f.cv(b) == bound and f.nodes[f.strip(a, True)].get('v') == v:
                        return True
        return False

    def compared_back(self, f):
        """the function compares a converted integer with a floating point number"""
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
                for x in nd['c']:
                    y = f.strip(x, False)
                    for z in f.walk(x):
                        zn = f.nodes[z]
                        if zn.get('ck') == 'IntegralToFloating' and 'fc' not in zn and (f.cv(zn['c'][0]) is None):
                            return True
        return False

    def sink_arith(self, f, fr, st, i):
        nd = f.nodes[i]
        ti = nd.get('ti')
        if not ti or 'cv' in nd:
            return
        acc = self.accumulation(f, i)
        if acc:
            b = self.blockof(f, i)
            if b not in self.cyclic(f):
                return
            v, K = acc
            cur = st.get(('v', fr, v))
            t = trange(ti)
            self.stat('digit accumulations judged', (f.qn, f.path(i)))
            if cur is None:
                cur = V(*t)
            room = K - 1 if not cur.rel and not self.lastdigit(f, v, t[1] // K) else 0
            if cur.hi == INF or cur.hi * K + room > t[1]:
                self.report('digits', f, i, 'digits are accumulated in %s (%s) without a bound: a number with more digits becomes another number' % (v.split(':')[-1].split('#')[0], nd['t']))
            return
        if not ti[1]:
            return
        a, b = self.ev(f, fr, st, nd['c'][0]), self.ev(f, fr, st, nd['c'][1])
        if a is None or b is None or not (a.ext or b.ext) or a.isf or b.isf:
            return
        # the addition of the digit itself
        if any(self.accumulation(f, x) for x in f.walk(i) if x != i and f.nodes[x]['k'] == 'BinaryOperator'):
            return
        if nd['k'] == 'CompoundAssignOperator' and a.ext and a.rel:
            return
        v = self.arith(f, fr, st, i)
        if v is None or not v.ext:
            return
        lo, hi = trange(ti)
        self.stat('calculations with external numbers judged', (f.qn, f.path(i)))
        if (v.lo < lo or v.hi > hi) and ti[0] >= 32:
            self.report('overflow', f, i, 'the calculation with a number from outside can leave the range of %s (%s..%s)' % (nd['t'], v.lo, v.hi))

    def blockof(self, f, i):
        if not hasattr(f, '_ivb'):
            f._ivb = flow.block_of(f)
        j = i
        while j is not None and j not in f._ivb:
            j = f.parents.get(j)
        return f._ivb.get(j)
