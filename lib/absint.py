"""Abstract evaluation of small functions on their CFG: conditional constant propagation with path splitting on unknown conditions,
inlining of repository callees.  Value domain (pluggable): python ints, strings, ('ref',loc) for lvalues/pointers, Bits (bit provenance),
Atom (an element of a finite order) and TOP."""
from facts import CALLS, CTORS, CASTS, STRIP, Broken


class _Top:
    def __repr__(self):
        return 'TOP'


TOP = _Top()


class Atom:
    """element of a totally ordered finite set; only comparisons are meaningful"""
    __slots__ = ('rank', 'dom')

    def __init__(self, rank, dom=None):
        self.rank = rank; self.dom = dom

    def __repr__(self):
        return 'Atom(%r)' % (self.rank,)

    def __eq__(self, o):
        return isinstance(o, Atom) and o.rank == self.rank

    def __hash__(self):
        return hash(self.rank)


class Bits:
    """little endian tuple of bit provenances: 0, 1, (name, index) or None (unknown)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    @staticmethod
    def var(name, width, total=64):
        return Bits([(name, i) for i in range(width)] + [0] * (total - width))

    @staticmethod
    def const(v, n=64):
        return Bits([(v >> i) & 1 for i in range(n)])

    def __repr__(self):
        r = []
        i = 0
        while i < len(self.b):
            x = self.b[i]
            j = i
            if isinstance(x, tuple):
                while j + 1 < len(self.b) and self.b[j + 1] == (x[0], x[1] + j + 1 - i):
                    j += 1
                r.append('%d..%d=%s[%d..%d]' % (i, j, x[0], x[1], x[1] + j - i))
            elif x is None:
                while j + 1 < len(self.b) and self.b[j + 1] is None:
                    j += 1
                r.append('%d..%d=?' % (i, j))
            elif x == 1:
                r.append('%d=1' % i)
            i = j + 1
        return '{' + ', '.join(r) + '}'

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b

    def __hash__(self):
        return hash(self.b)


def bits_of(v, n=64):
    if isinstance(v, Bits):
        return list(v.b)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(n)]
    return [None] * n


def norm(bl):
    if all(x in (0, 1) and not isinstance(x, tuple) and x is not None for x in bl):
        return sum(x << i for i, x in enumerate(bl))
    return Bits(bl)


def trunc(v, ti):
    """convert to an integer type of ti=[bits,signed]"""
    if ti is None:
        return v
    n, s = ti[0], ti[1]
    if isinstance(v, int):
        v &= (1 << n) - 1
        if s and n > 1 and (v >> (n - 1)) & 1:
            v -= 1 << n
        return v
    if isinstance(v, Bits):
        b = list(v.b)
        if n < len(b):
            top = b[n - 1]
            ext = top if s else 0
            b = b[:n] + [ext] * (len(b) - n)
        return norm(b) if ext_ok(b) else Bits(b)
    return v


def ext_ok(b):
    return True


class Mem(dict):
    """memory by location; the locations are indexed by their first component (the inner tables are shared between copies until they are written)"""
    __slots__ = ('ix', 'own')

    def __init__(self, src=()):
        dict.__init__(self)
        self.ix = {}; self.own = set()
        if isinstance(src, Mem):
            dict.update(self, src)
            self.ix = dict(src.ix)
            src.own = set()
        else:
            for k, v in dict(src).items():
                self[k] = v

    def _row(self, r):
        row = self.ix.get(r)
        if row is None:
            row = self.ix[r] = {}
            self.own.add(r)
        elif r not in self.own:
            row = self.ix[r] = dict(row)
            self.own.add(r)
        return row

    def __setitem__(self, k, v):
        if k not in self:
            self._row(k[0] if k else None)[k] = None
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        self._row(k[0] if k else None).pop(k, None)

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        return dict.pop(self, k, *d)

    def update(self, o):
        for k, v in dict(o).items():
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        dict.clear(self); self.ix = {}; self.own = set()

    def under(self, loc):
        """the locations of the object at loc and its parts"""
        n = len(loc)
        if not n:
            return list(self)
        row = self.ix.get(loc[0])
        if not row:
            return []
        return [k for k in row if k[:n] == loc]

    def hassub(self, loc):
        n = len(loc)
        row = self.ix.get(loc[0]) if n else self
        if row:
            for k in row:
                if len(k) > n and k[:n] == loc:
                    return True
        return False


class State:
    __slots__ = ('mem', 'vals', 'trail')

    def __init__(self, mem=None, vals=None, trail=()):
        self.mem = mem if isinstance(mem, Mem) else Mem(mem or ())
        self.vals = vals if vals is not None else {}
        self.trail = trail

    def copy(self):
        return State(Mem(self.mem), dict(self.vals), self.trail)


class Outcome:
    __slots__ = ('kind', 'value', 'state', 'node', 'fn')

    def __init__(self, kind, value, state, fn=None, node=None):
        self.kind = kind; self.value = value; self.state = state; self.fn = fn; self.node = node


class Eval:
    def __init__(self, prog, extern=None, load_default=None, max_steps=200000, max_depth=12, max_visits=40, noreturn=()):
        self.p = prog
        self.extern = extern          # f(ev, state, frame, fn, node, args(list of values/locs), objloc) -> value | NotImplemented | list of (value)
        self.load_default = load_default or (lambda loc, t: TOP)
        self.steps = 0
        self.max_paths = 100000
        self.max_steps = max_steps; self.max_depth = max_depth; self.max_visits = max_visits
        self.frames = 0
        self.noreturn = noreturn
        self.exc = None               # f(fn, node) -> bool: an opaque call may throw; switches on the routing of exceptions to handlers
        self.hseen = set()
        self.sig = None               # f(state, frame) -> hashable: what distinguishes two states; switches on the merging of paths with equal states
        self._roots = {}

    def live(self, fn, b):
        """nodes that belong to an expression continued in block b"""
        d = self._roots.get(fn.key)
        if d is None:
            d = self._roots[fn.key] = ({}, {})
        root, blk = d

        def rt(i):
            if i not in root:
                x = i
                while True:
                    par = fn.parents.get(x)
                    if par is None or fn.nodes[par]['k'].endswith('Stmt'):
                        break
                    x = par
                root[i] = x
            return root[i]
        if b not in blk:
            B = fn.blocks[b]
            e = [x for x in B['e'] if isinstance(x, int)] + [B[k] for k in ('cond', 'lcond') if B.get(k) is not None]
            blk[b] = {rt(x) for x in e}
        return rt, blk[b]

    def signature(self, fn, fr, b, s):
        rt, roots = self.live(fn, b)
        v = frozenset((k[1], x) for k, x in s.vals.items() if k[0] == fr and isinstance(x, (int, str)) and rt(k[1]) in roots)
        return (b, v, self.sig(s, fr))

    def route(self, fn, fr, el, s, vis, work, outs):
        """an exception is raised at el: continue in the handlers of this function, or leave it"""
        for t in reversed(fn.nodes[el].get('try', ())):
            for h in fn.nodes[t].get('handlers', ()):
                for b, blk in fn.blocks.items():
                    if blk.get('lab') == h:
                        key = (fn.key, fr, h, frozenset((k, repr(v)) for k, v in s.mem.items()))
                        if key not in self.hseen:
                            self.hseen.add(key)
                            work.append((b, 0, s.copy(), vis))
                if fn.nodes[h]['ct'] == '...':
                    return
        outs.append(Outcome('throw', None, s, fn, el))

    # ------------------------------------------------------------------ memory
    def load(self, st, loc, t=''):
        if loc in st.mem:
            return st.mem[loc]
        return self.load_default(loc, t)

    def store(self, st, loc, v):
        # drop stale sub-objects
        n = len(loc)
        for k in [k for k in st.mem.under(loc) if len(k) > n]:
            del st.mem[k]
        st.mem[loc] = v

    def copy_obj(self, st, dst, src):
        n = len(src)
        items = [(k, st.mem[k]) for k in st.mem.under(src)]
        for k in st.mem.under(dst):
            del st.mem[k]
        for k, v in items:
            st.mem[dst + k[n:]] = v
        st.mem[dst + ('#copyof',)] = ('ref', src)

    def load_field_default(self, st, loc, t):
        return self.load_default(loc, t)

    # ------------------------------------------------------------------ calls
    def call(self, fn, st, this, args, depth=0):
        """args: list of values (('ref',loc) for references and class objects). Returns list of Outcome."""
        self.frames += 1
        fr = self.frames
        st = st.copy()
        for i, pm in enumerate(fn.params):
            v = args[i] if i < len(args) else TOP
            loc = ('F%d' % fr, pm['v'])
            isref = pm['t'].rstrip().endswith('&')
            if isref:
                st.mem[loc] = v if isinstance(v, tuple) and v and v[0] == 'ref' else self.box(st, v)
            elif isinstance(v, tuple) and v and v[0] == 'ref' and not pm['t'].rstrip().endswith('*') and not pm['t'].endswith('* const'):
                if v[1] in st.mem and not st.mem.hassub(v[1]):
                    st.mem[loc] = st.mem[v[1]]
                else:
                    self.copy_obj(st, loc, v[1])
            else:
                st.mem[loc] = trunc(v, pm.get('ti'))
        outs = []
        if not fn.blocks:
            raise Broken('no CFG for ' + fn.qn)
        # constructor initialisers are CFG elements
        work = [(fn.entry, 0, st, {})]
        merged = set()
        while work:
            if len(work) + len(outs) > self.max_paths:
                raise Broken('abstract evaluation of %s has too many paths' % fn.qn)
            b, idx, s, vis = work.pop()
            blk = fn.blocks[b]
            if idx == 0:
                if self.sig:
                    sg = self.signature(fn, fr, b, s)
                    if sg in merged:
                        continue
                    merged.add(sg)
                vis = dict(vis)
                vis[b] = vis.get(b, 0) + 1
                if vis[b] > self.max_visits:
                    outs.append(Outcome('bound', TOP, s, fn))
                    continue
            els = blk['e']
            done = False
            i = idx
            while i < len(els):
                el = els[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Broken('abstract evaluation of %s exceeds its step bound' % fn.qn)
                if isinstance(el, list):
                    if el[0] == 'init':
                        v = self.val(fn, fr, s, el[2], this)
                        if el[1] is not None:
                            self.init_loc(fn, fr, s, this + (el[1],), el[2], v, None)
                        elif isinstance(v, tuple) and v[:1] == ('ref',) and any(q.get('deleg') for q in fn.inits):
                            self.copy_obj(s, this, v[1])
                    i += 1
                    continue
                nd = fn.nodes[el]
                k = nd['k']
                if k == 'ReturnStmt':
                    c = [x for x in nd.get('c', ()) if x >= 0]
                    v = None
                    if c:
                        v = self.val(fn, fr, s, c[0], this)
                        if not fn.ret.rstrip().endswith('&') and isinstance(v, tuple) and v[:1] == ('ref',) and not self.is_ptr(fn.ret):
                            lv = s.mem.get(v[1])
                            if lv is not None and not s.mem.hassub(v[1]):
                                v = lv
                        if 'rti' in fn.d:
                            v = trunc(v, fn.d['rti'])
                    outs.append(Outcome('return', v, s, fn, el))
                    done = True
                    break
                if k == 'CXXThrowExpr':
                    if self.exc:
                        self.route(fn, fr, el, s, vis, work, outs)
                    else:
                        outs.append(Outcome('throw', None, s, fn, el))
                    done = True
                    break
                if k in CALLS or k in CTORS:
                    r = self.do_call(fn, fr, s, el, this, depth)
                    if r is None:
                        outs.append(Outcome('noreturn', None, s, fn, el))
                        done = True
                        break
                    if len(r) == 1 and r[0].kind == 'return':
                        s = r[0].state
                        s.vals[(fr, el)] = r[0].value
                    else:
                        for o in r:
                            if o.kind == 'return':
                                o.state.vals[(fr, el)] = o.value
                                work.append((b, i + 1, o.state, vis))
                            elif o.kind == 'throw' and self.exc:
                                self.route(fn, fr, el, o.state, vis, work, outs)
                            else:
                                outs.append(o)
                        done = True
                        break
                elif k == 'DeclStmt':
                    for v in nd['vars']:
                        if v.get('static') and v['init'] < 0:
                            continue
                        if v['init'] >= 0:
                            x = self.val(fn, fr, s, v['init'], this)
                            self.init_loc(fn, fr, s, ('F%d' % fr, v['v']), v['init'], x, v)
                        else:
                            s.mem[('F%d' % fr, v['v'])] = TOP
                else:
                    s.vals[(fr, el)] = self.eval(fn, fr, s, el, this)
                i += 1
            if done:
                continue
            succ = [x for x in blk['s']]
            if b == fn.exit:
                outs.append(Outcome('return', None, s, fn))
                continue
            term = blk.get('term')
            if term is None or len(succ) == 1:
                for x in succ:
                    if x >= 0:
                        work.append((x, 0, s, vis))
                continue
            tk = fn.nodes[term]['k']
            if tk == 'SwitchStmt':
                cnd = self.val(fn, fr, s, blk['cond'], this)
                cases = []; dflt = None
                for x in succ:
                    if x < 0:
                        continue
                    lab = fn.blocks[x].get('lab')
                    if lab is not None and fn.nodes[lab]['k'] == 'CaseStmt':
                        cases.append((x, fn.cv(fn.nodes[lab]['c'][0])))
                    else:
                        dflt = x
                cnd = self.switch_value(cnd, [cvv for _, cvv in cases])
                if isinstance(cnd, int):
                    hit = [x for x, cvv in cases if cvv == cnd]
                    t = hit[0] if hit else dflt
                    if t is not None:
                        work.append((t, 0, s, vis))
                else:
                    for x, cvv in cases:
                        work.append((x, 0, s.copy(), vis))
                    if dflt is not None:
                        work.append((dflt, 0, s.copy(), vis))
                continue
            if tk == 'CXXTryStmt':
                continue
            cn = blk.get('lcond', blk.get('cond'))
            if cn is None:
                for x in succ:
                    if x >= 0:
                        work.append((x, 0, s.copy(), vis))
                continue
            v = self.truth(self.val(fn, fr, s, cn, this))
            if v is True and succ[0] >= 0:
                work.append((succ[0], 0, s, vis))
            elif v is False and succ[1] >= 0:
                work.append((succ[1], 0, s, vis))
            else:
                for t, x in ((1, succ[0]), (0, succ[1])):
                    if x >= 0:
                        s2 = s.copy()
                        s2.vals[(fr, cn)] = t
                        s2.vals[(fr, fn.strip(cn))] = t
                        s2.trail = s2.trail + ((fn, cn, t),)
                        work.append((x, 0, s2, vis))
        return outs

    def switch_value(self, v, cases):
        return v

    def is_ptr(self, t):
        t = t.rstrip()
        return t.endswith('*') or t.endswith('*const') or t.endswith('* const')

    def box(self, st, v):
        self.frames += 1
        loc = ('B%d' % self.frames,)
        st.mem[loc] = v
        return ('ref', loc)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, str):
            return True
        if isinstance(v, tuple) and v and v[0] == 'ref':
            return True
        if isinstance(v, Bits):
            if any(x == 1 and not isinstance(x, tuple) for x in v.b):
                return True
        return None

    def init_loc(self, fn, fr, s, loc, node, x, var):
        t = var['t'] if var else fn.nodes[node].get('t', '')
        if fn.nodes[node]['k'] == 'InitListExpr' and t.rstrip().endswith(']'):
            s.mem[loc] = TOP
            for j, e in enumerate(fn.nodes[node].get('c', ())):
                if e >= 0:
                    v = self.val(fn, fr, s, e, None)
                    if isinstance(v, (int, str)) and not isinstance(v, bool):
                        s.mem[loc + ('[%d]' % j,)] = v
            return
        isref = var.get('ref') if var else False
        if isref:
            s.mem[loc] = x if (isinstance(x, tuple) and x[:1] == ('ref',)) else self.box(s, x)
            return
        if isinstance(x, tuple) and x[:1] == ('ref',) and not self.is_ptr(t):
            lv = s.mem.get(x[1])
            sub = s.mem.hassub(x[1])
            if lv is not None and not sub:
                s.mem[loc] = lv
            else:
                self.copy_obj(s, loc, x[1])
            return
        ti = (var or {}).get('ti')
        s.mem[loc] = trunc(x, ti) if ti else x

    def args_of(self, fn, fr, s, el, this):
        r = []
        for a in fn.args(el):
            r.append(self.val(fn, fr, s, a, this))
        return r

    def do_call(self, fn, fr, s, el, this, depth):
        nd = fn.nodes[el]
        if nd.get('nr') or nd.get('fn') in self.noreturn:
            return None
        objloc = None
        o = fn.obj(el)
        if o >= 0:
            ov = self.val(fn, fr, s, o, this)
            if isinstance(ov, tuple) and ov[:1] == ('ref',):
                objloc = ov[1]
            else:
                objloc = self.box(s, ov)[1]
        elif nd['k'] == 'CXXMemberCallExpr':
            objloc = this
        args = self.args_of(fn, fr, s, el, this)
        if self.extern:
            r = self.extern(self, s, fr, fn, el, args, objloc)
            if r is not NotImplemented:
                if isinstance(r, list) and r and isinstance(r[0], Outcome):
                    return r
                if self.exc and not isinstance(r, list) and self.exc(fn, el):
                    return [Outcome('throw', None, s.copy(), fn, el), Outcome('return', r, s, fn, el)]
                if isinstance(r, list):
                    outs = []
                    for v in r:
                        s2 = s.copy()
                        outs.append(Outcome('return', v, s2, fn, el))
                    return outs
                return [Outcome('return', r, s, fn, el)]
        t = self.p.targets(nd.get('fn')) if nd.get('fn') else []
        if nd['k'] in CTORS:
            self.frames += 1
            loc = ('T%d' % self.frames,)
            if (nd.get('cc') or nd.get('mc')) and args and isinstance(args[0], tuple) and args[0][:1] == ('ref',) and not (t and not t[0].d.get('dflt')):
                src = args[0][1]
                if src in s.mem and not s.mem.hassub(src):
                    s.mem[loc] = s.mem[src]
                else:
                    self.copy_obj(s, loc, src)
                return [Outcome('return', ('ref', loc), s, fn, el)]
            if len(t) == 1 and depth < self.max_depth and t[0].blocks:
                r = []
                for oc in self.call(t[0], s, loc, args, depth + 1):
                    if oc.kind == 'return':
                        oc.value = ('ref', loc)
                    r.append(oc)
                return r
            s.mem[loc] = TOP
            if self.exc and self.exc(fn, el):
                return [Outcome('throw', None, s.copy(), fn, el), Outcome('return', ('ref', loc), s, fn, el)]
            return [Outcome('return', ('ref', loc), s, fn, el)]
        if len(t) == 1 and depth < self.max_depth and t[0].blocks:
            return self.call(t[0], s, objloc if objloc is not None else this, args, depth + 1)
        if self.exc and self.exc(fn, el):
            return [Outcome('throw', None, s.copy(), fn, el), Outcome('return', TOP, s, fn, el)]
        return [Outcome('return', TOP, s, fn, el)]

    # ------------------------------------------------------------------ expressions
    def val(self, fn, fr, s, i, this):
        if i < 0:
            return TOP
        key = (fr, i)
        if key in s.vals:
            return s.vals[key]
        return self.eval(fn, fr, s, i, this)

    def rv(self, s, v, t=''):
        """lvalue to rvalue"""
        if isinstance(v, tuple) and v[:1] == ('ref',):
            return self.load(s, v[1], t)
        return v

    def eval(self, fn, fr, s, i, this):
        nd = fn.nodes[i]
        k = nd['k']
        if 'cv' in nd and not nd.get('lv'):
            return int(nd['cv'])
        c = nd.get('c', ())
        if k == 'StringLiteral':
            return nd.get('s', TOP)
        if k == 'CXXThisExpr':
            if fn.d.get('lambda') and ('LAM', fn.key, 'this') in s.mem:
                return s.mem[('LAM', fn.key, 'this')]
            return ('ref', this)
        if k == 'LambdaExpr':
            g = self.p.fns.get(nd.get('lam'))
            for (ov, byref), ic in zip(nd.get('caps', ()), (g.d.get('lcaps', ()) if g else ())):
                if ov == 'this':
                    s.mem[('LAM', g.key, 'this')] = ('ref', this)
                    continue
                loc = ('F%d' % fr, ov)
                if fn.d.get('lambda') and ('LAM', fn.key, ov) in s.mem:
                    r = s.mem[('LAM', fn.key, ov)]
                elif isinstance(s.mem.get(loc), tuple) and s.mem[loc][:1] == ('ref',) and ic[1].rstrip().endswith('&'):
                    r = s.mem[loc]
                else:
                    r = ('ref', loc)
                if not byref and r[1] in s.mem and not s.mem.hassub(r[1]):
                    r = self.box(s, s.mem[r[1]])
                s.mem[('LAM', g.key, ic[0])] = r
            return ('lam', nd.get('lam'))
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'enum':
                return TOP
            if nd.get('dk') == 'fn':
                return ('fnref', nd.get('fn'))
            v = nd['v']
            loc = ('F%d' % fr, v) if v.startswith('L:') else ('G', v)
            if fn.d.get('lambda') and loc not in s.mem and ('LAM', fn.key, v) in s.mem:
                return s.mem[('LAM', fn.key, v)]
            if nd.get('ref'):
                r = s.mem.get(loc)
                if isinstance(r, tuple) and r[:1] == ('ref',):
                    return r
            if 'cv' in nd:
                return int(nd['cv'])
            return ('ref', loc)
        if k == 'MemberExpr':
            if nd.get('dk') == 'fn':
                return TOP
            b = self.val(fn, fr, s, c[0], this)
            if nd.get('arrow'):
                b = self.rv_ptr(s, b)
            if isinstance(b, tuple) and b[:1] == ('ref',):
                loc = b[1] + (nd['n'],)
                if nd.get('ref'):
                    r = s.mem.get(loc)
                    if isinstance(r, tuple) and r[:1] == ('ref',):
                        return r
                return ('ref', loc)
            return TOP
        if k == 'ImplicitCastExpr' or k in CASTS:
            v = self.val(fn, fr, s, c[0], this)
            ck = nd.get('ck', '')
            if ck == 'LValueToRValue':
                # array decay handled elsewhere
                return self.rv(s, v, nd.get('t', ''))
            if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BitCast', 'UncheckedDerivedToBase', 'DerivedToBase', 'NullToPointer'):
                return v
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                t = self.truth(v)
                return TOP if t is None else int(t)
            if 'ti' in nd:
                return trunc(v, nd['ti'])
            if ck in ('IntegralToFloating', 'FloatingCast'):
                return v
            return v
        if k in STRIP:
            return self.val(fn, fr, s, c[0], this) if c else TOP
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr') or k in CTORS:
            # not evaluated as a CFG element (unevaluated operand); unknown
            return TOP
        if k == 'UnaryOperator':
            op = nd['op']
            v = self.val(fn, fr, s, c[0], this)
            if op == '!':
                t = self.truth(v)
                return TOP if t is None else int(not t)
            if op == '*':
                return v if isinstance(v, tuple) else (('ref', ('S', v)) if isinstance(v, str) else TOP)
            if op == '&':
                return v
            if op in ('++', '--'):
                if isinstance(v, tuple) and v[:1] == ('ref',):
                    old = self.load(s, v[1], nd.get('t', ''))
                    new = TOP
                    if isinstance(old, int):
                        new = trunc(old + (1 if op == '++' else -1), nd.get('ti'))
                    self.store(s, v[1], new)
                    return old if nd.get('post') else v
                return TOP
            v = self.rv(s, v) if nd.get('lv') is None else v
            if op == '-' and isinstance(v, int):
                return trunc(-v, nd.get('ti'))
            if op == '+':
                return v
            if op == '~':
                if isinstance(v, int):
                    return trunc(~v, nd.get('ti'))
                if isinstance(v, Bits):
                    return Bits([(1 - x) if x in (0, 1) and not isinstance(x, tuple) else None for x in v.b])
            return TOP
        if k == 'BinaryOperator':
            op = nd['op']
            if op == '=':
                l = self.val(fn, fr, s, c[0], this)
                r = self.val(fn, fr, s, c[1], this)
                if isinstance(l, tuple) and l[:1] == ('ref',):
                    self.store(s, l[1], r)
                    return l
                return TOP
            if op in ('&&', '||'):
                l = self.truth(self.val(fn, fr, s, c[0], this))
                if op == '&&':
                    if l is False:
                        return 0
                    r = self.truth(self.val(fn, fr, s, c[1], this))
                    if l is True:
                        return TOP if r is None else int(r)
                    return 0 if r is False else TOP
                if l is True:
                    return 1
                r = self.truth(self.val(fn, fr, s, c[1], this))
                if l is False:
                    return TOP if r is None else int(r)
                return 1 if r is True else TOP
            if op == ',':
                return self.val(fn, fr, s, c[1], this)
            l = self.val(fn, fr, s, c[0], this)
            r = self.val(fn, fr, s, c[1], this)
            return self.binop(op, l, r, nd)
        if k == 'CompoundAssignOperator':
            l = self.val(fn, fr, s, c[0], this)
            r = self.val(fn, fr, s, c[1], this)
            if isinstance(l, tuple) and l[:1] == ('ref',):
                old = self.load(s, l[1], nd.get('t', ''))
                self.store(s, l[1], trunc(self.binop(nd['op'][:-1], old, r, nd), nd.get('ti')))
                return l
            return TOP
        if k == 'ConditionalOperator':
            t = self.truth(self.val(fn, fr, s, c[0], this))
            if t is True:
                return self.val(fn, fr, s, c[1], this)
            if t is False:
                return self.val(fn, fr, s, c[2], this)
            return TOP
        if k == 'ArraySubscriptExpr':
            b = self.val(fn, fr, s, c[0], this)
            ix = self.val(fn, fr, s, c[1], this)
            if isinstance(b, tuple) and b[:1] == ('ref',) and isinstance(ix, int):
                return ('ref', b[1] + ('[%d]' % ix,))
            return TOP
        if k == 'InitListExpr':
            if len(c) == 1:
                return self.val(fn, fr, s, c[0], this)
            return TOP
        if k == 'FloatingLiteral' and 'fv' in nd:
            return ('flt', nd['fv'])
        if k == 'CXXBoolLiteralExpr':
            return int(nd.get('cv', 0))
        return TOP

    def rv_ptr(self, s, b):
        # pointer value: a ref to a pointer variable was already loaded by LValueToRValue; `this` is itself the ref
        return b

    def binop(self, op, l, r, nd):
        ti = nd.get('ti')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(l, Atom) and isinstance(r, Atom):
                l, r = l.rank, r.rank
            elif isinstance(l, Atom) or isinstance(r, Atom):
                # comparison of an order atom with a constant: decided by the domain when it places constants
                a = l if isinstance(l, Atom) else r
                if a.dom is not None:
                    x = a.dom(l, op, r)
                    return TOP if x is None else int(x)
                return TOP
            if isinstance(l, (int, str)) and isinstance(r, (int, str)) and type(l) in (int, bool) and type(r) in (int, bool):
                return int({'==': l == r, '!=': l != r, '<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r}[op])
            if isinstance(l, str) and isinstance(r, str) and op in ('==', '!='):
                return TOP
            if isinstance(l, tuple) and isinstance(r, tuple) and l[:1] == ('ref',) and r[:1] == ('ref',):
                if op == '==':
                    return int(l[1] == r[1])
                if op == '!=':
                    return int(l[1] != r[1])
            if isinstance(l, tuple) and l[:1] == ('ref',) and r == 0 and op in ('==', '!='):
                return int(op == '!=')
            if isinstance(l, Bits) and isinstance(r, int) and op in ('==', '!='):
                for x, y in zip(l.b, bits_of(r)):
                    if x in (0, 1) and not isinstance(x, tuple) and x != y:
                        return int(op == '!=')
            return TOP
        if isinstance(l, int) and isinstance(r, int):
            try:
                v = {'+': lambda: l + r, '-': lambda: l - r, '*': lambda: l * r, '&': lambda: l & r, '|': lambda: l | r, '^': lambda: l ^ r,
                     '<<': lambda: l << r if 0 <= r < 256 else TOP, '>>': lambda: l >> r if 0 <= r < 256 else TOP,
                     '/': lambda: int(l / r) if r else TOP, '%': lambda: l - int(l / r) * r if r else TOP}[op]()
            except KeyError:
                return TOP
            return trunc(v, ti) if v is not TOP else TOP
        if isinstance(l, (int, Bits)) and isinstance(r, (int, Bits)):
            a, b = bits_of(l), bits_of(r)
            if op in ('&', '|', '^', '+'):
                o = []
                carry = False
                for x, y in zip(a, b):
                    z = None
                    x0 = (x == 0 and not isinstance(x, tuple)); y0 = (y == 0 and not isinstance(y, tuple))
                    x1 = (x == 1 and not isinstance(x, tuple)); y1 = (y == 1 and not isinstance(y, tuple))
                    if x is None and not (op == '&' and y0) and not (op == '|' and y1):
                        z = None
                    elif y is None and not (op == '&' and x0) and not (op == '|' and x1):
                        z = None
                    elif op == '&':
                        z = 0 if x0 or y0 else (y if x1 else (x if y1 else (x if x == y else None)))
                    elif op == '|':
                        z = 1 if x1 or y1 else (y if x0 else (x if y0 else (x if x == y else None)))
                    elif op == '^':
                        z = y if x0 else (x if y0 else (0 if x == y else None))
                    elif op == '+':
                        if carry:
                            z = None
                        elif x0:
                            z = y
                        elif y0:
                            z = x
                        else:
                            z = None; carry = True
                    o.append(z)
                return trunc(norm(o), ti)
            if op == '<<' and isinstance(r, int) and 0 <= r < 64:
                return trunc(norm(([0] * r + a)[:len(a)]), ti)
            if op == '>>' and isinstance(r, int) and 0 <= r < 64:
                return trunc(norm(a[r:] + [a[-1] if ti and ti[1] else 0] * r), ti)
            if op == '-' and isinstance(r, int) and r == 0:
                return l
            return TOP
        return TOP
