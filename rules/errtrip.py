"""round trip of errors: construct -> text -> parse, evaluated with symbolic characters"""
from absint import State, TOP
from strabs import StrEval, Str, Ptr, Lin, CHARSET, split_run, number, cstr, show, lin

FILECHARS = [c for c in CHARSET if c not in (ord('"'), ord(':'))]
DIG0, DIG = range(1, 10), range(10)


def ev_what(e, s, args, objloc, fn, el):
    w = s.mem.get(('what',))
    return Ptr(('what', w.id), cstr(w.chars)) if isinstance(w, Str) else TOP


def ev_base(e, s, args, objloc, fn, el):
    v = e.strv(s, args[0]) if args else None
    s.mem[('what',)] = Str(v) if v is not None else TOP
    return e.temp(s, TOP)


class Err(StrEval):
    def __init__(self, p):
        super().__init__(p, models={'std::runtime_error::what': ev_what, 'std::exception::what': ev_what, 'std::runtime_error::runtime_error': ev_base})

    def one(self, outs):
        """the only normal outcome, None if there is none or several different ones"""
        o = [x for x in outs if x.kind == 'return']
        if len(o) != 1 or len(outs) != 1:
            return None
        return o[0]

    def get(self, fn, s, loc, *args):
        o = self.one(self.call(fn, s, loc, list(args)))
        if o is None:
            return None, s
        return o.value, o.state

    def parts(self, A, s, loc):
        """(code, argument, line, file name) of the error object at loc as its accessors return them"""
        code, s = self.get(A['code'], s, loc)
        arg, s = self.get(A['arg'], s, loc)
        l, s = self.get(A['location'], s, loc)
        if not (isinstance(l, tuple) and l[:1] == ('ref',)):
            return None
        line, s = self.get(A['line'], s, l[1])
        fnm, s = self.get(A['filename'], s, l[1])
        fp = self.ptr(s, fnm) if fnm is not None else None
        if arg == 0:
            a = ()
        else:
            ap = self.ptr(s, arg) if arg is not None else None
            a = ap.rest() if ap is not None else None
        if code is None or a is None or line is None or fp is None or code is TOP or line is TOP:
            return None
        return code, tuple(a), line, tuple(cstr(fp.rest()))


def shape(parts):
    c, a, l, f = parts
    if len(a) > 100:
        return 'code %r, line %r, file %s, argument of %d characters' % (c, l, show(f), len(a))
    return 'code %r, line %r, file %s, argument %s' % (c, l, show(f), show(a))


def accessors(p):
    A = {}
    for f in p.fns.values():
        if f.cls == 'mewa::Error' and f.name in ('code', 'arg', 'location') and not f.params:
            A[f.name] = f
        elif f.cls == 'mewa::Error::Location' and f.name in ('line', 'filename') and not f.params:
            A[f.name] = f
    return A if len(A) == 5 else None


def run(c, p, codes):
    A = accessors(p)
    parse = [f for f in p.fns.values() if f.cls == 'mewa::Error' and f.ret == 'mewa::Error' and len(f.params) == 1 and f.params[0]['t'] == 'const char *' and f.blocks]
    ctors = []
    for f in p.fns.values():
        if f.cls == 'mewa::Error' and f.name == 'Error' and f.params and f.params[0]['t'] == 'mewa::Error::Code' and f.blocks:
            ctors.append(f)
    copies = [f for f in p.fns.values() if f.cls == 'mewa::Error' and f.name == 'Error' and f.params and f.params[0]['t'] == 'const mewa::Error &' and f.blocks]
    loc = [f for f in p.fns.values() if f.cls == 'mewa::Error::Location' and f.name == 'Location' and [x['t'] for x in f.params] in (['const std::basic_string_view<char> &', 'int'], ['std::basic_string_view<char>', 'int']) and f.blocks]
    if A is None or len(parse) != 1 or not ctors or len(loc) != 1:
        c.count('round trip of errors not decided: interface of mewa::Error changed')
        return
    parse, loc = parse[0], loc[0]
    undecided = {}
    for ct in sorted(ctors, key=lambda f: f.key):
        kinds = [q['t'] for q in ct.params]
        hasarg = any('char' in t for t in kinds)
        # number of characters of argument and file name, digits of the line
        LONG = 3000     # an argument longer than every local buffer
        shapes = ([(LONG, 0, 0)] if hasarg else []) + [(na, nf, nl) for na in ((0, 1, 2) if hasarg else (0,)) for nf, nl in ((0, 0), (0, 1), (0, 2), (1, 1), (2, 2))]
        for qn, v, line in codes:
            v = int(v)
            if v == 0:
                continue
            rare = not (v in (402, 423) or 'CompileError' in qn or 'RuntimeException' in qn)
            for na, nf, nl in shapes:
                if rare and ((na, nf, nl) != (1, 1, 1) or not any(t.rstrip().endswith('*') for t in kinds)):
                    continue
                sy = {}
                for i in range(na if na != LONG else 0):
                    sy['a%d' % i] = CHARSET
                for i in range(nf):
                    sy['f%d' % i] = FILECHARS
                for i in range(nl):
                    sy['l%d' % i] = DIG0 if i == 0 else DIG

                def case(S):
                    e = Err(p)
                    s = State()
                    want_arg = tuple(S['a%d' % i] for i in range(na)) if na != LONG else (120,) * LONG
                    fname = tuple(S['f%d' % i] for i in range(nf))
                    ln = number([S['l%d' % i] for i in range(nl)]) if nl else 0
                    s.mem[('fn',)] = Str(fname)
                    o = e.one(e.call(loc, s, ('LOC',), [('ref', ('fn',)), ln]))
                    if o is None:
                        return None, e
                    s = o.state
                    args = []
                    for t in kinds:
                        if 'Code' in t:
                            args.append(v)
                        elif 'Location' in t:
                            args.append(('ref', ('LOC',)))
                        elif t.rstrip().endswith('*'):
                            args.append(Ptr(('arg',), want_arg))
                        else:
                            s.mem[('argobj',)] = Str(want_arg)
                            args.append(('ref', ('argobj',)))
                    o = e.one(e.call(ct, s, ('ERR',), args))
                    if o is None:
                        return None, e
                    s = o.state
                    want = (v, want_arg, ln, fname)
                    text = s.mem.get(('what',))
                    if not isinstance(text, Str):
                        return None, e
                    got = e.parts(A, s, ('ERR',))
                    res = [('as constructed', want, got, text)]
                    o = e.one(e.call(parse, s, None, [Ptr(('text',), cstr(text.chars))]))
                    r = o.value if o is not None else None
                    if isinstance(r, tuple) and r[:1] == ('ref',):
                        res.append(('parsed from its text', want, e.parts(A, o.state, r[1]), text))
                    else:
                        res.append(('parsed from its text', want, None, text))
                    if not rare:
                        for cp in copies:
                            s2 = s.copy(); w = want
                            a2 = [('ref', ('ERR',))]
                            if len(cp.params) > 1:
                                s2.mem[('fn',)] = Str((103,))
                                o = e.one(e.call(loc, s2, ('LOC2',), [('ref', ('fn',)), 5]))
                                if o is None:
                                    continue
                                s2 = o.state; a2.append(('ref', ('LOC2',)))
                                w = (v, want_arg, 5, (103,))
                            o = e.one(e.call(cp, s2, ('CPY',), a2))
                            res.append(('copied', w, e.parts(A, o.state, ('CPY',)) if o is not None else None, text))
                            t2 = o.state.mem.get(('what',)) if o is not None else None
                            if isinstance(t2, Str):
                                o = e.one(e.call(parse, o.state, None, [Ptr(('text2',), cstr(t2.chars))]))
                                r = o.value if o is not None else None
                                res.append(('parsed from the text of a copy', w, e.parts(A, o.state, r[1]) if isinstance(r, tuple) and r[:1] == ('ref',) else None, t2))
                    return res, e
                n = 0
                for sets, r in split_run(sy, case):
                    n += 1
                    if r is None or r[0] is None:
                        c.count('round trips of errors not decided')
                        if r:
                            for f, x in r[1].lost[:1]:
                                undecided[f.path(x)[:80]] = f.loc(x)
                        continue
                    for what, want, got, text in r[0]:
                        if got is None:
                            c.count('round trips of errors not decided')
                            for f, x in r[1].lost[:1]:
                                undecided[f.path(x)[:80]] = f.loc(x)
                            continue
                        if tuple(map(str, got)) == tuple(map(str, want)):
                            c.ok('error round trips', '%s %s, %d argument characters, %d file name characters, %d line digits: %.150s' % (qn.split('::')[-1], what, na, nf, nl, text))
                        else:
                            what_ = [k for k, x, y in zip(('code', 'argument', 'line', 'file'), want, got) if str(x) != str(y)]
                            c.violate('roundtrip %s %s' % (what, '+'.join(what_)), parse.loc(parse.body) if hasattr(parse, 'body') else '%s:%d' % (parse.file, parse.line),
                                      'an error %s with %s loses its %s: text %r gives %s' % (what, shape(want), ', '.join(what_), repr(text)[:200], shape(got)))
    for k, l in sorted(undecided.items()):
        c.ok('constructs without model', '%s %s' % (l, k))
