"""C09: the text of a serialized Lua value reads back as the value"""
import absint
from absint import State, TOP
from strabs import Str, Ptr, Lin, Sy, CHARSET, split_run, show, codes, lin, lin_op
from facts import Broken
from coll import CollEval, Num, LuaText, BadLua, NeedSplit

PROP = {
    'title': 'Serializing a Lua value gives Lua text that reads back as the value',
    'statement': 'The text mewa.tostring gives for a string, an integer number, a boolean, nil or a table of these (without maximum depth, cycles or other types of values) is a Lua expression whose value has the same contents: '
    'the same keys and values at the same places, for strings and string keys of any characters except the null character. The text is the same whatever order Lua enumerates the keys of the tables in, '
    'with indentation only white space is added. A table cut because of the maximum depth is written as three dots.',
    'over': ['requests'],
    'quant': 'every value made of tables, strings, integers and booleans, every order of enumeration',
    'why': 'Tests compare dumps of a few tables; keys that are no identifiers or are reserved words, quotes, backslashes, control characters and mixed keys are hardly among them.',
    'files': ['src/lua_serialize.cpp', 'src/lualib_mewa.cpp', 'src/lua_run_compiler.cpp'],
    'mech': [('luaToString, serializeLuaValue, serializeLuaTable, encodeCString, LuaTableKey::isIdentifier', 'src/lua_serialize.cpp')],
    'technique': 'abstract interpretation of the serializer with symbolic characters, the text read by the grammar of Lua table constructors and compared with the value',
    'level_note': 'Symbolic strings of up to 2 characters of the whole character set, as value, as key, in nested tables; tables with up to 12 elements of constant shape. Numbers with a fraction or an exponent and embedded null characters '
    'are outside of the statement. What has no model is counted as not decided.',
    'design': 'luaToString() is evaluated on the control flow graphs with a model of the Lua stack holding an abstract value (strings with symbolic characters, tables enumerated in both directions), containers and streams as in C08. '
    'The resulting text is read by a reader of Lua expressions and compared with the value. A condition on a symbolic character splits the case, so all values of the characters are covered. '
    'Reported are text that is no Lua expression, a difference, a text that depends on the order of enumeration, and characters other than white space that depend on the indentation.'}


class Ser(CollEval):
    def __init__(self, p):
        super().__init__(p, max_steps=300000, max_visits=600, max_depth=30)
        self.max_paths = 60


def S(x):
    return ('str', codes(x) if isinstance(x, str) else tuple(x))


def N(x):
    return ('num', x)


def T(*kv, arr=()):
    return ('tab', tuple((N(i + 1), v) for i, v in enumerate(arr)) + tuple(kv))


def specs():
    """(description, symbols, function -> value)"""
    r = []

    def slot(what, chars, lens, mk):
        for n in lens:
            r.append(('%s with %d symbolic characters' % (what, n), {'c%d' % i: chars for i in range(n)}, lambda Y, n=n: mk(tuple(Y['c%d' % i] for i in range(n)))))
    slot('string', CHARSET, (0, 1, 2), lambda x: S(x))
    slot('key of a table', CHARSET, (0, 1, 2), lambda x: T((S(x), N(1))))
    slot('value in a table', CHARSET, (0, 1), lambda x: T((S('key'), S(x))))
    slot('element of an array', CHARSET, (0, 1), lambda x: T(arr=(S('a'), S(x), S('b'))))
    slot('key of a nested table', CHARSET, (1,), lambda x: T((S('key'), T((S(x), T((S('x'), S('y'))))))))
    slot('keys starting with letters', CHARSET, (1,), lambda x: T((S(codes('ab') + x), N(1)), (S(codes('_')), N(2))))
    for w in sorted(KEYWORDS):
        r.append(('reserved word %s as key' % w, {}, lambda Y, w=w: T((S(w), N(1)))))
    for nm, v in (('nil', ('nil',)), ('true', ('bool', 1)), ('false', ('bool', 0)), ('0', N(0)), ('1', N(1)), ('-1', N(-1)), ('2147483648', N(2147483648)), ('-123456', N(-123456)),
                  ('empty table', T()), ('array', T(arr=(N(1), N(2), N(3)))), ('array of arrays', T(arr=(T(arr=(N(1),)), T(arr=(N(2), N(3))), T()))), ('booleans', T((S('a'), ('bool', 1)), (S('b'), ('bool', 0)), arr=(('bool', 0),))),
                  ('sparse array', T((N(1), S('a')), (N(3), S('b')))), ('array from 0', T((N(0), S('a')), (N(1), S('b')))), ('array from 2', T((N(2), S('a')), (N(3), S('b')))),
                  ('negative keys', T((N(-1), S('a')), (N(1), S('b')))), ('mixed keys', T((S('a'), N(7)), arr=(S('x'), S('y')))), ('number keys and strings of digits', T((S('1'), S('s')), (S('2'), S('t')), (N(1), S('n')))),
                  ('many keys', T(*((S('k%d' % i), N(i)) for i in range(12)))), ('array of 12', T(arr=tuple(N(i * i) for i in range(12)))), ('keys in reverse', T(*((S(ch), S(ch + '"')) for ch in 'zyxcba'))),
                  ('nested', T((S('a'), T((S('b'), T((S('c'), T(arr=(S('d'), T((S('e'), N(5)))))))))), (S('f'), S('g'))))):
        r.append((nm, {}, lambda Y, v=v: v))
    return r


KEYWORDS = {'and', 'break', 'do', 'else', 'elseif', 'end', 'false', 'for', 'function', 'goto', 'if', 'in', 'local', 'nil', 'not', 'or', 'repeat', 'return', 'then', 'true', 'until', 'while'}


def rev(v):
    if v[0] == 'tab':
        return ('tab', tuple((k, rev(x)) for k, x in reversed(v[1])))
    return v


def read(chars):
    rd = LuaText(chars)
    v = rd.value()
    rd.ws()
    if rd.i != len(chars):
        raise BadLua('text after the end of the value: %s' % show(chars[rd.i:rd.i + 20]))
    return word(v)


def word(v):
    if v[0] in ('path', 'obj') and len(v[1]) == 1:
        w = ''.join(chr(x) if isinstance(x, int) else '?' for x in v[1][0])
        if w in ('true', 'false'):
            return ('bool', int(w == 'true'))
        if w == 'nil':
            return ('nil',)
        raise BadLua('the variable %s in the text' % w)
    if v[0] in ('path', 'obj'):
        raise BadLua('a variable in the text')
    if v[0] == 'tab':
        return ('tab', tuple((k, word(x)) for k, x in v[1]))
    return v


def differ(e, a, b, path='value'):
    """None if equal, description of the first difference, TOP if unknown"""
    if a[0] != b[0]:
        return '%s is %s instead of %s' % (path, txt(b), txt(a))
    if a[0] == 'str':
        r = e.cmpseq(list(a[1]), list(b[1]), None, False, True)
        return TOP if r is TOP else None if r == 0 else '%s is %s instead of %s' % (path, txt(b), txt(a))
    if a[0] == 'tab':
        rest = list(b[1])
        for k, v in a[1]:
            hit = None
            for j, (k2, v2) in enumerate(rest):
                d = differ(e, k, k2)
                if d is TOP:
                    return TOP
                if d is None:
                    hit = j
                    break
            if hit is None:
                return '%s has no key %s' % (path, txt(k))
            d = differ(e, v, rest[hit][1], '%s[%s]' % (path, txt(k)))
            if d is not None:
                return d
            del rest[hit]
        return '%s has the additional key %s' % (path, txt(rest[0][0])) if rest else None
    return None if a[1:] == b[1:] else '%s is %s instead of %s' % (path, txt(b), txt(a))


def txt(v):
    if v[0] == 'str':
        return show(v[1])
    if v[0] == 'tab':
        return 'a table'
    return repr(v[1]) if len(v) > 1 else v[0]


def one(p, f, args, v):
    """text of the value or an explanation (str)"""
    e = Ser(p)
    s = State()
    s.mem[('LS',)] = (v,)
    try:
        outs = e.call(f, s, None, args)
    except Broken as b:
        return str(b), e
    if len(outs) == 1 and outs[0].kind == 'return':
        if not isinstance(outs[0].state.mem[('LS',)], tuple):
            return 'Lua stack unknown', e
        if len(outs[0].state.mem[('LS',)]) != 1:
            return ('stack', len(outs[0].state.mem[('LS',)]) - 1), e
        t = e.strv(outs[0].state, outs[0].value)
        return (tuple(t) if t is not None and not any(isinstance(x, Num) or x is TOP for x in t) else 'text unknown'), e
    if outs and all(o.kind == 'throw' for o in outs):
        return ('throw', outs[0].fn.loc(outs[0].node)), e
    return '%s outcomes' % [o.kind for o in outs][:4], e


def trip(p, f, v):
    res = []
    texts = []
    for order in (v, rev(v)):
        t, e = one(p, f, [('ref', ('LUA',)), 1, 0, 0], order)
        if isinstance(t, str):
            return t, e
        if t[:1] == ('throw',):
            return [('exception', 'serializing fails with the exception at %s' % t[1], ())], e
        if t[:1] == ('stack',):
            return [('stack', 'the Lua stack has %d elements more after serializing' % t[1], ())], e
        texts.append(t)
        try:
            d = differ(e, v, read(t))
            if d is TOP:
                return 'comparison', e
            if d:
                return [('difference', d, t)], e
        except BadLua as b:
            return [('no Lua expression', str(b), t)], e
    if e.cmpseq(list(texts[0]), list(texts[1]), None, False, True) == 1:
        return [('order', 'the text depends on the order of enumeration: %s and %s' % (show(texts[0])[:200], show(texts[1])[:200]), ())], e
    t, e = one(p, f, [('ref', ('LUA',)), 1, 1, 0], v)
    if isinstance(t, str):
        return 'with indentation: ' + t, e
    if t[:1] not in (('throw',), ('stack',)):
        try:
            d = differ(e, v, read(t))
            if d and d is not TOP:
                return [('indentation', 'with indentation ' + d, t)], e
        except BadLua as b:
            return [('indentation', 'with indentation: ' + str(b), t)], e
    if v[0] == 'tab':
        # maximum depth: the table of the last level is three dots
        t, e = one(p, f, [('ref', ('LUA',)), 1, 0, 1], v)
        if isinstance(t, tuple) and t[:1] not in (('throw',), ('stack',)) and t != codes('...'):
            return [('maximum depth', 'a table at the maximum depth is written as %s' % show(t)[:200], ())], e
    return res, e


def run(c):
    c.rule('the text of a serialized value is a Lua expression with the same contents and does not depend on the order of enumeration of keys')
    p = c.prog()
    fs = [f for f in p.fns.values() if f.blocks and 'basic_string' in f.ret and len(f.params) == 4 and 'lua_State' in f.params[0]['t'] and [q['t'] for q in f.params[1:]] == ['int', 'bool', 'int']]
    if len(fs) != 1:
        c.count('serializer not found')
        return
    f = fs[0]
    und = {}
    for what, sy, mk in specs():
        try:
            for sets, r in split_run(sy, lambda Y: trip(p, f, mk(Y))):
                if r is None or isinstance(r[0], str):
                    c.count('values not decided')
                    und.setdefault((what, r[0] if r else 'too many cases'), ''.join(' at %s %s' % (g.loc(x), g.path(x)[:60]) for g, x in r[1].lost[:1]) if r else '')
                    continue
                desc = ', '.join('%s in %s' % (k, (sorted(v)[:5] if len(v) <= 5 else '%d values' % len(v))) for k, v in sorted(sets.items())) or 'constant'
                if not r[0]:
                    c.ok('values serialized and read back', '%s (%s)' % (what, desc))
                for kind, msg, text in r[0]:
                    c.violate('%s: %s' % (what.split(' with ')[0] if 'reserved' not in what else 'reserved word as key', kind), '%s:%d' % (f.file, f.line), '%s (%s): %s; text %s' % (what, desc, msg, show(text)[:300]))
        except Broken as b:
            c.count('values not decided')
            und.setdefault((what, str(b)), '')
    for (w, u), l in sorted(und.items()):
        c.ok('serializations not decided', '%s: %s%s' % (w, u, l))
