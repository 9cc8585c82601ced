"""C04: every error code has exactly one message of its own, printed completely, in a form the parser of messages reads back."""
import os, re
import absint, errtrip
from facts import REPO, CTORS, CASTS

PROP = {
    'title': 'Error codes and error messages correspond one to one',
    'statement': 'Every error code the library can report prints as one non-empty message of its own that no other code shares; error number and text agree with the error code documentation. '
                 'The printed form of an error ("#<code> \\"<message>\\"" with optional file, line and argument) is never cut off and always splits back into the same parts (file names without quotes and colons, up to 79 characters), '
                 'so that an error that passes through Lua as a string keeps its code, location and argument. No error is ever raised with the code for "no error" or a number that is no error code.',
    'over': ['inputs'],
    'quant': 'every error code, every construction of an error in the library, every error string format',
    'why': 'Tests print a few of the more than 80 codes; uniqueness, completeness and parseability range over all codes and all raise sites.',
    'files': ['src/error.cpp', 'src/error.hpp', 'doc/errorcodes.md'],
    'mech': [('switch from error code to message', 'src/error.cpp'), ('printing and parsing of the error string', 'src/error.cpp')],
    'technique': 'conditional constant propagation over the enumeration; abstract interpretation with symbolic characters of printing and parsing',
    'design': 'The message function is evaluated for every enumerator (conditional constant propagation, total). Printed form: construction, copying, accessors and parsing are evaluated together with symbolic characters '
              '(a symbol stands for every character; the set is split where a condition depends on it), for each error code, with and without location, file and argument: what the accessors return after parsing has to be what was passed. '
              'Raise sites: enumerator constants passed to the constructor. Documentation table compared.',
    'level_note': 'The message function is evaluated statically for every enumerator (total). Round trips are evaluated for symbolic characters in strings of length 0 to 2 (any character but null; file names without double quote and colon), and one argument longer than every buffer; system error texts (codes below 300) are outside; file names are kept up to 79 characters.',
}


def messages(c, p):
    fs = [f for f in p.fns.values() if f.qn == 'mewa::Error::code2String']
    en = p.enums.get('mewa::Error::Code')
    if len(fs) != 1 or not en:
        c.broken('anchor vanished: mewa::Error::code2String / mewa::Error::Code')
    f = fs[0]

    def ev(v):
        e = absint.Eval(p)
        return [o.value if o.kind == 'return' else o.kind for o in e.call(f, absint.State(), None, [v])]
    return f, en['e'], ev


def fmt_bound(f, i, maxmsg, p):
    """upper bound of the characters a snprintf call writes (without the terminator), None if an argument is unbounded"""
    a = f.args(i)
    s = f.string(a[2])
    if s is None:
        return None
    n = 0; ai = 3
    k = 0
    while k < len(s):
        if s[k] == '%' and k + 1 < len(s):
            m = re.match(r'%[-+ #0]*\d*(\.\d+)?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', s[k:])
            if not m:
                return None
            cv = m.group(3)
            if cv == '%':
                n += 1
            elif cv in 'di':
                n += 11 if not m.group(2) else 20; ai += 1
            elif cv in 'ux':
                n += 10 if not m.group(2) else 20; ai += 1
            elif cv == 'c':
                n += 1; ai += 1
            elif cv == 's':
                j = f.strip(a[ai], True); ai += 1
                nd = f.nodes[j]
                if 's' in nd:
                    n += len(nd['s'])
                elif nd.get('qn') == 'mewa::Error::code2String':
                    n += maxmsg
                elif nd.get('qn') == 'mewa::Error::Location::filename':
                    fl = [x for x in p.recs['mewa::Error::Location']['fields'] if re.match(r'char\s*\[(\d+)\]', x['t'])]
                    if not fl:
                        return None
                    n += max(int(re.match(r'char\s*\[(\d+)\]', x['t']).group(1)) for x in fl) - 1
                else:
                    return None
            else:
                return None
            k += len(m.group(0))
        else:
            n += 1; k += 1
    return n


def code_source(f, i, depth=0):
    """where the value of an error code comes from"""
    i = f.strip(i, True)
    nd = f.nodes[i]
    if nd.get('dk') == 'enum':
        return 'enumerator ' + nd['v']
    if nd.get('qn') == '__errno_location' or (nd['k'] == 'UnaryOperator' and nd['op'] == '*' and f.nodes[f.strip(nd['c'][0])].get('qn') == '__errno_location'):
        return 'errno'
    if 'cv' in nd:
        return 'constant ' + nd['cv']
    if nd['k'] == 'ConditionalOperator':
        a = code_source(f, nd['c'][1], depth); b = code_source(f, nd['c'][2], depth)
        return a if a == b else a + ' | ' + b
    if nd['k'] in ('CallExpr', 'CXXMemberCallExpr'):
        return 'call ' + nd.get('qn', '?')
    return nd['k']


def run(c):
    c.rule('conditional constant propagation of every enumerator of the error code enumeration through the message function; uniqueness, quoting and '
           'length of the results; agreement of the printed form with the parser and of doc/errorcodes.md with the code')
    p = c.prog()
    f, codes, ev = messages(c, p)
    fallback = ev(29999)
    msgs = {}
    for qn, v, line in codes:
        v = int(v)
        name = qn.split('::')[-1]
        r = ev(v)
        c.ok('error codes evaluated', '%s=%d -> %r' % (name, v, r[0] if r else None))
        where = 'src/error.hpp:%d' % line
        if len(set(map(str, r))) != 1 or not isinstance(r[0], str):
            c.violate('nomessage %s' % name, where, 'error code %s (%d) does not map to one constant message: %r' % (name, v, r))
            continue
        m = r[0]
        if v == 0:
            if m:
                c.violate('okmessage', where, 'code 0 (no error) has the non-empty message %r' % m)
            continue
        if r == fallback:
            c.violate('nomessage %s' % name, where, 'error code %s (%d) has no message of its own (falls through to %r)' % (name, v, m))
            continue
        if not m:
            c.violate('emptymessage %s' % name, where, 'error code %s has an empty message' % name)
        if m in msgs:
            c.violate('dupmessage %s' % name, where, 'error codes %s and %s share the message %r' % (name, msgs[m][0], m))
        msgs.setdefault(m, (name, v, where))
        if '"' in m:
            c.violate('quote %s' % name, where, 'the message of %s contains a double quote: the quoted part of an error string cannot be parsed back: %r' % (name, m))
        if ': ' in m:
            c.violate('colon %s' % name, where, 'the message of %s contains ": ", which starts the argument part of an error string: it is split inside the message: %r' % (name, m))
        if v < 300 or v > 32767:
            c.violate('range %s' % name, where, 'code %s=%d collides with the system error range or exceeds what the message parser accepts' % (name, v))
    vals = {}
    for qn, v, line in codes:
        if v in vals:
            c.violate('dupcode %s' % qn, 'src/error.hpp:%d' % line, '%s and %s have the same number %s' % (qn, vals[v], v))
        vals[v] = qn
    # length of every formatted error string
    maxmsg = max([len(m) for m in msgs] or [0])
    for g in p.fns.values():
        if g.cls != 'mewa::Error':
            continue
        for i, key, nd in p.call_sites(g):
            if nd.get('qn') in ('snprintf', 'std::snprintf'):
                a = g.args(i)
                size = g.cv(a[1])
                b = fmt_bound(g, i, maxmsg, p)
                if size is None or b is None:
                    c.count('formatted error strings with an unbounded part (not judged)')
                    continue
                c.ok('formatted error strings bounded', '%s %r <= %d < %d' % (g.loc(i), g.string(a[2]), b, size))
                if b >= size:
                    c.violate('truncate %s %s' % (g.qn, g.string(a[2])), g.loc(i), 'the error string %r can reach %d characters, the buffer holds %d: messages get cut and cannot be parsed back'
                              % (g.string(a[2]), b, size - 1))
    # raise sites
    for g in p.fns.values():
        for i, key, nd in p.call_sites(g):
            if nd['k'] in CTORS and nd.get('cls') == 'mewa::Error' and not nd.get('cc') and not nd.get('mc'):
                a = g.args(i)
                if not a or 'Code' not in g.nodes[a[0]].get('t', ''):
                    continue
                src = code_source(g, a[0])
                c.ok('error constructions', '%s %s: %s' % (g.loc(i), g.qn, src))
                if src.startswith('constant') and int(src.split()[1]) not in [int(x[1]) for x in codes]:
                    c.violate('undefined code %s %s' % (g.qn, src), g.loc(i), '%s raises an error with a number that is no error code: %s' % (g.qn, src))
                if (src == 'constant 0' or src == 'enumerator mewa::Error::Ok') and g.cls != 'mewa::Error':
                    inthrow = any(g.nodes[x]['k'] == 'CXXThrowExpr' for x in g.ancestors(i))
                    if inthrow:
                        c.violate('throws ok %s' % g.qn, g.loc(i), '%s throws an error with the code 0 ("no error")' % g.qn)
    # the parser of error strings looks for the literals the printer writes
    printed = []
    for g in p.fns.values():
        if g.cls == 'mewa::Error':
            for i, key, nd in p.call_sites(g):
                if nd.get('qn') in ('snprintf', 'std::snprintf') and g.string(g.args(i)[2]) is not None:
                    printed.append(g.string(g.args(i)[2]))
    for g in p.fns.values():
        if g.qn != 'mewa::Error::parseError':
            continue
        for i, key, nd in p.call_sites(g):
            if nd.get('qn') in ('memcmp', 'strncmp', 'std::memcmp', 'std::strncmp'):
                a = g.args(i)
                lits = [g.string(x) for x in a[:2] if g.string(x) is not None]
                n = g.cv(a[2])
                if lits and n is not None:
                    c.ok('literals of the error string parser', '%s %r' % (g.loc(i), lits[0]))
                    if not any(lits[0][:n] in f_ for f_ in printed):
                        c.violate('separator %s' % lits[0], g.loc(i), 'the error string parser looks for %r, which no error string format contains: %r' % (lits[0], printed))
                    elif n != len(lits[0]):
                        c.violate('separator length %s' % lits[0], g.loc(i), 'the comparison with %r covers %d of %d characters' % (lits[0], n, len(lits[0])))
    errtrip.run(c, p, codes)
    # documentation
    doc = os.path.join(REPO, 'doc', 'errorcodes.md')
    if os.path.exists(doc):
        for k, l in enumerate(open(doc, encoding='utf-8'), 1):
            m = re.match(r'\+ \*\*#(\d+)\*\*\s+_(.*)_\s*$', l)
            if not m:
                continue
            v, t = int(m.group(1)), m.group(2)
            c.ok('documented error codes', 'doc/errorcodes.md:%d #%d' % (k, v))
            r = ev(v)
            if v not in [int(x[1]) for x in codes]:
                c.violate('doc code %d' % v, 'doc/errorcodes.md:%d' % k, 'documented error number %d does not exist' % v)
            elif r != [t]:
                c.violate('doc text %d' % v, 'doc/errorcodes.md:%d' % k, 'documented text %r of error %d differs from the message %r' % (t, v, r))
    c.floor('literals of the error string parser', 3)
    c.floor('error codes evaluated', 85)
    c.floor('documented error codes', 80)
    c.floor('formatted error strings bounded', 5)
    c.floor('error constructions', 100)
