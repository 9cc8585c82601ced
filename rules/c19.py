"""C19: no hidden state outside of the objects."""
from facts import CTORS, CALLS

PROP = {
    'title': 'No hidden state is shared between objects, Lua states or threads',
    'statement': 'The result of a call depends on nothing but its arguments and the objects passed: every variable with static storage (global, static member or static local) is a constant whose value does not depend on the first caller, '
                 'or an atomic counter, and no function of the library uses a C function that keeps process wide state (strtok, setlocale, rand, localtime, ...). '
                 'Two compilers or type databases, also in different Lua states running in different threads, can therefore never influence each other or race.',
    'over': ['schedules', 'histories'],
    'quant': 'every interleaving of calls on different objects, every order of calls',
    'why': 'Tests use one Lua state in one thread and fresh processes; influence through hidden state needs two objects with different histories.',
    'files': ['src/lua_userdata.hpp', 'src/lualib_mewa.cpp', 'src/automaton_structs.cpp', 'src/automaton_tostring.cpp', 'src/error.cpp', 'src/automaton_parser.cpp', 'src/lexer.cpp', 'src/typedb.cpp'],
    'mech': [('CallTableName::init', 'src/lua_userdata.hpp'), ('registration tables', 'src/lualib_mewa.cpp'), ('constant tables', 'src')],
    'technique': 'effect analysis: every reference to every variable with static storage is classified as read or write; blacklist of C functions with process wide state over all call sites',
    'design': 'Enumeration of all variables with static storage and all references to them, classification read/write/atomic; static locals with initialisers that depend on parameters; calls of C functions with hidden state.',
    'level_note': 'Complete enumeration of the variables with static storage and of the references to them in the program; state kept inside the Lua registry and inside the C library (stdio) is not counted.',
}

STATEFUL = {'strtok', 'setlocale', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'tempnam', 'mktemp', 'getopt', 'getopt_long', 'putenv', 'setenv', 'unsetenv',
            'clearenv', 'chdir', 'umask', 'signal', 'readdir', 'getpwnam', 'getpwuid', 'gethostbyname', 'ecvt', 'fcvt', 'inet_ntoa', 'l64a', 'ptsname', 'ttyname', 'wcstombs', 'mbtowc', 'wctomb', 'mblen', 'mbrtowc', 'localeconv', 'nl_langinfo', 'hsearch', 'uselocale', 'dirname'}


READS = {'find', 'count', 'contains', 'size', 'empty', 'length', 'begin', 'end', 'cbegin', 'cend', 'lower_bound', 'upper_bound', 'equal_range', 'load', 'c_str', 'compare', 'substr'}


def split_update(f, i):
    """reference i of an atomic variable is the target of a store of a value computed from the same variable"""
    v = f.nodes[i]['v']
    for a in f.ancestors(i):
        nd = f.nodes[a]
        k = nd['k']
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and (nd.get('qn') or '').startswith('std::') and (nd.get('qn') or '').split('::')[-1] in ('operator=', 'store'):
            n = sum(1 for x in f.walk(a) if f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x].get('v') == v)
            if n > 1:
                return a
        if k.endswith('Stmt'):
            break
    return None


def read_only(f, i):
    """is the value designated by node i (an lvalue) only read? returns None when it is, else the node that may write"""
    par = f.parents.get(i)
    while par is not None and f.nodes[par]['k'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'ConstantExpr'):
        i = par; par = f.parents.get(i)
    if par is None:
        return None
    nd = f.nodes[par]
    k = nd['k']
    if k == 'ImplicitCastExpr':
        if nd.get('ck') == 'LValueToRValue':
            return None
        t = nd.get('t', '')
        if nd.get('ck') == 'ArrayToPointerDecay':
            return read_ptr(f, par)
        if t.startswith('const ') and '*' not in t:
            return None
        return read_only(f, par)
    if k == 'MemberExpr':
        return read_only(f, par) if not nd.get('arrow') else None
    if k == 'ArraySubscriptExpr':
        return read_only(f, par)
    if k in ('UnaryExprOrTypeTraitExpr', 'CXXTypeidExpr', 'DeclStmt') and k != 'DeclStmt':
        return None
    if k == 'CXXForRangeStmt' or k == 'DeclStmt':
        vs = [v for v in nd.get('vars', ()) if v.get('init') == i]
        for v in vs:
            if v.get('ref') and not v['t'].startswith('const'):
                return par
        return None
    if k == 'CXXMemberCallExpr' or k == 'CXXOperatorCallExpr':
        if nd.get('cm'):
            return None
        q = nd.get('qn') or ''
        if q.startswith('std::') and q.split('::')[-1] in READS:
            return None
        return par
    if k in ('BinaryOperator',) and nd['op'] == ',':
        return None
    if k == 'UnaryOperator' and nd['op'] == '&':
        return read_ptr(f, par)
    if k == 'CompoundStmt' or k.endswith('Stmt') and k != 'ReturnStmt':
        return None
    if k == 'ReturnStmt':
        return None if f.ret.startswith('const') or '&' not in f.ret else par
    return par


def read_ptr(f, i):
    """is the object a pointer value (node i) points to only read through it?"""
    nd = f.nodes[i]
    t = nd.get('t', '')
    par = f.parents.get(i)
    if par is None:
        return None
    pn = f.nodes[par]
    if pn['k'] == 'ArraySubscriptExpr':
        return read_only(f, par)
    if pn['k'] == 'UnaryOperator' and pn['op'] == '*':
        return read_only(f, par)
    if pn['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
        return read_ptr(f, par)
    if pn['k'] == 'BinaryOperator' and pn['op'] in ('+', '-'):
        return read_ptr(f, par)
    if pn['k'] == 'BinaryOperator' and pn['op'] in ('==', '!=', '<', '>', '<=', '>='):
        return None
    # the pointer itself goes somewhere else: what it points to must be constant there
    x = t.rstrip()
    if x.endswith('*'):
        base = x[:-1].rstrip()
        if base.startswith('const ') and '*' not in base or base.endswith('const'):
            return None
    return par


def run(c):
    c.rule('every variable with static storage: constant, or never written by any reference to it, or std::atomic; constants do not depend on parameters of the function initialising them; no call of a C function with process wide state')
    p = c.prog()
    refs = {}
    for f in p.fns.values():
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') in ('global', 'slocal'):
                refs.setdefault(nd['v'], []).append((f, i))
    inits = {}
    for f in p.fns.values():
        for i in f.walk():
            nd = f.nodes[i]
            if nd['k'] == 'DeclStmt':
                for v in nd.get('vars', ()):
                    if v.get('static') or v.get('st'):
                        inits[v['v']] = (f, v)
    allvars = {}
    for v in p.vars.values():
        if v.get('file', '').startswith('src/') or v['file'] in p.files:
            allvars[v['v']] = v
    for k, (f, v) in inits.items():
        allvars.setdefault(k, dict(v, qn=v['n'], file=f.file, l=f.line))
    for k, v in sorted(allvars.items(), key=lambda x: (x[1]['file'], x[1].get('l', 0))):
        t = v['t']
        name = v.get('qn') or v['n']
        where = '%s:%s' % (v['file'], v.get('l', 0))
        atomic = t.startswith('std::atomic') or 'std::atomic<' in t or t.startswith('std::mutex') or 'std::once_flag' in t
        if k in inits:
            f, vi = inits[k]
            if vi['init'] >= 0:
                for x in f.walk(vi['init']):
                    n = f.nodes[x]
                    if n['k'] == 'CXXThisExpr' or n['k'] == 'DeclRefExpr' and n.get('dk') in ('parm', 'local') and not within_lambda(f, x, vi['init']):
                        c.violate('static %s in %s' % (v['n'], f.qn), where, '%s: the static variable %s keeps a value computed from the arguments of the first call' % (f.qn, v['n']))
                        break
        if atomic:
            for f, i in refs.get(k, ()):
                b = split_update(f, i)
                if b is not None:
                    c.violate('variable %s' % name, f.loc(b), '%s updates the atomic variable %s in two steps (reads it and stores a value computed from it), updates of other threads get lost' % (f.qn, name))
                    break
            c.ok('atomic counters', '%s %s' % (where, name))
            continue
        if v.get('const') or is_const(t):
            c.ok('constants', '%s %s' % (where, name))
            continue
        bad = None
        for f, i in refs.get(k, ()):
            c.count('references to variables classified')
            b = read_only(f, i)
            if b is not None:
                bad = (f, b)
                break
        if bad:
            c.violate('variable %s' % name, bad[0].loc(bad[1]), '%s modifies %s (%s, declared at %s), which all objects, Lua states and threads share' % (bad[0].qn, name, t, where))
        else:
            c.ok('variables never written', '%s %s' % (where, name))
    for f in p.fns.values():
        for i, k, nd in p.call_sites(f):
            q = nd.get('qn') or ''
            if q.startswith('std::') and '::' not in q[5:] or '::' not in q:
                c.count('calls of C functions checked')
                if q.split('::')[-1] in STATEFUL and not (k and p.targets(k)):
                    c.violate('%s in %s' % (q, f.qn), f.loc(i), '%s calls %s, which keeps or changes state of the whole process' % (f.qn, q))
            if q in ('std::locale::global', 'std::set_new_handler', 'std::set_terminate', 'std::pmr::set_default_resource'):
                c.violate('%s in %s' % (q, f.qn), f.loc(i), '%s calls %s, which changes state of the whole process' % (f.qn, q))
        # members that change in constant objects
    c.floor('constants', 12)
    c.floor('calls of C functions checked', 200)


def within_lambda(f, i, top):
    for a in f.ancestors(i):
        if f.nodes[a]['k'] == 'LambdaExpr':
            return True
        if a == top:
            break
    return False


def is_const(t):
    t = t.strip()
    while t.endswith(']'):
        t = t[:t.rindex('[')].strip()
    if '*' in t:
        return t.endswith('const')
    return t.startswith('const ') or t.endswith(' const')
