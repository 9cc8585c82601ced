"""Fact base: builds the extractor, extracts the resolved program of /repo's current tree, and offers the query layer."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MEWA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
CACHE = os.environ.get('MEWA_CACHE', os.path.join(VERIF, 'evidence', '.cache'))


class Broken(Exception):
    """The analysis could not be carried out (error exit, neither pass nor violation)."""


def build_tool():
    src = os.path.join(VERIF, 'tool', 'mewafacts.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'mewafacts-' + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/clang++', '-std=c++17', '-fno-rtti', '-O0', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.18.1', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('cannot build the fact extractor:\n' + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


def lua_include():
    # the include path the build uses
    try:
        for l in open(os.path.join(REPO, 'Lua.inc')):
            m = re.match(r'LUAINC\s*:?=\s*(\S+)', l)
            if m and os.path.exists(os.path.join(m.group(1), 'lua.h')):
                return m.group(1)
    except OSError:
        pass
    return '/usr/include/lua5.2'


VARIANTS = {
    'default': [],
    'localmem': ['-DMEWA_TEST_LOCAL_MEMORY_RESOURCE'],
}


def extract(variant='default', root=None, extra_files=None):
    """Returns list of json fact files (one per translation unit)."""
    exe = build_tool()
    root = root or REPO
    srcdir = os.path.join(root, 'src')
    files = sorted(os.path.join(srcdir, f) for f in os.listdir(srcdir) if f.endswith('.cpp'))
    if not files:
        raise Broken('no sources under ' + srcdir)
    hh = hashlib.sha256()
    for f in sorted(os.listdir(srcdir)):
        p = os.path.join(srcdir, f)
        if os.path.isfile(p):
            hh.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    hh.update(root.encode() + variant.encode() + os.path.basename(exe).encode())
    outdir = os.path.join(CACHE, 'facts-' + hh.hexdigest()[:24])
    outs = [os.path.join(outdir, os.path.basename(f) + '.json') for f in files]
    if not os.path.exists(os.path.join(outdir, 'done')):
        tmp = tempfile.mkdtemp(dir=CACHE)
        flags = ['-std=c++17', '-include', 'cstdint', '-I' + srcdir, '-I' + os.path.join(root, 'include'), '-I' + lua_include(),
                 '-resource-dir', LLVM + '/lib/clang/18', '-pthread', '-w'] + VARIANTS[variant]

        def one(f):
            o = os.path.join(tmp, os.path.basename(f) + '.json')
            r = subprocess.run([exe, root, f, o, '--'] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(o):
                return (f, r.stdout)
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, sorted(files, key=lambda f: -os.path.getsize(f))) if e]
        if errs:
            shutil.rmtree(tmp, ignore_errors=True)
            raise Broken('translation unit does not parse: %s\n%s' % (errs[0][0], errs[0][1][-2000:]))
        open(os.path.join(tmp, 'done'), 'w').close()
        try:
            os.rename(tmp, outdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        ds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('facts-')), key=os.path.getmtime)
        for d in ds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    return outs


STRIP = {'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
         'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'FullExpr', 'OpaqueValueExpr'}
CASTS = {'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'}
CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'}
CTORS = {'CXXConstructExpr', 'CXXTemporaryObjectExpr'}


class Fn:
    def __init__(self, d):
        self.d = d
        self.key = d['key']; self.qn = d['qn']; self.name = d['n']; self.file = d['file']; self.line = d['l']
        self.nodes = d['nodes']; self.params = d['p']; self.inits = d['inits']; self.ret = d['ret']
        self.cls = d.get('cls'); self.body = d['body']
        self._parents = None
        self._blocks = None
        self._mapinline = None

    def __repr__(self):
        return 'Fn(%s)' % self.qn

    def n(self, i):
        return self.nodes[i]

    def kids(self, i):
        return [c for c in self.nodes[i].get('c', ()) if c >= 0]

    def strip(self, i, casts=False):
        while i >= 0:
            nd = self.nodes[i]
            k = nd['k']
            if k in STRIP or (casts and k in CASTS):
                c = [x for x in nd.get('c', ()) if x >= 0]
                if not c:
                    return i
                i = c[-1] if k == 'OpaqueValueExpr' else c[0]
            elif k in CTORS and (nd.get('cc') or nd.get('mc')) and nd.get('elide'):
                i = nd['c'][0]
            else:
                return i
        return i

    def all_kids(self, i):
        """children including decl initialisers, try handlers, lambda captures"""
        nd = self.nodes[i]
        r = [c for c in nd.get('c', ()) if c >= 0]
        for v in nd.get('vars', ()):
            if v['init'] >= 0:
                r.append(v['init'])
            for b in v.get('bind', ()):
                if b[1] >= 0:
                    r.append(b[1])
        for h in nd.get('handlers', ()):
            if h >= 0:
                r.append(h)
        return r

    def walk(self, i=None):
        """pre-order over a subtree (default: initialisers and body)"""
        if i is None:
            st = []
            for x in self.inits:
                if x['e'] >= 0:
                    st.append(x['e'])
            st.append(self.body)
            st.reverse()
        else:
            st = [i]
        seen = set()
        while st:
            x = st.pop()
            if x in seen or x < 0:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(self.all_kids(x)))

    @property
    def parents(self):
        if self._parents is None:
            p = {}
            for x in self.walk():
                for c in self.all_kids(x):
                    p.setdefault(c, x)
            self._parents = p
        return self._parents

    def ancestors(self, i):
        p = self.parents
        while i in p:
            i = p[i]
            yield i

    def loc(self, i=None):
        l = self.line
        if i is not None:
            j = i
            while j is not None:
                if self.nodes[j].get('l'):
                    l = self.nodes[j]['l']
                    break
                j = self.parents.get(j)
        return '%s:%s' % (self.file, l)

    def callee(self, i):
        return self.nodes[i].get('fn')

    def is_call(self, i):
        k = self.nodes[i]['k']
        return k in CALLS or k in CTORS or k in ('CXXNewExpr', 'CXXDeleteExpr')

    def args(self, i):
        """explicit argument nodes (without the object)"""
        nd = self.nodes[i]
        k = nd['k']
        c = list(nd.get('c', ()))
        if k == 'CXXMemberCallExpr':
            return c[1:]
        if k == 'CXXOperatorCallExpr':
            return c[1:] if not nd.get('cls') else c[2:]
        if k == 'CallExpr' or k == 'UserDefinedLiteral':
            return c[1:]
        if k in CTORS:
            return c
        return c

    def obj(self, i):
        nd = self.nodes[i]
        if nd['k'] == 'CXXMemberCallExpr':
            m = self.strip(nd['c'][0])
            if self.nodes[m]['k'] == 'MemberExpr':
                return self.nodes[m]['c'][0] if self.nodes[m].get('c') else -1
            return -1
        if nd['k'] == 'CXXOperatorCallExpr' and nd.get('cls'):
            return nd['c'][1]
        return -1

    def cv(self, i):
        """compile time constant of an expression or None"""
        if i < 0:
            return None
        v = self.nodes[i].get('cv')
        if v is None:
            v = self.nodes[self.strip(i)].get('cv')
        return int(v) if v is not None else None

    def string(self, i):
        if i < 0:
            return None
        return self.nodes[self.strip(i, True)].get('s')

    @property
    def blocks(self):
        if self._blocks is None:
            c = self.d.get('cfg')
            if not c:
                self._blocks = {}
            else:
                self._blocks = {b['id']: b for b in c['b']}
        return self._blocks

    @property
    def entry(self):
        return self.d['cfg']['entry']

    @property
    def exit(self):
        return self.d['cfg']['exit']

    # a stable, readable rendering of an expression (diagnostics, and structural identity of access paths)
    def path(self, i):
        i = self.strip(i, True)
        if i < 0:
            return '?'
        nd = self.nodes[i]
        k = nd['k']
        if k == 'DeclRefExpr':
            return nd.get('v') or nd.get('qn') or '?'
        if k == 'CXXThisExpr':
            return 'this'
        if k == 'MemberExpr':
            b = self.path(nd['c'][0]) if nd.get('c') else ''
            return b + '.' + (nd.get('n') or nd.get('qn', '?').split('::')[-1])
        if k == 'CXXMemberCallExpr':
            return self.path(nd['c'][0]) + '(' + ','.join(self.path(a) for a in self.args(i)) + ')'
        if k in ('CallExpr',):
            return nd.get('qn', '?') + '(' + ','.join(self.path(a) for a in self.args(i)) + ')'
        if k == 'CXXOperatorCallExpr':
            a = [self.path(x) for x in nd['c'][1:]]
            op = nd.get('op')
            if op == '->':
                return a[0]
            if op == '*' and len(a) == 1:
                return '*' + a[0]
            if op == '[]':
                return a[0] + '[' + a[1] + ']'
            if len(a) == 1:
                return op + a[0]
            return '(' + a[0] + op + ','.join(a[1:]) + ')'
        if k == 'UnaryOperator':
            s = self.path(nd['c'][0])
            return (s + nd['op']) if nd.get('post') else (nd['op'] + s)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return '(' + self.path(nd['c'][0]) + nd['op'] + self.path(nd['c'][1]) + ')'
        if k == 'ArraySubscriptExpr':
            return self.path(nd['c'][0]) + '[' + self.path(nd['c'][1]) + ']'
        if 's' in nd:
            return json.dumps(nd['s'])
        if 'cv' in nd:
            return nd['cv']
        if k in CTORS:
            a = self.args(i)
            if len(a) == 1 and (nd.get('cc') or nd.get('mc')):
                return self.path(a[0])
            return nd.get('cls', '?') + '{' + ','.join(self.path(x) for x in a) + '}'
        return k + '(' + ','.join(self.path(x) for x in self.kids(i)) + ')'


class Program:
    def __init__(self, variant='default', root=None):
        self.variant = variant
        self.root = root or REPO
        self.fns = {}
        self.recs = {}
        self.recs_all = {}
        self.enums = {}
        self.enums_all = {}
        self.vars = {}
        self.units = 0
        self.files = set()
        for o in extract(variant, root):
            ended = False
            with open(o, encoding='utf-8') as f:
                for l in f:
                    d = json.loads(l)
                    k = d['kind']
                    if k == 'fn':
                        if d['key'] not in self.fns:
                            self.fns[d['key']] = Fn(d)
                            self.files.add(d['file'])
                    elif k == 'rec':
                        self.recs.setdefault(d['n'], d)
                        l = self.recs_all.setdefault(d['n'], [])
                        if not any(x['file'] == d['file'] and x['l'] == d['l'] for x in l):
                            l.append(d)
                    elif k == 'enum':
                        self.enums.setdefault(d['n'], d)
                        l = self.enums_all.setdefault(d['n'], [])
                        if not any(x['file'] == d['file'] and x['l'] == d['l'] for x in l):
                            l.append(d)
                    elif k == 'var':
                        if d['v'] not in self.vars or (d.get('def') and not self.vars[d['v']].get('def')):
                            self.vars[d['v']] = d
                    elif k == 'end':
                        ended = True
            if not ended:
                raise Broken('truncated facts for ' + o)
            self.units += 1
        # functions with internal linkage defined in headers exist once per unit: keep one copy for reporting
        self.overrides = {}
        for f in self.fns.values():
            for o in f.d.get('ovr', ()):
                self.overrides.setdefault(o, []).append(f.key)
        self._callees = {}
        self.by_qn = {}
        for f in self.fns.values():
            self.by_qn.setdefault(f.qn, []).append(f)

    def rec_of(self, f):
        """the class a method belongs to (local classes of different functions can have the same name)"""
        l = self.recs_all.get(f.cls, ())
        if len(l) <= 1:
            return l[0] if l else None
        c = [x for x in l if x['file'] == f.file and x['l'] <= f.line]
        return max(c, key=lambda x: x['l']) if c else None

    def enum_of(self, t, f, line):
        """enumeration named by type string t as seen from a line of function f"""
        t = t.replace('const ', '').replace('volatile ', '').strip()
        l = self.enums_all.get(t, ())
        if len(l) <= 1:
            return l[0] if l else None
        c = [x for x in l if x['file'] == f.file and x['l'] <= line]
        return max(c, key=lambda x: x['l']) if c else None

    def fn_named(self, pattern):
        r = re.compile(pattern)
        return [f for f in self.fns.values() if r.search(f.qn)]

    def targets(self, key):
        """possible repo bodies of a callee key (virtual dispatch resolved to all overriders)"""
        r = []
        st = [key]; seen = set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in self.fns:
                r.append(self.fns[k])
            st.extend(self.overrides.get(k, ()))
        return r

    def call_sites(self, fn):
        """[(node, callee key, node dict)] for every call, construction, new, delete and implicit destructor of fn."""
        if fn.key in self._callees:
            return self._callees[fn.key]
        r = []
        for i in fn.walk():
            nd = fn.nodes[i]
            k = nd['k']
            if k in CALLS or k in CTORS:
                r.append((i, nd.get('fn'), nd))
            elif k == 'CXXNewExpr':
                r.append((i, nd.get('fn'), nd))
            elif k == 'CXXDeleteExpr':
                if nd.get('dtor'):
                    r.append((i, nd['dtor'], nd))
            elif k == 'LambdaExpr':
                r.append((i, nd['lam'], nd))
            if nd.get('conv'):
                r.append((i, nd['conv'], nd))
        self._callees[fn.key] = r
        return r
