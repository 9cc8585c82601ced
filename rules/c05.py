"""C05: failures of input and output are reported, files are closed."""
import re
import flow, cg
from facts import CALLS, CTORS

PROP = {
    'title': 'No failure of file input or output goes unnoticed; files get closed',
    'statement': 'Every failure to open, read, write, flush, close after writing, or remove a file, and every failure to write to standard output or to the debug output, is raised as an error: no function returns normally after such a failure (removing a file that does not exist is no failure). '
                 'Buffered output is flushed and the result of flushing or closing checked before success is returned. Output is written with its full length, also if it contains null bytes. A function that opens a file for its own use closes it exactly once on every path, including those where it raises an error.',
    'over': ['inputs', 'crashes'],
    'quant': 'every call of an input/output function, every path after it',
    'why': 'Tests run with a working disk; a full disk, a closed pipe or a read error is never produced.',
    'files': ['src/fileio.cpp', 'src/lualib_mewa.cpp', 'src/lua_run_compiler.cpp', 'src/lua_userdata.hpp', 'src/mewa.cpp'],
    'mech': [('readFile, writeFile, removeFile', 'src/fileio.cpp'), ('printing and output of the compiler', 'src/lualib_mewa.cpp'), ('printDebug', 'src/lua_run_compiler.cpp')],
    'technique': 'failure-value propagation through branch conditions and typestate of file handles over the CFG',
    'design': "For each stdio call: the failure value (NULL, EOF, short count, error indicator) is pushed through the branch conditions; a normal return reachable on the failing side is a violation. Typestate of FILE* locals including exceptional exits. Lengths passed to fwrite have to be size() of the data pointer's string.",
    'level_note': 'All calls of C stdio functions and std::cout. Assumes errno is set by failing calls; exceptions of library calls between open and close (memory exhaustion) are not followed. The debug file stored in the compiler object is judged by its flushes; closing of it is the subject of the run property.',
}

OUT = {'fwrite': 3, 'fputs': 1, 'puts': None, 'fputc': 1, 'putc': 1, 'putchar': None, 'fprintf': 0, 'vfprintf': 0, 'printf': None, 'vprintf': None, 'fwrite_unlocked': 3}
ALL = set(OUT) | {'fopen', 'fdopen', 'freopen', 'fread', 'fclose', 'fflush', 'remove', 'rename', 'unlink', 'fgets', 'fseek', 'ftell', 'open', 'read', 'write', 'close', 'tmpfile'}


def ioname(nd):
    q = nd.get('qn', '')
    if nd['k'] != 'CallExpr' or not (nd.get('xc') or q.startswith('std::')):
        return None
    b = q[5:] if q.startswith('std::') else q
    return b if b in ALL else None


class Fail:
    """value of an expression when call `site` fails"""

    def __init__(self, f, site, name):
        self.f = f; self.site = site; self.name = name
        self.size = f.path(f.args(site)[2]) if name in ('fwrite', 'fread') else None
        self.locs = {}
        wr = {}
        for i in f.walk():
            nd = f.nodes[i]
            for v in nd.get('vars', ()):
                if v['init'] >= 0:
                    wr.setdefault(v['v'], []).append(v['init'])
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                wr.setdefault(f.path(nd['c'][0]), []).append(nd['c'][1])
        for v, es in wr.items():
            for e in es:
                if any(x == site for x in f.walk(e)):
                    self.locs[v] = e
        if len(wr):
            for v, es in wr.items():
                if v not in self.locs and len(es) == 1 and v.startswith('L:'):
                    self.locs[v] = es[0]

    def failure(self):
        n = self.name
        if n == 'fwrite':
            return 99          # size argument counts as 100
        if n in ('fopen', 'fdopen', 'freopen', 'tmpfile', 'fgets'):
            return 0
        return -1

    def ev(self, e, depth=0):
        f = self.f
        e = f.strip(e, True)
        nd = f.nodes[e]
        if e == self.site:
            return self.failure()
        if self.size is not None and f.path(e) == self.size:
            return 100
        v = f.cv(e)
        if v is not None:
            if self.size is not None and f.cv(f.args(self.site)[2]) == v:
                return 100
            if nd['k'] == 'GNUNullExpr' or nd['k'] == 'CXXNullPtrLiteralExpr':
                return 0
            return v
        k = nd['k']
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'DeclRefExpr' and nd.get('v') in self.locs and depth < 4:
            return self.ev(self.locs[nd['v']], depth + 1)
        if k == 'MemberExpr' and f.path(e) in self.locs and depth < 4:
            return self.ev(self.locs[f.path(e)], depth + 1)
        if k == 'UnaryOperator' and nd['op'] in ('!', '-'):
            a = self.ev(nd['c'][0], depth)
            return None if a is None else (int(not a) if nd['op'] == '!' else -a)
        if k == 'BinaryOperator':
            if nd['op'] == '=':
                return self.ev(nd['c'][1], depth)
            a = self.ev(nd['c'][0], depth); b = self.ev(nd['c'][1], depth); op = nd['op']
            if op == '&&':
                return 0 if 0 in (a, b) else (None if None in (a, b) else 1)
            if op == '||':
                return 1 if (a not in (None, 0)) or (b not in (None, 0)) else (None if None in (a, b) else 0)
            if a is None or b is None:
                return None
            return {'==': int(a == b), '!=': int(a != b), '<': int(a < b), '>': int(a > b), '<=': int(a <= b), '>=': int(a >= b), '+': a + b, '-': a - b, '*': a * b}.get(op)
        ks = f.kids(e)
        if len(ks) == 1 and k in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr'):
            return self.ev(ks[0], depth)
        return None

    def depends(self, e):
        f = self.f
        for x in f.walk(e):
            if x == self.site:
                return True
            v = f.nodes[x].get('v') if f.nodes[x]['k'] == 'DeclRefExpr' else (f.path(x) if f.nodes[x]['k'] == 'MemberExpr' else None)
            if v in self.locs and any(y == self.site for y in f.walk(self.locs[v])):
                return True
        return False


def checked(f, site, name, nr):
    """None when the failure of the call leads to no normal return, else a message"""
    F = Fail(f, site, name)
    good = False; unresolved = False; seen = False
    bo = flow.block_of(f)
    for b, blk in f.blocks.items():
        cond = blk.get('cond')
        if cond is None or len(blk['s']) != 2 or not F.depends(cond):
            continue
        seen = True
        v = F.ev(cond)
        if v is None:
            unresolved = True
            continue
        t = blk['s'][0 if v else 1]
        if name == 'remove':
            # ENOENT is accepted: the failing side has to be able to raise
            st = [t]; vis = set(); raises = False
            while st:
                x = st.pop()
                if x in vis or x < 0:
                    continue
                vis.add(x)
                if flow.block_stops(f, x, nr):
                    raises = True
                    continue
                st.extend(f.blocks[x]['s'])
            if raises and t != blk['s'][1 if v else 0]:
                good = True
            continue
        if not flow.returns_from(f, t, nr) or (t == f.exit and False):
            good = True
        else:
            # a failing side returning a failure value to a caller in the tree is accepted for opening functions
            unresolved = unresolved or False
    if good:
        return None
    # returned to the caller?
    for i in f.walk():
        if f.nodes[i]['k'] == 'ReturnStmt' and f.kids(i) and F.depends(f.kids(i)[0]):
            return 'returned'
    if unresolved:
        return 'unresolved'
    return 'the result is not checked' if not seen else 'the failing branch returns normally'


def escapes(f, w, b0, avoid, nr):
    """can the end of f be reached from a successful write w without passing a block of avoid?"""
    F = Fail(f, w, ioname(f.nodes[w]))
    F.failure = lambda: 100 if F.size is not None else 1        # its value on success
    st = [b0]; seen = set(); first = True
    while st:
        b = st.pop()
        if b in seen or b < 0 or (b in avoid and not first):
            continue
        seen.add(b)
        blk = f.blocks[b]
        if not first and flow.block_stops(f, b, nr):
            continue
        if b == f.exit:
            return True
        first = False
        cond = blk.get('cond')
        t = blk.get('term')
        for k, s in enumerate(blk['s']):
            if s == f.exit and t is not None and f.nodes[t]['k'] == 'CXXTryStmt':
                continue
            if cond is not None and len(blk['s']) == 2 and F.depends(cond):
                v = F.ev(cond)
                if v is not None and bool(v) != (k == 0):
                    continue
            st.append(s)
    return False


def run(c):
    c.rule('the failure value of every stdio call is propagated through the branch conditions: the failing branch reaches no normal return; written handles are flushed or closed with checked result; '
           'handles opened in a function are closed exactly once on all paths; lengths are passed')
    p = c.prog()
    nr = flow.NR.of(p)
    wrappers = {}           # functions returning the result of a call: callers are judged
    T = cg.Throws(p)

    def judge(f, i, name, label):
        # calls on paths that fail anyway are exempt
        bo = flow.block_of(f)
        if i in bo and not flow.returns_from(f, bo[i], nr):
            c.count('calls on failing paths (exempt)')
            return
        r = checked(f, i, name, nr)
        if r is None:
            c.ok('calls with failure checked', '%s %s in %s' % (f.loc(i), label, f.qn))
        elif r == 'returned':
            wrappers.setdefault(f.key, (f, name))
            c.ok('calls with failure handed to the caller', '%s %s in %s' % (f.loc(i), label, f.qn))
        elif r == 'unresolved':
            c.count('calls with a condition that could not be evaluated (not judged)')
        else:
            c.violate('unchecked %s in %s' % (label, f.qn), f.loc(i), '%s: %s can fail without being noticed: %s' % (f.qn, label, r))
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks:
            continue
        opened = {}
        sites = [(i, ioname(nd), nd) for i, key, nd in p.call_sites(f) if ioname(nd)]
        coutw = []
        for i, key, nd in p.call_sites(f):
            if nd.get('op') == '<<' or 'operator<<' in nd.get('qn', ''):
                r = i
                while f.nodes[r]['k'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                    r = f.strip(f.nodes[r]['c'][1] if f.nodes[r]['k'] == 'CXXOperatorCallExpr' else f.obj(r), True)
                if f.nodes[r].get('qn') == 'std::cout':
                    coutw.append(i)
            elif nd['k'] == 'CXXMemberCallExpr' and nd.get('qn', '').split('::')[-1] in ('write', 'put') and f.obj(i) >= 0 and f.nodes[f.strip(f.obj(i), True)].get('qn') == 'std::cout':
                coutw.append(i)
        if not sites and not coutw:
            continue
        for i, n, nd in sites:
            if n in ('fopen', 'fdopen', 'tmpfile'):
                par = f.parents.get(i)
                v = None
                for j in f.walk():
                    for d in f.nodes[j].get('vars', ()):
                        if d['init'] >= 0 and f.strip(d['init'], True) == i:
                            v = d['v']
                    if f.nodes[j]['k'] == 'BinaryOperator' and f.nodes[j]['op'] == '=' and f.strip(f.nodes[j]['c'][1], True) == i and f.path(f.nodes[j]['c'][0]).startswith('L:'):
                        v = f.path(f.nodes[j]['c'][0])
                opened[i] = v
        localh = {v for v in opened.values() if v}
        written = {}
        for i, n, nd in sites:
            a = f.args(i)
            h = None
            if n in OUT and OUT[n] is not None and OUT[n] < len(a):
                h = f.path(a[OUT[n]])
            elif n in OUT:
                h = 'stdout'
            if n in ('fopen', 'fdopen', 'freopen', 'tmpfile', 'fflush', 'fgets', 'rename', 'unlink', 'remove') or n in OUT:
                judge(f, i, n, '%s%s' % (n, '(%s)' % (h or '').split(':')[-1].split('#')[0] if h else ''))
            if n in OUT:
                if h not in localh and not (h and re.search(r'(^|[:_])stderr(@|$|\b)', h)):
                    written.setdefault(h, []).append(i)
                elif h in localh:
                    written.setdefault(h, []).append(i)
                # full length
                if n in ('fputs', 'puts', 'fprintf', 'printf'):
                    for x in a[:1] if n in ('fputs', 'puts') else a[(1 if n == 'fprintf' else 0) + 1:]:
                        y = f.strip(x, True)
                        if f.nodes[y]['k'] == 'CXXMemberCallExpr' and f.nodes[y].get('qn', '').split('::')[-1] in ('c_str', 'data') and n in ('fputs', 'puts'):
                            c.violate('length %s in %s' % (n, f.qn), f.loc(i), '%s: %s writes a string only up to its first null byte' % (f.qn, n))
                elif n == 'fwrite':
                    buf = f.strip(a[0], True); b2 = f.nodes[buf]
                    if b2['k'] == 'CXXMemberCallExpr' and b2.get('qn', '').split('::')[-1] in ('c_str', 'data'):
                        src = f.path(f.obj(buf))
                        ln = f.path(a[2]); l1 = f.path(a[1])
                        c.ok('writes with the full length', '%s %s' % (f.loc(i), ln))
                        if not any(x in (src + '.size()', src + '.length()') for x in (ln, l1)):
                            # a local holding the size
                            F = Fail(f, i, n)
                            e = F.locs.get(ln)
                            if e is None or f.path(e) not in (src + '.size()', src + '.length()'):
                                if f.cv(a[2]) is not None or src in ln:
                                    c.violate('length fwrite in %s' % f.qn, f.loc(i), '%s writes %s bytes of %s instead of its full length' % (f.qn, ln, src))
                                else:
                                    c.count('lengths of writes not resolved')
            if n == 'fread':
                hd = f.path(a[3])
                fe = [j for j, k2, n2 in p.call_sites(f) if n2.get('qn', '').split('::')[-1] == 'ferror' and f.path(f.args(j)[0]) == hd]
                good = False
                for j in fe:
                    F = Fail(f, j, 'ferror')
                    F.locs = dict(F.locs)
                    for b, blk in f.blocks.items():
                        cond = blk.get('cond')
                        if cond is None or len(blk['s']) != 2:
                            continue
                        dep = F.depends(cond)
                        if not dep:
                            continue
                        for s in blk['s']:
                            if not flow.returns_from(f, s, nr):
                                good = True
                        # ferror()?errno:0 feeds a variable tested later
                    for v, e in F.locs.items():
                        if any(x == j for x in f.walk(e)):
                            for b, blk in f.blocks.items():
                                cond = blk.get('cond')
                                if cond is not None and len(blk['s']) == 2 and any(f.nodes[x].get('v') == v for x in f.walk(cond)):
                                    if any(not flow.returns_from(f, s, nr) for s in blk['s']):
                                        good = True
                if not fe:
                    # reading checked otherwise: short count raises
                    r = checked(f, i, 'fwrite', nr)
                    good = r is None
                if good:
                    c.ok('reads with ferror checked', '%s %s' % (f.loc(i), f.qn))
                else:
                    c.violate('unchecked fread in %s' % f.qn, f.loc(i), '%s: a read error is not noticed: no branch on ferror raises an error' % f.qn)
        # flush or close after writing
        bo = flow.block_of(f)
        for h, ws in sorted(written.items(), key=str):
            closers = {}
            for i, n, nd in sites:
                a = f.args(i)
                if n in ('fflush', 'fclose') and a and (f.path(a[0]) == h or (h == 'stdout' and 'stdout' in f.path(a[0])) or (n == 'fflush' and f.cv(a[0]) == 0)):
                    if checked(f, i, n, nr) in (None, 'returned'):
                        closers[i] = bo.get(i)
            for w in ws:
                if w not in bo or not flow.returns_from(f, bo[w], nr):
                    continue
                # same block after the write, or on every path to the exit
                avoid = set()
                same = False
                for i, b in closers.items():
                    if b is None:
                        continue
                    if b == bo[w]:
                        els = f.blocks[b]['e']
                        if i in els and (w not in els or els.index(i) > els.index(w)):
                            same = True
                    else:
                        avoid.add(b)
                ok = same or not escapes(f, w, bo[w], avoid, nr)
                name = (h or '?').split(':')[-1].split('#')[0]
                if ok:
                    c.ok('writes followed by a checked flush or close', '%s %s' % (f.loc(w), name))
                else:
                    c.violate('not flushed %s in %s' % (name, f.qn), f.loc(w), '%s: output written to %s can reach the end of the function without a checked flush or close: a failure to write the buffer is not noticed' % (f.qn, name))
        # std::cout
        if coutw:
            chk = set()
            flushed = any(f.nodes[x].get('qn', '').split('<')[0] in ('std::endl', 'std::flush') or f.nodes[x].get('qn', '').endswith('::flush') for x in f.walk())
            for b, blk in f.blocks.items():
                cond = blk.get('cond')
                if cond is None or len(blk['s']) != 2:
                    continue
                e = f.strip(cond, True); neg = False
                while f.nodes[e]['k'] == 'UnaryOperator' and f.nodes[e]['op'] == '!':
                    neg = not neg
                    e = f.strip(f.nodes[e]['c'][0], True)
                nd = f.nodes[e]
                if nd['k'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and any(f.nodes[x].get('qn') == 'std::cout' for x in f.walk(e)):
                    m = nd.get('qn', '').split('::')[-1]
                    failval = {'operator!': 1, 'fail': 1, 'bad': 1, 'good': 0, 'operator bool': 0}.get(m)
                    if failval is None:
                        continue
                    if neg:
                        failval = 1 - failval
                    if not flow.returns_from(f, blk['s'][0 if failval else 1], nr):
                        chk.add(b)
            for w in coutw:
                if w in bo and flow.returns_from(f, bo[w], nr) and bo[w] not in chk and any(flow.returns_from(f, s, nr, avoid=chk) for s in f.blocks[bo[w]]['s'] if s >= 0 and s not in chk):
                    c.violate('unchecked std::cout in %s' % f.qn, f.loc(w), '%s: a failure to write to std::cout is not noticed' % f.qn)
                elif not flushed:
                    c.violate('not flushed std::cout in %s' % f.qn, f.loc(w), '%s: std::cout is checked without having been flushed' % f.qn)
                else:
                    c.ok('writes to std::cout with state checked', f.loc(w))
        # typestate of handles opened here
        for op, v in opened.items():
            if not v:
                continue
            typestate(c, p, f, op, v, nr, T)
    # wrappers handing the handle or result to their caller
    for k, (g, name) in sorted(wrappers.items()):
        for f in p.fns.values():
            for i, key, nd in p.call_sites(f):
                if key == k and f.blocks:
                    if f.nodes[f.parents.get(i, i)]['k'] == 'ReturnStmt':
                        continue
                    r = checked(f, i, 'fopen' if name.endswith('open') else 'fflush', nr)
                    if r is None:
                        c.ok('calls with failure checked', '%s %s in %s' % (f.loc(i), g.qn, f.qn))
                    elif r in ('returned', 'unresolved'):
                        c.count('calls with a condition that could not be evaluated (not judged)')
                    else:
                        c.violate('unchecked %s in %s' % (g.qn, f.qn), f.loc(i), '%s: the failure returned by %s is not noticed: %s' % (f.qn, g.qn, r))
    c.floor('calls with failure checked', 5)
    c.floor('reads with ferror checked', 1)
    c.floor('handles with all paths closed', 1)


def typestate(c, p, f, op, v, nr, T):
    """closed exactly once on every path from the successful open to any exit"""
    F = Fail(f, op, 'fopen')
    bad = {}

    def transfer(s, el):
        if not isinstance(el, int):
            return s
        nd = f.nodes[el]
        if el == op:
            return 'open?'
        n = ioname(nd)
        if n == 'fclose' and f.args(el) and f.path(f.args(el)[0]) == v:
            if s == 'closed':
                bad['closed twice %s' % f.qn] = (f.loc(el), '%s closes the file a second time' % f.qn)
            return 'closed'
        if n and n != 'fclose' and s == 'closed' and any(f.path(a) == v for a in f.args(el)):
            bad['use after close %s' % f.qn] = (f.loc(el), '%s uses the file after closing it (%s)' % (f.qn, n))
        if s == 'open':
            if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr or nd.get('qn') in cg.LUA_RAISE:
                bad['leak %s' % f.qn] = (f.loc(el), '%s leaves with an error without closing the file it opened' % f.qn)
                return None
            if nd['k'] == 'ReturnStmt':
                if f.kids(el) and any(f.nodes[x].get('v') == v for x in f.walk(f.kids(el)[0])):
                    return 'given'
        elif nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr:
            return None
        return s

    def edge(s, blk, k):
        cond = blk.get('cond')
        if s == 'open?' and cond is not None and len(blk['s']) == 2 and F.depends(cond):
            val = F.ev(cond)
            if val is not None:
                return ('none' if bool(val) == (k == 0) else 'open')
        t = blk.get('term')
        if t is not None and f.nodes[t]['k'] == 'CXXTryStmt' and blk['s'][k] == f.exit:
            return None
        return s

    def join(a, b):
        if a == b:
            return a
        for x in ('open', 'open?'):
            if x in (a, b):
                return 'open'
        if 'closed' in (a, b) and 'none' in (a, b):
            return 'none'
        return 'closed' if 'closed' in (a, b) else a
    inn = flow.forward(f, 'none', transfer, edge=edge, join=join)
    if inn.get(f.exit) in ('open', 'open?'):
        bad['leak %s' % f.qn] = (f.loc(op), '%s can return without closing the file it opened' % f.qn)
    for k, (loc, msg) in sorted(bad.items()):
        c.violate(k, loc, msg)
    if not bad:
        c.ok('handles with all paths closed', '%s %s' % (f.loc(op), f.qn))
