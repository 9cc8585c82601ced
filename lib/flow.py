"""CFG helpers: must-throw blocks, dominance by removal, forward dataflow."""
from facts import CALLS, CTORS
import cg


class NR:
    """cached per program: functions that never return normally"""
    cache = {}

    @staticmethod
    def of(p):
        if id(p) not in NR.cache:
            NR.cache[id(p)] = cg.noreturn_fns(p)
        return NR.cache[id(p)]


def block_stops(f, b, nr):
    for el in f.blocks[b]['e']:
        if isinstance(el, int):
            nd = f.nodes[el]
            if nd['k'] == 'CXXThrowExpr' or nd.get('nr') or nd.get('fn') in nr or nd.get('qn') in cg.LUA_RAISE:
                return True
    return False


def returns_from(f, start, nr, avoid=()):
    """can control starting at block `start` reach the normal function exit (without passing a block of `avoid`)?"""
    st = [start]; seen = set()
    while st:
        x = st.pop()
        if x in seen or x < 0 or x in avoid:
            continue
        seen.add(x)
        if block_stops(f, x, nr):
            continue
        if x == f.exit:
            return True
        blk = f.blocks[x]
        t = blk.get('term')
        for s in blk['s']:
            if s == f.exit and t is not None and f.nodes[t]['k'] == 'CXXTryStmt':
                continue
            st.append(s)
    return False


def block_of(f):
    r = {}
    for b, blk in f.blocks.items():
        for el in blk['e']:
            if isinstance(el, int):
                r.setdefault(el, b)
        for k in ('term', 'cond', 'lcond'):
            if k in blk:
                r.setdefault(blk[k], b)
    return r


def forward(f, init, transfer, edge=None, join=None, leq=None, max_iter=20000):
    """worklist forward analysis; returns {block: state at entry}.  transfer(state, element)->state; edge(state, blk, idx)->state or None"""
    inn = {f.entry: init}
    work = [f.entry]
    it = 0
    while work:
        it += 1
        if it > max_iter:
            from facts import Broken
            raise Broken('dataflow of %s does not converge' % f.qn)
        b = work.pop(0)
        s = inn[b]
        for el in f.blocks[b]['e']:
            s = transfer(s, el)
            if s is None:
                break
        if s is None:
            continue
        for k, x in enumerate(f.blocks[b]['s']):
            if x < 0:
                continue
            t = edge(s, f.blocks[b], k) if edge else s
            if t is None:
                continue
            if x not in inn:
                inn[x] = t
                if x not in work:
                    work.append(x)
            else:
                j = join(inn[x], t)
                if j != inn[x]:
                    inn[x] = j
                    if x not in work:
                        work.append(x)
    return inn


def handlers_of(f, i):
    """handler nodes that may receive an exception raised at node i (innermost first)"""
    r = []
    for t in reversed(f.nodes[i].get('try', ())):
        for h in f.nodes[t].get('handlers', ()):
            r.append(h)
    return r
