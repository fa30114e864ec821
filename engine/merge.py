"""Joining paths: states that reach the same program point are merged into one (values become
if-then-else over the branch condition).  Purely an optimisation of the path enumeration."""
import z3
from terms import *
from memory import *
from prover import Forall

class NoMerge(Exception): pass

def liveness(fn):
    """block -> ids of instructions whose value may be used at or after its start (phis of the block excluded)"""
    r = getattr(fn, '_live', None)
    if r is not None: return r
    def refs(o, acc):
        if isinstance(o, tuple):
            if len(o) == 2 and o[0] == 'i': acc.add(o[1])
            else:
                for x in o: refs(x, acc)
        elif isinstance(o, list):
            for x in o: refs(x, acc)
    use = []; dfn = []; phiuse = {}
    for B in fn.blocks:
        u = set(); d = set(ph.id for ph in B.phis)
        for ph in B.phis:
            for p, o in ph.x.items(): refs(o, phiuse.setdefault((p, B.idx), set()))
        for I in B.insts:
            acc = set(); refs(I.ops, acc)
            if I.op in ('call', 'invoke'): refs(I.x[0], acc)
            elif I.op == 'gep': refs(I.x[1], acc)
            u |= acc - d; d.add(I.id)
        use.append(u); dfn.append(d)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.rpo):
            out = set()
            for s in fn.blocks[b].succs: out |= (live[s] - set(ph.id for ph in fn.blocks[s].phis)) | phiuse.get((b, s), set())
            n = use[b] | (out - dfn[b])
            if not n <= live[b]: live[b] |= n; ch = True
    # values used in a block anywhere (for points inside a block)
    fn._live = live; fn._use = use; fn._dfn = dfn
    return live

def same(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, P): return a.obj is b.obj and ieq(a.off, b.off) is True
    if isinstance(a, SymP) and isinstance(b, SymP): return a.addr.eq(b.addr) and ieq(a.off, b.off) is True
    if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
    if isptr(a) or isptr(b) or a is None or b is None: return False
    if isinstance(a, (Agg, FArr)) or isinstance(b, (Agg, FArr)): return False
    if isz(a) and isz(b): return a.eq(b)
    if not isz(a) and not isz(b): return type(a) == type(b) and a == b
    return False

def mval(ex, c, a, b):
    if same(a, b): return a
    if isptr(a) or isptr(b):
        if isinstance(a, P) and isinstance(b, P) and a.obj is b.obj: return P(a.obj, ite(c, a.off, b.off))
        raise NoMerge('pointer')
    if a is None or b is None or isinstance(a, (Agg, FArr)) or isinstance(b, (Agg, FArr)): raise NoMerge('value')
    ka, kb = kindof(a), kindof(b)
    if ka != kb:
        if {ka, kb} == {'int', 'bool'}: a, b = toint(a), toint(b)
        else: raise NoMerge('kinds')
    return ite(c, a, b)

def guard(f, c):
    r = Forall(f.g, band(c, f.rng), f.body, [(band(c, gd), n) for gd, n in f.nested], f.name); r.last = f.last
    return r

def sameghost(a, b):
    if a is b: return True
    if isinstance(a, (tuple, list)) and type(a) == type(b): return len(a) == len(b) and all(sameghost(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(sameghost(a[k], b[k]) for k in a)
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)): return type(a) == type(b) and a == b
    try: return same(a, b)
    except Exception: return False

def merge(ex, A, B, live, extra=()):
    """A, B = (state, env); live = ids needed in env"""
    s1, e1 = A; s2, e2 = B
    if s1.lctx != s2.lctx and not all(same(x, y) for x, y in zip(s1.lctx, s2.lctx)): raise NoMerge('ctx')
    i = 0; n = min(len(s1.pc), len(s2.pc))
    while i < n and (s1.pc[i] is s2.pc[i] or s1.pc[i].eq(s2.pc[i])): i += 1
    d1, d2 = s1.pc[i:], s2.pc[i:]
    if not d1 or not d2: raise NoMerge('no condition')
    c1, c2 = z3.And(*d1) if len(d1) > 1 else d1[0], z3.And(*d2) if len(d2) > 1 else d2[0]
    neg = z3.is_not(d2[0]) and d2[0].arg(0).eq(d1[0])
    pos = z3.is_not(d1[0]) and d1[0].arg(0).eq(d2[0])
    b1 = ex.branches(d1) or d1
    c = d1[0] if neg or pos else (z3.And(*b1) if len(b1) > 1 else b1[0])
    st = State(); st.lctx = s1.lctx; st.trace = s1.trace
    st.pc = list(s1.pc[:i])
    if not ((neg or pos) and len(d1) == 1 and len(d2) == 1):
        if neg or pos:
            for d in (d1, d2):
                br = ex.branches(d[1:]); de = [x for x in d[1:] if x.get_id() in ex.derived]
                if br: st.pc.append(z3.Implies(d[0], z3.And(*br) if len(br) > 1 else br[0]))
                if de: f = z3.Implies(d[0], z3.And(*de) if len(de) > 1 else de[0]); ex.derive(f); st.pc.append(f)
        else:
            b2 = ex.branches(d2); bb1 = ex.branches(d1)
            f = z3.Or(c1, c2); taut = False
            if bb1 and b2:
                B1, B2 = z3.And(*bb1), z3.And(*b2)
                q = z3.Solver(); q.set('timeout', 300); q.add(z3.Not(z3.Or(B1, B2)))
                taut = q.check() == z3.unsat
            if taut:
                for B, d in ((B1, d1), (B2, d2)):
                    e = [x for x in d if x.get_id() in ex.derived]
                    if e: f = z3.Implies(B, z3.And(*e)); ex.derive(f); st.pc.append(f)
            else: st.pc.append(f)
    i = 0; n = min(len(s1.facts), len(s2.facts))
    while i < n and s1.facts[i] is s2.facts[i]: i += 1
    st.facts = list(s1.facts[:i]) + [guard(f, c1) for f in s1.facts[i:]] + [guard(f, c2) for f in s2.facts[i:]]
    env = {}
    for k in live:
        if k in e1 and k in e2: env[k] = mval(ex, c, e1[k], e2[k])
        elif k in e1: env[k] = e1[k]
        elif k in e2: env[k] = e2[k]
    for o in list(s1.mem) + [o for o in s2.mem if o not in s1.mem]:
        a, b = s1.mem.get(o), s2.mem.get(o)
        if a is b: st.mem[o] = a; continue
        if a is None or b is None:
            x = a or b
            if not (o.lazy or o.origin): st.mem[o] = x; continue      # born on one path
            y = OS(epoch=x.epoch)
            if x.arr is not None or x.freed or x.size is not None or x.epoch:
                if x.arr is not None and not x.freed and isinstance(x.arr, ABase) and (x.size is None): st.mem[o] = x; continue
                raise NoMerge('lazy object materialised')
            a, b = (x, y) if a is not None else (y, x)
        st.mem[o] = mos(ex, o, c, a, b)
    for k in set(s1.bheap) | set(s2.bheap):
        a, b = s1.bheap.get(k), s2.bheap.get(k)
        if a is None: a = ex.lazy.get(('bheap', k))
        if b is None: b = ex.lazy.get(('bheap', k))
        if a is b: st.bheap[k] = a
        elif a is None or b is None: raise NoMerge('heap')
        else: st.bheap[k] = AIte(c, a, b)
    for k in set(s1.ghost) | set(s2.ghost):
        if k not in s1.ghost or k not in s2.ghost: raise NoMerge('ghost %r' % (k,))
        a, b = s1.ghost[k], s2.ghost[k]
        if sameghost(a, b): st.ghost[k] = a
        elif isinstance(a, FArr) and isinstance(b, FArr): st.ghost[k] = AIte(c, a, b)
        elif isinstance(a, (tuple, list, dict, set, str)) or isinstance(b, (tuple, list, dict, set, str)) or isinstance(a, bool) or isinstance(b, bool): raise NoMerge('ghost %r' % (k,))
        else: st.ghost[k] = mval(ex, c, a, b)
    return st, env

def mos(ex, o, c, a, b):
    if a.freed != b.freed or a.epoch != b.epoch or a.zero != b.zero: raise NoMerge('object state')
    if (a.arr is None) != (b.arr is None) or a.esz != b.esz: raise NoMerge('array/cells')
    size = a.size
    if a.size is not b.size:
        if a.size is None or b.size is None: raise NoMerge('size')
        size = mval(ex, c, a.size, b.size)
    r = a.w(size=size)
    if a.arr is not None:
        r.arr = a.arr if a.arr is b.arr else AIte(c, a.arr, b.arr); return r
    cells = {}
    for off in set(a.cells) | set(b.cells):
        x, y = a.cells.get(off), b.cells.get(off)
        if x is None or y is None:
            z = x or y
            if o.lazy or o.origin:
                lz = ex.lazy.get((o.id, off, a.epoch))
                if lz is None: raise NoMerge('cell')
                x, y = x or (z[0], lz), y or (z[0], lz)
            else: cells[off] = z; continue       # uninitialised on the other path
        if x[0] != y[0]: raise NoMerge('cell width')
        cells[off] = (x[0], mval(ex, c, x[1], y[1]))
    r.cells = cells
    return r

def sibling(ex, s1, s2):
    """the two path conditions differ by one branch condition and its negation"""
    i = 0; n = min(len(s1.pc), len(s2.pc))
    while i < n and (s1.pc[i] is s2.pc[i] or s1.pc[i].eq(s2.pc[i])): i += 1
    b1, b2 = ex.branches(s1.pc[i:]), ex.branches(s2.pc[i:])
    if len(b1) != 1 or len(b2) != 1: return False
    x, y = b1[0], b2[0]
    return (z3.is_not(x) and x.arg(0).eq(y)) or (z3.is_not(y) and y.arg(0).eq(x))

def merge_all(ex, items, live):
    """items: list of (state, env, tag); returns a merged list"""
    out = [it[:2] for it in items]; bad = set()
    while len(out) > 1:
        pairs = [(i, j) for j in range(len(out)) for i in range(j - 1, -1, -1) if (id(out[i][0]), id(out[j][0])) not in bad]
        if not pairs: break
        sib = next((p for p in pairs if sibling(ex, out[p[0]][0], out[p[1]][0])), None)
        i, j = sib or pairs[0]
        try: m = merge(ex, out[i], out[j], live)
        except NoMerge as e:
            if getattr(ex, 'merge_debug', False): print('nomerge', e, ex.curwhere)
            bad.add((id(out[i][0]), id(out[j][0]))); continue
        out[j] = m; out.pop(i)
    return out
