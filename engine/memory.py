"""Symbolic memory: objects with concrete-offset cells, or functional arrays (FArr)."""
import z3
from terms import *

class Obj:
    _n = 0
    __slots__ = ('id', 'name', 'nullc', 'lazy', 'origin', 'cls', 'addr', 'heap', 'tag', 'fieldname')
    def __init__(s, name, lazy=False, nullc=False, origin=None, heap=False):
        Obj._n += 1; s.id = Obj._n; s.name = name; s.lazy = lazy; s.nullc = nullc; s.origin = origin; s.cls = None; s.heap = heap; s.tag = None
        s.addr = None; s.fieldname = None
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class P:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return 'NULL' if s.obj is None else '&%s+%s' % (s.obj.name, s.off)
NULL = P(None, 0)

class SymP:
    """pointer whose target is only known by a symbolic address (Burstall heap)"""
    __slots__ = ('addr', 'off')
    def __init__(s, addr, off=0): s.addr, s.off = addr, off
    def __repr__(s): return '*(%s)+%s' % (s.addr, s.off)

class FnP:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return 'fn:' + s.name

class Agg:
    __slots__ = ('vals',)
    def __init__(s, vals): s.vals = list(vals)

def isptr(v): return isinstance(v, (P, SymP, FnP))

# ---------------- functional arrays -------------------
class FArr:
    kind = 'real'
    def read(self, i): raise NotImplementedError

class ABase(FArr):
    """uninterpreted contents fn(*ctx, i)"""
    def __init__(s, kind, name, ctx=()):
        s.kind = kind; s.name = name; s.ctx = tuple(ctx)
        s.fn = z3.Function(name, *([I] * (len(s.ctx) + 1)), sort_of(kind))
    def read(s, i): return s.fn(*[zi(c) for c in s.ctx], zi(i))

class AConst(FArr):
    def __init__(s, kind, v): s.kind, s.v = kind, v
    def read(s, i): return s.v

class AStore(FArr):
    def __init__(s, prev, i, v): s.prev, s.i, s.v, s.kind = prev, i, v, prev.kind
    def read(s, i):
        c = ieq(i, s.i)
        if c is True: return s.v
        p = s.prev.read(i)
        return ite(c, s.v, p)

class ACopy(FArr):
    """prev with [lo,lo+n) replaced by src[slo..]"""
    def __init__(s, prev, lo, n, src, slo): s.prev, s.lo, s.n, s.src, s.slo, s.kind = prev, lo, n, src, slo, src.kind
    def read(s, i):
        c = band(ile(s.lo, i), ilt(i, iadd(s.lo, s.n)))
        c = simp(c) if isz(c) else c
        if c is False: return s.prev.read(i)
        v = s.src.read(iadd(isub(i, s.lo), s.slo))
        if c is True: return v
        return ite(c, v, s.prev.read(i))

class AMap(FArr):
    """prev with value val(i) wherever cond(i)"""
    def __init__(s, prev, cond, val): s.prev, s.cond, s.val, s.kind = prev, cond, val, prev.kind
    def read(s, i):
        c = s.cond(i)
        c = simp(c) if isz(c) else c
        if c is False: return s.prev.read(i)
        if c is True: return s.val(i)
        return ite(c, s.val(i), s.prev.read(i))

class AFun(FArr):
    def __init__(s, kind, f): s.kind, s.f = kind, f
    def read(s, i): return s.f(i)

class AIte(FArr):
    def __init__(s, c, a, b): s.c, s.a, s.b, s.kind = c, a, b, a.kind
    def read(s, i): return ite(s.c, s.a.read(i), s.b.read(i))

class OS:
    """object state, immutable"""
    __slots__ = ('size', 'cells', 'arr', 'esz', 'freed', 'zero', 'epoch', 'init')
    def __init__(s, size=None, cells=None, arr=None, esz=None, freed=False, zero=(), epoch=0, init=None):
        s.size, s.cells, s.arr, s.esz, s.freed, s.zero, s.epoch, s.init = size, cells or {}, arr, esz, freed, zero, epoch, init
    def w(s, **kw):
        n = OS(s.size, s.cells, s.arr, s.esz, s.freed, s.zero, s.epoch, s.init)
        for k, v in kw.items(): setattr(n, k, v)
        return n

class State:
    __slots__ = ('pc', 'facts', 'mem', 'bheap', 'ghost', 'lctx', 'trace')
    def __init__(s): s.pc = []; s.facts = []; s.mem = {}; s.bheap = {}; s.ghost = {}; s.lctx = (); s.trace = ()
    def copy(s):
        n = State(); n.pc = list(s.pc); n.facts = list(s.facts); n.mem = dict(s.mem); n.bheap = dict(s.bheap); n.ghost = dict(s.ghost); n.lctx = s.lctx; n.trace = s.trace
        return n
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, bool):
                if not f: s.pc.append(z3.BoolVal(False))
            elif not z3.is_true(f): s.pc.append(f)
