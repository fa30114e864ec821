"""Deductive symbolic executor over LLVM IR (VeriFast style): every path of a function body
is executed symbolically against its contract; loops are cut by inferred invariants
(closed forms proved by induction, and definitional history facts); calls use contracts
or, for helpers without one, are executed in place."""
import re, sys, time, z3
from fractions import Fraction
from terms import *
from memory import *
from prover import Prover, Forall, Fold, occurs, apps, nonlin1
import llvmir, merge

MAXPATHS = 4000

def leaves(t, cond=None, out=None):
    """[(condition, int)] when t is an if-then-else tree over integer constants, else None"""
    top = out is None
    if top: out = []
    cond = z3.BoolVal(True) if cond is None else cond
    if isinstance(t, int): out.append((cond, t)); return out
    if z3.is_int_value(t): out.append((cond, t.as_long())); return out
    if z3.is_app_of(t, z3.Z3_OP_ITE) and len(out) < 16:
        a = leaves(t.arg(1), z3.And(cond, t.arg(0)), out)
        if a is None: return None
        return leaves(t.arg(2), z3.And(cond, z3.Not(t.arg(0))), out)
    return None

class Outcome:
    __slots__ = ('kind', 'st', 'val', 'env', 'blk', 'prev', 'info')
    def __init__(s, kind, st, val=None, env=None, blk=None, prev=None, info=None):
        s.kind, s.st, s.val, s.env, s.blk, s.prev, s.info = kind, st, val, env, blk, prev, info

class Obl:
    __slots__ = ('name', 'kind', 'status', 'where', 'model', 'time', 'detail', 'pc', 'goal')
    def __init__(s, name, kind, status, where, model=None, t=0.0, detail=''):
        s.name, s.kind, s.status, s.where, s.model, s.time, s.detail = name, kind, status, where, model, t, detail
        s.pc = None; s.goal = None

class Ctx:
    """per-function execution context"""
    __slots__ = ('fn', 'depth', 'loopstack')
    def __init__(s, fn, depth): s.fn, s.depth = fn, depth

class Executor:
    def __init__(self, mod, layouts=None, vtables=None, timeout_ms=10000):
        self.m = mod
        self.layouts = layouts or {}
        self.vt = vtables or {}
        self.prover = Prover(timeout_ms)
        self.n = 0
        self.lazy = {}
        self.obls = []
        self.sink = True            # record obligations?
        self.models = []            # (compiled regex, handler)
        self._mcache = {}
        self.merge = False; self.nmerged = 0
        self.vmodels = {}           # 'Class::method' -> handler
        self.globobj = {}
        self.trusted = set()        # contracts assumed on dependencies
        self.stepped = set()        # functions executed in place
        self.npaths = 0; self.fcount = 0
        self.assume_noalias = True
        self.curwhere = ''
        self.deadline = None
        self.unsup = []
        self.fpinf = z3.Real('fp_inf')
        self.loopstats = []
        self.symvt = {}; self.derived = {}

    # ---------------------------------------------------------------- fresh symbols
    def fresh(self, st, kind, name='v', once=False):
        # symbols drawn by models inside a loop body get the same name each time the body is re-executed
        # during loop analysis (fcount is rewound); once=True: never reused
        if once: self.n += 1; nm = '%s!%d' % (name, self.n)
        else: self.fcount += 1; nm = '%s!f%d' % (name, self.fcount)
        ctx = st.lctx if st is not None else ()
        if not ctx: return z3.Const(nm, sort_of(kind))
        return z3.Function(nm, *([I] * len(ctx)), sort_of(kind))(*[zi(c) for c in ctx])

    def fresh_arr(self, st, kind, name='arr'):
        self.n += 1
        return ABase(kind, '%s!%d' % (name, self.n), st.lctx if st is not None else ())

    def new_obj(self, st, name, size=None, arr=None, esz=None, heap=False, cells=None, zero=()):
        o = Obj(name, heap=heap); st.mem[o] = OS(size=size, arr=arr, esz=esz, cells=cells, zero=zero)
        return o

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, kind, detail='', soft=False):
        """check goal under st; returns True if proved"""
        if isinstance(goal, bool) and goal:
            if self.sink: self.record(kind, 'proved', detail, None, 0.0)
            return True
        if not self.sink:
            self.derive(goal); st.assume(goal); return True
        t = time.time()
        r, m = self.prover.prove(st.pc, st.facts, goal)
        o = self.record(kind, r, detail, m, time.time() - t)
        if r != 'proved':
            o.pc = list(st.pc); o.goal = goal
        if r == 'proved' or isz(goal): self.derive(goal); st.assume(goal)
        return r == 'proved'

    def derive(self, f):
        """f is a consequence (an obligation), not a branch condition: left out of path guards"""
        if isz(f): self.derived[f.get_id()] = f
    def branches(self, pc): return [f for f in pc if f.get_id() not in self.derived]

    def record(self, kind, status, detail, model, t):
        o = Obl('%s' % (self.curwhere), kind, status, self.curwhere, model, t, detail)
        self.obls.append(o); return o

    def feasible(self, st, extra=None, timeout=600):
        fs = list(st.pc)
        if extra is not None:
            if isinstance(extra, bool):
                if not extra: return False
            else: fs.append(extra)
        for f in fs:
            if z3.is_false(f): return False
        s = z3.Solver(); s.set('timeout', timeout)
        fs = [f for f in fs if not nonlin1(f)]; s.add(*fs)
        t = time.time(); r = s.check(); self.prover.solver_time += time.time() - t; self.prover.queries += 1
        if r == z3.unsat: return False
        if st.facts:
            inst = self.prover.instantiate(fs, st.facts, rounds=2, cap=150)
            inst = [f for f in inst if not nonlin1(f)]
            if inst:
                s.add(*inst); t = time.time(); r = s.check(); self.prover.solver_time += time.time() - t; self.prover.queries += 1
                if r == z3.unsat: return False
        return True

    def split(self, st, cond):
        """[(st_true),(st_false)] feasible ones (None when infeasible)"""
        cond = simp(cond) if isz(cond) else cond
        if isinstance(cond, bool): return (st, None) if cond else (None, st)
        a = self.feasible(st, cond); b = self.feasible(st, z3.Not(cond))
        sa = sb = None
        if a and b:
            sa = st.copy(); sa.pc.append(cond); sb = st; sb.pc.append(z3.Not(cond))
        elif a: sa = st; sa.pc.append(cond)
        elif b: sb = st; sb.pc.append(z3.Not(cond))
        return sa, sb

    # ---------------------------------------------------------------- memory access
    def kind_of_ty(self, ty):
        if ty.kind == 'int': return 'int'
        if ty.kind in ('double', 'float', 'x86_fp80'): return 'real'
        if ty.kind == 'ptr': return 'ptr'
        raise Unsupported('type %s' % ty.kind)

    def addr(self, p):
        if isinstance(p, P):
            if p.obj is None: return p.off if isinstance(p.off, int) else p.off
            if p.obj.addr is None: p.obj.addr = z3.Int('addr_%s_%d' % (p.obj.name, p.obj.id))
            return iadd(p.obj.addr, p.off)
        if isinstance(p, SymP): return iadd(p.addr, p.off)
        if isinstance(p, FnP): return z3.Int('fnaddr_' + p.name)
        if isinstance(p, int) or isz(p): return p
        raise Unsupported('addr of %r' % (p,))

    def lazyval(self, obj, off, ty, os):
        key = (obj.id, off, os.epoch)
        k = self.kind_of_ty(ty)
        v = self.lazy.get(key)
        if v is not None: return v
        nm = '%s.%s' % (obj.name, self.fieldname(obj, off))
        if os.epoch: nm += '@%d' % os.epoch
        if k == 'int': v = z3.Int(nm)
        elif k == 'real': v = z3.Real(nm)
        else:
            o = Obj(nm, lazy=True, origin=(obj, off)); o.nullc = z3.Bool('null(%s)' % nm); v = P(o, 0)
        self.lazy[key] = v
        return v

    def fieldname(self, obj, off):
        if obj.cls and obj.cls in self.layouts:
            for n, (o, t) in self.layouts[obj.cls].items():
                if o == off: return n
        return '+%s' % off

    def os(self, st, obj):
        r = st.mem.get(obj)
        if r is None:
            if obj.lazy or obj.origin: r = OS()
            else: raise Unsupported('no state for %r' % obj)
            st.mem[obj] = r
        return r

    def chk_access(self, st, p, nbytes, what):
        obj = p.obj
        os = self.os(st, obj)
        if os.freed: self.oblige(st, False, 'memory', '%s of freed %s' % (what, obj.name))
        if isz(obj.nullc) and not obj.origin:
            self.oblige(st, bnot(obj.nullc), 'memory', '%s through possibly null %s' % (what, obj.name))
        if os.size is not None:
            g = band(ile(0, p.off), ile(iadd(p.off, nbytes), os.size))
            if not (isinstance(g, bool) and g):
                self.oblige(st, g, 'memory', '%s in bounds of %s' % (what, obj.name))

    def load(self, st, p, ty):
        if isinstance(p, SymP): return self.bload(st, p, ty)
        if not isinstance(p, P): raise Unsupported('load through %r' % (p,))
        if p.obj is None: 
            self.oblige(st, False, 'memory', 'null dereference (load)')
            raise Unsupported('null load')
        obj = p.obj
        if ty.kind in ('struct', 'array'):
            raise Unsupported('aggregate load')
        n = ty.size
        if obj.tag and obj.tag[0] == 'global': return self.gload(st, obj, p.off, ty)
        self.chk_access(st, p, n, 'load')
        os = self.os(st, obj)
        k = self.kind_of_ty(ty)
        off = p.off
        if os.arr is not None:
            return self.aread(st, obj, os, off, n, k, ty)
        if isinstance(off, int):
            c = os.cells.get(off)
            if c is not None:
                v = c[1]
                if c[0] != n:
                    if isinstance(v, int) and v == 0: return 0
                    raise Unsupported('size-mismatched load from %s+%d' % (obj.name, off))
                return self.coerce(st, v, k)
            for (lo, hi) in os.zero:
                if lo <= off and off + n <= hi:
                    return NULL if k == 'ptr' else Fraction(0) if k == 'real' else 0
            for o2, c2 in os.cells.items():
                if isinstance(o2, int) and o2 < off + n and off < o2 + c2[0]: raise Unsupported('overlapping load %s+%d' % (obj.name, off))
            if obj.lazy:
                v = self.lazyval(obj, off, ty, os)
                if k == 'int' and ty.width in (8, 32):
                    lo, hi = (-2**31, 2**31 - 1) if ty.width == 32 else (0, 255)
                    kk = ('rng', obj.id, off)
                    st.assume(v >= lo, v <= hi)
            elif os.init is not None: v = os.init(off, ty)
            else:
                v = self.fresh(st, k, 'uninit_' + obj.name, once=True)
                if k == 'ptr': v = SymP(v)
            cells = dict(os.cells); cells[off] = (n, v); st.mem[obj] = os.w(cells=cells)
            return v
        # one of several known fields
        if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_ITE and leaves(off) and k != 'ptr':
            return ite(off.arg(0), self.load(st, P(obj, norm(off.arg(1))), ty), self.load(st, P(obj, norm(off.arg(2))), ty))
        # symbolic offset on an object with no array state: turn it into an array
        os = self.to_array(st, obj, os, n, k)
        return self.aread(st, obj, os, off, n, k, ty)

    def to_array(self, st, obj, os, n, k):
        if os.cells:
            if any(c[0] != n or not isinstance(o, int) for o, c in os.cells.items()): raise Unsupported('mixed access to %s' % obj.name)
        if obj.lazy:
            key = (obj.id, 'arr', os.epoch, k)
            arr = self.lazy.get(key)
            if arr is None:
                arr = ABase(k, '%s@%d' % (obj.name, os.epoch) if os.epoch else obj.name); self.lazy[key] = arr
        elif os.zero: arr = AConst(k, NULL if k == 'ptr' else Fraction(0) if k == 'real' else 0)
        else: arr = self.fresh_arr(st, k, obj.name)
        for o, c in sorted(os.cells.items()):
            if not (obj.lazy and self.lazy.get((obj.id, o, os.epoch)) is c[1]): arr = AStore(arr, o // n, self.toarrval(c[1], k))
            else: st.assume(veq(arr.read(o // n), self.toarrval(c[1], k)))
        os = os.w(arr=arr, esz=n, cells={}); st.mem[obj] = os
        return os

    def toarrval(self, v, k):
        if k == 'ptr': return self.addr(v) if isptr(v) else v
        return v

    def fromaddr(self, st, a):
        a = simp(a)
        if isinstance(a, int) and a == 0: return NULL
        if isz(a):
            c, d = lin(a)
            if len(d) == 1:
                (tm, co), = d.values()
                if co == 1:
                    for o in st.mem:
                        if o.addr is not None and o.addr.eq(tm): return P(o, c)
        return SymP(a)

    def aread(self, st, obj, os, off, n, k, ty):
        if os.esz != n:
            raise Unsupported('element size mismatch reading %s (%s vs %s)' % (obj.name, os.esz, n))
        if not divisible(off, n):
            raise Unsupported('unaligned index into %s: %s' % (obj.name, off))
        v = os.arr.read(idivexact(off, n))
        h = self.elemfact.get(obj) if hasattr(self, 'elemfact') else None
        if h: st.assume(*h(idivexact(off, n), v))
        if k == 'ptr': return v if isptr(v) else self.fromaddr(st, v)
        if k == 'int' and isz(v) and z3.is_bool(v): return toint(v)
        return v

    def coerce(self, st, v, k):
        if k == 'ptr' and not isptr(v): return self.fromaddr(st, v)
        return v

    def store(self, st, p, v, ty):
        if isinstance(p, SymP): return self.bstore(st, p, v, ty)
        if not isinstance(p, P): raise Unsupported('store through %r' % (p,))
        if p.obj is None:
            self.oblige(st, False, 'memory', 'null dereference (store)')
            raise Unsupported('null store')
        obj = p.obj; n = ty.size
        if ty.kind in ('struct', 'array'):
            raise Unsupported('aggregate store')
        if obj.tag and obj.tag[0] == 'global': self.gobj_mutable(st, obj)
        self.chk_access(st, p, n, 'store')
        os = self.os(st, obj); k = self.kind_of_ty(ty); off = p.off
        if k == 'int' and ty.width == 1: v = toint(v)
        if os.arr is None and isinstance(off, int):
            cells = dict(os.cells)
            for o2 in list(cells):
                if isinstance(o2, int) and o2 != off and o2 < off + n and off < o2 + cells[o2][0]: del cells[o2] ; raise Unsupported('overlapping store %s+%d' % (obj.name, off))
            cells[off] = (n, v)
            st.mem[obj] = os.w(cells=cells); return
        if os.arr is None: os = self.to_array(st, obj, os, n, k)
        if os.esz != n: raise Unsupported('element size mismatch writing %s (%s vs %s)' % (obj.name, os.esz, n))
        if not divisible(off, n): raise Unsupported('unaligned write into %s' % obj.name)
        st.mem[obj] = os.w(arr=AStore(os.arr, idivexact(off, n), self.toarrval(v, k)))

    # Burstall heap
    def bkey(self, st, off, k):
        key = (off, k)
        a = st.bheap.get(key)
        if a is None:
            a = self.lazy.get(('bheap', key))
            if a is None:
                a = ABase(k, 'heap_%s_%s' % (off, k)); self.lazy[('bheap', key)] = a
            st.bheap[key] = a
        return a
    def bload(self, st, p, ty):
        k = self.kind_of_ty(ty)
        if not isinstance(p.off, int): raise Unsupported('symbolic offset on symbolic pointer')
        v = self.bkey(st, p.off, k).read(p.addr)
        if k == 'ptr': return self.fromaddr(st, v)
        return v
    def bstore(self, st, p, v, ty):
        k = self.kind_of_ty(ty)
        if not isinstance(p.off, int): raise Unsupported('symbolic offset on symbolic pointer')
        a = self.bkey(st, p.off, k)
        st.bheap[(p.off, k)] = AStore(a, p.addr, self.toarrval(v, k))

    # globals
    def gobj(self, name):
        o = self.globobj.get(name)
        if o is None:
            o = Obj('@' + name, lazy=True); o.tag = ('global', name); self.globobj[name] = o
        return o
    def gobj_mutable(self, st, obj):
        pass
    def gconst(self, v):
        """python value of an llvm constant ref"""
        op = self.m.operand(v, {})
        return op
    def gload(self, st, obj, off, ty):
        name = obj.tag[1]
        os = st.mem.get(obj)
        if os is not None and off in os.cells: return os.cells[off][1]
        g = self.m.globrefs.get(name)
        isconst = g and llvmir._L.LLVMIsGlobalConstant(llvmir.V(g)) and llvmir.Init(g)
        if isconst and isinstance(off, int):
            r = self.const_at(llvmir.Init(g), off, ty)
            if r is not None: return r
        os = self.os(st, obj)
        if isinstance(off, int):
            v = self.lazyval(obj, off, ty, os)
            cells = dict(os.cells); cells[off] = (ty.size, v); st.mem[obj] = os.w(cells=cells)
            return v
        raise Unsupported('symbolic index into global ' + name)
    def const_at(self, c, off, ty):
        k = llvmir.VK.get(llvmir.ValueKind(c))
        t = self.m.ty(llvmir.TypeOf(c))
        if k == 'zero': return NULL if ty.kind == 'ptr' else Fraction(0) if ty.kind in ('double', 'float') else 0
        if t.kind == 'struct':
            n = llvmir.StructN(t.ref)
            for i in range(n - 1, -1, -1):
                o = llvmir.OffsetOf(self.m.dl, t.ref, i)
                if o <= off: return self.const_at(llvmir.AggElem(c, i), off - o, ty)
        if t.kind == 'array':
            et = self.m.ty(llvmir.ElemTy(t.ref)); i = off // et.size
            return self.const_at(llvmir.AggElem(c, i), off - i * et.size, ty)
        return self.opval(self.m.operand(c, {}), None, None)

    # memcpy-like on arrays/cells
    def copybytes(self, st, dst, src, n):
        """memmove of n bytes"""
        if isinstance(n, int) and n == 0: return
        if not isinstance(dst, P) or not isinstance(src, P): raise Unsupported('memcpy through symbolic pointer')
        if dst.obj is None or src.obj is None:
            self.oblige(st, ieq(n, 0), 'memory', 'memcpy with null pointer'); return
        if isinstance(n, int):
            self.chk_access(st, src, n, 'memcpy read'); self.chk_access(st, dst, n, 'memcpy write')
        else:
            for p, w in ((src, 'copy read'), (dst, 'copy write')):
                os = self.os(st, p.obj)
                if isz(p.obj.nullc) and not p.obj.origin:
                    self.oblige(st, implies(ilt(0, n), bnot(p.obj.nullc)), 'memory', w + ' through possibly null %s' % p.obj.name)
                if os.freed: self.oblige(st, False, 'memory', w + ' of freed ' + p.obj.name)
                if os.size is not None:
                    self.oblige(st, implies(ilt(0, n), band(ile(0, p.off), ile(iadd(p.off, n), os.size))), 'memory', '%s in bounds of %s' % (w, p.obj.name))
        so, do = self.os(st, src.obj), self.os(st, dst.obj)
        if so.arr is None and isinstance(n, int) and isinstance(src.off, int) and isinstance(dst.off, int) and do.arr is None and n <= 4096 and (so.cells or so.zero or src.obj.lazy):
            if src.obj.lazy and not so.cells and n > 64: raise Unsupported('memcpy of lazily known struct')
            cells = dict(do.cells)
            for o in list(cells):
                if isinstance(o, int) and o >= dst.off and o < dst.off + n: del cells[o]
            for o, c in so.cells.items():
                if isinstance(o, int) and src.off <= o < src.off + n: cells[o - src.off + dst.off] = c
            z = list(do.zero)
            for lo, hi in so.zero:
                lo2, hi2 = max(lo, src.off), min(hi, src.off + n)
                if lo2 < hi2: z.append((lo2 - src.off + dst.off, hi2 - src.off + dst.off))
            st.mem[dst.obj] = do.w(cells=cells, zero=tuple(z)); return
        if so.arr is None:
            esz, k = (do.esz, do.arr.kind) if do.arr is not None else (8, 'real')
            so = self.to_array(st, src.obj, so, esz, k)
        if do.arr is None:
            do = self.to_array(st, dst.obj, self.os(st, dst.obj), so.esz, so.arr.kind)
        if so.esz != do.esz: raise Unsupported('memcpy between different element sizes')
        e = so.esz
        st.mem[dst.obj] = do.w(arr=ACopy(do.arr, idivexact(dst.off, e), idivexact(n, e), so.arr, idivexact(src.off, e)))

    # ---------------------------------------------------------------- operand evaluation
    def opval(self, o, env, args):
        t = o[0]
        if t == 'i': return env[o[1]]
        if t == 'a': return args[o[1]]
        if t == 'int':
            if o[1] == 1: return o[2] != 0
            return o[2]
        if t == 'fp':
            f = o[1]
            if f != f: raise Unsupported('nan constant')
            if f in (float('inf'), float('-inf')): return self.fpinf if f > 0 else -self.fpinf
            return Fraction(f)
        if t == 'null': return NULL
        if t == 'fn': return FnP(o[1])
        if t == 'glob': return P(self.gobj(o[1]), 0)
        if t == 'undef':
            ty = o[1]
            if ty.kind == 'struct': return Agg([None] * llvmir.StructN(ty.ref))
            if ty.kind == 'int' and ty.width == 1: return False
            k = self.kind_of_ty(ty)
            return NULL if k == 'ptr' else Fraction(0) if k == 'real' else 0
        if t == 'zero':
            ty = o[1]
            if ty.kind == 'struct': return Agg([0] * llvmir.StructN(ty.ref))
            raise Unsupported('zeroinitializer operand')
        if t == 'cexpr':
            if o[1] == 'gep':
                base = self.opval(o[2][0], env, args)
                return P(base.obj, iadd(base.off, o[3][0]))
            if o[1] in ('bitcast', 'addrspacecast'): return self.opval(o[2][0], env, args)
            raise Unsupported('constant expression ' + o[1])
        if t == 'md': return ('md', o[1])
        raise Unsupported('operand %r' % (o,))

    # ---------------------------------------------------------------- instruction semantics
    def icmp(self, st, pred, a, b):
        if isptr(a) or isptr(b):
            if pred not in ('eq', 'ne'):
                if isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
                    f = {'ult': ilt(a.off, b.off), 'ule': ile(a.off, b.off), 'ugt': ilt(b.off, a.off), 'uge': ile(b.off, a.off)}.get(pred)
                    if f is not None: return f
                raise Unsupported('pointer order comparison')
            r = self.ptreq(a, b)
            return r if pred == 'eq' else bnot(r)
        if kindof(a) == 'bool' or kindof(b) == 'bool':
            if pred in ('eq', 'ne'):
                r = veq(tobool(a), tobool(b)); return r if pred == 'eq' else bnot(r)
            a, b = toint(a), toint(b)
        if pred == 'eq': return ieq(a, b)
        if pred == 'ne': return bnot(ieq(a, b))
        if pred == 'slt': return ilt(a, b)
        if pred == 'sle': return ile(a, b)
        if pred == 'sgt': return ilt(b, a)
        if pred == 'sge': return ile(b, a)
        # unsigned
        if pred in ('ugt', 'uge'): a, b = b, a; pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
        f = ilt if pred == 'ult' else ile
        if isinstance(a, int) and isinstance(b, int):
            if a >= 0 and b >= 0: return f(a, b)
            if a < 0 and b < 0: return f(a, b)
            return b < 0
        if isinstance(b, int) and b >= 0: return band(ile(0, a), f(a, b))
        if isinstance(a, int) and a >= 0: return bor(ilt(b, 0), f(a, b))
        return z3.If(zi(a) >= 0, zb(bor(ilt(b, 0), f(a, b))), zb(band(ilt(b, 0), f(a, b))))

    def ptreq(self, a, b):
        if isinstance(a, FnP) or isinstance(b, FnP):
            if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
            return False
        if isinstance(a, P) and isinstance(b, P):
            if a.obj is b.obj: return ieq(a.off, b.off)
            if a.obj is None or b.obj is None:
                o = a.obj or b.obj; p = a if a.obj else b
                if isz(o.nullc):
                    return o.nullc
                return o.nullc
            return self.ptreq_objs(a, b)
        return ieq(self.addr(a), self.addr(b))

    def ptreq_objs(self, a, b):
        both = False
        if isz(a.obj.nullc) and isz(b.obj.nullc): both = band(a.obj.nullc, b.obj.nullc)
        return both

    def fcmp(self, pred, a, b):
        if pred == 'true' or pred == 'ord': return True
        if pred == 'false' or pred == 'uno': return False
        p = pred[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        if isz(a) and isz(b) and a.eq(b): return p in ('eq', 'ge', 'le')
        a, b = zr(a), zr(b)
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]

    def binop(self, st, op, ty, a, b):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                if op == 'fadd': return a + b
                if op == 'fsub': return a - b
                if op == 'fmul': return a * b
                if op == 'fdiv' and b != 0: return a / b
            if op == 'fadd':
                if isinstance(a, Fraction) and a == 0: return b
                if isinstance(b, Fraction) and b == 0: return a
                return zr(a) + zr(b)
            if op == 'fsub':
                if isinstance(b, Fraction) and b == 0: return a
                return zr(a) - zr(b)
            if op == 'fmul':
                if isinstance(a, Fraction) and a == 1: return b
                if isinstance(b, Fraction) and b == 1: return a
                if (isinstance(a, Fraction) and a == 0) or (isinstance(b, Fraction) and b == 0): return Fraction(0)
                return zr(a) * zr(b)
            if op == 'fdiv':
                if isinstance(b, Fraction) and b == 1: return a
                return zr(a) / zr(b)
            raise Unsupported(op)
        w = ty.width
        if w == 1 and op in ('and', 'or', 'xor'):
            a, b = tobool(a), tobool(b)
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if isinstance(a, bool): return bnot(b) if a else b
            if isinstance(b, bool): return bnot(a) if b else a
            return z3.Xor(zb(a), zb(b))
        if isptr(a) or isptr(b):
            if op == 'sub':
                if isinstance(a, P) and isinstance(b, P):
                    if a.obj is b.obj: return isub(a.off, b.off)
                    return isub(self.addr(a), self.addr(b))
            if op == 'add' and isinstance(a, P): return P(a.obj, iadd(a.off, b))
            raise Unsupported('pointer arithmetic ' + op)
        a, b = toint(a), toint(b)
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op == 'sdiv': return tdiv(a, b)
        if op == 'udiv':
            if isinstance(b, int) and b > 0: return idivexact(a, b) if divisible(a, b) or isinstance(a, int) else zi(a) / z3.IntVal(b)
            return zi(a) / zi(b)
        if op == 'srem':
            if isinstance(a, int) and isinstance(b, int): return a - b * tdiv(a, b)
            return zi(a) - zi(b) * zi(tdiv(a, b))
        if op == 'urem':
            if isinstance(a, int) and isinstance(b, int): return a % b
            return zi(a) % zi(b)
        if op == 'shl' and isinstance(b, int): return imul(a, 1 << b)
        if op in ('lshr', 'ashr') and isinstance(b, int):
            return idivexact(a, 1 << b) if divisible(a, 1 << b) else zi(a) / z3.IntVal(1 << b)
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == 0: return 0
                if b > 0 and (b & (b + 1)) == 0: return zi(a) % z3.IntVal(b + 1)
        if op == 'or':
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
        if op == 'xor' and isinstance(b, int) and b == -1: return isub(-1, a)
        la, lb = leaves(a), leaves(b)
        if la and lb and len(la) * len(lb) <= 16:      # finitely many concrete values: exact
            r = None
            for ca, va in la:
                for cb, vb in lb:
                    v = {'and': va & vb, 'or': va | vb, 'xor': va ^ vb}[op]
                    r = v if r is None else ite(z3.And(ca, cb), v, r)
            return r
        if op == 'and' and isinstance(b, int) and b > 0 and (b & (b - 1)) == 0: return imul((zi(a) / z3.IntVal(b)) % z3.IntVal(2), b)
        f = z3.Function('bv_%s' % op, I, I, I)
        return f(zi(a), zi(b))

    def cast(self, st, op, inst, v):
        if op in ('bitcast', 'freeze', 'addrspacecast'): return v
        if op == 'zext':
            if isptr(v): return v
            if inst.x.kind == 'int' and inst.x.width == 1: return toint(v)
            if isinstance(v, int): return v if v >= 0 else v + (1 << inst.x.width)
            v = toint(v)
            if inst.x.width == 8: return v
            if self.prove_quick(st, v >= 0): return v
            return z3.If(v >= 0, v, v + (1 << inst.x.width))
        if op == 'sext':
            if inst.x.kind == 'int' and inst.x.width == 1: return ite(tobool(v), -1, 0)
            return v
        if op == 'trunc':
            if isptr(v): return v
            if inst.ty.width == 1: return tobool(v)
            if isinstance(v, int):
                w = inst.ty.width; v &= (1 << w) - 1
                return v - (1 << w) if v >> (w - 1) else v
            return v          # machine arithmetic treated as mathematical
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and not isptr(v): return self.fromaddr(st, v)
            return v
        if op in ('sitofp', 'uitofp'):
            v = toint(v)
            return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Fraction): return int(v)
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if op in ('fptrunc', 'fpext'): return v
        raise Unsupported(op)

    def prove_quick(self, st, g):
        if isinstance(g, bool): return g
        s = z3.Solver(); s.set('timeout', 300); s.add(*st.pc); s.add(z3.Not(g))
        t = time.time(); r = s.check(); self.prover.solver_time += time.time() - t; self.prover.queries += 1
        return r == z3.unsat

    # ---------------------------------------------------------------- running
    def exec_fn(self, st, name, args, depth=0):
        """-> list of Outcome kind ret/throw"""
        if depth > 40: raise Unsupported('call depth (recursion) at ' + name)
        fn = self.m.fn(name)
        if not fn.blocks: raise Unsupported('no body for ' + fn.dem)
        ctx = Ctx(fn, depth)
        return self.run(ctx, args, [(st, {}, 0, -1)], None)

    def run(self, ctx, args, work, loop):
        """loop = (header, bodyset) or None. Executes until outcomes."""
        outs = []
        work = [('goto',) + w for w in work]
        fn = ctx.fn
        rank = {b: i for i, b in enumerate(fn.rpo)} if self.merge else None
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            if rank is not None and len(work) > 1:
                it = self.pick(work, rank, fn, args, loop)
            else: it = work.pop()
            if it[0] == 'goto':
                _, st, env, b, prev = it
                if loop is not None and prev != -2:
                    if b == loop[0]:
                        outs.append(Outcome('back', st, env=env, blk=b, prev=prev)); continue
                    if b not in loop[1]:
                        outs.append(Outcome('exit', st, env=env, blk=b, prev=prev)); continue
                if b in fn.loops and prev != -2:
                    for o in self.do_loop(ctx, args, st, env, b, prev):
                        if o.kind == 'exit': work.append(('goto', o.st, o.env, o.blk, o.prev))
                        else: outs.append(o)
                    continue
                blk = fn.blocks[b]
                if prev >= 0 and blk.phis:
                    vals = [(ph.id, self.opval(ph.x[prev], env, args)) for ph in blk.phis]
                    env = dict(env); env.update(vals)
                idx = 0
            else:
                _, st, env, b, idx = it
                blk = fn.blocks[b]
            n = len(blk.insts)
            while idx < n:
                ins = blk.insts[idx]
                try:
                    r = self.step(ctx, args, st, env, ins, b, work, outs, idx)
                except Unsupported as e:
                    if not hasattr(e, 'loc'):
                        e.loc = '%s:%d' % (fn.dem, ins.line); e.args = ('%s [%s line %d]' % (e.args[0] if e.args else '', fn.dem.split('(')[0], ins.line),)
                    raise
                if r is not None:       # control transferred
                    break
                idx += 1
            if len(outs) + len(work) > MAXPATHS: raise Unsupported('too many paths in ' + fn.dem)
        return outs

    def pick(self, work, rank, fn, args, loop):
        """next item in topological order, with all states waiting at the same point merged"""
        key = lambda w: (-1, -1) if w[0] == 'goto' and w[4] == -2 else (rank.get(w[3], 1 << 30), w[4] if w[0] != 'goto' else -1)
        k = min(key(w) for w in work)
        grp = [w for w in work if key(w) == k]
        work[:] = [w for w in work if key(w) != k]
        if len(grp) == 1 or k[0] == -1 or any(w[0] == 'cont2' for w in grp): work += grp[1:]; return grp[0]
        b = grp[0][3]
        live = merge.liveness(fn)[b]
        if grp[0][0] == 'goto':
            if loop is not None and (b == loop[0] or b not in loop[1]) or b in fn.loops:
                work += grp[1:]; return grp[0]
            blk = fn.blocks[b]; items = []
            for _, st, env, _, prev in grp:
                if prev >= 0 and blk.phis:
                    vals = [(ph.id, self.opval(ph.x[prev], env, args)) for ph in blk.phis]
                    env = dict(env); env.update(vals)
                items.append((st, env))
            live = live | set(ph.id for ph in blk.phis)
            r = merge.merge_all(self, items, live); idx = 0
        else:
            idx = grp[0][4]
            live = live | fn._dfn[b]
            r = merge.merge_all(self, [(w[1], w[2]) for w in grp], live)
        self.nmerged += len(grp) - len(r)
        its = [('cont', st, env, b, idx) for st, env in r]
        # the others at this point run next (same key, never merged again with each other)
        if len(its) > 1: work += [('cont2',) + t[1:] for t in its[1:]]
        return its[0]

    def step(self, ctx, args, st, env, ins, b, work, outs, idx):
        op = ins.op
        ov = lambda k: self.opval(ins.ops[k], env, args)
        self.curwhere = '%s:%d' % (ctx.fn.dem.split('(')[0], ins.line)
        if op == 'br':
            if not ins.ops:
                work.append(('goto', st, env, ins.x[0], b)); return True
            c = tobool(ov(0))
            sa, sb = self.split(st, c)
            if sa is not None and sb is not None:
                self.npaths += 1
                work.append(('goto', sb, dict(env), ins.x[1], b)); work.append(('goto', sa, env, ins.x[0], b))
            elif sa is not None: work.append(('goto', sa, env, ins.x[0], b))
            elif sb is not None: work.append(('goto', sb, env, ins.x[1], b))
            return True
        if op == 'switch':
            v = ov(0); dflt, cases = ins.x
            if kindof(v) == 'bool': v = toint(v)
            if isinstance(v, int):
                for c, t in cases:
                    if c == v: work.append(('goto', st, env, t, b)); return True
                work.append(('goto', st, env, dflt, b)); return True
            byt = {}
            for c, t in cases: byt.setdefault(t, []).append(c)
            for t, cs in byt.items():
                cond = z3.Or(*[v == c for c in cs]) if len(cs) > 1 else v == cs[0]
                if self.feasible(st, cond):
                    s2 = st.copy(); s2.pc.append(cond); work.append(('goto', s2, dict(env), t, b))
            cond = z3.And(*[v != c for c, _ in cases])
            if self.feasible(st, cond):
                s2 = st.copy(); s2.pc.append(cond); work.append(('goto', s2, dict(env), dflt, b))
            return True
        if op == 'ret':
            outs.append(Outcome('ret', st, ov(0) if ins.ops else None)); return True
        if op == 'unreachable':
            return True
        if op == 'resume':
            v = ov(0) if ins.ops else None
            v = v.vals[0] if isinstance(v, Agg) else None
            outs.append(Outcome('throw', st, st.ghost.get(('exc', v.obj.id)) if isinstance(v, P) and v.obj is not None else None)); return True
        if op in ('call', 'invoke'):
            res = self.call(ctx, args, st, env, ins)
            nxt = None
            if op == 'invoke': nxt = ins.x[1][0]
            first = True
            if res is None: return True
            cont = []
            for o in res:
                if o.kind == 'throw':
                    if op == 'invoke':
                        lp = ctx.fn.blocks[ins.x[1][1]]
                        lpi = [i for i in lp.insts if i.op == 'landingpad']
                        if lpi and lpi[0].ops:
                            if not (isinstance(o.val, tuple) and o.val[0]): raise Unsupported('exception of unknown type caught locally')
                            names = [self.opval(q, env, args) for q in lpi[0].ops]
                            names = [q.obj.name.lstrip('@') if isinstance(q, P) and q.obj is not None else '' for q in names]
                            k = [q for q in names if q == o.val[0] or q == '']
                            e2 = dict(env); x = Obj('caught', lazy=True); o.st.mem[x] = OS(); o.st.ghost[('exc', x.id)] = o.val
                            e2[lpi[0].id] = Agg([P(x, 0), self.tid(k[0]) if k else 0])
                            work.append(('goto', o.st, e2, ins.x[1][1], b)); continue
                    outs.append(Outcome('throw', o.st, o.val)); continue
                cont.append(o)
            if op == 'call' and len(cont) == 1 and cont[0].st is st:
                env[ins.id] = cont[0].val; return None
            for o in cont:
                e2 = dict(env); e2[ins.id] = o.val
                if op == 'invoke': work.append(('goto', o.st, e2, nxt, b))
                else: work.append(('cont', o.st, e2, b, idx + 1))
            return True
        if op == 'alloca':
            o = Obj('alloca%d' % ins.id); 
            n = ov(0)
            st.mem[o] = OS(size=imul(n, ins.x.size) if isinstance(n, int) else None)
            env[ins.id] = P(o, 0); return None
        if op == 'load':
            env[ins.id] = self.load(st, ov(0), ins.ty)
            if ins.ty.kind == 'int' and ins.ty.width == 1: env[ins.id] = tobool(env[ins.id])
            return None
        if op == 'store':
            self.store(st, ov(1), ov(0), ins.x); return None
        if op == 'gep':
            base = ov(0); off, terms, _ = ins.x
            for o, stride in terms:
                v = self.opval(o, env, args)
                off = iadd(off, imul(toint(v), stride))
            if isinstance(base, P): env[ins.id] = P(base.obj, iadd(base.off, off))
            elif isinstance(base, SymP):
                env[ins.id] = SymP(base.addr, iadd(base.off, off))
            else: raise Unsupported('gep on %r' % (base,))
            return None
        if op == 'icmp': env[ins.id] = self.icmp(st, ins.x, ov(0), ov(1)); return None
        if op == 'fcmp': env[ins.id] = self.fcmp(ins.x, ov(0), ov(1)); return None
        if op == 'fneg':
            v = ov(0); env[ins.id] = -v if isinstance(v, Fraction) else -zr(v); return None
        if op == 'select':
            c = tobool(ov(0)); a, d = ov(1), ov(2)
            if isinstance(c, bool): env[ins.id] = a if c else d; return None
            if isptr(a) or isptr(d):
                if isinstance(a, P) and isinstance(d, P) and a.obj is d.obj: env[ins.id] = P(a.obj, ite(c, a.off, d.off)); return None
                sa, sb = self.split(st, c)
                if sa is not None and sb is not None:
                    e2 = dict(env); e2[ins.id] = d; work.append(('cont', sb, e2, b, idx + 1))
                    env[ins.id] = a; work.append(('cont', sa, env, b, idx + 1)); return True
                env[ins.id] = a if sa is not None else d; return None
            env[ins.id] = ite(c, a, d); return None
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext', 'bitcast', 'freeze'):
            env[ins.id] = self.cast(st, op, ins, ov(0)); return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[ins.id] = self.binop(st, op, ins.ty, ov(0), ov(1)); return None
        if op == 'extractvalue':
            v = ov(0)
            for i in ins.x: v = v.vals[i]
            env[ins.id] = v; return None
        if op == 'insertvalue':
            v = ov(0); a = Agg(v.vals); a.vals[ins.x[0]] = ov(1); env[ins.id] = a; return None
        if op == 'landingpad':
            if ins.id in env: return None   # a modelled exception arrives here
            return True   # only reached by unwinding, which is modelled at the invoke
        raise Unsupported('instruction ' + op)

    # ---------------------------------------------------------------- calls
    def model_for(self, dem):
        r = self._mcache.get(dem, 0)
        if r != 0: return r
        r = None
        for rx, h in self.models:
            if rx.match(dem): r = h; break
        self._mcache[dem] = r
        return r

    def add_model(self, rx, h): self.models.insert(0, (re.compile(rx), h)); self._mcache.clear()

    def call(self, ctx, args, st, env, ins):
        cal, _ = ins.x
        vals = None
        if cal[0] == 'fn': name = cal[1]
        else:
            f = self.opval(cal, env, args)
            if isinstance(f, FnP): name = f.name
            elif isinstance(f, P) and f.obj is not None and f.obj.origin is not None:
                vt, off = f.obj.origin
                if f.obj.cls is None and vt.cls is None: raise Unsupported('indirect call through unknown vtable')
                return self.virtual_call(ctx, st, [self.opval(o, env, args) for o in ins.ops], vt, off, ins)
            elif isinstance(f, SymP) and isz(f.addr) and z3.is_app(f.addr) and re.match(r'heap_\d+_ptr$', f.addr.decl().name()) and str(f.addr.arg(0)) in self.symvt:
                class VT: pass
                vt = VT(); vt.cls = self.symvt[str(f.addr.arg(0))]
                return self.virtual_call(ctx, st, [self.opval(o, env, args) for o in ins.ops], vt, int(f.addr.decl().name().split('_')[1]), ins)
            else: raise Unsupported('indirect call %r' % (f,))
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, [self.opval(o, env, args) for o in ins.ops], ins)
        a = [self.opval(o, env, args) for o in ins.ops]
        return self.call_named(ctx, st, name, a, ins)

    def call_named(self, ctx, st, name, a, ins):
        dem = self.m.dem.get(name, name)
        h = self.model_for(dem)
        if h is not None:
            w = self.curwhere
            r = h(self, st, a, ins, dem, ctx)
            if r is not NotImplemented:
                return self.wrap(st, r)
        if self.m.has_body(name):
            self.stepped.add(dem)
            w = self.curwhere
            r = self.exec_fn(st, name, a, ctx.depth + 1)
            self.curwhere = w
            return r
        for rx, h in getattr(self, 'extrx', ()):   # contracts of external functions without a body here
            if rx.match(dem):
                self.trusted.add(dem)
                return self.wrap(st, h(self, st, a, ins, dem, ctx))
        raise Unsupported('no contract for external function ' + dem)

    def tid(self, name):
        d = self.__dict__.setdefault('_tids', {})
        return d.setdefault(name, len(d) + 1)
    def wrap(self, st, r):
        if r is None: return [Outcome('ret', st, None)]
        if isinstance(r, list):
            return [x if isinstance(x, Outcome) else Outcome('ret', x[0], x[1]) for x in r]
        if isinstance(r, tuple) and len(r) == 1: return [Outcome('ret', st, r[0])]
        return [Outcome('ret', st, r)]

    def virtual_call(self, ctx, st, a, vt, off, ins):
        cls = vt.cls; slot = off // 8
        meth = self.slot(cls, slot)
        th = a[0]
        exact = isinstance(th, P) and th.obj is not None and th.obj.cls and isinstance(th.off, int) and th.off == 0
        if exact:
            m2 = self.slot(th.obj.cls, slot)
            if m2: meth = m2
        if meth is None: raise Unsupported('virtual slot %s[%d] unknown' % (cls, slot))
        h = self.vmodels.get(meth) or self.vmodel_rx(meth)
        if h is None and exact:
            c = [d for d in self.m.bydem if d.startswith(meth + '(') and self.m.has_body(self.m.bydem[d][0])]
            c = [d for d in c if len(self.m.fn(self.m.bydem[d][0]).params) == len(a)]
            if len(c) == 1: return self.call_named(ctx, st, self.m.bydem[c[0]][0], a, ins)
        if h is None: raise Unsupported('no contract for virtual function ' + meth)
        self.trusted.add('virtual ' + meth)
        return self.wrap(st, h(self, st, a, ins, meth, ctx))
    def slot(self, cls, slot):
        if cls.startswith('_ZTS'):
            r = self.vt.get((cls, slot))
            if r: return r
            cls = self.ts_cls.get(cls)
            if cls is None: return None
        else:
            r = self.vt.get((self.mangle(cls), slot))
            if r: return r
        for f, (off, ty) in self.layouts.get(cls, {}).items():
            if off == 0 and f.startswith('<base:'):
                r = self.slot(ty, slot)
                if r: return r
        return None
    def isa(self, cls, ti):
        """class cls is/derives from the class of typeinfo symbol ti? None when unknown"""
        t = self.ts_cls.get('_ZTS' + ti.lstrip('@')[4:])
        if t is None: return None
        seen = set(); st = [cls]
        while st:
            c = st.pop()
            if c == t: return True
            if c in seen: continue
            seen.add(c)
            st += [ty for f, (o, ty) in self.layouts.get(c, {}).items() if f.startswith('<base:')]
        return False
    def vmodel_rx(self, meth):
        for rx, h in getattr(self, 'vrx', ()):
            if rx.match(meth): return h
        return None

    def intrinsic(self, st, name, a, ins):
        R1 = lambda v: [Outcome('ret', st, v)]
        if name.startswith('llvm.lifetime'):
            q = a[-1] if a else None
            if isinstance(q, P) and q.obj is not None and q.obj.name.startswith('alloca') and q.off == 0 and q.obj in st.mem: st.mem[q.obj] = OS(size=st.mem[q.obj].size)
            return R1(None)
        if name.startswith(('llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.va_')): return R1(None)
        if name.startswith('llvm.stacksave'): return R1(NULL)
        if name.startswith(('llvm.type.test', 'llvm.public.type.test')):
            vt = a[0]
            cls = a[1][1]
            if isinstance(vt, P) and vt.obj is not None and vt.obj.cls is None and vt.obj.origin is not None: vt.obj.cls = cls
            elif isinstance(vt, SymP): self.symvt[str(self.addr(vt))] = cls
            return R1(True)
        if name.startswith('llvm.fabs'):
            v = a[0]
            if isinstance(v, Fraction): return R1(abs(v))
            return R1(z3.If(v >= 0, v, -v))
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copybytes(st, a[0], a[1], a[2]); return R1(None)
        if name.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2]); return R1(None)
        if name.startswith('llvm.floor'): return R1(self.floor(a[0]))
        if name.startswith('llvm.ceil'):
            v = self.floor(-a[0]); return R1(-v)
        if name.startswith(('llvm.maxnum', 'llvm.smax', 'llvm.umax')): return R1(self.mx(a[0], a[1]))
        if name.startswith(('llvm.minnum', 'llvm.smin', 'llvm.umin')): return R1(self.mn(a[0], a[1]))
        if name.startswith('llvm.fmuladd'):
            return R1(self.binop(st, 'fadd', ins.ty, self.binop(st, 'fmul', ins.ty, a[0], a[1]), a[2]))
        if name.startswith('llvm.abs'): return R1(ite(ilt(a[0], 0), ineg(a[0]), a[0]))
        if name.startswith('llvm.expect'): return R1(a[0])
        if name.startswith('llvm.trap'): return []
        if name.startswith('llvm.eh.typeid'): return R1(self.tid(a[0].obj.name.lstrip('@')))
        if name.startswith('llvm.is.constant'): return R1(False)
        if name.startswith('llvm.umul.with.overflow'): return R1(Agg([imul(a[0], a[1]), False]))
        if name.startswith('llvm.uadd.with.overflow'): return R1(Agg([iadd(a[0], a[1]), False]))
        if name.startswith(('llvm.sqrt', 'llvm.pow', 'llvm.exp', 'llvm.log')):
            f = z3.Function(name.split('.')[1], *([R] * len(a)), R); return R1(f(*[zr(x) for x in a]))
        raise Unsupported('intrinsic ' + name)

    def floor(self, v):
        if isinstance(v, Fraction): return Fraction(v.__floor__())
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v
        return z3.ToReal(z3.ToInt(v))
    def mx(self, a, b):
        if kindof(a) == 'real' or kindof(b) == 'real':
            if isinstance(a, Fraction) and isinstance(b, Fraction): return max(a, b)
            return z3.If(zr(a) < zr(b), zr(b), zr(a))
        return ite(ilt(a, b), b, a)
    def mn(self, a, b):
        if kindof(a) == 'real' or kindof(b) == 'real':
            if isinstance(a, Fraction) and isinstance(b, Fraction): return min(a, b)
            return z3.If(zr(b) < zr(a), zr(b), zr(a))
        return ite(ilt(b, a), b, a)

    def memset(self, st, p, v, n):
        if not isinstance(p, P): raise Unsupported('memset symbolic')
        if not (isinstance(v, int) and v == 0): raise Unsupported('memset nonzero')
        if isinstance(n, int) and n == 0: return
        if p.obj is None: return
        if isinstance(n, int): self.chk_access(st, p, n, 'memset')
        os = self.os(st, p.obj)
        if os.size is not None and not isinstance(n, int):
            self.oblige(st, implies(ilt(0, n), band(ile(0, p.off), ile(iadd(p.off, n), os.size))), 'memory', 'memset in bounds of %s' % p.obj.name)
        if os.arr is None and isinstance(n, int) and isinstance(p.off, int):
            cells = {o: c for o, c in os.cells.items() if not (isinstance(o, int) and p.off <= o < p.off + n)}
            st.mem[p.obj] = os.w(cells=cells, zero=os.zero + ((p.off, p.off + n),)); return
        if os.arr is None: os = self.to_array(st, p.obj, os, 8, 'real')
        z = Fraction(0) if os.arr.kind == 'real' else 0
        st.mem[p.obj] = os.w(arr=ACopy(os.arr, idivexact(p.off, os.esz), idivexact(n, os.esz), AConst(os.arr.kind, z), 0))

    # ---------------------------------------------------------------- loops
    def do_loop(self, ctx, args, st0, env0, header, prev):
        import loops
        return loops.do_loop(self, ctx, args, st0, env0, header, prev)
