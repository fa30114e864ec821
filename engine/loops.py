"""Loop cut points: invariants are inferred (affine closed forms of scalars, pointwise closed
forms of arrays, bounds of counters) and every one is discharged by induction obligations;
whatever has no closed form is described by its definitional history function h(t)."""
import z3
from terms import *
from memory import *
from prover import Forall, Fold, occurs, apps1
from symex import Outcome

UNROLL = 12

def getv(ex, st, var):
    t = var[0]
    if t == 'cell':
        os = st.mem.get(var[1])
        if os is None: return None
        c = os.cells.get(var[2])
        return c[1] if c else None
    if t == 'size':
        os = st.mem.get(var[1]); return os.size if os else None
    if t == 'ghost': return st.ghost.get(var[1])
    if t == 'arr':
        os = st.mem.get(var[1]); return os.arr if os else None
    if t == 'bheap': return st.bheap.get(var[1])
    if t == 'garr': return st.ghost.get(var[1])

def setv(ex, st, env, var, val):
    t = var[0]
    if t == 'phi': env[var[1]] = val
    elif t == 'cell':
        os = st.mem[var[1]]; cells = dict(os.cells); cells[var[2]] = (cells[var[2]][0] if var[2] in cells else var[3], val)
        st.mem[var[1]] = os.w(cells=cells)
    elif t == 'size': st.mem[var[1]] = st.mem[var[1]].w(size=val)
    elif t in ('ghost', 'garr'): st.ghost[var[1]] = val
    elif t == 'arr': st.mem[var[1]] = st.mem[var[1]].w(arr=val)
    elif t == 'bheap': st.bheap[var[1]] = val

def sameval(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, P):
        return a.obj is b.obj and ieq(a.off, b.off) is True
    if isinstance(a, SymP) and isinstance(b, SymP): return a.addr.eq(b.addr) and a.off == b.off
    if isptr(a) or isptr(b): return isinstance(a, FnP) and isinstance(b, FnP) and a.name == b.name
    if a is None or b is None: return False
    if isz(a) and isz(b): return a.eq(b)
    if not isz(a) and not isz(b): return type(a) == type(b) and a == b
    return False

def diff(ex, s0, s1, changed):
    """collect scalar / array variables that differ between s0 (iteration start) and s1"""
    for obj, o1 in s1.mem.items():
        o0 = s0.mem.get(obj)
        if o1 is o0: continue
        if o0 is None:
            if not (obj.lazy or obj.origin): continue      # born in the body
            o0 = OS(epoch=o1.epoch)
        if o1.freed and not o0.freed: raise Unsupported('object %s freed inside a loop' % obj.name)
        if o1.epoch != o0.epoch: raise Unsupported('object %s havocked inside a loop' % obj.name)
        if o1.arr is not None:
            if o0.arr is None:
                changed.setdefault(('toarr', obj), (o1.esz, o1.arr.kind))
            elif o1.arr is not o0.arr: changed.setdefault(('arr', obj), o1.arr.kind)
        else:
            for off, (n, v) in o1.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None:
                    if obj.lazy:
                        lz = ex.lazy.get((obj.id, off, o1.epoch))
                        if lz is not None and sameval(lz, v): continue
                    changed.setdefault(('cell', obj, off, n), None)
                elif not sameval(c0[1], v): changed.setdefault(('cell', obj, off, n), None)
            for off in o0.cells:
                if off not in o1.cells: raise Unsupported('cell vanished in loop')
            if o1.zero != o0.zero: raise Unsupported('memset of %s in a loop' % obj.name)
        if not sameval(o0.size, o1.size) and not (o0.size is None and o1.size is None): changed.setdefault(('size', obj), None)
    for k, a in s1.bheap.items():
        a0 = s0.bheap.get(k)
        if a0 is None:
            if a is ex.lazy.get(('bheap', k)): continue
        if a is not a0: changed.setdefault(('bheap', k), k[1])
    for k, g in s1.ghost.items():
        g0 = s0.ghost.get(k)
        if g is g0: continue
        if isinstance(g, FArr): changed.setdefault(('garr', k), g.kind)
        elif isinstance(g, (list, tuple, dict, set)): continue
        elif g0 is None and k not in s0.ghost: continue     # born in the body
        elif not sameval(g0, g): changed.setdefault(('ghost', k), None)

def ensure(ex, st, var):
    """make the variable exist in st (lazy initial value)"""
    if var[0] == 'cell':
        obj = var[1]
        os = ex.os(st, obj)
        if var[2] not in os.cells:
            class T: pass
            return False
    return True

def do_loop(ex, ctx, args, st0, env0, header, prev):
    fn = ctx.fn; body = fn.loops[header]; loop = (header, body)
    phis = fn.blocks[header].phis
    init = {('phi', ph.id): ex.opval(ph.x[prev], env0, args) for ph in phis}
    phivar = {('phi', ph.id): ph for ph in phis}
    where = '%s:loop@%d' % (fn.dem.split('(')[0], line_of(fn, header))

    r = unroll(ex, ctx, args, st0, env0, loop, phis, init)
    if r is not None: return r

    save = ex.sink
    # counter
    ex.n += 1
    kname = 'k!%d' % ex.n
    if st0.lctx: k = z3.Function(kname, *([I] * len(st0.lctx)), I)(*[zi(c) for c in st0.lctx])
    else: k = z3.Int(kname)
    lctx = st0.lctx + (k,)
    hfun = {}          # var -> (decl, kind)
    cls = {v: 'hist' for v in init}     # 'hist' | ('aff', c)
    nohope = set()     # never affine
    warr = {}          # array var -> kind
    closed = {}        # array var -> FArr builder(k) (closed form)
    st0 = st0.copy()
    env0 = dict(env0)
    allinit = dict(init)

    def hist(var, kind, extra=0):
        d = hfun.get(var)
        if d is None:
            ex.n += 1
            d = z3.Function('h_%s!%d' % (vname(var, fn), ex.n), *([I] * (len(lctx) + extra)), sort_of(kind)); hfun[var] = d
        return d

    def startval(var, kk):
        """value of scalar var at the start of iteration kk"""
        iv = allinit[var]; c = cls[var]
        kz = zi(kk)
        a = [zi(x) for x in st0.lctx] + [kz]
        if isinstance(iv, P):
            if c == 'hist': return P(iv.obj, hist(var, 'int')(*a))
            return P(iv.obj, iadd(iv.off, imul(c[1], kk)))
        if c != 'hist':
            if c[1] == 0 and isinstance(c[1], int): return iv
            return iadd(iv, imul(c[1], kk))
        kind = kindof(iv)
        if isptr(iv): return SymP(hist(var, 'int')(*a))
        return hist(var, kind)(*a)

    def begin():
        st = st0.copy(); st.lctx = lctx; st.assume(k >= 0)
        env = dict(env0)
        for var in cls: setv(ex, st, env, var, startval(var, k))
        for var, kind in warr.items():
            if var in closed: arr = closed[var](k)
            else:
                d = hist(var, kind, 1); pre = [zi(x) for x in lctx]
                arr = AHist(kind, d, pre)
            setv(ex, st, env, var, arr)
        return st, env

    fbase = ex.fcount
    def runbody(facts=()):
        fmax = ex.fcount; ex.fcount = fbase
        try: return runbody_(facts)
        finally: ex.fcount = max(fmax, ex.fcount)
    def runbody_(facts=()):
        st, env = begin()
        for f in facts:
            if isinstance(f, Forall): st.facts.append(f)
            else: st.assume(f)
        s_start = st.copy(); n0 = len(st.pc); nf0 = len(st.facts)
        outs = ex.run(ctx, args, [(st, env, header, -2)], loop)
        return outs, s_start, n0, nf0

    def nextval(var, o, s_start):
        if var[0] == 'phi': return ex.opval(phivar[var].x[o.prev], o.env, args)
        v = getv(ex, o.st, var)
        return v

    # ---- rounds: find written variables and affine scalars
    ex.sink = False
    try:
        for rnd in range(14):
            outs, s_start, n0, nf0 = runbody()
            backs = [o for o in outs if o.kind == 'back']
            changed = {}
            for o in backs: diff(ex, s_start, o.st, changed)
            again = False
            for var in changed:
                if var[0] == 'toarr':
                    obj = var[1]; esz, kind = changed[var]
                    os = ex.os(st0, obj); ex.to_array(st0, obj, os, esz, kind); again = True
            if again: continue
            for var, kind in changed.items():
                if var[0] in ('arr', 'bheap', 'garr'):
                    if var not in warr:
                        warr[var] = kind; again = True
                        if var[0] == 'bheap': ex.bkey(st0, *var[1])
                elif var not in cls:
                    if var[0] == 'cell' and var[2] not in ex.os(st0, var[1]).cells:
                        # bring the initial value in
                        v = None
                        for o in backs:
                            v1 = getv(ex, o.st, var)
                            if v1 is not None: break
                        ty = tyof(ex, v1, var[3])
                        sk, ex.sink = ex.sink, False
                        ex.load(st0, P(var[1], var[2]), ty); ex.sink = sk
                    iv = getv(ex, st0, var)
                    if iv is None: raise Unsupported('loop variable without initial value %r' % (var,))
                    allinit[var] = iv; cls[var] = 'hist'; again = True
            # classification
            newcls = {}
            for var in cls:
                iv = allinit[var]
                cur = startval(var, k)
                step = None; ok = True
                for o in backs:
                    nv = nextval(var, o, s_start)
                    if isinstance(iv, P):
                        if not isinstance(nv, P) or nv.obj is not iv.obj:
                            raise Unsupported('pointer variable changes object in loop (%s)' % vname(var, fn))
                        c = isub(nv.off, cur.off)
                    elif isptr(iv):
                        c = 0 if sameval(nv, cur) else None
                    elif kindof(iv) == 'int' and kindof(nv) == 'int':
                        c = isub(nv, cur)
                    else:
                        c = 0 if sameval(nv, cur) else None
                    if c is None or (isz(c) and depends(c, k)): ok = False; break
                    if step is None: step = c
                    elif not sameval(step, c): ok = False; break
                if not backs: ok = False
                if ok and var not in nohope: newcls[var] = ('aff', step)
                else:
                    if cls[var] != 'hist': nohope.add(var)
                    newcls[var] = 'hist'
            if not again and all(eqcls(newcls[v], cls[v]) for v in cls): break
            cls = newcls
        else:
            raise Unsupported('loop classification does not stabilise')
        if not backs:
            # body never loops back: no need for a summary
            ex.sink = save
            st, env = st0, env0
            env = dict(env); env.update({v[1]: x for v, x in init.items()})
            outs = ex.run(ctx, args, [(st, env, header, -2)], loop)
            return [o for o in outs if o.kind != 'back']

        # ---- closed forms of arrays
        refused = set()
        def attempt_closed():
            cand = {}
            for var, kind in warr.items():
                if var in closed or var in refused: continue
                b = closed_form(ex, var, kind, backs, s_start, n0, k, st0, hfun.get(var))
                if b is not None: cand[var] = b
            # first those whose values do not refer to another candidate
            dec = {hfun[v].get_id(): v for v in cand if v in hfun}
            dep = {v: set(dec[d] for x in cand[v].terms if isz(x) for d, _ in apps1(x) if d in dec) - {v} for v in cand}
            free = [v for v in cand if not dep[v]]
            if not free and cand: refused.update(cand)
            for v in free: closed[v] = cand[v]
            return free
        while attempt_closed():
            while True:
                outs, s_start, n0, nf0 = runbody()
                backs = [o for o in outs if o.kind == 'back']
                bad = []
                for var in list(closed):
                    j = z3.Int('j!%d' % ex.n); ex.n += 1
                    want = closed[var](iadd(k, 1)).read(j)
                    for o in backs:
                        got = getv(ex, o.st, var).read(j)
                        g = veq(got, want)
                        ex.prover.lemma_s = 5
                        try: r, _ = ex.prover.prove(o.st.pc, o.st.facts, g, timeout=4000)
                        finally: ex.prover.lemma_s = 60
                        if r != 'proved': bad.append(var); break
                if not bad: break
                for var in bad: del closed[var]; refused.add(var)

        # ---- bounds of integer history variables (Houdini)
        houd = houdini(ex, cls, allinit, startval, nextval, backs, s_start, k)

        mono = {}
        for v in [v for v in cls if cls[v] == 'hist' and not isptr(allinit[v]) and kindof(allinit[v]) == 'int']:
            for sg in (1, -1):
                good = True
                for o in backs:
                    nv, cur = nextval(v, o, s_start), startval(v, k)
                    e = ile(cur, nv) if sg > 0 else ile(nv, cur)
                    if e is True: continue
                    if e is False or ex.prover.check(list(o.st.pc) + [z3.Not(zb(e))], 500)[0] != 'unsat': good = False; break
                if good: mono[v] = sg; break

        # ---- history facts
        g = z3.Int('g!%d' % ex.n); ex.n += 1
        facts = []
        sub = [(k, g)]
        alts = []; nested = []
        hs = [v for v in cls if cls[v] == 'hist']
        for o in backs:
            pcp = o.st.pc[n0:]
            eqs = []
            for v in hs:
                nv = nextval(v, o, s_start); hv = startval(v, iadd(k, 1))
                if isinstance(hv, P): eqs.append(ieq(hv.off, nv.off))
                elif isinstance(hv, SymP): eqs.append(ieq(hv.addr, ex.addr(nv)))
                else: eqs.append(veq(hv, nv))
            guard = band(*pcp) if pcp else True
            alts.append(band(guard, *eqs))
            for f in o.st.facts[nf0:]: nested.append((subst(guard, sub), f.subst(sub)))
        fbody = subst(bor(*alts), sub)
        for var in warr:
            if var in closed: continue
            j = z3.Int('j!%d' % ex.n); ex.n += 1
            d = hfun[var]
            lhs = d(*[zi(x) for x in st0.lctx], zi(iadd(k, 1)), j)
            val = None
            for o in reversed(backs):
                pcp = o.st.pc[n0:]
                nv = getv(ex, o.st, var).read(j)
                val = nv if val is None else ite(band(*pcp) if pcp else True, nv, val)
            nested.append((True, Forall(j, True, subst(veq(lhs, val), sub), name='arr')))
            a0 = getv(ex, st0, var)
            jj = z3.Int('j!%d' % ex.n); ex.n += 1
            facts.append(Forall(jj, True, veq(d(*[zi(x) for x in st0.lctx], z3.IntVal(0), jj), a0.read(jj)), name='arrinit'))
        facts.append(Forall(g, band(g >= 0, g < k), fbody, nested, name='hist ' + where)); facts[-1].last = isub(k, 1)
        ground = []
        for v in hs:
            hv = startval(v, 0); iv = allinit[v]
            if isinstance(hv, P): ground.append(ieq(hv.off, iv.off))
            elif isinstance(hv, SymP): ground.append(ieq(hv.addr, ex.addr(iv)))
            else: ground.append(veq(hv, iv))
        for h in houd:
            ground.append(h(k))
            facts.append(Forall(g, band(g >= 0, g <= k), subst(zb(h(k)), sub), name='bound'))
        # register folds
        lid = object()
        def mkK(nctx):
            def K(p):
                if not st0.lctx: return k
                return subst(k, list(zip([zi(x) for x in st0.lctx], p[:nctx])))
            return K
        for v in hs:
            iv = allinit[v]
            d = hfun[v]
            ex.prover.folds[d.get_id()] = Fold(d, 'int' if isptr(iv) else kindof(iv), tpos=-1, K=mkK(len(st0.lctx)), origin='loop', loop=lid, name=d.name())
            ex.prover.folds[d.get_id()].mono = mono.get(v, 0)
        for var in warr:
            if var not in closed:
                d = hfun[var]
                ex.prover.folds[d.get_id()] = Fold(d, warr[var] if warr[var] != 'ptr' else 'int', tpos=-2, K=mkK(len(st0.lctx)), origin='loop', loop=lid, name=d.name())
    finally:
        ex.sink = save
    if save:
        for var in cls:
            if cls[var] != 'hist': ex.curwhere = where; ex.record('invariant', 'proved', 'affine %s' % vname(var, fn), None, 0)
        for var in closed: ex.curwhere = where; ex.record('invariant', 'proved', 'closed form of array %s' % vname(var, fn), None, 0)
        for h in houd: ex.curwhere = where; ex.record('invariant', 'proved', 'bound', None, 0)
    outs, s_start, n0, nf0 = runbody(facts + [f for f in ground if not (isinstance(f, bool) and f)])
    res = []
    for o in outs:
        if o.kind == 'back': continue
        o.st.lctx = st0.lctx
        res.append(o)
    return res

class AHist(FArr):
    def __init__(s, kind, decl, pre): s.kind, s.decl, s.pre = kind, decl, pre
    def read(s, i): return s.decl(*s.pre, zi(i))

def eqcls(a, b):
    if a == 'hist' or b == 'hist': return a == b
    return sameval(a[1], b[1])

def vname(var, fn):
    if var[0] == 'phi': return 'phi%d' % var[1]
    if var[0] in ('cell', 'arr', 'size'): return '%s_%s' % (var[0], var[1].name) + ('_%s' % var[2] if var[0] == 'cell' else '')
    return '%s_%s' % (var[0], var[1])

def line_of(fn, b):
    for i in fn.blocks[b].insts:
        if i.line: return i.line
    return 0

def depends(t, k): return isz(t) and occurs(t, k)

def tyof(ex, v, n):
    class T: pass
    t = T(); t.size = n
    if isptr(v): t.kind = 'ptr'; t.width = 0
    elif kindof(v) == 'real': t.kind = 'double'; t.width = 0
    else: t.kind = 'int'; t.width = n * 8
    return t

def unroll_small(ex, ctx, args, st0, env0, loop, phis, init):
    """bounded refutation mode: enumerate the iterations of every path (paths beyond the bound are dropped)"""
    header = loop[0]
    work = [(st0, env0, {v[1]: x for v, x in init.items()}, 0)]; acc = []
    while work:
        st, env, cur, d = work.pop()
        env = dict(env); env.update(cur)
        if ex.deadline is not None and __import__('time').time() > ex.deadline: raise Unsupported('time budget of the case exhausted')
        for o in ex.run(ctx, args, [(st, env, header, -2)], loop):
            if o.kind != 'back': acc.append(o); continue
            if d >= getattr(ex, 'maxiter', 24): continue
            work.append((o.st, o.env, {ph.id: ex.opval(ph.x[o.prev], o.env, args) for ph in phis}, d + 1))
    return acc

def unroll(ex, ctx, args, st0, env0, loop, phis, init):
    if getattr(ex, 'small', 0): return unroll_small(ex, ctx, args, st0, env0, loop, phis, init)
    header = loop[0]
    def attempt():
        st = st0.copy(); env = dict(env0); cur = {v[1]: x for v, x in init.items()}
        acc = []
        for i in range(UNROLL):
            env = dict(env); env.update(cur)
            outs = ex.run(ctx, args, [(st, env, header, -2)], loop)
            backs = [o for o in outs if o.kind == 'back']; oth = [o for o in outs if o.kind != 'back']
            if not backs: return acc + oth
            if len(backs) > 1 or any(o.kind == 'exit' for o in oth): return None
            acc += oth
            o = backs[0]; st = o.st; env = o.env
            cur = {ph.id: ex.opval(ph.x[o.prev], o.env, args) for ph in phis}
        return None
    save = ex.sink; ex.sink = False
    try:
        try: r = attempt()
        except Unsupported: r = None
    finally: ex.sink = save
    if r is None: return None
    if not save: return r
    return attempt()

def alternatives(arr, base, n=0):
    """[(conditions, stores last first)] of an array value built on base; stores None if not of that form"""
    ws = []
    while arr is not base:
        if isinstance(arr, AStore): ws.append((arr.i, arr.v)); arr = arr.prev
        elif isinstance(arr, AIte) and n < 4:
            out = []
            for c, b in ((arr.c, arr.a), (bnot(arr.c), arr.b)):
                for e, w in alternatives(b, base, n + 1): out.append(([c] + e, None if w is None else ws + w))
            return out
        else: return [([], None)]
    return [([], ws)]

def one_slot(arr, base):
    """the only index stored to in an array value built on base (through merged branches), or None"""
    idx = []; seen = set(); st = [arr]; ite_ = False
    while st:
        x = st.pop()
        if x is base or id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, AStore):
            if not any(sameval(x.i, y) for y in idx): idx.append(x.i)
            st.append(x.prev)
        elif isinstance(x, AIte): st += [x.a, x.b]; ite_ = True
        else: return None
        if len(idx) > 1: return None
    return idx[0] if ite_ and idx else None

def closed_form(ex, var, kind, backs, s_start, n0, k, st0, hdecl):
    """build closed form guess, or None"""
    base = getv(ex, s_start, var)
    a0 = getv(ex, st0, var)
    slots = {}   # key -> [a, b, [(pc, val)]]
    nalt = 0
    def alts(o):
        arr = getv(ex, o.st, var); i = one_slot(arr, base)
        if i is not None: return [([], [(i, arr.read(i))])]
        return alternatives(arr, base)
    for o, extra, ws in [(o, e, w) for o in backs for e, w in alts(o)]:
        if ws is None: return None
        pc = ex.branches(o.st.pc[n0:]) + extra; nalt += 1
        g = band(*pc) if pc else True
        seen = set()
        for i, v in ws:     # last write first
            c, d = lin(i)
            kid = k.get_id()
            if kid not in d: return None
            a = d[kid][1]; b = unlin(c, {x: y for x, y in d.items() if x != kid})
            if depends(b, k): return None
            key = (a, str(b))
            if key in seen: continue
            seen.add(key)
            slots.setdefault(key, [a, b, []])[2].append((g, v))
    if not slots: return None
    def own(t):
        """replace h(k, e) by initial contents"""
        if not isz(t) or hdecl is None: return t
        for _ in range(4):
            rep = []
            st = [t]; seen = set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().eq(hdecl):
                    rep.append((x, tz(a0.read(norm(x.arg(x.num_args() - 1))), kind)))
                st += x.children()
            if not rep: return t
            t = z3.substitute(t, *rep)
        return t
    infos = []
    for key, (a, b, wr) in slots.items():
        allw = len(wr) == nalt
        cond = True if allw else own(bor(*[g for g, _ in wr]))
        val = None
        for g, v in reversed(wr):
            val = v if val is None else ite(g, v, val)
        val = own(val if not isptr(val) else ex.addr(val))
        infos.append((a, b, cond, val))
    def build(kk):
        arr = a0
        for a, b, cond, val in infos:
            def mk(a=a, b=b, cond=cond, val=val, prev=arr):
                def t_of(j):
                    dd = isub(j, b)
                    if a == 1: return dd
                    if a == -1: return ineg(dd)
                    return idivexact(dd if a > 0 else ineg(dd), abs(a))
                def c(j):
                    t = t_of(j)
                    cs = [ile(0, t), ilt(t, kk)]
                    if abs(a) != 1:
                        dd = isub(j, b)
                        if not divisible(dd, abs(a)): cs.append(zi(dd) % abs(a) == 0)
                    if cond is not True: cs.append(subst(cond, [(k, zi(t))]))
                    return band(*cs)
                def v(j): return subst(val, [(k, zi(t_of(j)))])
                return AMap(prev, c, v)
            arr = mk()
        return arr
    build.terms = [x for _, _, cnd, val in infos for x in (cnd, val)]
    return build

def houdini(ex, cls, allinit, startval, nextval, backs, s_start, k):
    hs = [v for v in cls if cls[v] == 'hist' and not isptr(allinit[v]) and kindof(allinit[v]) == 'int']
    # a flag of the loop being set implies that a value is still the initial one (values that are only overwritten by constants)
    def const_or_same(v, o):
        nv = nextval(v, o, s_start)
        return not isz(nv) or z3.is_rational_value(nv) or sameval(nv, startval(v, k))
    held = [v for v in cls if cls[v] == 'hist' and not isptr(allinit[v]) and kindof(allinit[v]) == 'real' and not (isz(allinit[v]) and not z3.is_rational_value(allinit[v])) and all(const_or_same(v, o) for o in backs)]
    flags = [v for v in cls if held and cls[v] == 'hist' and not isptr(allinit[v]) and kindof(allinit[v]) in ('bool', 'int') and not isz(allinit[v]) and allinit[v] == 1]
    def veq_(a, b): return ieq(ex.addr(a), ex.addr(b)) if isptr(a) or isptr(b) else veq(a, b)
    hints = []
    if getattr(ex, 'loop_hints', None):
        class Api: pass
        q = Api(); sc = [v for v in cls if cls[v] == 'hist' and not isptr(allinit[v])]
        q.reals = [v for v in sc if kindof(allinit[v]) == 'real' and v[0] != 'ghost']; q.flags = [v for v in sc if kindof(allinit[v]) == 'bool' and v[0] != 'ghost' or v[0] == 'phi' and kindof(allinit[v]) == 'int']
        q.val = startval
        def ghost(name, kk): return startval(('ghost', name), kk) if ('ghost', name) in cls else s_start.ghost[name]
        def cell(p, kk):
            for v in cls:
                if v[0] == 'cell' and v[1] is p.obj and v[2] == p.off: return startval(v, kk)
            return getv(ex, s_start, ('cell', p.obj, p.off))
        q.ghost = ghost; q.cell = cell
        for h in ex.loop_hints:
            try: hints += h(q)
            except KeyError: pass
    if not hs and not (held and flags) and not hints: return []
    cands = list(hints)
    for v in held:
        for f in flags: cands.append(lambda kk, f=f, v=v: implies(tobool(startval(f, kk)), veq(startval(v, kk), allinit[v])))
    for v in hs:
        iv = allinit[v]
        f = lambda kk, v=v: startval(v, kk)
        cands.append(lambda kk, f=f, iv=iv: ile(iv, f(kk)))
        cands.append(lambda kk, f=f, iv=iv: ile(f(kk), iadd(iv, kk)))
        cands.append(lambda kk, f=f, iv=iv: ile(f(kk), iv))
        cands.append(lambda kk, f=f: ile(0, f(kk)))
        cands.append(lambda kk, f=f: ile(-1, f(kk)))
    # base case
    keep = []
    for c in cands:
        b = c(0)
        # value at 0 is the init
        keep.append(c)
    pcs = []
    for o in backs:
        eqs = []
        for v in hs: eqs.append(ieq(startval(v, iadd(k, 1)), nextval(v, o, s_start)))
        for v in (held + [f for f in flags if f not in hs] if not hints else [v for v in cls if v not in hs and cls[v] == 'hist']): eqs.append(veq_(startval(v, iadd(k, 1)), nextval(v, o, s_start)))
        pcs.append((o, [e for e in eqs if isz(e)]))
    base_eq = [ieq(startval(v, 0), allinit[v]) for v in hs] + [veq_(startval(v, 0), allinit[v]) for v in (held + [f for f in flags if f not in hs] if not hints else [v for v in cls if v not in hs and cls[v] == 'hist'])]
    base_eq = [e for e in base_eq if isz(e)]
    out = []
    for c in keep:
        r, _ = ex.prover.check(list(s_start.pc[:-1]) + base_eq + [z3.Not(zb(c(0)))] , 500)
        if r == 'unsat': out.append(c)
    ch = True
    while ch and out:
        ch = False
        hyp = [zb(c(k)) for c in out]
        for c in list(out):
            for o, eqs in pcs:
                r, _ = ex.prover.check(list(o.st.pc) + eqs + hyp + [z3.Not(zb(c(iadd(k, 1))))], 500)
                if r != 'unsat': out.remove(c); ch = True; break
    return out
