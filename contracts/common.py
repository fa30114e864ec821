"""Shared contract vocabulary: assumed contracts of the user problem (TMINLP) and of Ipopt
objects, and pre-state builders for Bonmin's NLP classes."""
import re, z3
from terms import *
from memory import *
from prover import Forall, Fold
from symex import Outcome
import builtins_ as bi
from builtins_ import T, scal_ty, rdarr, setarr

# name -> parameter list.  kinds: i/b/r scalar in; I/R/B scalar out (reference);
# ('in',kind,len) array read; ('out',kind,len) array written; p opaque pointer
TMINLP = {
 'get_nlp_info':             ['I:n', 'I:m', 'I:nnz_jac_g', 'I:nnz_h_lag', 'I:index_style'],
 'get_scaling_parameters':   ['R:obj', 'B:ux', 'i:n', 'out:real:n:xs', 'B:ug', 'i:m', 'out:real:m:gs'],
 'get_variables_types':      ['i:n', 'out:int:n:types'],
 'get_variables_linearity':  ['i:n', 'out:int:n:vlin'],
 'get_constraints_linearity':['i:m', 'out:int:m:clin'],
 'get_bounds_info':          ['i:n', 'out:real:n:xl', 'out:real:n:xu', 'i:m', 'out:real:m:gl', 'out:real:m:gu'],
 'get_starting_point':       ['i:n', 'b:init_x', 'out:real:n:x', 'b:init_z', 'out:real:n:zl', 'out:real:n:zu', 'i:m', 'b:init_lambda', 'out:real:m:lambda'],
 'eval_f':                   ['i:n', 'in:real:n:x', 'b:new_x', 'R:f'],
 'eval_grad_f':              ['i:n', 'in:real:n:x', 'b:new_x', 'out:real:n:grad'],
 'eval_g':                   ['i:n', 'in:real:n:x', 'b:new_x', 'i:m', 'out:real:m:g'],
 'eval_jac_g':               ['i:n', 'in:real:n:x', 'b:new_x', 'i:m', 'i:nele', 'out:int:nele:iRow', 'out:int:nele:jCol', 'out:real:nele:vals'],
 'eval_h':                   ['i:n', 'in:real:n:x', 'b:new_x', 'r:obj_factor', 'i:m', 'in:real:m:lambda', 'b:new_lambda', 'i:nele', 'out:int:nele:iRow', 'out:int:nele:jCol', 'out:real:nele:vals'],
 'eval_gi':                  ['i:n', 'in:real:n:x', 'b:new_x', 'i:i', 'R:gi'],
 'eval_grad_gi':             ['i:n', 'in:real:n:x', 'b:new_x', 'i:i', 'I:nele', 'out:int:n:jCol', 'out:real:n:vals'],
 'eval_upper_bound_f':       ['i:n', 'in:real:n:x', 'R:f'],
 'hasUpperBoundingObjective':[], 'hasLinearObjective': [], 'get_const_xtra_id': [],
 'sosConstraints': [], 'branchingInfo': [], 'perturbInfo': [],
}
STRUCT = {'iRow', 'jCol'}

class Call:
    def __init__(s, meth, a, ins, outs, ret): s.meth, s.a, s.ins, s.outs, s.ret = meth, a, ins, outs, ret

def calls(st, meth=None):
    return [c for c in st.ghost.get('log', ()) if meth is None or c.meth == meth]

def ptr_null(ex, st, p):
    """True / False / symbolic"""
    if not isinstance(p, P): return False
    if p.obj is None: return True
    return p.obj.nullc

def virt(cls, meth, spec, prefix=None, ok=None):
    prefix = prefix or meth
    def h(ex, st, a, ins, m, ctx):
        a = a[1:]
        if st.lctx and not getattr(ex, 'log_loops', False): raise Unsupported('callback %s inside a loop' % meth)
        vals = {}; inarr = {}; outs = {}
        pend = []
        keys = []
        for v, s in zip(a, spec):
            q = s.split(':')
            if q[0] in 'ibr':
                vals[q[1]] = tobool(v) if q[0] == 'b' else v
                if q[1] not in ('new_x', 'new_lambda', 'nele', 'n', 'm'): keys.append(str(vals[q[1]]))
        for v, s in zip(a, spec):
            q = s.split(':')
            if q[0] == 'in':
                if ptr_null(ex, st, v) is True: inarr[q[3]] = None
                else:
                    n = vals[q[2]]
                    inarr[q[3]] = rdarr(ex, st, v, n, q[1], 8 if q[1] == 'real' else 4, m)
                    ar = inarr[q[3]]; ex.keep = getattr(ex, 'keep', []); ex.keep.append(ar)
                    keys.append('%s%d' % (q[3], id(ar.base if hasattr(ar, 'base') else ar)))
        ctx_ = st.lctx
        for v, s in zip(a, spec):
            q = s.split(':')
            if q[0] in ('I', 'R', 'B'):
                nm = 'U_%s_%s' % (prefix, q[1])
                key = tuple(keys) if q[0] != 'I' else tuple(k for k in keys if not k.startswith('x'))
                kk = ('uval', nm, key)
                if kk not in ex.lazy:
                    ex.n += 1
                    ex.lazy[kk] = ex.fresh(st, 'real' if q[0] == 'R' else 'bool' if q[0] == 'B' else 'int', nm)
                w = ex.lazy[kk]
                if q[0] == 'I' and q[1] in ('n', 'm', 'nele', 'nnz_jac_g', 'nnz_h_lag'): st.assume(w >= 0)
                if q[1] == 'index_style': st.assume(z3.Or(w == 0, w == 1))
                outs[q[1]] = w
                ex.store(st, v, toint(w) if q[0] == 'B' else w, scal_ty(8 if q[0] == 'R' else 1 if q[0] == 'B' else 4, 'real' if q[0] == 'R' else 'int'))
        for v, s in zip(a, spec):
            q = s.split(':')
            if q[0] == 'out':
                nu = ptr_null(ex, st, v)
                if nu is True: outs[q[3]] = None; continue
                if isz(nu):
                    if ex.prove_quick(st, nu): outs[q[3]] = None; continue
                    if not ex.prove_quick(st, z3.Not(nu)): raise Unsupported('possibly null output %s of %s' % (q[3], m))
                n = vals.get(q[2])
                if n is None: n = outs[q[2]]
                if meth == 'eval_grad_gi': n = outs['nele']; st.assume(ile(n, vals['n']))
                nm = 'U_%s_%s' % (prefix, q[3])
                key = tuple(keys) if q[3] not in STRUCT else tuple(k for k in keys if not k.startswith(('x', 'lambda')))
                kk = ('uarr', nm, key)
                if kk not in ex.lazy: ex.lazy[kk] = ex.fresh_arr(st, q[1], nm)
                outs[q[3]] = ex.lazy[kk]
                if q[3] in ('init_x',): pass
                cond = {'x': 'init_x', 'zl': 'init_z', 'zu': 'init_z', 'lambda': 'init_lambda'}.get(q[3]) if meth == 'get_starting_point' else None
                if cond is not None:
                    cv = vals[cond]
                    if cv is False: outs[q[3]] = None; continue
                    if cv is not True: raise Unsupported('symbolic init flag')
                setarr(ex, st, v, n, q[1], 8 if q[1] == 'real' else 4, outs[q[3]], m)
        ret = None
        if ins.ty.kind == 'int':
            kk = ('uret', prefix, tuple(keys))
            if kk not in ex.lazy: ex.lazy[kk] = ex.fresh(st, 'bool' if ins.ty.width == 1 else 'int', 'U_%s_ret' % prefix)
            ret = ex.lazy[kk]
            if ok and not meth.startswith('has'): st.assume(ret)
        elif ins.ty.kind == 'ptr':
            kk = ('uptr', prefix)
            if kk not in ex.lazy:
                o = Obj('U_' + prefix, lazy=True); o.nullc = z3.Bool('null(U_%s)' % prefix); ex.lazy[kk] = P(o, 0)
            ret = ex.lazy[kk]
        st.ghost['log'] = st.ghost.get('log', ()) + (Call(meth, list(a), inarr, outs, ret),)
        return (ret,)
    return h

def user_problem(ex, cls='Bonmin::TMINLP', ok=None, only=None):
    for m, spec in TMINLP.items():
        if only and m not in only: continue
        ex.vmodels[cls + '::' + m] = virt(cls, m, spec, ok=ok)

def same_call(c, st, call, meth, args, inarrs=()):
    """the logged call has method meth, equal scalar args {pos:value}, equal pointers, equal input arrays [(name, n, FArr)]"""
    c.require(st, call.meth == meth, 'forwards to the same user callback %s' % meth)
    for pos, v in args.items():
        w = call.a[pos]
        if isptr(v) or isptr(w): g = c.ex.ptreq(w, v)
        else: g = veq(w, v)
        c.require(st, g, '%s: argument %d passed on unchanged' % (meth, pos))
    for name, n, arr in inarrs:
        got = call.ins.get(name)
        if got is None: c.require(st, False, '%s: %s passed' % (meth, name)); continue
        c.require(st, c.forall(n, lambda j: veq(got.read(j), arr.read(j))), '%s: %s passed on unchanged' % (meth, name))

NLP = 'Bonmin::TMINLP2TNLP'
def nlp_object(c, name='this', cls=NLP, lens=True):
    """a TMINLP2TNLP with its representation invariant: x_l,x_u,orig bounds,types have one entry per
    variable, g_l,g_u one per constraint"""
    this = c.object(cls, name)
    n = c.vec(c.st, this, 'x_l_')[0]; m = c.vec(c.st, this, 'g_l_')[0]
    if lens:
        for f in ('x_u_', 'orig_x_l_', 'orig_x_u_', 'x_init_user_'): c.assume(ieq(c.vec(c.st, this, f)[0], n))
        c.assume(ieq(c.vec(c.st, this, 'var_types_', 'int')[0], n)); c.assume(ieq(c.vec(c.st, this, 'g_u_')[0], m))
        c.assume(n >= 1, n < 2**28, m < 2**28)
    return this, n, m

def buf(c, st, obj, field): return bi.vec_raw(c.ex, st, P(obj, c.offset(obj.cls, field)))[0]

def vec_is(c, st, obj, field, n, arr, what, kind='real', esz=None, lo=0):
    """vector field has length n and contents arr"""
    ln, A = c.vec(st, obj, field, kind, esz)
    c.require(st, ieq(ln, n), '%s: length' % what)
    c.require(st, c.forall(n, lambda j: veq(A.read(j), arr.read(j)), lo), '%s: contents' % what)

def vec_kept(c, st, obj, field, what, kind='real', esz=None):
    ln, A = c.vec(c.pre, obj, field, kind, esz)
    vec_is(c, st, obj, field, ln, A, what + ' keeps %s' % field, kind, esz)

def rets(c, outs, what='returns normally', allow_throw=False):
    """all outcomes must be normal returns"""
    out = []
    for o in outs:
        if o.kind == 'ret': out.append(o)
        elif not allow_throw:
            c.require(o.st, False, what + ' (no exception)')
    if not out and not allow_throw: c.require(outs[0].st if outs else c.st, False, 'some path returns')
    return out
