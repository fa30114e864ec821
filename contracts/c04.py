"""C04: a copied NLP is the same problem in the same state, with storage of its own."""
from common import *
import c02
TUS = ['src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_nlp.cpp'
ASSUMPTIONS = ['the problem has at least one variable and sizes below 2^28', 'the source satisfies the representation invariant of the NLP class (solution vectors absent or complete)']
VEC = (('var_types_', 'int'), ('x_l_', 'real'), ('x_u_', 'real'), ('orig_x_l_', 'real'), ('orig_x_u_', 'real'), ('g_l_', 'real'), ('g_u_', 'real'), ('x_init_', 'real'), ('x_init_user_', 'real'), ('x_sol_', 'real'), ('g_sol_', 'real'), ('duals_sol_', 'real'))
SCAL = (('tminlp_', 'ptr'), ('nnz_jac_g_', 'int'), ('nnz_h_lag_', 'int'), ('index_style_', 'int'), ('return_status_', 'int'), ('obj_value_', 'real'), ('curr_warm_starter_', 'ptr'), ('nlp_lower_bound_inf_', 'real'), ('nlp_upper_bound_inf_', 'real'), ('warm_start_entire_iterate_', 'bool'), ('need_new_warm_starter_', 'bool'))

def copy(shape, sol, via):
    def f(c):
        src, n, m = nlp_object(c, 'other'); c02.inv(c, src, n, m, shape)
        k = iadd(imul(2, n), m)
        for fd, z in (('x_sol_', n), ('g_sol_', m), ('duals_sol_', k)): c.assume(ieq(c.vec(c.st, src, fd)[0], z if sol else 0))
        for s, kind in SCAL: c.get(c.st, src, s, kind)
        if via == 'ctor':
            new = Obj('copy', lazy=True); new.cls = NLP; c.st.mem[new] = OS()
            outs = c.call(NLP + '::TMINLP2TNLP(Bonmin::TMINLP2TNLP const&)', [P(new), P(src)])
        else: outs = c.call(NLP + '::clone', [P(src)])
        for o in rets(c, outs):
            st = o.st
            if via == 'clone': new = o.val.obj; new.cls = NLP
            same(c, st, new, src, n, shape)
            c.unchanged(st, [new])
    return f

def same(c, st, new, src, n, shape):
            for v, kind in VEC:
                L0, A0 = c.vec(c.pre, src, v, kind)
                vec_is(c, st, new, v, L0, A0, 'copy of ' + v, kind)
                b1, b0 = buf(c, st, new, v), buf(c, c.pre, src, v)
                c.require(st, b1.obj is not b0.obj, 'copy of %s has its own storage' % v)
            for s, kind in SCAL:
                a, b = c.get(st, new, s, kind), c.get(c.pre, src, s, kind)
                c.require(st, c.ex.ptreq(a, b) if isptr(a) else veq(a, b), 'copy of ' + s)
            d = c.get(st, new, 'duals_init_', 'ptr')
            if shape == 'xd':
                b = buf(c, st, new, 'x_init_'); c.require(st, isinstance(d, P) and d.obj is not None and c.ex.ptreq(d, P(b.obj, imul(8, n))), 'dual start points into the copy')
            else: c.require(st, c.ex.ptreq(d, NULL), 'no dual start in the copy')

def assign(shape, sol, shape2, sol2):
    def f(c):
        src, n, m = nlp_object(c, 'rhs'); c02.inv(c, src, n, m, shape)
        dst, n2, m2 = nlp_object(c, 'lhs'); c02.inv(c, dst, n2, m2, shape2); c.assume(ieq(n, n2), ieq(m, m2))
        for ob, q in ((src, sol), (dst, sol2)):
            for fd, z in (('x_sol_', n), ('g_sol_', m), ('duals_sol_', iadd(imul(2, n), m))): c.assume(ieq(c.vec(c.st, ob, fd)[0], z if q else 0))
        for s, kind in SCAL: c.get(c.st, src, s, kind)
        old = [buf(c, c.st, dst, v) for v, _ in VEC]
        for o in rets(c, c.call(NLP + '::operator=', [P(dst), P(src)])):
            st = o.st
            same(c, st, dst, src, n, shape)
            c.require(st, c.ex.ptreq(o.val, P(dst)), 'returns the assigned object')
            c.unchanged(st, [dst] + old)
    return f
CASES = [('%s [%s,sol=%d]' % (v, s, q), copy(s, q, v)) for v in ('ctor', 'clone') for s in ('none', 'x', 'xd') for q in (0, 1)] + [('operator= [%s,sol=%d over %s,sol=%d]' % (s, q, s2, q2), assign(s, q, s2, q2)) for s, q, s2, q2 in (('none', 0, 'xd', 1), ('xd', 1, 'none', 0), ('x', 1, 'xd', 1), ('xd', 1, 'x', 1), ('none', 1, 'x', 0), ('x', 0, 'none', 1), ('xd', 0, 'xd', 1))]
