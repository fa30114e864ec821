"""C01: the bounds every NLP relaxation sees are exactly the ones last set."""
from common import *
TUS = ['src/Interfaces/BonTMINLP2TNLP.cpp']
EXTRA = '''#include "BonTMINLP2TNLP.hpp"
typedef const Ipopt::Number* (Bonmin::TMINLP2TNLP::*A)(); A a1 = &Bonmin::TMINLP2TNLP::g_l, a2 = &Bonmin::TMINLP2TNLP::g_u;'''
HARNESS = 'h_nlp.cpp'
ASSUMPTIONS = ['the problem has at least one variable and sizes below 2^28', 'user callbacks (TMINLP virtuals) write exactly the documented number of entries and return']
F = ('var_types_', 'x_l_', 'x_u_', 'orig_x_l_', 'orig_x_u_', 'g_l_', 'g_u_', 'x_init_', 'x_init_user_', 'x_sol_', 'g_sol_', 'duals_sol_')

def frame(c, o, this, changed):
    """everything but the buffers of the named vectors keeps its contents"""
    c.unchanged(o.st, [buf(c, c.pre, this, f) for f in changed])

def set_both(c):
    this, n, m = nlp_object(c)
    a = c.int('n'); c.assume(ieq(a, n)); xl = c.array('xl', a); xu = c.array('xu', a)
    for o in rets(c, c.call(NLP + '::SetVariablesBounds', [P(this), a, xl, xu])):
        vec_is(c, o.st, this, 'x_l_', n, c.arr(c.pre, xl), 'lower bounds are the given ones')
        vec_is(c, o.st, this, 'x_u_', n, c.arr(c.pre, xu), 'upper bounds are the given ones')
        frame(c, o, this, ['x_l_', 'x_u_'])

def set_one_side(fn, field):
    def f(c):
        this, n, m = nlp_object(c)
        a = c.int('n'); c.assume(ieq(a, n)); x = c.array('x', a)
        for o in rets(c, c.call(NLP + '::' + fn, [P(this), a, x])):
            vec_is(c, o.st, this, field, n, c.arr(c.pre, x), fn)
            frame(c, o, this, [field])
    return f

def set_var(fn, fields):
    def f(c):
        this, n, m = nlp_object(c)
        i = c.int('i', 0); c.assume(i < n); vs = [c.real('v%d' % k) for k in range(len(fields))]
        for o in rets(c, c.call(NLP + '::' + fn, [P(this), i] + vs)):
            for fd, v in zip(fields, vs):
                pre = c.vec(c.pre, this, fd)[1]
                vec_is(c, o.st, this, fd, n, AStore(pre, i, v), '%s: only entry i of %s changes' % (fn, fd))
            frame(c, o, this, fields)
    return f

def get_bounds(c):
    this, n, m = nlp_object(c)
    a, b = c.int('n'), c.int('m'); c.assume(ieq(a, n), ieq(b, m))
    xl, xu, gl, gu = [c.array(s, z) for s, z in (('oxl', a), ('oxu', a), ('ogl', b), ('ogu', b))]
    for o in rets(c, c.call(NLP + '::get_bounds_info', [P(this), a, xl, xu, b, gl, gu])):
        c.require(o.st, tobool(o.val), 'get_bounds_info succeeds')
        for p, f, z in ((xl, 'x_l_', n), (xu, 'x_u_', n), (gl, 'g_l_', m), (gu, 'g_u_', m)):
            A = c.arr(o.st, p); V = c.vec(c.pre, this, f)[1]
            c.require(o.st, c.forall(z, lambda j: veq(A.read(j), V.read(j))), 'get_bounds_info reports current %s' % f)
        c.unchanged(o.st, [xl, xu, gl, gu])

def accessor(fn, field):
    def f(c):
        this, n, m = nlp_object(c)
        c.assume(m >= 1)
        for o in rets(c, c.call(NLP + '::' + fn, [P(this)])):
            A = c.arr(o.st, o.val); V = c.vec(c.pre, this, field)[1]; z = m if field[0] == 'g' else n
            c.require(o.st, c.forall(z, lambda j: veq(A.read(j), V.read(j))), '%s() exposes the current vector' % fn)
            c.unchanged(o.st)
    return f

def set_type(c):
    this, n, m = nlp_object(c)
    i = c.int('i', 0); c.assume(i < n); t = c.int('t', 0, 2)
    for o in rets(c, c.call(NLP + '::SetVariableType', [P(this), i, t])):
        pre = c.vec(c.pre, this, 'var_types_', 'int')[1]
        vec_is(c, o.st, this, 'var_types_', n, AStore(pre, i, t), 'only the type of i changes', 'int')
        frame(c, o, this, ['var_types_'])

def ctor(c):
    """a new NLP starts from exactly the user's data, and remembers the original bounds"""
    user_problem(c.ex)
    o = Obj('newobj', lazy=True); o.cls = NLP
    c.st.mem[o] = OS()
    tm = c.object('Bonmin::TMINLP', 'tminlp', vectors=False); tm.cls = None
    sp = Obj('sp', lazy=True); c.st.mem[sp] = OS(cells={0: (8, P(tm))})
    c.fn = 'ctor'
    for r in c.call(NLP + '::TMINLP2TNLP(Ipopt::SmartPtr<Bonmin::TMINLP>)', [P(o), P(sp)]):
        if r.kind == 'throw':
            info = calls(r.st, 'get_nlp_info')
            c.require(r.st, bool(info) and bnot(info[0].ret), 'construction fails only when the problem refuses'); continue
        st = r.st
        info, = calls(st, 'get_nlp_info'); b, = calls(st, 'get_bounds_info'); ty, = calls(st, 'get_variables_types'); sp0, = calls(st, 'get_starting_point')
        n, m = info.outs['n'], info.outs['m']
        for f, call, k, z, kind in (('x_l_', b, 'xl', n, 'real'), ('x_u_', b, 'xu', n, 'real'), ('orig_x_l_', b, 'xl', n, 'real'), ('orig_x_u_', b, 'xu', n, 'real'),
                           ('g_l_', b, 'gl', m, 'real'), ('g_u_', b, 'gu', m, 'real'), ('var_types_', ty, 'types', n, 'int'), ('x_init_user_', sp0, 'x', n, 'real')):
            arr = call.outs[k]
            if arr is None: c.require(st, ieq(z, 0), '%s: user data requested' % f); continue
            vec_is(c, st, o, f, z, arr, 'construction: %s is the user data' % f, kind)
        c.require(st, ieq(c.get(st, o, 'nnz_jac_g_'), info.outs['nnz_jac_g']), 'jacobian size'); c.require(st, ieq(c.get(st, o, 'nnz_h_lag_'), info.outs['nnz_h_lag']), 'hessian size')
        c.require(st, ieq(c.get(st, o, 'index_style_'), info.outs['index_style']), 'index style')

CASES = [('set both bound vectors', set_both)] \
  + [(f, set_one_side(f, d)) for f, d in (('SetVariablesLowerBounds', 'x_l_'), ('SetVariablesUpperBounds', 'x_u_'))] \
  + [(f, set_var(f, d)) for f, d in (('SetVariableBounds', ['x_l_', 'x_u_']), ('SetVariableLowerBound', ['x_l_']), ('SetVariableUpperBound', ['x_u_']))] \
  + [('get_bounds_info', get_bounds), ('SetVariableType', set_type), ('construction', ctor)] \
  + [('accessor ' + f, accessor(f, d)) for f, d in (('x_l', 'x_l_'), ('x_u', 'x_u_'), ('orig_x_l', 'orig_x_l_'), ('orig_x_u', 'orig_x_u_'), ('g_l', 'g_l_'), ('g_u', 'g_u_'))]
