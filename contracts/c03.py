"""C03: what the NLP solver reports is what Bonmin stores, and rounded solutions are re-evaluated."""
from common import *
TUS = ['src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_nlp.cpp'
EXTRA = '''#include "BonTMINLP2TNLP.hpp"
typedef const Ipopt::Number* (Bonmin::TMINLP2TNLP::*A)()const; A b1 = &Bonmin::TMINLP2TNLP::x_sol, b2=&Bonmin::TMINLP2TNLP::g_sol, b3=&Bonmin::TMINLP2TNLP::duals_sol;
Ipopt::Number (Bonmin::TMINLP2TNLP::*c1)()const = &Bonmin::TMINLP2TNLP::obj_value; void (Bonmin::TMINLP2TNLP::*c2)(Ipopt::Number) = &Bonmin::TMINLP2TNLP::set_obj_value;
Ipopt::SolverReturn (Bonmin::TMINLP2TNLP::*c3)()const = &Bonmin::TMINLP2TNLP::optimization_status;'''
ASSUMPTIONS = ['the problem has at least one variable and sizes below 2^28', 'the NLP solver passes multiplier arrays of the documented sizes', 'user callbacks write exactly the documented number of entries']
LOCAL_INFEASIBILITY = 5

def models(ex):
    def viol(ex, st, a, ins, m, ctx): return ex.lazy.setdefault('viol', z3.Real('constraint_violation'))
    ex.vmodels['Ipopt::IpoptCalculatedQuantities::curr_nlp_constraint_violation'] = viol
    def nop(ex, st, a, ins, dem, ctx): T(ex, 'IpoptInteriorWarmStarter::Finalize changes only the warm starter')
    ex.add_model(r'Bonmin::IpoptInteriorWarmStarter::Finalize\(', nop)

def lens(c, this, n, m, sol):
    k = iadd(imul(2, n), m)
    for f, z in (('x_sol_', n), ('g_sol_', m), ('duals_sol_', k)): c.assume(ieq(c.vec(c.st, this, f)[0], z if sol else 0))

def finalize(sol, infeas, cq):
    def f(c):
        models(c.ex)
        this, n, m = nlp_object(c); lens(c, this, n, m, sol)
        s = c.int('status', 0, 20)
        c.assume(s == LOCAL_INFEASIBILITY if infeas else s != LOCAL_INFEASIBILITY)
        a, b = c.int('n'), c.int('m'); c.assume(ieq(a, n), ieq(b, m))
        x, zl, zu = [c.array(q, a) for q in ('x', 'zl', 'zu')]; g, la = c.array('g', b), c.array('la', b); obj = c.real('obj')
        ipcq = c.object('Ipopt::IpoptCalculatedQuantities', 'ip_cq', vectors=False) if cq else None
        if ipcq: ipcq.cls = None
        for o in rets(c, c.call(NLP + '::finalize_solution', [P(this), s, a, x, zl, zu, b, g, la, obj, P(Obj('ipd', lazy=True)), P(ipcq) if cq else NULL])):
            st = o.st
            vec_is(c, st, this, 'x_sol_', n, c.arr(c.pre, x), 'stored solution is the reported one')
            c.require(st, implies(ilt(0, m), ieq(c.vec(st, this, 'g_sol_')[0], m)), 'activities stored')
            G = c.vec(st, this, 'g_sol_')[1]; GP = c.arr(c.pre, g)
            c.require(st, c.forall(m, lambda j: veq(G.read(j), GP.read(j))), 'stored activities are the reported ones')
            L, D = c.vec(st, this, 'duals_sol_'); ZL, ZU, LA = [c.arr(c.pre, p) for p in (zl, zu, la)]
            c.require(st, ieq(L, iadd(imul(2, n), m)), 'room for all multipliers')
            c.require(st, c.forall(n, lambda j: veq(D.read(j), ZL.read(j))), 'lower-bound multipliers come first')
            c.require(st, c.forall(n, lambda j: veq(D.read(iadd(n, j)), ZU.read(j))), 'then upper-bound multipliers')
            c.require(st, c.forall(m, lambda j: veq(D.read(iadd(imul(2, n), j)), LA.read(j))), 'then constraint multipliers')
            c.require(st, ieq(c.get(st, this, 'return_status_'), s), 'status stored')
            want = c.ex.lazy['viol'] if infeas and cq and 'viol' in c.ex.lazy else obj
            if infeas and cq and 'viol' not in c.ex.lazy: c.require(st, False, 'infeasibility measure is used')
            c.require(st, veq(c.get(st, this, 'obj_value_', 'real'), want), 'objective value stored (violation when locally infeasible)')
            al = [buf(c, c.pre, this, v) for v in ('x_sol_', 'g_sol_', 'duals_sol_')] + [(this, c.offset(NLP, v), 24) for v in ('x_sol_', 'g_sol_', 'duals_sol_')]
            c.unchanged(st, al + [(this, c.offset(NLP, 'return_status_'), 4), (this, c.offset(NLP, 'obj_value_'), 8)])
    return f

def set_sol(fn, field, sol):
    def f(c):
        this, n, m = nlp_object(c); lens(c, this, n, m, sol)
        k = n if field == 'x_sol_' else iadd(imul(2, n), m)
        a = c.int('k'); c.assume(ieq(a, k)); x = c.array('x', a)
        for o in rets(c, c.call(NLP + '::' + fn, [P(this), a, x])):
            vec_is(c, o.st, this, field, k, c.arr(c.pre, x), fn)
            c.unchanged(o.st, [buf(c, c.pre, this, field), (this, c.offset(NLP, field), 24)])
    return f

def acc(fn, field):
    def f(c):
        this, n, m = nlp_object(c); c.assume(m >= 1); lens(c, this, n, m, True)
        z = {'x_sol_': n, 'g_sol_': m, 'duals_sol_': iadd(imul(2, n), m)}[field]
        for o in rets(c, c.call(NLP + '::' + fn, [P(this)])):
            A = c.arr(o.st, o.val); V = c.vec(c.pre, this, field)[1]
            c.require(o.st, c.forall(z, lambda j: veq(A.read(j), V.read(j))), '%s() exposes the stored vector' % fn); c.unchanged(o.st)
    return f

def scal(c):
    this, n, m = nlp_object(c); v = c.real('v')
    for o in rets(c, c.call(NLP + '::set_obj_value', [P(this), v])):
        c.require(o.st, veq(c.get(o.st, this, 'obj_value_', 'real'), v), 'value set'); c.unchanged(o.st, [(this, c.offset(NLP, 'obj_value_'), 8)])
def scal2(c):
    this, n, m = nlp_object(c)
    for o in rets(c, c.call(NLP + '::obj_value', [P(this)])):
        c.require(o.st, veq(o.val, c.get(c.pre, this, 'obj_value_', 'real')), 'obj_value'); c.unchanged(o.st)
def scal3(c):
    this, n, m = nlp_object(c)
    for o in rets(c, c.call(NLP + '::optimization_status', [P(this)])):
        c.require(o.st, ieq(o.val, c.get(c.pre, this, 'return_status_')), 'optimization_status'); c.unchanged(o.st)

def rnd(v): return z3.ToReal(z3.ToInt(v + z3.Q(1, 2)))

def check_types(c):
    """check_solution without objects: integer entries rounded to nearest, constraints and objective re-evaluated there, worst violation returned"""
    user_problem(c.ex)
    this, n, m = nlp_object(c); lens(c, this, n, m, True)
    types = c.vec(c.st, this, 'var_types_', 'int')[1]; X0 = c.vec(c.st, this, 'x_sol_')[1]
    GL, GU = c.vec(c.st, this, 'g_l_')[1], c.vec(c.st, this, 'g_u_')[1]
    isint = lambda j: z3.Or(types.read(j) == 1, types.read(j) == 2)
    want = AFun('real', lambda j: z3.If(isint(j), rnd(X0.read(j)), X0.read(j)))
    check_common(c, this, n, m, GL, GU, want, [NULL, -1])

def check_objects(c):
    user_problem(c.ex)
    this, n, m = nlp_object(c); lens(c, this, n, m, True)
    X0 = c.vec(c.st, this, 'x_sol_')[1]; GL, GU = c.vec(c.st, this, 'g_l_')[1], c.vec(c.st, this, 'g_u_')[1]
    k = c.int('nObjects', 0); objs = c.array('objects', k, 'ptr')
    O = c.arr(c.st, objs, 'ptr')
    isa = z3.Function('isa_@_ZTI16OsiSimpleInteger', I, B); colf = z3.Function('column_of', I, I)
    c.ex.vmodels['OsiSimpleInteger::columnNumber'] = c.ex.vmodels['OsiObject::columnNumber'] = lambda ex, st, a, ins, m, ctx: colf(zi(ex.addr(a[0])))
    col = lambda t: colf(zi(O.read(t)))
    c.assume_forall(k, lambda g: z3.And(col(g) >= 0, col(g) < n), 'cols')
    S = c.fold('rounded', 'real', lambda j: X0.read(j), lambda j, t, p: z3.If(z3.And(zi(O.read(t)) != 0, isa(zi(O.read(t))), zi(col(t)) == j), rnd(p), p), npar=1)
    want = AFun('real', lambda j: S(j, k))
    check_common(c, this, n, m, GL, GU, want, [objs, k])

def check_common(c, this, n, m, GL, GU, want, args):
    for o in rets(c, c.call(NLP + '::check_solution', [P(this)] + args)):
        st = o.st
        L, X = c.vec(st, this, 'x_sol_')
        c.require(st, c.forall(n, lambda j: veq(X.read(j), want.read(j))), 'integer entries rounded to the nearest integer, the others kept')
        eg = calls(st, 'eval_g'); ef = calls(st, 'eval_f')
        c.require(st, len(eg) == 1 and len(ef) == 1, 'constraints and objective evaluated once')
        if len(eg) != 1 or len(ef) != 1: continue
        c.require(st, c.forall(n, lambda j: veq(eg[0].ins['x'].read(j), X.read(j))), 'constraints evaluated at the rounded point')
        c.require(st, c.forall(n, lambda j: veq(ef[0].ins['x'].read(j), X.read(j))), 'objective evaluated at the rounded point')
        c.require(st, veq(c.get(st, this, 'obj_value_', 'real'), ef[0].outs['f']), 'objective value is that of the rounded point')
        G = c.vec(st, this, 'g_sol_')[1]
        c.require(st, c.forall(m, lambda j: veq(G.read(j), eg[0].outs['g'].read(j))), 'activities are those of the rounded point')
        mx = lambda a, b: z3.If(a > b, a, b)
        E = c.fold('worst', 'real', lambda: z3.RealVal(0), lambda t, p: mx(mx(p, GL.read(t) - G.read(t)), G.read(t) - GU.read(t)))
        c.require(st, veq(o.val, E(m)), 'returned value is the largest constraint violation')
        c.unchanged(st, [buf(c, c.pre, this, 'x_sol_'), buf(c, c.pre, this, 'g_sol_'), (this, c.offset(NLP, 'obj_value_'), 8)])

CASES = [('finalize_solution [sol=%d,infeas=%d,cq=%d]' % (s, i, q), finalize(s, i, q)) for s in (0, 1) for i in (0, 1) for q in (0, 1)] \
 + [('%s [%d]' % (f, s), set_sol(f, d, s)) for f, d in (('Set_x_sol', 'x_sol_'), ('Set_dual_sol', 'duals_sol_')) for s in (0, 1)] \
 + [('accessor ' + f, acc(f, f + '_')) for f in ('x_sol', 'g_sol', 'duals_sol')] + [('set_obj_value', scal), ('obj_value', scal2), ('optimization_status', scal3)] \
 + [('check_solution by variable types', check_types), ('check_solution by objects', check_objects)]
