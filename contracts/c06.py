"""C06: the solver-interface view (what branch-and-bound sees) of the NLP relaxation."""
from common import *
import c02
TUS = ['src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_osi.cpp'
EXTRA = '''#include "BonOsiTMINLPInterface.hpp"
void zz_use(Bonmin::OsiTMINLPInterface &o){ o.forceInfeasible(); o.getNumElements(); o.getObjSense(); o.getPriorities(); o.getBranchingDirections(); o.getUpPsCosts(); o.getDownPsCosts(); }
'''
ASSUMPTIONS = ['the problem has at least one variable and sizes below 2^28', 'column indices passed to the interface are in range', 'the relaxation satisfies its representation invariant (C01-C04)']
OSI = 'Bonmin::OsiTMINLPInterface'
INF = Fraction(1.7976931348623157e308)

def osi(c, shape='xd', sol=True):
    p, n, m = nlp_object(c, 'problem'); c02.inv(c, p, n, m, shape)
    k = iadd(imul(2, n), m)
    for fd, z in (('x_sol_', n), ('g_sol_', m), ('duals_sol_', k)): c.assume(ieq(c.vec(c.st, p, fd)[0], z if sol else 0))
    this = c.object(OSI, 'osi', vectors=False); c.set(this, 'problem_', P(p)); c.set(this, 'problem_to_optimize_', P(p))
    app = Obj('app', lazy=True); c.set(this, 'app_', P(app))
    return this, p, n, m

def hb(c, this): return (this, c.offset(OSI, 'hasBeenOptimized_'), 1)
def not_opt(c, st, this): c.require(st, bnot(c.get(st, this, 'hasBeenOptimized_', 'bool')), 'the old solution is no longer reported as current')

def set1(fn, field, kind='real', val=None):
    def f(c):
        this, p, n, m = osi(c); i = c.int('i', 0); c.assume(i < n)
        v = c.real('v') if val is None else val
        args = [P(this), i] + ([v] if val is None else [])
        for o in rets(c, c.call(fn, args)):
            L, A = c.vec(o.st, p, field, kind); L0, A0 = c.vec(c.pre, p, field, kind)
            c.require(o.st, ieq(L, L0), 'length kept')
            c.require(o.st, c.forall(n, lambda j: veq(A.read(j), ite(ieq(i, j), v, A0.read(j)))), 'exactly the named column is changed, to the given value')
            not_opt(c, o.st, this)
            c.unchanged(o.st, [buf(c, c.pre, p, field), hb(c, this)])
    return f

def setall(fn, field):
    def f(c):
        this, p, n, m = osi(c); x = c.array('arr', n)
        for o in rets(c, c.call(fn, [P(this), x])):
            vec_is(c, o.st, p, field, n, c.arr(c.pre, x), 'all bounds replaced')
            not_opt(c, o.st, this)
            c.unchanged(o.st, [buf(c, c.pre, p, field), (p, c.offset(NLP, field), 24), hb(c, this)])
    return f

def view(fn, field, size, opt=None, shape='xd'):
    def f(c):
        this, p, n, m = osi(c, shape)
        h = c.get(c.st, this, 'hasBeenOptimized_', 'bool')
        if opt is not None: c.assume(h if opt else bnot(h))
        z = {'n': n, 'm': m, 'k': iadd(imul(2, n), m)}[size]; c.assume(z >= 1)
        for o in rets(c, c.call(OSI + '::' + fn, [P(this)])):
            A = c.arr(o.st, o.val); base = 0
            F = 'x_init_' if field == 'duals_init' else field
            if field == 'duals_init': base = n
            V = c.vec(c.pre, p, F)[1]
            c.require(o.st, c.forall(z, lambda j: veq(A.read(j), V.read(iadd(j, base)))), '%s shows the relaxation\'s %s' % (fn, field))
            c.unchanged(o.st)
    return f

def noduals(c):
    this, p, n, m = osi(c, 'x'); c.assume(bnot(c.get(c.st, this, 'hasBeenOptimized_', 'bool')))
    for o in rets(c, c.call(OSI + '::getRowPrice', [P(this)])): c.require(o.st, c.ex.ptreq(o.val, NULL), 'no multipliers reported when none are known'); c.unchanged(o.st)

def num(fn, which):
    def f(c):
        this, p, n, m = osi(c)
        for o in rets(c, c.call(OSI + '::' + fn, [P(this)])): c.require(o.st, ieq(o.val, n if which == 'n' else m), fn); c.unchanged(o.st)
    return f
def objv(c):
    this, p, n, m = osi(c)
    for o in rets(c, c.call(OSI + '::getObjValue', [P(this)])): c.require(o.st, veq(o.val, c.get(c.pre, p, 'obj_value_', 'real')), 'objective value of the relaxation'); c.unchanged(o.st)
def force(c):
    this, p, n, m = osi(c)
    for o in rets(c, c.call(OSI + '::forceInfeasible', [P(this)])):
        c.require(o.st, ile_r(Fraction(10)**199, c.get(o.st, p, 'obj_value_', 'real')), 'objective is beyond any cutoff'); c.unchanged(o.st, [(p, c.offset(NLP, 'obj_value_'), 8)])
def ile_r(a, b): return zr(a) <= zr(b)
def sense(c):
    this, p, n, m = osi(c)
    for o in rets(c, c.call(OSI + '::getObjSense', [P(this)])): c.require(o.st, veq(o.val, Fraction(1)), 'minimisation'); c.unchanged(o.st)
def inf(c):
    this, p, n, m = osi(c)
    for o in rets(c, c.call(OSI + '::getInfinity', [P(this)])): c.require(o.st, veq(o.val, INF), 'infinity'); c.unchanged(o.st)

CONT, BIN, INT = 0, 1, 2
def typ(fn, want):
    def f(c):
        this, p, n, m = osi(c); i = c.int('i', 0); c.assume(i < n)
        t = c.vec(c.st, p, 'var_types_', 'int')[1].read(i)
        w = want(c, p, t, i)
        for o in rets(c, c.call(OSI + '::' + fn, [P(this), i])): c.require(o.st, zb(tobool(o.val)) == w, '%s is right for every type' % fn); c.unchanged(o.st)
    return f
def freebin(c, p, t, i):
    lo, up = c.vec(c.st, p, 'x_l_')[1].read(i), c.vec(c.st, p, 'x_u_')[1].read(i)
    # bounds of a binary are 0/1 valued
    c.assume(z3.Implies(t == BIN, z3.And(z3.Or(lo == 0, lo == 1), z3.Or(up == 0, up == 1), lo <= up)))
    return z3.And(t == BIN, lo < up)

def setsol(null, shape):
    def f(c):
        this, p, n, m = osi(c, shape); x = NULL if null else c.array('colsol', n)
        for o in rets(c, c.call(OSI + '::setColSolution', [P(this), x])):
            L, A = c.vec(o.st, p, 'x_init_')
            if null:
                c.require(o.st, ieq(L, 0), 'start forgotten'); c.require(o.st, c.ex.ptreq(c.get(o.st, p, 'duals_init_', 'ptr'), NULL), 'dual start forgotten')
            else:
                X = c.arr(c.pre, x)
                c.require(o.st, ile(n, L), 'start stored'); c.require(o.st, c.forall(n, lambda j: veq(A.read(j), X.read(j))), 'the point set is the one stored')
                if shape == 'xd':
                    A0 = c.vec(c.pre, p, 'x_init_')[1]; c.require(o.st, c.forall(iadd(imul(3, n), m), lambda j: veq(A.read(j), A0.read(j)), lo=n), 'multipliers kept')
                c02.post_inv(c, o.st, p, n, m, 'setColSolution')
            not_opt(c, o.st, this)
            c.unchanged(o.st, [buf(c, c.pre, p, 'x_init_'), (p, c.offset(NLP, 'x_init_'), 24), (p, c.offset(NLP, 'duals_init_'), 8), hb(c, this)] + ([(p, c.offset(NLP, 'curr_warm_starter_'), 8)] if null else []))
    return f
def setprice(shape):
    def f(c):
        this, p, n, m = osi(c, shape); k = iadd(imul(2, n), m); x = c.array('rowprice', k)
        for o in rets(c, c.call(OSI + '::setRowPrice', [P(this), x])):
            L, A = c.vec(o.st, p, 'x_init_'); X = c.arr(c.pre, x)
            c02.post_inv(c, o.st, p, n, m, 'setRowPrice')
            d = c.get(o.st, p, 'duals_init_', 'ptr'); c.require(o.st, isinstance(d, P) and d.obj is not None, 'dual start is stored')
            c.require(o.st, c.forall(k, lambda j: veq(A.read(iadd(n, j)), X.read(j))), 'the multipliers set are the ones stored')
            if shape != 'none':
                A0 = c.vec(c.pre, p, 'x_init_')[1]; c.require(o.st, c.forall(n, lambda j: veq(A.read(j), A0.read(j))), 'primal start kept')
            not_opt(c, o.st, this)
            c.unchanged(o.st, [buf(c, c.pre, p, 'x_init_'), (p, c.offset(NLP, 'x_init_'), 24), (p, c.offset(NLP, 'duals_init_'), 8), hb(c, this)])
    return f

def rowview(fn):
    def f(c):
        this, p, n, m = osi(c); c.assume(m >= 1)
        for q in ('rowsense_', 'rhs_', 'rowrange_'): c.set(this, q, NULL)
        INFT = zr(INF)
        GL, GU = c.vec(c.st, p, 'g_l_')[1], c.vec(c.st, p, 'g_u_')[1]
        for o in rets(c, c.call(OSI + '::' + fn, [P(this)])):
            st = o.st; S, R, G = [c.get(st, this, q, 'ptr') for q in ('rowsense_', 'rhs_', 'rowrange_')]
            c.require(st, c.ex.ptreq(o.val, {'getRowSense': S, 'getRightHandSide': R, 'getRowRange': G}[fn]), 'returns the requested array')
            if not all(isinstance(q, P) and q.obj is not None for q in (S, R, G)): c.require(st, False, 'row data built'); continue
            S, R, G = c.arr(st, S, 'int', 1), c.arr(st, R), c.arr(st, G)
            lo = lambda j: GL.read(j) > -INFT
            up = lambda j: GU.read(j) < INFT
            eq = lambda j: GL.read(j) == GU.read(j)
            def s(j): return z3.If(z3.And(lo(j), up(j)), z3.If(eq(j), 69, 82), z3.If(lo(j), 71, z3.If(up(j), 76, 78)))
            def r(j): return z3.If(up(j), GU.read(j), z3.If(lo(j), GL.read(j), z3.RealVal(0)))
            def g(j): return z3.If(z3.And(lo(j), up(j), z3.Not(eq(j))), GU.read(j) - GL.read(j), z3.RealVal(0))
            c.require(st, c.forall(m, lambda j: veq(S.read(j), s(j))), 'row senses'); c.require(st, c.forall(m, lambda j: veq(R.read(j), r(j))), 'right-hand sides'); c.require(st, c.forall(m, lambda j: veq(G.read(j), g(j))), 'ranges')
            c.unchanged(st, [(this, c.offset(OSI, q), 8) for q in ('rowsense_', 'rhs_', 'rowrange_')])
    return f

def cutoff_set(c):
    this, p, n, m = osi(c); v = c.real('v')
    for o in rets(c, c.call(OSI + '::setDblParam', [P(this), 0, v])):
        c.require(o.st, veq(c.get(o.st, this, 'OsiDualObjectiveLimit_', 'real'), v), 'cutoff stored'); c.require(o.st, zb(tobool(o.val)), 'reported as set'); c.unchanged(o.st, [(this, c.offset(OSI, 'OsiDualObjectiveLimit_'), 8)])
def cutoff_get(c):
    this, p, n, m = osi(c); v = c.scalar('out')
    for o in rets(c, c.call(OSI + '::getDblParam', [P(this), 0, v])):
        c.require(o.st, veq(c.deref(o.st, v), c.get(c.pre, this, 'OsiDualObjectiveLimit_', 'real')), 'cutoff read back'); c.require(o.st, zb(tobool(o.val)), 'reported as known'); c.unchanged(o.st, [v])
def refuse_set(key):
    def f(c):
        this, p, n, m = osi(c); v = c.real('v'); c.set(this, c.offset(OSI, 'handler_') and 'handler_', P(Obj('handler', lazy=True)))
        for o in rets(c, c.call(OSI + '::setDblParam', [P(this), key, v])):
            c.require(o.st, bnot(tobool(o.val)), 'a parameter that cannot be set is refused'); c.unchanged(o.st)
    return f

CASES = [('setColLower(i)', set1(OSI + '::setColLower(int, double)', 'x_l_')), ('setColUpper(i)', set1(OSI + '::setColUpper(int, double)', 'x_u_')),
 ('setColLower(all)', setall(OSI + '::setColLower(double const*)', 'x_l_')), ('setColUpper(all)', setall(OSI + '::setColUpper(double const*)', 'x_u_')),
 ('setContinuous', set1(OSI + '::setContinuous', 'var_types_', 'int', CONT)), ('setInteger', set1(OSI + '::setInteger', 'var_types_', 'int', INT)),
 ('getColLower', view('getColLower', 'x_l_', 'n')), ('getColUpper', view('getColUpper', 'x_u_', 'n')), ('getRowLower', view('getRowLower', 'g_l_', 'm')), ('getRowUpper', view('getRowUpper', 'g_u_', 'm')),
 ('getColSolution [optimized]', view('getColSolution', 'x_sol_', 'n', True)), ('getColSolution [not]', view('getColSolution', 'x_init_', 'n', False)),
 ('getRowPrice [optimized]', view('getRowPrice', 'duals_sol_', 'k', True)), ('getRowPrice [not]', view('getRowPrice', 'duals_init', 'k', False)), ('getRowPrice [none]', noduals),
 ('getRowActivity', view('getRowActivity', 'g_sol_', 'm')), ('getNumCols', num('getNumCols', 'n')), ('getNumRows', num('getNumRows', 'm')), ('getObjValue', objv), ('forceInfeasible', force), ('getObjSense', sense), ('getInfinity', inf),
 ('isContinuous', typ('isContinuous', lambda c, p, t, i: t == CONT)), ('isBinary', typ('isBinary', lambda c, p, t, i: t == BIN)), ('isInteger', typ('isInteger', lambda c, p, t, i: z3.Or(t == BIN, t == INT))),
 ('isIntegerNonBinary', typ('isIntegerNonBinary', lambda c, p, t, i: t == INT)), ('isFreeBinary', typ('isFreeBinary', freebin))] \
 + [('setColSolution [null=%d,%s]' % (q, s), setsol(q, s)) for q in (0, 1) for s in ('none', 'x', 'xd')] + [('setRowPrice [%s]' % s, setprice(s)) for s in ('none', 'x', 'xd')] \
 + [(f, rowview(f)) for f in ('getRowSense', 'getRightHandSide', 'getRowRange')] + [('cutoff set', cutoff_set), ('cutoff get', cutoff_get)] + [('setDblParam refused %d' % k, refuse_set(k)) for k in (1, 2, 3)]
