"""C07: outcomes of NLP solves are classified faithfully; failures are never mistaken for answers."""
from common import *
import c06
TUS = ['src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTNLPSolver.cpp', 'src/Interfaces/Ipopt/BonIpoptSolver.cpp']
HARNESS = 'h_osi.cpp'
EXTRA = '''#include "BonTNLPSolver.hpp"
bool zz_use(Bonmin::TNLPSolver &s, Bonmin::TNLPSolver::ReturnStatus &r){ return s.isError(r) || s.isRecoverable(r); }
'''
ASSUMPTIONS = ['solveAndCheckErrors: no debugging solvers attached, suspect-problem dumps off, integrality of the alternative-objective test judged by variable types (no branching objects attached)', 'Ipopt returns one of its documented ApplicationReturnStatus codes', 'user callbacks write exactly the documented number of entries', 'sizes below 2^28',
               'the interruption flag BonminAbortAll is not raised during the call (its effect when raised before is part of the contract)']
OSI = c06.OSI
IP = 'Bonmin::IpoptSolver'
# Bonmin::TNLPSolver::ReturnStatus
S = dict(iterationLimit=-3, timeLimit=5, doesNotConverge=-8, computationError=-2, notEnoughFreedom=-1, illDefinedProblem=-4, illegalOption=-5, externalException=-6, exception=-7, solvedOptimal=1, solvedOptimalTol=2, provenInfeasible=3, unbounded=4)
# Ipopt::ApplicationReturnStatus
A = dict(Solve_Succeeded=0, Solved_To_Acceptable_Level=1, Infeasible_Problem_Detected=2, Search_Direction_Becomes_Too_Small=3, Diverging_Iterates=4, User_Requested_Stop=5, Feasible_Point_Found=6,
         Maximum_Iterations_Exceeded=-1, Restoration_Failed=-2, Error_In_Step_Computation=-3, Maximum_CpuTime_Exceeded=-4, Not_Enough_Degrees_Of_Freedom=-10, Invalid_Problem_Definition=-11, Invalid_Option=-12,
         Invalid_Number_Detected=-13, Unrecoverable_Exception=-100, NonIpopt_Exception_Thrown=-101, Insufficient_Memory=-102, Internal_Error=-199)
MAP = {0: 'solvedOptimal', 6: 'solvedOptimal', 1: 'solvedOptimalTol', 2: 'provenInfeasible', 4: 'unbounded', 3: 'doesNotConverge', 5: 'iterationLimit', -1: 'iterationLimit', -2: 'iterationLimit', -3: 'computationError',
       -4: 'timeLimit', -10: 'notEnoughFreedom', -11: 'illDefinedProblem', -12: 'illegalOption', -13: 'illegalOption', -100: 'computationError', -101: 'externalException', -102: 'computationError', -199: 'exception'}
def mapped(s):
    r = z3.IntVal(S['exception'])
    for k, v in MAP.items(): r = z3.If(s == k, z3.IntVal(S[v]), r)
    return r
def answered(r): return z3.Or(*[r == S[q] for q in ('solvedOptimal', 'solvedOptimalTol', 'provenInfeasible', 'unbounded')])

def ret_status(c):
    this = c.object(IP, 'ipopt', vectors=False); s = c.int('status')
    for o in rets(c, c.call(IP + '::solverReturnStatus', [P(this), s])):
        r = zi(o.val)
        c.require(o.st, (r == 1) == z3.Or(s == 0, s == 6), 'reported solved exactly when Ipopt converged')
        c.require(o.st, (r == 2) == (s == 1), 'reported solved to acceptable level exactly then')
        c.require(o.st, (r == 3) == (s == 2), 'reported infeasible exactly when Ipopt detected infeasibility')
        c.require(o.st, (r == 4) == (s == 4), 'reported unbounded exactly for diverging iterates')
        c.require(o.st, (r == 5) == (s == -4), 'time limit reported exactly then')
        c.require(o.st, z3.Implies(z3.Not(z3.Or(s == 0, s == 6, s == 1, s == 2, s == 4, s == -4)), r < 0), 'every other outcome is a failure')
        c.require(o.st, r == mapped(s), 'documented failure class')
        c.unchanged(o.st)

def ipopt_obj(c):
    this = c.object(IP, 'ipopt', vectors=False); app = Obj('ipopt_app', lazy=True); c.set(this, 'app_', P(app))
    st = c.int('ipopt_result'); c.st.ghost['app'] = ()
    def run(kind):
        def h(ex, s, a, ins, m, ctx): s.ghost['app'] = s.ghost['app'] + (kind,); return st
        return h
    c.ex.vmodels['Ipopt::IpoptApplication::OptimizeTNLP'] = run('opt'); c.ex.vmodels['Ipopt::IpoptApplication::ReOptimizeTNLP'] = run('re')
    zd = c.bool('zero_dim'); zs = c.int('zero_dim_status')
    def zero(ex, s, a, ins, dem, ctx):
        s.assume(z3.Or(zs == 1, zs == 3)); ex.store(s, a[2], ite(zd, zs, ex.fresh(s, 'int', 'unset')), scal_ty(4, 'int')); return zd
    c.ex.add_model(r'Bonmin::TNLPSolver::zeroDimension\(', zero)
    return this, st, zd, zs

def optimize(fn):
    def f(c):
        this, st, zd, zs = ipopt_obj(c); tn = c.object(NLP, 'tnlp'); cell = Obj('tnlp_sp', lazy=True); c.st.mem[cell] = OS(cells={0: (8, P(tn))}, size=8)
        for o in rets(c, c.call(IP + '::' + fn, [P(this), P(cell)])):
            ab = abort(c, o.st)
            want = z3.If(ab, z3.IntVal(3), z3.If(zd, zs, mapped(st)))
            c.require(o.st, zi(o.val) == want, 'status of the solve that was made')
            k = o.st.ghost['app']
            c.require(o.st, z3.If(zd, z3.BoolVal(len(k) == 0), z3.BoolVal(len(k) == 1)), 'Ipopt is called exactly once unless all variables are fixed')
            c.require(o.st, implies(bnot(zd), z3.BoolVal(True) if 'opt' in k else zb(c.get(c.pre, this, 'optimized_before_', 'bool'))), 're-optimisation only after an optimisation')
    return f
def abort(c, st):
    ex = c.ex; name = [g for g in ex.m.globrefs if 'BonminAbortAll' in g]
    if not name: raise Unsupported('BonminAbortAll not found')
    s, ex.sink = ex.sink, False
    v = ex.load(st, P(ex.gobj(name[0]), 0), scal_ty(1, 'int')); ex.sink = s
    return zb(tobool(v))

def iserr(c):
    this = c.object(IP, 'ipopt', vectors=False); r = c.int('r', -8, 5); c.assume(r != 0); cell = Obj('r', lazy=True); c.st.mem[cell] = OS(cells={0: (4, r)}, size=4)
    for o in rets(c, c.call('Bonmin::TNLPSolver::isError', [P(this), P(cell)])): c.require(o.st, zb(tobool(o.val)) == (r < 0), 'isError'); c.unchanged(o.st)
def isrec(c):
    this = c.object(IP, 'ipopt', vectors=False); r = c.int('r', -8, 5); c.assume(r != 0); cell = Obj('r', lazy=True); c.st.mem[cell] = OS(cells={0: (4, r)}, size=4)
    for o in rets(c, c.call('Bonmin::TNLPSolver::isRecoverable', [P(this), P(cell)])):
        c.require(o.st, implies(r > 0, tobool(o.val)), 'an answered or time-limited problem is not an unrecoverable failure')
        c.require(o.st, implies(r <= 0, zb(tobool(o.val)) == z3.Not(z3.Or(*[r == S[q] for q in ('illDefinedProblem', 'notEnoughFreedom', 'illegalOption', 'computationError')]))), 'unrecoverable failures are the documented ones')
        c.unchanged(o.st)

def query(fn, want):
    def f(c):
        this, p, n, m = c06.osi(c); s = c.get(c.st, this, 'optimizationStatus_'); pre = c.get(c.st, this, 'pretendSucceededNext_') != 0
        c.assume(z3.And(zi(s) >= -8, zi(s) <= 5))
        c.set(this, 'handler_', P(Obj('handler', lazy=True)))
        for o in rets(c, c.call(OSI + '::' + fn, [P(this)])):
            c.require(o.st, want(zi(s), zb(pre), zb(tobool(o.val))), '%s matches the stored status' % fn)
            c.unchanged(o.st, [(this, c.offset(OSI, 'pretendSucceededNext_'), 4)] if fn == 'isAbandoned' else [])
    return f
FAIL = ('iterationLimit', 'computationError', 'illDefinedProblem', 'illegalOption', 'externalException', 'exception')
QUERIES = [('isProvenOptimal', lambda s, p, r: r == z3.Or(s == 1, s == 2)), ('isProvenPrimalInfeasible', lambda s, p, r: r == (s == 3)), ('isProvenDualInfeasible', lambda s, p, r: r == (s == 4)), ('isIterationLimitReached', lambda s, p, r: r == (s == -3)),
 ('isAbandoned', lambda s, p, r: z3.And(z3.Implies(r, s < 0), z3.Implies(z3.Not(p), z3.And(*[z3.Implies(s == S[q], r) for q in FAIL]))))]

TOL5, TOL7 = Fraction(1e-5), Fraction(1e-7)
def zero_dim(hasm):
    def f(c):
        user = virt('t', 'get_bounds_info', TMINLP['get_bounds_info'])
        for meth in ('get_nlp_info', 'get_bounds_info', 'eval_f', 'eval_g'): c.ex.vmodels['Ipopt::TNLP::' + meth] = virt('Ipopt::TNLP', meth, TMINLP[meth])
        def fin(ex, st, a, ins, m, ctx):
            n, mm = a[2], a[6]
            x = rdarr(ex, st, a[3], n, 'real', 8, m)
            g = rdarr(ex, st, a[7], mm, 'real', 8, m) if hasm else None
            z = [rdarr(ex, st, q, n, 'real', 8, m) if isinstance(q, P) and q.obj is not None else None for q in (a[4], a[5])] + [rdarr(ex, st, a[8], mm, 'real', 8, m) if hasm and isinstance(a[8], P) and a[8].obj is not None else None]
            st.ghost['fin'] = st.ghost.get('fin', ()) + (dict(status=a[1], n=n, x=x, m=mm, g=g, obj=a[9], z=z),)
        c.ex.vmodels['Ipopt::TNLP::finalize_solution'] = fin
        this = c.object(IP, 'ipopt', vectors=False); tn = Obj('tnlp', lazy=True); cell = Obj('tnlp_sp', lazy=True); c.st.mem[cell] = OS(cells={0: (8, P(tn))}, size=8)
        out = c.scalar('status', 'int', 4)
        c.ex.lazy[('uval', 'U_get_nlp_info_m', ())] = mm = z3.Int('m'); c.assume(mm >= 1 if hasm else mm == 0)
        c.ex.lazy[('uval', 'U_get_nlp_info_n', ())] = nn = z3.Int('n'); c.assume(nn >= 0)
        if c.small: c.assume(nn <= c.small); c.assume(mm <= c.small)
        for o in rets(c, c.call('Bonmin::TNLPSolver::zeroDimension', [P(this), P(cell), out])):
            st = o.st; b = calls(st, 'get_bounds_info'); inf = calls(st, 'get_nlp_info')
            c.require(st, len(b) == 1 and len(inf) == 1, 'sizes and bounds read from the problem')
            if len(b) != 1 or len(inf) != 1: continue
            n, m = inf[0].outs['n'], inf[0].outs['m']; xl, xu = b[0].outs['xl'], b[0].outs['xu']
            fin_ = st.ghost.get('fin', ()); ret = tobool(o.val)
            c.require(st, implies(ret, c.forall(n, lambda j: zr(xu.read(j)) - zr(xl.read(j)) <= zr(TOL5))), 'treated as fixed only if every variable is fixed')
            w = z3.Int('w'); 
            if ret is False or (isz(ret) and z3.is_false(z3.simplify(ret))): c.require(st, len(fin_) == 0 and not calls(st, 'eval_f'), 'otherwise left to the solver')
            else:
                c.require(st, len(fin_) == 1, 'the fixed point is reported once')
                if len(fin_) != 1: continue
                F = fin_[0]; ef, eg = calls(st, 'eval_f'), calls(st, 'eval_g')
                c.require(st, len(ef) >= 1 and (len(eg) >= 1 or not hasm), 'objective and constraints evaluated')
                if not ef or (hasm and not eg): continue
                c.require(st, ieq(F['n'], n), 'sizes'); c.require(st, ieq(F['m'], m), 'sizes')
                c.require(st, c.forall(n, lambda j: veq(F['x'].read(j), xl.read(j))), 'reported point is the fixed one')
                c.require(st, c.forall(n, lambda j: veq(ef[-1].ins['x'].read(j), xl.read(j))), 'objective evaluated there'); c.require(st, veq(F['obj'], ef[-1].outs['f']), 'objective reported')
                gl, gu = b[0].outs['gl'], b[0].outs['gu']
                s = c.deref(st, out, 'int')
                c.require(st, z3.Or(zi(s) == 1, zi(s) == 3), 'solved or infeasible')
                c.require(st, (zi(s) == 1) == (zi(F['status']) == 0), 'the problem is told the same outcome'); c.require(st, (zi(s) == 3) == (zi(F['status']) == 5), 'the problem is told the same outcome')
                if hasm:
                    g = eg[-1].outs['g']
                    c.require(st, c.forall(n, lambda j: veq(eg[-1].ins['x'].read(j), xl.read(j))), 'constraints evaluated there'); c.require(st, c.forall(m, lambda j: veq(F['g'].read(j), g.read(j))), 'activities reported')
                    okj = lambda j: z3.And(g.read(j) - gl.read(j) >= -zr(TOL7), g.read(j) - gu.read(j) <= zr(TOL7))
                    c.require(st, implies(zi(s) == 1, c.forall(m, okj)), 'reported solved only if every constraint holds')
                    c.exists(st, m, lambda k: z3.Not(okj(k)), 'reported infeasible only if some constraint is violated', given=zi(s) == 3)
                else: c.require(st, zi(s) == 1, 'without constraints the point is feasible')
    return f
def hot(fn):
    def f(c):
        this, p, n, m = c06.osi(c); sb = Obj('sb', lazy=True); c.set(this, 'strong_branching_solver_', P(sb))
        s0 = c.get(c.st, this, 'optimizationStatus_'); sv = c.get(c.st, this, 'optimizationStatusBeforeHotStart_'); res = c.int('sb_result')
        for q in ('markHotStart', 'unmarkHotStart'):
            c.ex.vmodels['Bonmin::StrongBranchingSolver::' + q] = lambda ex, st, a, ins, mm, ctx: None
        c.ex.vmodels['Bonmin::StrongBranchingSolver::solveFromHotStart'] = lambda ex, st, a, ins, mm, ctx: res
        for o in rets(c, c.call(OSI + '::' + fn, [P(this)])):
            if fn == 'markHotStart':
                c.require(o.st, ieq(c.get(o.st, this, 'optimizationStatusBeforeHotStart_'), s0), 'status saved'); c.require(o.st, ieq(c.get(o.st, this, 'optimizationStatus_'), s0), 'status kept')
            elif fn == 'unmarkHotStart': c.require(o.st, ieq(c.get(o.st, this, 'optimizationStatus_'), sv), 'status before strong branching restored')
            else:
                c.require(o.st, ieq(c.get(o.st, this, 'optimizationStatus_'), res), 'status of the strong-branching solve'); c.require(o.st, c.get(o.st, this, 'hasBeenOptimized_', 'bool'), 'results current')
                c.require(o.st, ieq(c.get(o.st, this, 'optimizationStatusBeforeHotStart_'), sv), 'saved status kept')
    return f

CASES = [('IpoptSolver::solverReturnStatus', ret_status), ('isError', iserr), ('isRecoverable', isrec), ('OptimizeTNLP', optimize('OptimizeTNLP')), ('ReOptimizeTNLP', optimize('ReOptimizeTNLP'))] + [(f, query(f, w)) for f, w in QUERIES] \
 + [('zeroDimension [m>0]', zero_dim(True)), ('zeroDimension [m=0]', zero_dim(False))] + [(f, hot(f)) for f in ('markHotStart', 'solveFromHotStart', 'unmarkHotStart')]

def options_model(ex):
    """option lists: setters have no effect on the objects considered; getters deliver any value"""
    O = 'Ipopt::OptionsList::'
    for q in ('SetStringValue', 'SetIntegerValue', 'SetNumericValue'): ex.vmodels[O + q] = lambda e, s, a, ins, m, ctx: e.fresh(s, 'bool', 'set')
    def get(kind, sz):
        def h(e, s, a, ins, m, ctx):
            e.store(s, a[2], e.fresh(s, kind, 'optval'), scal_ty(sz, kind)); return e.fresh(s, 'bool', 'found')
        return h
    for q, k, z in (('GetIntegerValue', 'int', 4), ('GetEnumValue', 'int', 4), ('GetNumericValue', 'real', 8)): ex.vmodels[O + q] = get(k, z)
# ---- solving through the interface -------------------------------------------------------------
RECOVERABLE = lambda r: z3.Or(r > 0, z3.Not(z3.Or(*[r == S[q] for q in ('illDefinedProblem', 'notEnoughFreedom', 'illegalOption', 'computationError')])))
def app_models(c, this, p, res):
    """the NLP solver behind the interface: any status, any results (C03 covers how results are stored)"""
    ex = c.ex; c.st.ghost['nlp'] = ()
    def run(kind):
        def h(e, s, a, ins, m, ctx):
            k = len(s.ghost['nlp']); s.ghost['nlp'] = s.ghost['nlp'] + (dict(kind=kind, prob=e.load(s, a[1], scal_ty(8, 'ptr')), solver=a[0], status=res[min(k, len(res) - 1)]),)
            return res[min(k, len(res) - 1)]
        return h
    T = 'Bonmin::TNLPSolver::'
    ex.vmodels[T + 'OptimizeTNLP'] = run('opt'); ex.vmodels[T + 'ReOptimizeTNLP'] = run('re')
    def err(e, s, a, ins, m, ctx): return e.fresh(s, 'int', 'errcode')
    ex.vmodels[T + 'errorCode'] = err
    ex.vmodels[T + 'IterationCount'] = lambda e, s, a, ins, m, ctx: e.fresh(s, 'int', 'iters')
    ex.vmodels[T + 'CPUTime'] = lambda e, s, a, ins, m, ctx: e.fresh(s, 'real', 'cpu')
    ex.vmodels[T + 'newUnsolvedError'] = lambda e, s, a, ins, m, ctx: P(Obj('unsolved', lazy=True))
    ex.vmodels[T + 'options'] = lambda e, s, a, ins, m, ctx: P(Obj('opts', lazy=True))
    for q in ('enableWarmStart', 'disableWarmStart'):
        def h(e, s, a, ins, m, ctx, q=q): s.ghost['ws'] = s.ghost.get('ws', ()) + (q,)
        ex.vmodels[T + q] = h
    ex.add_model(r'OsiSolverInterface::getRowCutDebugger\(', lambda e, s, a, ins, dem, ctx: NULL)
    options_model(ex)
    ex.add_model(r'Bonmin::OsiTMINLPInterface::statusAsString\(', lambda e, s, a, ins, dem, ctx: P(Obj('status_text', lazy=True)))

    ex.vmodels[T + 'solverName'] = lambda e, s, a, ins, m, ctx: P(Obj('name', lazy=True))

def solve(warm, ub):
    def f(c):
        this, p, n, m = c06.osi(c); r = c.int('nlp_status', -8, 5); c.assume(r != 0); app_models(c, this, p, [r]); p.cls = NLP
        c.set(this, 'debug_apps_', P(this, c.offset(OSI, 'debug_apps_')))       # no debugging solvers
        c.assume(ieq(c.get(c.st, this, 'numIterationSuspect_'), -1))            # no suspect-problem dump
        t = c.get(c.st, p, 'tminlp_', 'ptr')
        ubo = z3.BoolVal(ub); c.ex.vmodels['Bonmin::TMINLP::hasUpperBoundingObjective'] = lambda e, s, a, ins, mm, ctx: ubo
        help_ = c.real('upper_bound_value'); c.st.ghost['ub'] = ()
        def ubf(e, s, a, ins, mm, ctx):
            s.ghost['ub'] = s.ghost['ub'] + (rdarr(e, s, a[2], n, 'real', 8, mm),); e.store(s, a[3], help_, scal_ty(8, 'real')); return True
        c.ex.vmodels['Bonmin::TMINLP::eval_upper_bound_f'] = ubf
        c.set(this, 'object_', NULL)
        aux = c.object('Bonmin::AuxInfo', 'aux', vectors=False); aux.cls = 'Bonmin::AuxInfo'
        b2 = Obj('bestObj2', lazy=True); best = c.real('best2'); c.st.mem[b2] = OS(cells={16: (8, best)}, size=24); c.set(aux, 'bestObj2_', P(b2))
        c.ex.add_model(r'OsiSolverInterface::getAuxiliaryInfo\(', lambda e, s, a, ins, dem, ctx: P(aux))
        def sb2(e, s, a, ins, dem, ctx): s.ghost['best2'] = rdarr(e, s, a[2], a[1], 'real', 8, dem)
        c.ex.add_model(r'Bonmin::AuxInfo::setBestSolution2\(', sb2)
        x = c.vec(c.st, p, 'x_sol_')[1]; ty = c.vec(c.st, p, 'var_types_', 'int')[1]
        ab0 = abort(c, c.st)
        for o in c.call(OSI + '::solveAndCheckErrors', [P(this), warm, c.int('throwOnFailure', 0, 1), P(Obj('from', lazy=True))]):
            st = o.st; log = st.ghost['nlp']
            if o.kind == 'throw':
                c.require(st, z3.Not(RECOVERABLE(r)), 'an error is raised only for an unrecoverable failure'); c.require(st, len(log) == 1, 'after one solve'); continue
            if o.kind != 'ret': continue
            if not log: c.require(st, ab0, 'the problem is solved unless the run was aborted'); c.unchanged(st); continue
            c.require(st, len(log) == 1 and log[0]['kind'] == ('re' if warm else 'opt'), 'solved once, warm started iff asked'); L = log[0]
            c.require(st, c.ex.ptreq(L['prob'], P(p)), 'the current relaxation is solved')
            c.require(st, z3.Not(ab0), 'not after an abort'); c.require(st, RECOVERABLE(r), 'an unrecoverable failure is raised as an error, not returned')
            c.require(st, ieq(c.get(st, this, 'optimizationStatus_'), r), "the status kept is the solver's"); c.require(st, c.get(st, this, 'hasBeenOptimized_', 'bool'), 'the results are now current')
            b = c.deref(st, P(b2, 16), 'real'); calls_ = st.ghost['ub']
            if not calls_:
                c.require(st, veq(b, best), 'best alternative value kept')
                if ub: c.exists(st, n, lambda k: z3.And(z3.Or(ty.read(k) == 1, ty.read(k) == 2), fr(c, x.read(k)) > zr(Fraction(1e-8))), 'an integer optimal solution has its alternative objective evaluated', given=z3.And(z3.Or(r == 1, r == 2)))
            else:
                c.require(st, ub, 'only when the problem has one'); c.require(st, z3.Or(r == 1, r == 2), 'only for solved problems')
                c.require(st, c.forall(n, lambda j: z3.Implies(z3.Or(ty.read(j) == 1, ty.read(j) == 2), fr(c, x.read(j)) <= zr(Fraction(1e-8)))), 'only for integer solutions')
                c.require(st, c.forall(n, lambda j: veq(calls_[0].read(j), x.read(j))), 'evaluated at the solution')
                c.require(st, veq(b, z3.If(help_ < best, help_, best)), 'best alternative value is the minimum so far')
                s2 = st.ghost.get('best2')
                c.require(st, z3.BoolVal(s2 is not None) == (help_ < best), 'solution kept exactly when it improves')
                if s2 is not None: c.require(st, c.forall(n, lambda j: veq(s2.read(j), x.read(j))), 'the solution kept is the current one')
            c.unchanged(st, [this, P(b2)] + [c.ex.gobj(g) for g in c.ex.m.globrefs if 'hasPrintedOptions' in g])
    return f
def fr(c, v):
    d = v - z3.ToReal(z3.ToInt(v + zr(Fraction(1, 2)))); return z3.If(d >= 0, d, -d)
CASES += [('solveAndCheckErrors [%s%s]' % ('warm' if w else 'cold', u and ', alternative objective' or ''), solve(w, u)) for w in (0, 1) for u in (False, True)]
