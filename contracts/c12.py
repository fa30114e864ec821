"""C12: what branch-and-bound reports at the end (status, solution, objective) is what the search established, and the search runs with the limits given."""
from common import *
from symex import Outcome
import re
TUS = ['src/CbcBonmin/BonCbc.cpp', 'src/CbcBonmin/BonCbcNlpStrategy.cpp']
HARNESS = 'h_bab.cpp'
BAB = 'Bonmin::Bab'; SET = 'Bonmin::BabSetupBase'; OSI = 'Bonmin::OsiTMINLPInterface'
ASSUMPTIONS = ['Cbc is represented by what it exposes at the end of the search: any status, objective, bound, solution (at least as many columns as the problem) and any exception of type UnsolvedError*; its setters have no other effect',
  'the setup has no extra cut generators, heuristics or branching objects beyond those of the continuous solver and no SOS constraints or user priorities; dynamic NLP cuts are off', 'the auxiliary information of the continuous solver is a Bonmin::BabInfo', 'sizes below 2^28']
INF = Fraction(1.7976931348623157e308)
SUCCESS, INFEASIBLE, UNBOUNDED, LIMIT, INTERRUPT, ERROR = range(6)
OPTIMAL, PROVENINF, FEASIBLE, UNBINF, NOSOL = range(5)
UE = '_ZTIPN6Bonmin10TNLPSolver13UnsolvedErrorE'
IP_ = dict(BabLogLevel=0, MaxFailures=2, FailureBehavior=3, MaxInfeasible=4, NumberStrong=5, MinReliability=6, MaxNodes=7, MaxSolutions=8, MaxIterations=9, SpecialOption=10, DisableSos=11, NumCutPasses=12, NumCutPassesAtRoot=13)
DP = dict(CutoffDecr=0, Cutoff=1, AllowableGap=2, AllowableFractionGap=3, IntTol=4, MaxTime=5)
def gread(c, st, nm):
    ex = c.ex; name = [g for g in ex.m.globrefs if nm in g]
    if not name: raise Unsupported(nm + ' not found')
    s, ex.sink = ex.sink, False
    v = ex.load(st, P(ex.gobj(name[0]), 0), scal_ty(1, 'int')); ex.sink = s
    return zb(tobool(v))

def setup(c, nlpbb, objects, comp, tree_):
    ex = c.ex; ex.merge = True
    this = c.object(BAB, 'bab', vectors=False); s = c.object(SET, 'setup', vectors=False)
    n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); nc = n if nlpbb else n + 1
    def M(f): return P(this, c.offset(BAB, 'model_.' + f))
    def gen(e, st, a, ins, dem, ctx):
        k = ins.ty.kind
        if k == 'void': return None
        if k == 'int': return e.fresh(st, 'bool' if ins.ty.width == 1 else 'int', 'ext')
        if k == 'ptr':
            o = Obj('ext_%d' % e.n, lazy=True); e.n += 1; st.mem[o] = OS(); return P(o)
        return e.fresh(st, 'real', 'ext')
    rx = re.compile(r'(Cbc|Osi|Coin|Cgl|Ipopt::|Bonmin::)'); ex.extrx = [(rx, gen)]; ex.vrx = [(rx, gen)]
    nlp = c.object(OSI, 'nlp', vectors=False); tm = Obj('tminlp', lazy=True); c.st.mem[tm] = OS(); c.set(nlp, 'tminlp_', P(tm)); app = Obj('app', lazy=True); c.st.mem[app] = OS(); c.set(nlp, 'app_', P(app))
    if nlpbb: cont = nlp
    else: cont = Obj('lp', lazy=True); c.st.mem[cont] = OS(); cont.cls = 'OsiSolverInterface'
    work = Obj('workcopy', lazy=True); c.st.mem[work] = OS(); work.cls = OSI if nlpbb else 'OsiSolverInterface'
    c.set(s, 'nonlinearSolver_', P(nlp)); c.set(s, 'continuousSolver_', P(cont))
    for l in ('cutGenerators_', 'heuristics_'): c.set(s, l + '._M_impl._M_node._M_next', P(s, c.offset(SET, l + '._M_impl._M_node._M_next')))
    c.set(s, 'objects_._M_impl._M_start', NULL); c.set(s, 'objects_._M_impl._M_finish', NULL)
    info = c.object('Bonmin::BabInfo', 'info', vectors=False)
    b2 = c.object('Bonmin::SimpleReferenced<class std::vector<double> >', 'best2'); o2 = c.object('Bonmin::SimpleReferenced<double>', 'obj2', vectors=False); c.set(info, 'bestSolution2_', P(b2)); c.set(info, 'bestObj2_', P(o2))
    L2, A2 = c.vec(c.st, b2, 'object'); c.assume(z3.Or(zi(L2) == 0, zi(L2) == n))
    st0 = c.st; par = lambda q: ex.load(st0, P(s, c.offset(SET, 'doubleParam_') + 8 * DP[q]), scal_ty(8, 'real'))
    ipar = lambda q: ex.load(st0, P(s, c.offset(SET, 'intParam_') + 4 * IP_[q]), scal_ty(4, 'int'))
    sv, ex.sink = ex.sink, False
    D = {q: par(q) for q in DP}; J = {q: ipar(q) for q in IP_}; ex.sink = sv
    c.assume(ieq(J['SpecialOption'], 16 if nlpbb else 0))
    c.set(s, 'nodeComparisonMethod_', comp, 4); c.set(s, 'treeTraversalMethod_', tree_, 4)
    c.set(this, 'model_.numberCutGenerators_', 0, 4)
    if not nlpbb: c.set(this, 'model_.object_', NULL)
    A = ex.add_model; A(r'sprintf$', lambda e, st, a, ins, dem, ctx: 0)
    A = ex.add_model
    A(r'OsiSolverInterface::getAuxiliaryInfo\(', lambda e, st, a, ins, dem, ctx: P(info))
    for k in ('OsiSolverInterface', OSI): ex.vmodels[k + '::clone'] = lambda e, st, a, ins, m, ctx: P(work)
    for k in ('OsiSolverInterface', OSI): ex.vmodels[k + '::getNumCols'] = lambda e, st, a, ins, m, ctx: n if e.prove_quick(st, zb(e.ptreq(a[0], P(nlp)))) or nlpbb else nc
    A(r'CbcModel::assignSolver\(', lambda e, st, a, ins, dem, ctx: e.store(st, M('solver_'), P(work), scal_ty(8, 'ptr')))
    strat = c.object('Bonmin::CbcNlpStrategy', 'strategy', vectors=False)
    def setstrat(e, st, a, ins, dem, ctx):
        g = lambda f: zi(e.load(st, P(a[1].obj, iadd(a[1].off, c.offset('Bonmin::CbcNlpStrategy', f))), scal_ty(4, 'int')))
        e.oblige(st, z3.And(g('maxFailure_') == zi(J['MaxFailures']), g('maxInfeasible_') == zi(J['MaxInfeasible']), g('pretendFailIsInfeasible_') == zi(J['FailureBehavior'])), 'pre', 'failure policy as set')
        st.ghost['policy'] = 1; e.store(st, M('strategy_'), P(strat), scal_ty(8, 'ptr'))
    A(r'CbcModel::setStrategy\(', setstrat)
    A(r'CbcModel::setCutoff\(', lambda e, st, a, ins, dem, ctx: st.ghost.__setitem__('cutoff', a[1]))
    A(r'CoinCpuTime\(', lambda e, st, a, ins, dem, ctx: clock(e, st))
    def clock(e, st):
        k = st.ghost.get('clock', ()); t = z3.Real('clock%d' % len(k))
        if k: st.assume(t >= k[-1])
        st.ghost['clock'] = k + (t,); return t
    # branching objects: either those of the continuous solver, or integer variables found by Cbc
    bm = Obj('branching', lazy=True); c.st.mem[bm] = OS(); c.set(s, 'branchingMethod_', P(bm) if objects else NULL)
    ob = Obj('osiobjects', lazy=True); c.st.mem[ob] = OS()
    A(r'OsiSolverInterface::objects\(', lambda e, st, a, ins, dem, ctx: P(ob) if objects else NULL)
    for f in ('Priorities', 'UpPsCosts', 'DownPsCosts', 'BranchingDirections'): A(r'Bonmin::OsiTMINLPInterface::get%s\(' % f, lambda e, st, a, ins, dem, ctx: NULL)
    ex.vmodels['Bonmin::TMINLP::sosConstraints'] = lambda e, st, a, ins, m, ctx: NULL
    enum = lambda e, st, a, ins, m, ctx: (e.store(st, a[2], 0, scal_ty(4, 'int')), True)[1]
    ex.vmodels['Ipopt::OptionsList::GetEnumValue'] = enum
    def fin(e, st, a, ins, m, ctx): st.ghost['fin'] = st.ghost['fin'] + (tuple(a[1:]),)
    ex.vmodels['Bonmin::TMINLP::finalize_solution'] = fin
    err = Obj('error', lazy=True); c.st.mem[err] = OS()
    def thrower(e, st): s2 = st.copy(); s2.ghost['error'] = 1; return Outcome('throw', s2, (UE, P(err)))
    def init(e, st, a, ins, dem, ctx):
        t1, t2 = clock(e, st), clock(e, st); st.ghost['initial'] = (t1, t2); t = thrower(e, st); return [t, Outcome('ret', st, None)]
    A(r'CbcModel::initialSolve\(', init)
    F = dict(status=z3.Int('cbc_status'), obj=z3.Real('cbc_obj'), bound=z3.Real('cbc_bound'), nobj=z3.Int('cbc_objects'), unb=z3.Bool('cbc_unbounded'), sol=z3.Bool('cbc_has_solution')); c.assume(F['nobj'] >= 0, F['status'] >= 0, F['status'] <= 5)
    sol = c.array('cbc_solution', nc); F['X'] = c.arr(c.st, sol)
    def search(e, st, a, ins, dem, ctx):
        o = lambda g, w: e.oblige(st, g, 'pre', w); ld = lambda q, t: e.load(st, q, scal_ty(8 if t == 'real' else 4, t))
        dbl = lambda k: zr(ld(P(this, c.offset(BAB, 'model_.dblParam_') + 8 * k), 'real')); it = lambda k: zi(ld(P(this, c.offset(BAB, 'model_.intParam_') + 4 * k), 'int'))
        o(dbl(0) == zr(D['IntTol']), 'integer tolerance as set'); o(dbl(2) == zr(D['CutoffDecr']), 'cutoff decrement as set'); o(dbl(3) == zr(D['AllowableGap']), 'allowable gap as set'); o(dbl(4) == zr(D['AllowableFractionGap']), 'allowable fraction gap as set')
        o(z3.And(dbl(5) <= zr(D['MaxTime']) + st.ghost['initial'][0] - st.ghost['initial'][1], dbl(5) > 0) if 'initial' in st.ghost else False, 'time limit: what the first relaxation left of the limit set')
        o(it(0) == zi(J['MaxNodes']), 'node limit as set'); o(it(1) == zi(J['MaxSolutions']), 'solution limit as set'); o(zi(ld(M('maximumNumberIterations_'), 'int')) == zi(J['MaxIterations']), 'iteration limit as set')
        o(z3.And(zr(st.ghost['cutoff']) >= zr(D['Cutoff']), zr(st.ghost['cutoff']) <= zr(D['Cutoff']) + zr(Fraction(2, 10**6))) if 'cutoff' in st.ghost else False, 'cutoff as set, not tightened')
        o(e.ptreq(ld2(e, st, M('solver_')), P(work)), 'the search works on a copy of the continuous solver')
        if nlpbb: o(st.ghost.get('policy') == 1, 'failure policy given to the search')
        st.ghost['searched'] = 1; st.ghost['left'] = dbl(5)
        for f, v, ty in (('status_', F['status'], 'int'), ('bestObjective_', F['obj'], 'real'), ('bestPossibleObjective_', F['bound'], 'real'), ('numberObjects_', F['nobj'], 'int')): e.store(st, M(f), v, scal_ty(8 if ty == 'real' else 4, ty))
        sa, sb = e.split(st, F['sol']); out = []
        for s2, p2 in ((sa, sol), (sb, NULL)):
            if s2 is not None: e.store(s2, M('bestSolution_'), p2, scal_ty(8, 'ptr')); out += [thrower(e, s2), Outcome('ret', s2, None)]
        return out
    A(r'CbcModel::branchAndBound\(', search)
    A(r'CbcModel::isContinuousUnbounded\(', lambda e, st, a, ins, dem, ctx: F['unb'])
    A(r'CbcModel::getBestPossibleObjValue\(', lambda e, st, a, ins, dem, ctx: F['bound'])
    A(r'signal$', lambda e, st, a, ins, dem, ctx: NULL)
    tree = {k: Obj('tree' + k, lazy=True) for k in ('dfs', 'other')}; tree['dfs'].cls = 'Bonmin::CbcDfsDiver'; tree['other'].cls = 'CbcTree'
    for o_ in tree.values(): c.st.mem[o_] = OS()
    A(r'Bonmin::CbcDfsDiver::CbcDfsDiver\(\)', lambda e, st, a, ins, dem, ctx: st.ghost.__setitem__(('dfs', a[0].obj.id), 1))
    A(r'CbcModel::passInTreeHandler\(', lambda e, st, a, ins, dem, ctx: e.store(st, M('tree_'), P(tree['dfs' if ('dfs', a[1].obj.id) in st.ghost else 'other']), scal_ty(8, 'ptr')))
    # queries of the solvers at the end
    q = {}
    for k in ('OsiSolverInterface', OSI):
        for f, kind in (('isProvenOptimal', 'bool'), ('isProvenPrimalInfeasible', 'bool'), ('isProvenDualInfeasible', 'bool'), ('getObjValue', 'real'), ('getObjSense', 'real')):
            def h(e, st, a, ins, m, ctx, f=f, kind=kind):
                w = 'nlp' if e.prove_quick(st, zb(e.ptreq(a[0], P(nlp)))) else 'work'
                if f == 'getObjSense': return z3.RealVal(1)
                return z3.Bool('%s_%s' % (w, f)) if kind == 'bool' else z3.Real('%s_%s' % (w, f))
            ex.vmodels[k + '::' + f] = h
    rx_ = {w: c.array('x_' + w, n) for w in ('nlp', 'work')}
    for k in ('OsiSolverInterface', OSI):
        ex.vmodels[k + '::getColSolution'] = lambda e, st, a, ins, m, ctx: rx_['nlp' if e.prove_quick(st, zb(e.ptreq(a[0], P(nlp)))) else 'work']
    F['rx'] = rx_; F['D'] = D
    st0.ghost['fin'] = (); st0.ghost['searched'] = 0
    e0 = ex.load(st0, M('status_'), scal_ty(4, 'int')); c.assume(ieq(e0, -1)); c.set(this, 'model_.bestSolution_', NULL)
    F['err'] = P(err)
    return this, s, nlp, tm, work, info, b2, o2, L2, A2, n, nc, J, M, F
def ld2(e, st, p): return e.load(st, p, scal_ty(8, 'ptr'))
def report(nlpbb, objects, comp=0, tree_=0, stale=0):
    def f(c):
        this, s, nlp, tm, work, info, b2, o2, L2, A2, n, nc, J, M, F = setup(c, nlpbb, objects, comp, tree_); ex = c.ex
        c.set(this, 'bestSolution_', c.array('previous_solution', n) if stale else NULL); O2 = c.get(c.st, o2, 'object', 'real')
        who = 'work' if nlpbb else 'nlp'; B = lambda f: z3.Bool('%s_%s' % (who, f)); RX = c.arr(c.st, F['rx'][who])
        for o in c.call(BAB + '::branchAndBound', [P(this), P(s)]):
            st = o.st; fin = st.ghost['fin']; c.require(st, len(fin) == 1, 'the user is told the outcome exactly once')
            if len(fin) != 1: continue
            us, un, ux, uo = fin[0]; ms = zi(c.get(st, this, 'mipStatus_')); bs = c.get(st, this, 'bestSolution_', 'ptr'); bo = zr(c.get(st, this, 'bestObj_', 'real')); us = zi(us)
            null = zb(ex.ptreq(bs, NULL))
            c.require(st, implies(ms == OPTIMAL, z3.And(us == SUCCESS, z3.Not(null))), 'optimality is claimed only with a solution and told the user')
            c.require(st, implies(us == SUCCESS, ms == OPTIMAL), 'success means optimality is claimed'); c.require(st, implies(ms == FEASIBLE, z3.Not(null)), 'feasibility is claimed only with a solution')
            c.require(st, (us == INFEASIBLE) == (ms == PROVENINF), 'infeasibility is told exactly when it is claimed')
            c.require(st, (o.kind == 'throw') == (st.ghost.get('error') == 1), 'the error of a failed solve is raised, and only that')
            if o.kind == 'throw':
                c.require(st, isinstance(o.val, tuple) and o.val[0] == UE and zb(ex.ptreq(o.val[1], F['err'])), 'the error raised is the one of the failed solve')
                c.require(st, z3.And(us == ERROR, zb(ieq(un, 0)), zb(ex.ptreq(ux, NULL))), 'a failed solve is reported as an error without solution'); continue
            c.require(st, z3.And(zb(ieq(un, n)), zb(ex.ptreq(ux, bs)), zr(uo) == bo), 'the user is given the solution and objective kept')
            se = st.ghost['searched']
            alt = zi(L2) > 0
            nobj = F['nobj'] if se == 1 else zi(ex.load(st, M('numberObjects_'), scal_ty(4, 'int'))); cs = F['status'] if se == 1 else z3.IntVal(-1)
            sol = F['sol'] if se == 1 else z3.BoolVal(False); has = z3.Or(alt, sol)
            w = z3.And(nobj == 0)
            po, pi, pd = B('isProvenOptimal'), B('isProvenPrimalInfeasible'), B('isProvenDualInfeasible')
            c.require(st, implies(w, us == z3.If(po, SUCCESS, z3.If(pi, INFEASIBLE, z3.If(pd, UNBOUNDED, us)))), 'without integer variables: the outcome of the relaxation')
            c.require(st, implies(z3.And(w, z3.Not(z3.Or(po, pi, pd))), z3.Or(us == ERROR, us == INTERRUPT)), 'without integer variables: a failed relaxation is an error')
            c.require(st, implies(w, ms == z3.If(po, OPTIMAL, z3.If(pi, PROVENINF, z3.If(pd, UNBINF, NOSOL)))), 'without integer variables: status of the relaxation')
            c.require(st, implies(w, null == z3.Not(po)), 'without integer variables: a solution exactly when the relaxation is solved')
            c.require(st, implies(z3.And(w, po), bo == z3.Real('%s_getObjValue' % who)), 'without integer variables: objective of the relaxation')
            nw = z3.Not(w)
            c.require(st, implies(nw, null == z3.Not(has)), 'a solution is reported exactly when one was found')
            if ex.prove_quick(st, z3.Not(null)):
                A = c.arr(st, bs)
                c.require(st, c.forall(n, lambda j: implies(z3.And(nw, alt), zr(A.read(j)) == zr(A2.read(j)))), 'the solution with the alternative objective is preferred')
                c.require(st, c.forall(n, lambda j: implies(z3.And(nw, z3.Not(alt)), zr(A.read(j)) == zr(F['X'].read(j)))), 'otherwise the solution of the search, in the original variables')
                c.require(st, c.forall(n, lambda j: implies(w, zr(A.read(j)) == zr(RX.read(j)))), 'without integer variables: solution of the relaxation')
            c.require(st, implies(z3.And(nw, has), bo == z3.If(alt, zr(O2), F['obj'])), 'objective of the solution reported')
            if se == 1:
                c.require(st, implies(z3.And(nw, cs == 0), us == z3.If(F['unb'], UNBOUNDED, z3.If(has, SUCCESS, INFEASIBLE))), 'a completed search: success, infeasible or unbounded')
                c.require(st, implies(z3.And(nw, cs == 0), ms == z3.If(F['unb'], UNBINF, z3.If(has, OPTIMAL, PROVENINF))), 'a completed search: status')
                c.require(st, implies(z3.And(nw, cs == 1), us == LIMIT), 'a search stopped at a limit'); c.require(st, implies(z3.And(nw, cs == 5), us == INTERRUPT), 'a search stopped by the user')
                c.require(st, implies(z3.And(nw, z3.Or(cs == 1, cs == 5, cs == 2)), ms == z3.If(has, FEASIBLE, NOSOL)), 'a search stopped early claims no more than feasibility')
                c.require(st, implies(z3.And(nw, cs == 2), us == ERROR), 'a search stopped on difficulties is an error')
                c.require(st, implies(nw, zr(c.get(st, this, 'bestBound_', 'real')) == F['bound']), 'the lower bound is that of the search')
            else:
                c.require(st, implies(nw, z3.Or(us == LIMIT, us == ERROR, us == INTERRUPT)), 'without a search nothing is claimed')
                c.require(st, implies(nw, ms == z3.If(has, FEASIBLE, NOSOL)), 'without a search nothing is claimed')
    return f
CASES = [('report [%s, %s]' % ('NLP-based' if a else 'LP-based', 'objects given' if b else 'integer variables'), report(a, b)) for a in (1, 0) for b in (1, 0)]
CMP = ('best bound', 'depth first', 'breadth first', 'dynamic', 'best guess'); TREE = ('heap', 'dive', 'probed dive', 'dfs dive', 'dynamic dfs dive')
CASES += [('report [NLP-based, integer variables, %s, %s]' % (CMP[i], TREE[j]), report(1, 0, i, j, 1)) for i, j in ((1, 0), (2, 1), (3, 2), (4, 3), (0, 4))]
def bound(c):
    this = c.object(BAB, 'bab', vectors=False); ms = c.get(c.st, this, 'mipStatus_'); bb = c.get(c.st, this, 'bestBound_', 'real')
    for o in c.call(BAB + '::bestBound', [P(this)]):
        c.require(o.st, zr(o.val) == z3.If(zi(ms) == PROVENINF, zr(Fraction(1e200)), zr(bb)), 'the bound reported is that of the search, infinite when infeasible')
CASES += [('bestBound', bound)]
