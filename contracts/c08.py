"""C08: retries after an NLP solve keep the best outcome, stop at the first success and start from points within the bounds."""
from common import *
import c06, c07
TUS = ['src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTNLPSolver.cpp']
HARNESS = 'h_osi.cpp'
ASSUMPTIONS = ['NLP solves inside the retry loops are represented by the contract of solveAndCheckErrors proved in C07 (any status, point, multipliers and objective); errors it raises propagate',
  'random numbers are in [0,1]', 'radius and perturbation options are non-negative (their registered ranges)', 'the interruption flag is not raised', 'the failure policy has not been triggered before (pretendSucceededNext_ = 0)', 'sizes below 2^28']
OSI = c06.OSI
MAXD = c06.INF
SX = z3.Function('solve_x', I, I, R); SD = z3.Function('solve_duals', I, I, R); SO = z3.Function('solve_obj', I, R); SS = z3.Function('solve_status', I, I)
def opt(s): return z3.Or(s == 1, s == 2)
def failed(s): return z3.Or(*[s == c07.S[q] for q in c07.FAIL])
class AFun(FArr):
    def __init__(s, d, t): s.kind = 'real'; s.d = d; s.t = t
    def read(s, i): return s.d(zi(s.t), zi(i))

def setup(c):
    this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; k = iadd(imul(2, n), m); ex = c.ex; ex.merge = True
    c07.app_models(c, this, p, [z3.Int('unused')])
    c.set(this, 'handler_', P(Obj('handler', lazy=True)))
    c.set(this, 'warmstart_', NULL) ; c.assume(ieq(c.get(c.st, this, 'pretendSucceededNext_'), 0))
    c.st.ghost['nsolve'] = 0; c.st.ghost['nrand'] = 0; c.st.ghost['log'] = ()
    off = {f: c.offset(OSI, f) for f in ('optimizationStatus_', 'hasBeenOptimized_')}
    oo = c.offset(NLP, 'obj_value_')
    xb, db = buf(c, c.st, p, 'x_sol_'), buf(c, c.st, p, 'duals_sol_')
    def sace(e, s, a, ins, dem, ctx):
        t = s.ghost['nsolve']; s.ghost['nsolve'] = iadd(t, 1); T = zi(t)
        s.ghost['slog'] = s.ghost.get('slog', ()) + ((a[1], s.ghost['nrand'], s.ghost.get('ws', ())),)
        s.assume(z3.And(SS(T) >= -8, SS(T) <= 5, SS(T) != 0)); s.assume(c07.RECOVERABLE(SS(T)))
        e.store(s, P(this, off['optimizationStatus_']), SS(T), scal_ty(4, 'int')); e.store(s, P(this, off['hasBeenOptimized_']), 1, scal_ty(1, 'int'))
        e.store(s, P(p, oo), SO(T), scal_ty(8, 'real'))
        setarr(e, s, xb, n, 'real', 8, AFun(SX, t), dem); setarr(e, s, db, k, 'real', 8, AFun(SD, t), dem)
    ex.add_model(r'Bonmin::OsiTMINLPInterface::solveAndCheckErrors\(', sace)
    def rsp(e, s, a, ins, dem, ctx):
        s.ghost['nrand'] = iadd(s.ghost['nrand'], 1)
        e.store(s, P(this, off['hasBeenOptimized_']), 0, scal_ty(1, 'int'))
    ex.add_model(r'Bonmin::OsiTMINLPInterface::randomStartingPoint\(', rsp)
    T = 'Bonmin::TNLPSolver::'
    ex.vmodels[T + 'getUsedWarmStart'] = lambda e, s, a, ins, mm, ctx: P(Obj('used_ws', lazy=True))
    def sws(e, s, a, ins, mm, ctx): s.ghost['restored'] = True; return True
    ex.vmodels[T + 'setWarmStart'] = sws; ex.vmodels['CoinWarmStart::~CoinWarmStart[deleting]'] = lambda e, s, a, ins, mm, ctx: None
    return this, p, n, m, k

def cost(keep, mode):
    def f(c):
        this, p, n, m, k = setup(c)
        c.assume(c.get(c.st, this, 'warmStartMode_') == mode)
        N = c.int('numsolve', 0); c.sizes.append(N)
        s0 = c.get(c.st, this, 'optimizationStatus_'); o0 = c.get(c.st, p, 'obj_value_', 'real')
        c.assume(c.get(c.st, this, 'hasBeenOptimized_', 'bool'))
        x0, d0 = c.vec(c.st, p, 'x_sol_')[1], c.vec(c.st, p, 'duals_sol_')[1]
        start = z3.If(opt(s0), o0, zr(MAXD))
        better = lambda t, b: z3.And(opt(SS(t)), SO(t) < b)
        Bf = c.fold('best_obj', 'real', lambda: start, lambda t, b: z3.If(better(t, b), SO(t), b))
        If = c.fold('best_index', 'int', lambda: z3.IntVal(-1), lambda t, b: z3.If(better(t, Bf(t)), t, b))
        Xf = c.fold('best_x', 'real', lambda j: x0.read(j), lambda j, t, b: z3.If(better(t, Bf(t)), SX(t, j), b), npar=1)
        Df = c.fold('best_duals', 'real', lambda j: d0.read(j), lambda j, t, b: z3.If(better(t, Bf(t)), SD(t, j), b), npar=1)
        Sf = c.fold('best_status', 'int', lambda: s0, lambda t, b: z3.If(better(t, Bf(t)), SS(t), b))
        for o in rets(c, c.call(OSI + '::resolveForCost', [P(this), N, keep])):
            st = o.st
            c.require(st, ieq(st.ghost['nsolve'], N), 'as many re-solves as asked'); c.require(st, ieq(st.ghost['nrand'], N), 'each from a new random point')
            c.require(st, veq(c.get(st, p, 'obj_value_', 'real'), Bf(N)), 'objective kept is the best found')
            c.require(st, ieq(c.get(st, this, 'optimizationStatus_'), Sf(N)), 'status kept belongs to the best outcome')
            c.require(st, c.get(st, this, 'hasBeenOptimized_', 'bool'), 'results current')
            L, A = c.vec(st, p, 'x_sol_'); c.require(st, ieq(L, n), 'size'); c.require(st, c.forall(n, lambda j: veq(A.read(j), Xf(j, N))), 'point kept belongs to the best outcome')
            L, A = c.vec(st, p, 'duals_sol_'); c.require(st, ieq(L, k), 'size'); c.require(st, c.forall(k, lambda j: veq(A.read(j), Df(j, N))), 'multipliers kept belong to the best outcome')
            for fd in ('x_l_', 'x_u_'): vec_kept(c, st, p, fd, 'bounds kept')
    return f

def robust(pf, mode):
    def f(c):
        this, p, n, m, k = setup(c); ex = c.ex; T = 'Bonmin::TNLPSolver::'
        c.assume(c.get(c.st, this, 'warmStartMode_') == mode)
        N = c.int('numsolve', 0); c.sizes.append(N); pfi = c.get(c.st, this, 'pretendFailIsInfeasible_')
        c.assume(pfi == 0 if pf == 0 else pfi != 0)
        c.st.ghost['wsdis'] = 0
        def dis(e, s, a, ins, mm, ctx): s.ghost['wsdis'] = 1
        def ena(e, s, a, ins, mm, ctx): s.ghost['wsdis'] = 0
        ex.vmodels[T + 'disableWarmStart'] = dis; ex.vmodels[T + 'enableWarmStart'] = ena
        old = [h for r, h in ex.models if r.pattern.startswith('Bonmin::OsiTMINLPInterface::solveAndCheckErrors')][0]
        def sace(e, s, a, ins, dem, ctx):
            t = s.ghost['nsolve']
            e.oblige(s, ieq(s.ghost['wsdis'], 1), 'pre', 'a retry is made without warm-start information')
            e.oblige(s, ieq(s.ghost['nrand'], t), 'pre', 'the first retry is from the initial point, the others from new random points')
            e.oblige(s, failed(c.get(s, this, 'optimizationStatus_')) if not (isinstance(t, int) and t == 0) else True, 'pre', 'a retry is made only after a failure')
            if isinstance(t, int) and t == 0:
                L, X = c.vec(s, p, 'x_init_'); U = c.vec(s, p, 'x_init_user_')[1]
                e.oblige(s, z3.Or(zb(ieq(L, 0)), zb(c.forall(n, lambda j: veq(X.read(j), U.read(j))))), 'pre', 'the first retry starts from the original starting point')
            return old(e, s, a, ins, dem, ctx)
        ex.add_model(r'Bonmin::OsiTMINLPInterface::solveAndCheckErrors\(', sace)
        ex.add_model(r'Bonmin::OsiTMINLPInterface::getStrParam\(', lambda e, s, a, ins, dem, ctx: 0)
        h0 = c.get(c.st, this, 'hasContinuedAfterNlpFailure_', 'bool')
        for o in c.call(OSI + '::resolveForRobustness', [P(this), N]):
            st = o.st; K = zi(st.ghost['nsolve']); stt = c.get(st, this, 'optimizationStatus_')
            c.require(st, z3.And(K >= 1, K <= N + 1), 'between one and 1+numsolve solves')
            c.require(st, c.forall(K - 1, lambda j: failed(SS(j))), 'every solve before the last one failed')
            c.require(st, ieq(stt, SS(K - 1)), 'the status reported is that of the last solve')
            c.require(st, c.get(st, this, 'hasBeenOptimized_', 'bool'), 'results are those of the last solve')
            A = c.vec(st, p, 'x_sol_')[1]; c.require(st, c.forall(n, lambda j: veq(A.read(j), SX(K - 1, j))), 'the point is that of the last solve')
            c.require(st, veq(c.get(st, p, 'obj_value_', 'real'), SO(K - 1)), 'the objective is that of the last solve')
            fl = failed(SS(K - 1)); pret = zi(c.get(st, this, 'pretendSucceededNext_')) != 0; cont = c.get(st, this, 'hasContinuedAfterNlpFailure_', 'bool')
            if o.kind != 'ret':
                c.require(st, z3.And(fl, K == N + 1, pfi == 0), 'an error is raised only when all attempts failed and failures are not to be treated as infeasible')
                continue
            c.require(st, implies(fl, z3.And(K == N + 1, pfi != 0)), 'gives up silently only if all attempts failed and failures are treated as infeasible')
            c.require(st, implies(fl, pret), 'a node given up is not reported as abandoned again')
            c.require(st, implies(bnot(fl), bnot(pret)), 'success is not a pretended one')
            c.require(st, z3.And(zb(cont) == z3.Or(zb(h0), z3.And(fl, pfi == 1))), 'continuing after a failure is recorded exactly when it happens')
            c.require(st, implies(bnot(fl), ieq(st.ghost['wsdis'], 0)), 'warm starts are enabled again')
            for fd in ('x_l_', 'x_u_'): vec_kept(c, st, p, fd, 'bounds kept')
    return f

def rand(ty):
    def f(c):
        this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; ex = c.ex
        c.assume(ieq(c.vec(c.st, p, 'x_init_user_')[0], n))
        c07.app_models(c, this, p, [z3.Int('unused')])
        c.assume(c.get(c.st, this, 'randomGenerationType_') == ty)
        R_ = c.get(c.st, this, 'maxRandomRadius_', 'real'); M = c.get(c.st, this, 'max_perturbation_', 'real'); c.assume(R_ >= 0); c.assume(M >= 0)
        lo, up = c.vec(c.st, p, 'x_l_')[1], c.vec(c.st, p, 'x_u_')[1]; xi = c.vec(c.st, p, 'x_init_user_')[1]
        c.assume_forall(n, lambda j: lo.read(j) <= up.read(j))
        def rnd(e, s, a, ins, dem, ctx):
            v = e.fresh(s, 'real', 'rnd'); s.assume(z3.And(v >= 0, v <= 1)); return v
        ex.add_model(r'CoinDrand48\(', rnd)
        rad = None
        if ty == 2:
            ra = c.array('radii', n); rad = c.arr(c.st, ra); c.assume_forall(n, lambda j: rad.read(j) >= 0)
            info = c.object('Bonmin::TMINLP::PerturbInfo', 'pinfo', vectors=False)
            c.set(info, 'perturb_radius_', ra)
            ex.vmodels['Bonmin::TMINLP::perturbInfo'] = lambda e, s, a, ins, mm, ctx: P(info)
        for o in rets(c, c.call(OSI + '::randomStartingPoint', [P(this)])):
            st = o.st; L, X = c.vec(st, p, 'x_init_')
            c.require(st, c.forall(n, lambda j: z3.And(lo.read(j) <= X.read(j), X.read(j) <= up.read(j))), 'the random point is within the bounds')
            if ty:
                def near(j):
                    r = M if ty == 1 else rad.read(j) * M
                    ins_ = z3.And(xi.read(j) >= lo.read(j), xi.read(j) <= up.read(j))
                    return z3.Implies(ins_, z3.And(X.read(j) >= xi.read(j) - r, X.read(j) <= xi.read(j) + r))
                c.require(st, c.forall(n, near), 'within the perturbation radius of the original starting point')
            else:
                c.require(st, c.forall(n, lambda j: z3.And(X.read(j) >= z3.If(up.read(j) < 0, up.read(j), zr(0)) - R_, X.read(j) <= z3.If(lo.read(j) > 0, lo.read(j), zr(0)) + R_)), 'within the random-point radius of the origin (or of the nearest bound)')
            c.require(st, 'disableWarmStart' in st.ghost.get('ws', ()), 'warm-start information is discarded')
            c.require(st, bnot(c.get(st, this, 'hasBeenOptimized_', 'bool')), 'the old solution is no longer reported as current')
            for fd in ('x_l_', 'x_u_', 'x_init_user_', 'x_sol_', 'duals_sol_'): vec_kept(c, st, p, fd, 'random point')
    return f
def rand_none(c):
    this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; c07.app_models(c, this, p, [z3.Int('unused')])
    c.assume(c.get(c.st, this, 'randomGenerationType_') == 2)
    c.ex.vmodels['Bonmin::TMINLP::perturbInfo'] = lambda e, s, a, ins, mm, ctx: NULL; c.ex.add_model(r'CoinError::CoinError\(', lambda e, s, a, ins, dem, ctx: None)
    for o in c.call(OSI + '::randomStartingPoint', [P(this)]): c.require(o.st, o.kind == 'throw', 'missing radii are an error'); c.unchanged(o.st)

def policy(fn, ws):
    """initialSolve / resolve: one solve, then the retries the failure policy calls for"""
    def f(c):
        this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; ex = c.ex; T = 'Bonmin::TNLPSolver::'
        c07.app_models(c, this, p, [z3.Int('unused')]); c.set(this, 'handler_', P(Obj('handler', lazy=True)))
        c.assume(ieq(c.get(c.st, this, 'pretendSucceededNext_'), 0)); c.assume(z3.Not(c07.abort(c, c.st)))
        s1 = c.int('status1', -8, 5); s2 = c.int('status2', -8, 5); o1 = c.real('obj1'); c.assume(s1 != 0); c.assume(s2 != 0)
        oo = c.offset(NLP, 'obj_value_'); so = c.offset(OSI, 'optimizationStatus_'); ho = c.offset(OSI, 'hasBeenOptimized_'); po = c.offset(OSI, 'pretendSucceededNext_')
        g = c.st.ghost; g['log'] = (); g['wsdis'] = 0
        def dis(e, s, a, ins, mm, ctx): s.ghost['wsdis'] = 1
        def ena(e, s, a, ins, mm, ctx): s.ghost['wsdis'] = 2
        ex.vmodels[T + 'disableWarmStart'] = dis; ex.vmodels[T + 'enableWarmStart'] = ena
        def sace(e, s, a, ins, dem, ctx):
            s.ghost['log'] += (('solve', a[1], a[2], s.ghost['wsdis']),); e.store(s, P(this, so), s1, scal_ty(4, 'int')); e.store(s, P(this, ho), 1, scal_ty(1, 'int')); e.store(s, P(p, oo), o1, scal_ty(8, 'real'))
        ex.add_model(r'Bonmin::OsiTMINLPInterface::solveAndCheckErrors\(', sace)
        pret = c.bool('pretended')
        def rr(e, s, a, ins, dem, ctx):
            s.ghost['log'] += (('robust', a[1]),); e.store(s, P(this, so), s2, scal_ty(4, 'int')); e.store(s, P(this, po), z3.If(pret, z3.IntVal(1), z3.IntVal(0)), scal_ty(4, 'int'))
            s.assume(implies(failed(s2), pret))
        ex.add_model(r'Bonmin::OsiTMINLPInterface::resolveForRobustness\(', rr)
        def rc(e, s, a, ins, dem, ctx): s.ghost['log'] += (('cost', a[1], a[2]),)
        ex.add_model(r'Bonmin::OsiTMINLPInterface::resolveForCost\(', rc)
        def gw(e, s, a, ins, mm, ctx): s.ghost['log'] += (('getws',),); o = Obj('new_ws', lazy=True); s.ghost['ws'] = o; return P(o)
        ex.vmodels[T + 'getWarmStart'] = gw; ex.vmodels['CoinWarmStart::~CoinWarmStart[deleting]'] = lambda e, s, a, ins, mm, ctx: None
        def sw(e, s, a, ins, mm, ctx): s.ghost['log'] += (('setws', a[1]),); return True
        ex.vmodels[T + 'setWarmStart'] = sw
        valid = c.bool('warm_start_valid'); ex.vmodels[T + 'warmStartIsValid'] = lambda e, s, a, ins, mm, ctx: valid
        old = Obj('old_ws', lazy=True); c.set(this, 'warmstart_', P(old) if ws else NULL)
        G = lambda f_: c.get(c.st, this, f_)
        nri, nrr, nru, nrf = G('numRetryInitial_'), G('numRetryResolve_'), G('numRetryUnsolved_'), G('numRetryInfeasibles_'); first = c.get(c.st, this, 'firstSolve_', 'bool'); mode = G('warmStartMode_'); eps = c.get(c.st, this, 'infeasibility_epsilon_', 'real')
        for v in (nri, nrr, nru, nrf): c.assume(v >= 0)
        hp = [x for x in ex.m.globrefs if 'hasPrintedOptions' in x]
        for o in rets(c, c.call(OSI + '::' + fn, [P(this), P(Obj('from', lazy=True))])):
            st = o.st; log = st.ghost['log']; kinds = [x[0] for x in log]
            c.require(st, kinds.count('solve') == 1, 'exactly one solve before any retry')
            sv = [x for x in log if x[0] == 'solve']
            sv = sv[0] if sv else ('', 0, 0, 0)
            warm = ws and any(x[0] == 'setws' for x in log)
            if fn.startswith('resolve(') and ws:
                c.require(st, zb(valid) == z3.BoolVal(bool(warm)), 'a stored warm start is used exactly when the solver accepts it')
                if warm: c.require(st, [x[1].obj for x in log if x[0] == 'setws'] == [old], 'the stored warm start')
            if not warm: c.require(st, z3.Implies(mode >= 2, z3.BoolVal(sv[3] == 1)), 'without a warm start the solve is a cold one')
            infeas = s1 == 3
            lim = zr(Fraction(1e-06)) if warm else zr(eps)
            rob = z3.Or(failed(s1), z3.And(infeas, zr(o1) < lim))
            c.require(st, zb(rob) == z3.BoolVal('robust' in kinds), 'a failed or doubtful solve is retried for robustness, and only then')
            for x in log:
                if x[0] == 'robust': c.require(st, ieq(x[1], nru), 'with the configured number of retries')
            if warm: want = z3.Or(nrr != 0, z3.And(nrf != 0, infeas)); cnt = z3.If(nrr > nrf, nrr, nrf); keep = z3.BoolVal(False)
            else: cnt = z3.If(first, nri, nrr); want = cnt != 0; keep = nri > 0
            c.require(st, z3.And(z3.Not(rob), want) == z3.BoolVal('cost' in kinds), 'retries for a better solution are made exactly when configured and the solve was usable')
            for x in log:
                if x[0] == 'cost': c.require(st, z3.And(zi(x[1]) == cnt, zb(tobool(x[2])) == keep), 'with the configured number of retries')
            if fn.startswith('initial'):
                c.require(st, bnot(c.get(st, this, 'firstSolve_', 'bool')), 'the root is solved once')
            w = c.get(st, this, 'warmstart_', 'ptr'); final_failed = z3.If(rob, z3.And(failed(s2), z3.Not(pret)), failed(s1))
            got = w.obj is not None
            c.require(st, z3.And(mode >= 2, z3.Not(final_failed)) == z3.BoolVal(got), 'a warm start is kept exactly when exposed and the relaxation was not abandoned')
            if got: c.require(st, w.obj is st.ghost.get('ws') and kinds[-1] == 'getws', 'it is that of the final point')
    return f
def aborted(fn):
    def f(c):
        this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; c07.app_models(c, this, p, [z3.Int('unused')]); c.assume(c07.abort(c, c.st))
        for o in rets(c, c.call(OSI + '::' + fn, [P(this), P(Obj('from', lazy=True))])): c.require(o.st, len(o.st.ghost['nlp']) == 0, 'no solve after an interruption'); c.unchanged(o.st)
    return f
CS = '(char const*)'
CASES = [('resolveForCost [keep=%d, warm start mode %d]' % (k, w), cost(k, w)) for k in (0, 1) for w in (1, 2)]
CASES += [('resolveForRobustness [treat failure as infeasible=%d, warm start mode %d]' % (k, w), robust(k, w)) for k in (0, 1) for w in (1, 2)]
CASES += [('randomStartingPoint [%s]' % q, rand(i)) for i, q in enumerate(('uniform', 'perturb', 'perturb_suffix'))] + [('randomStartingPoint [no radii]', rand_none)]
CASES += [('initialSolve policy', policy('initialSolve' + CS, 0)), ('initialSolve policy [old warm start]', policy('initialSolve' + CS, 1)), ('resolve policy [no warm start]', policy('resolve' + CS, 0)), ('resolve policy [warm start]', policy('resolve' + CS, 1)), ('initialSolve interrupted', aborted('initialSolve' + CS)), ('resolve interrupted', aborted('resolve' + CS))]
