"""C11: the feasibility problem (distance objective, cutoff and local branching constraints) is the documented one and its derivatives agree with its functions."""
from common import *
import c06, c07
TUS = ['src/Interfaces/BonTNLP2FPNLP.cpp', 'src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTNLPSolver.cpp']
HARNESS = 'h_fp.cpp'
FP = 'Bonmin::TNLP2FPNLP'; INF = Fraction(1.7976931348623157e308)
ASSUMPTIONS = ['callbacks of the wrapped NLP write exactly the documented number of entries', 'indices of the distance terms are in range and 0-based, as many as values', 'real arithmetic', 'sizes below 2^28']
OSI = c06.OSI
ZERO = lambda: z3.RealVal(0)

def fp(c, cut, loc, use=None, norm=None):
    """a TNLP2FPNLP over an arbitrary NLP of n variables and m0 constraints"""
    ex = c.ex; ex.merge = True; user_problem(ex, 'Ipopt::TNLP'); this = c.object(FP, 'this')
    inner = c.object('Ipopt::TNLP', 'tnlp', vectors=False); inner.cls = None; c.set(this, 'tnlp_', P(inner))
    def fin(e, s, a, ins, m, ctx): s.ghost['fin'] = s.ghost.get('fin', ()) + (list(a[1:]),)
    ex.vmodels['Ipopt::TNLP::finalize_solution'] = fin
    n = c.int('n', 1); m0 = c.int('m0', 0); c.assume(n < 2**28, m0 < 2**28); c.sizes.append(n); c.sizes.append(m0)
    ni, IN = c.vec(c.st, this, 'inds_', 'int'); nv, VA = c.vec(c.st, this, 'vals_'); c.assume(ieq(ni, nv), ni >= 0, ni < 2**28)
    c.assume_forall(ni, lambda t: z3.And(IN.read(t) >= 0, IN.read(t) < n), 'inds')
    c.set(this, 'use_cutoff_constraint_', int(cut), 1); c.set(this, 'use_local_branching_constraint_', int(loc), 1)
    if use is not None: c.set(this, 'use_feasibility_pump_objective_', int(use), 1)
    if norm is not None: c.set(this, 'norm_', norm, 4)
    la, sg, sc = [c.get(c.st, this, f, 'real') for f in ('lambda_', 'sigma_', 'objectiveScalingFactor_')]
    m = m0 + int(cut) + int(loc)
    return this, n, m0, m, ni, IN, VA, la, sg, sc
CFG = [(a, b) for a in (0, 1) for b in (0, 1)]
def nm(cut, loc): return ', '.join(x for x, y in (('cutoff', cut), ('local branching', loc)) if y) or 'no extra constraint'
l1 = lambda VA, X, IN: lambda t, q: z3.If(VA.read(t) <= zr(Fraction(0.1)), q + X.read(IN.read(t)), q + (1 - X.read(IN.read(t))))

def info(cut, loc, use, norm):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc, use, norm)
        out = [c.scalar(k, 'int') for k in ('n_', 'm_', 'j_', 'h_', 'st_')]
        for o in rets(c, c.call(FP + '::get_nlp_info', [P(this)] + out)):
            st = o.st; k, = calls(st, 'get_nlp_info'); v = [c.deref(st, p, 'int') for p in out]
            c.require(st, ieq(v[0], k.outs['n']), 'same variables')
            c.require(st, ieq(v[1], iadd(k.outs['m'], cut + loc)), 'one more constraint for each extra one in use')
            c.require(st, ieq(v[2], iadd(iadd(k.outs['nnz_jac_g'], k.outs['n'] if cut else 0), ni if loc else 0)), 'Jacobian entries of the extra constraints counted')
            c.require(st, ieq(v[3], iadd(k.outs['nnz_h_lag'], ni if use and norm == 2 else 0)), 'Hessian entries of the distance counted')
            c.require(st, ieq(v[4], k.outs['index_style']), 'index style passed on'); c.require(st, ieq(c.get(st, this, 'index_style_'), k.outs['index_style']), 'index style remembered')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def bounds(cut, loc):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc)
        xl, xu, gl, gu = c.array('xl', n), c.array('xu', n), c.array('gl', m), c.array('gu', m)
        cu, rh = c.get(c.st, this, 'cutoff_', 'real'), c.get(c.st, this, 'rhs_local_branching_constraint_', 'real')
        for o in rets(c, c.call(FP + '::get_bounds_info', [P(this), n, xl, xu, m, gl, gu])):
            st = o.st; k, = calls(st, 'get_bounds_info'); same_call(c, st, k, 'get_bounds_info', {0: n, 3: m0})
            for p, u, z in ((xl, 'xl', n), (xu, 'xu', n), (gl, 'gl', m0), (gu, 'gu', m0)):
                A = c.arr(st, p); c.require(st, c.forall(z, lambda j: veq(A.read(j), k.outs[u].read(j))), 'bounds of the problem passed on (%s)' % u)
            L, U = c.arr(st, gl), c.arr(st, gu)
            if cut: c.require(st, z3.And(zr(L.read(m0)) == -zr(INF), zr(U.read(m0)) == cu), 'the cutoff bounds the objective from above')
            if loc: c.require(st, z3.And(zr(L.read(m0 + cut)) == -zr(INF), zr(U.read(m0 + cut)) == rh), 'the distance is bounded by the given radius')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def evalf(use, norm):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, 0, 0, use, norm); x = c.array('x', n); X = c.arr(c.st, x); nx = c.bool('new_x'); r = c.scalar('f', 'real')
        for o in rets(c, c.call(FP + '::eval_f', [P(this), n, x, nx, r])):
            st = o.st; k, = calls(st, 'eval_f'); same_call(c, st, k, 'eval_f', {0: n, 2: nx}, [('x', n, X)]); F = k.outs['f']; v = c.deref(st, r, 'real')
            if not use: c.require(st, veq(v, F), 'the objective itself')
            else:
                d = lambda t: X.read(IN.read(t)) - VA.read(t)
                D = c.fold('dist', 'real', ZERO, (lambda t, q: q + d(t) * d(t)) if norm == 2 else l1(VA, X, IN))
                c.require(st, veq(v, F * ((1 - la) * sg) + sc * la * D(ni)), 'weighted sum of the objective and the distance')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def evalgrad(use, norm):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, 0, 0, use, norm); x = c.array('x', n); X = c.arr(c.st, x); nx = c.bool('new_x'); g = c.array('grad', n)
        for o in rets(c, c.call(FP + '::eval_grad_f', [P(this), n, x, nx, g])):
            st = o.st; k, = calls(st, 'eval_grad_f'); same_call(c, st, k, 'eval_grad_f', {0: n, 2: nx}, [('x', n, X)]); G = k.outs['grad']; A = c.arr(st, g)
            if not use: c.require(st, c.forall(n, lambda j: veq(A.read(j), G.read(j))), 'the gradient itself')
            else:
                J = z3.Int('J'); st.assume(J >= 0, J < n)
                if norm == 2: step = lambda t, q: z3.If(IN.read(t) == J, q + sc * 2 * la * (X.read(J) - VA.read(t)), q)
                else: step = lambda t, q: z3.If(IN.read(t) == J, z3.If(VA.read(t) <= zr(Fraction(0.1)), q + sc * la, q - sc * la), q)
                D = c.fold('grad', 'real', lambda: G.read(J) * ((1 - la) * sg), step)
                c.require(st, veq(A.read(J), D(ni)), 'gradient of the weighted sum of the objective and the distance')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def evalg(cut, loc):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); x = c.array('x', n); X = c.arr(c.st, x); nx = c.bool('new_x'); g = c.array('g', m)
        for o in rets(c, c.call(FP + '::eval_g', [P(this), n, x, nx, m, g])):
            st = o.st; k, = calls(st, 'eval_g'); same_call(c, st, k, 'eval_g', {0: n, 3: m0}, [('x', n, X)]); A = c.arr(st, g); ok = k.ret
            c.require(st, c.forall(m0, lambda j: veq(A.read(j), k.outs['g'].read(j))), 'constraints of the problem passed on')
            if cut:
                e = calls(st, 'eval_f'); c.require(st, len(e) == 1, 'objective evaluated once')
                if len(e) != 1: continue
                same_call(c, st, e[0], 'eval_f', {0: n}, [('x', n, X)]); ok = z3.And(ok, e[0].ret)
                c.require(st, z3.Implies(e[0].ret, zr(A.read(m0)) == e[0].outs['f']), 'the cutoff constraint is on the original objective')
            if loc:
                D = c.fold('dist', 'real', ZERO, l1(VA, X, IN)); c.require(st, veq(A.read(m0 + cut), D(ni)), 'the local branching constraint is on the distance')
            c.require(st, veq(tobool(o.val), ok), 'success exactly when every evaluation succeeded')
    return f
def jacs(cut, loc, style):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); c.set(this, 'index_style_', style, 4); nz = c.int('nnz0', 0); c.assume(nz < 2**28)
        N = nz; 
        if cut: N = N + n
        if loc: N = N + ni
        r, q = c.array('iRow', N, 'int'), c.array('jCol', N, 'int')
        for o in rets(c, c.call(FP + '::eval_jac_g', [P(this), n, NULL, 0, m, N, r, q, NULL])):
            st = o.st; k, = calls(st, 'eval_jac_g'); same_call(c, st, k, 'eval_jac_g', {0: n, 3: m0, 4: nz}); R, Q = c.arr(st, r, 'int'), c.arr(st, q, 'int')
            c.require(st, c.forall(nz, lambda t: z3.And(ieq(R.read(t), k.outs['iRow'].read(t)), ieq(Q.read(t), k.outs['jCol'].read(t)))), 'structure of the problem passed on')
            if cut: c.require(st, c.forall(n, lambda t: z3.And(ieq(R.read(nz + t), m0 + style), ieq(Q.read(nz + t), t + style))), 'the cutoff constraint is the first extra row and dense')
            if loc: c.require(st, c.forall(ni, lambda t: z3.And(ieq(R.read((nz + n if cut else nz) + t), m0 + cut + style), ieq(Q.read((nz + n if cut else nz) + t), IN.read(t) + style))), 'the local branching constraint is the last row')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def jacv(cut, loc):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); nz = c.int('nnz0', 0); c.assume(nz < 2**28); N = nz
        if cut: N = N + n
        if loc: N = N + ni
        v = c.array('values', N); x = c.array('x', n); X = c.arr(c.st, x); nx = c.bool('new_x')
        for o in rets(c, c.call(FP + '::eval_jac_g', [P(this), n, x, nx, m, N, NULL, NULL, v])):
            st = o.st; k, = calls(st, 'eval_jac_g'); same_call(c, st, k, 'eval_jac_g', {0: n, 3: m0, 4: nz}, [('x', n, X)]); A = c.arr(st, v); ok = k.ret
            c.require(st, c.forall(nz, lambda t: veq(A.read(t), k.outs['vals'].read(t))), 'values of the problem passed on')
            if cut:
                e = calls(st, 'eval_grad_f'); c.require(st, len(e) == 1, 'gradient evaluated once')
                if len(e) != 1: continue
                same_call(c, st, e[0], 'eval_grad_f', {0: n}, [('x', n, X)]); ok = z3.And(ok, e[0].ret)
                c.require(st, c.forall(n, lambda t: z3.Implies(e[0].ret, zr(A.read(nz + t)) == e[0].outs['grad'].read(t))), 'gradient of the original objective for the cutoff constraint')
            if loc: c.require(st, z3.Implies(ok, c.forall(ni, lambda t: zr(A.read((nz + n if cut else nz) + t)) == z3.If(VA.read(t) <= zr(Fraction(0.1)), z3.RealVal(1), z3.RealVal(-1)))) if not cut else c.forall(ni, lambda t: z3.Implies(ok, zr(A.read(nz + n + t)) == z3.If(VA.read(t) <= zr(Fraction(0.1)), z3.RealVal(1), z3.RealVal(-1)))), 'gradient of the distance for the local branching constraint')
            c.require(st, veq(tobool(o.val), ok), 'success exactly when every evaluation succeeded')
    return f
def hess(cut, loc, use, norm, style):
    """style None: values"""
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc, use, norm); nz = c.int('nnz0', 0); c.assume(nz < 2**28); x2 = use and norm == 2; N = nz + ni if x2 else nz
        of = c.real('obj_factor')
        if style is not None:
            c.set(this, 'index_style_', style, 4); r, q = c.array('iRow', N, 'int'), c.array('jCol', N, 'int')
            for o in rets(c, c.call(FP + '::eval_h', [P(this), n, NULL, 0, of, m, NULL, 0, N, r, q, NULL])):
                st = o.st; k, = calls(st, 'eval_h'); same_call(c, st, k, 'eval_h', {0: n, 4: m0, 7: nz}); R, Q = c.arr(st, r, 'int'), c.arr(st, q, 'int')
                c.require(st, c.forall(nz, lambda t: z3.And(ieq(R.read(t), k.outs['iRow'].read(t)), ieq(Q.read(t), k.outs['jCol'].read(t)))), 'structure of the problem passed on')
                if x2: c.require(st, c.forall(ni, lambda t: z3.And(ieq(R.read(nz + t), IN.read(t) + style), ieq(Q.read(nz + t), IN.read(t) + style))), 'the distance adds diagonal entries')
                c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
            return
        v = c.array('values', N); x = c.array('x', n); X = c.arr(c.st, x); lam = c.array('lambda', m); LA = c.arr(c.st, lam); nx, nl = c.bool('new_x'), c.bool('new_lambda')
        for o in rets(c, c.call(FP + '::eval_h', [P(this), n, x, nx, of, m, lam, nl, N, NULL, NULL, v])):
            st = o.st; k, = calls(st, 'eval_h'); A = c.arr(st, v)
            w = of * ((1 - la) * sg) if use else of
            if cut: w = w + LA.read(m0)
            same_call(c, st, k, 'eval_h', {0: n, 2: nx, 4: m0, 6: nl, 7: nz}, [('x', n, X), ('lambda', m0, LA)])
            c.require(st, zr(k.a[3]) == w, 'the objective is weighted by its factor and by the multiplier of the cutoff constraint')
            c.require(st, c.forall(nz, lambda t: veq(A.read(t), k.outs['vals'].read(t))), 'values of the problem passed on')
            if x2: c.require(st, c.forall(ni, lambda t: zr(A.read(nz + t)) == 2 * sc * la * of), 'second derivative of the squared distance')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def start(cut, loc, flags):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); x, zl, zu = [c.array(k, n) for k in ('x', 'zl', 'zu')]; lam = c.array('lambda', m)
        for o in rets(c, c.call(FP + '::get_starting_point', [P(this), n, 1, x, flags, zl, zu, m, flags, lam])):
            st = o.st; k, = calls(st, 'get_starting_point'); same_call(c, st, k, 'get_starting_point', {0: n, 6: m0}); L = c.arr(st, lam)
            A = c.arr(st, x); c.require(st, c.forall(n, lambda j: veq(A.read(j), k.outs['x'].read(j))), 'starting point of the problem')
            if flags: c.require(st, c.forall(m0, lambda j: veq(L.read(j), k.outs['lambda'].read(j))), 'starting multipliers of the problem')
            for i in range(cut + loc): c.require(st, veq(L.read(m0 + i), z3.RealVal(0)), 'multipliers of the extra constraints start at zero')
            c.require(st, veq(tobool(o.val), k.ret), 'success passed on')
    return f
def linearity(cut, loc):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); t = c.array('types', m, 'int')
        for o in rets(c, c.call(FP + '::get_constraints_linearity', [P(this), m, t])):
            st = o.st; k, = calls(st, 'get_constraints_linearity'); A = c.arr(st, t, 'int'); same_call(c, st, k, 'get_constraints_linearity', {0: m0})
            c.require(st, c.forall(m0, lambda j: ieq(A.read(j), k.outs['clin'].read(j))), 'types of the problem passed on')
            if cut: c.require(st, ieq(A.read(m0), 1), 'the cutoff constraint may be nonlinear')
            if loc: c.require(st, ieq(A.read(m0 + cut), 0), 'the local branching constraint is linear')
    return f
def final(cut, loc):
    def f(c):
        this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, cut, loc); x, zl, zu = [c.array(k, n) for k in ('x', 'zl', 'zu')]; g, lam = c.array('g', m), c.array('lambda', m); s, v = c.int('status'), c.real('obj'); d, q = P(Obj('ipd', lazy=True)), P(Obj('ipq', lazy=True))
        for o in rets(c, c.call(FP + '::finalize_solution', [P(this), s, n, x, zl, zu, m, g, lam, v, d, q])):
            k = o.st.ghost.get('fin', ()); c.require(o.st, len(k) == 1, 'result passed on once')
            if len(k) != 1: continue
            for i, (a, b) in enumerate(zip(k[0], [s, n, x, zl, zu, m0, g, lam, v, d, q])): c.require(o.st, c.ex.ptreq(a, b) if isptr(a) or isptr(b) else veq(a, b), 'result %d passed on, without the extra constraints' % i)
            c.unchanged(o.st)
    return f
def setpoint(c):
    this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, 0, 0); k = c.int('k', 0); c.assume(k < 2**28); v, i = c.array('v', k), c.array('i', k, 'int')
    for o in rets(c, c.call(FP + '::set_dist_to_point_obj', [P(this), k, v, i])):
        vec_is(c, o.st, this, 'vals_', k, c.arr(c.pre, v), 'values'); vec_is(c, o.st, this, 'inds_', k, c.arr(c.pre, i, 'int'), 'indices', 'int')
def cutoff(c):
    this, n, m0, m, ni, IN, VA, la, sg, sc = fp(c, 0, 0); v = c.real('v')
    for o in rets(c, c.call(FP + '::set_cutoff', [P(this), v])):
        w = zr(c.get(o.st, this, 'cutoff_', 'real')); e = zr(Fraction(1e-6)); a = z3.If(v >= 0, v, -v)
        c.require(o.st, z3.Implies(a > zr(Fraction(1e-8)), z3.And(w < v, w >= v - e * a * zr(Fraction(101, 100)))), 'the cutoff asks for a relative improvement of 1e-6')
        c.require(o.st, z3.Implies(a <= zr(Fraction(1e-8)), w == -e), 'around zero, of 1e-6 absolute')
SIG = {'switch': 'switchToFeasibilityProblem(unsigned long, double const*, int const*, double, double, int)', 'local': 'switchToFeasibilityProblem(unsigned long, double const*, int const*, double)',
 'solve': 'solveFeasibilityProblem(unsigned long, double const*, int const*, double, double, int)', 'solvecut': 'solveFeasibilityProblem(unsigned long, double const*, int const*, int, double)'}
def iface(kind):
    """the interface configures the feasibility problem it was asked for, and that problem is the one solved"""
    def f(c):
        this, p, n, m = c06.osi(c); ex = c.ex; ex.merge = True; q = c.object(FP, 'fp'); q.cls = FP; c.set(this, 'feasibilityProblem_', P(q)); p.cls = NLP
        k = c.int('k', 0); c.assume(k < 2**28); xb, ind = c.array('xb', k), c.array('inds', k, 'int'); c.sizes.append(k)
        a, s, L, cv, rh = c.real('a'), c.real('s'), c.int('L', 1, 2), c.real('cutoff'), c.real('rhs'); c.assume(a >= 0, a <= 1, s >= 0, rh >= 0)
        args = {'switch': [a, s, L], 'local': [rh], 'solve': [a, s, L], 'solvecut': [L, cv]}[kind]; cells = []
        def conf(st):
            g = lambda fd, kd='int': c.get(st, q, fd, kd)
            b = lambda fd: tobool(c.get(st, q, fd, 'bool'))
            c.require(st, veq(b('use_feasibility_pump_objective_'), kind != 'local'), 'the distance is the objective exactly when asked for')
            c.require(st, veq(b('use_cutoff_constraint_'), kind == 'solvecut'), 'the cutoff constraint is used exactly when a cutoff is given')
            c.require(st, veq(b('use_local_branching_constraint_'), kind == 'local'), 'the local branching constraint is used exactly when a radius is given')
            vec_is(c, st, q, 'vals_', k, c.arr(c.pre, xb), 'point'); vec_is(c, st, q, 'inds_', k, c.arr(c.pre, ind, 'int'), 'coordinates', 'int')
            if kind != 'local':
                c.require(st, z3.And(zr(g('lambda_', 'real')) == (1 if kind == 'solvecut' else a), zr(g('sigma_', 'real')) == (0 if kind == 'solvecut' else s), zi(g('norm_')) == L), 'weights and norm as given')
            else: c.require(st, veq(g('rhs_local_branching_constraint_', 'real'), rh), 'radius as given')
            if kind == 'solvecut':
                w = zr(g('cutoff_', 'real')); e = zr(Fraction(1e-6)); A = z3.If(cv >= 0, cv, -cv)
                c.require(st, z3.If(A > zr(Fraction(1e-8)), z3.And(w < cv, w >= cv - e * A * zr(Fraction(101, 100))), w == -e), 'cutoff as given, improved')
        T = 'Bonmin::TNLPSolver::'; res = c.int('result', -8, 5); app2 = Obj('app2', lazy=True)
        def clone(e, st, aa, ins, mm, ctx):
            e.store(st, aa[0], P(app2), scal_ty(8, 'ptr')); return None
        ex.vmodels[T + 'clone'] = clone
        ex.vmodels['Ipopt::OptionsList::SetIntegerValue'] = lambda e, st, aa, ins, mm, ctx: True
        def run(e, st, aa, ins, mm, ctx):
            t = e.load(st, aa[1], scal_ty(8, 'ptr')); st.ghost['solved'] = st.ghost.get('solved', ()) + (t,); conf(st); return res
        ex.vmodels[T + 'OptimizeTNLP'] = run
        for o in rets(c, c.call(OSI + '::' + SIG[kind], [P(this), k, xb, ind] + args)):
            st = o.st; conf(st)
            if kind in ('switch', 'local'):
                c.require(st, c.ex.ptreq(c.get(st, this, 'problem_to_optimize_', 'ptr'), P(q)), 'later solves are of the feasibility problem'); c.require(st, c.get(st, this, 'feasibility_mode_', 'bool'), 'the mode is recorded')
            else:
                t = st.ghost.get('solved', ()); c.require(st, len(t) == 1, 'solved once')
                if len(t) != 1: continue
                c.require(st, c.ex.ptreq(t[0], P(q)), 'the problem solved is the feasibility problem'); c.require(st, ieq(c.get(st, this, 'optimizationStatus_'), res), 'its status is kept'); c.require(st, c.get(st, this, 'hasBeenOptimized_', 'bool'), 'its results are current')
                c.require(st, veq(o.val, c.get(st, p, 'obj_value_', 'real')), 'its optimal value is returned')
                c.require(st, c.ex.ptreq(c.get(st, this, 'problem_to_optimize_', 'ptr'), P(p)), 'later solves are of the original problem again')
    return f
def original(c):
    this, p, n, m = c06.osi(c); q = c.object(FP, 'fp'); c.set(this, 'problem_to_optimize_', P(q)); c.set(this, 'feasibilityProblem_', P(q)); p.cls = NLP
    for o in rets(c, c.call(OSI + '::switchToOriginalProblem', [P(this)])):
        c.require(o.st, c.ex.ptreq(c.get(o.st, this, 'problem_to_optimize_', 'ptr'), P(p)), 'later solves are of the original problem'); c.require(o.st, bnot(c.get(o.st, this, 'feasibility_mode_', 'bool')), 'the mode is recorded')
CASES = [('sizes [%s, distance objective %d, norm %d]' % (nm(a, b), u, k), info(a, b, u, k)) for a, b in CFG for u, k in ((0, 2), (1, 1), (1, 2))] + \
 [('bounds [%s]' % nm(a, b), bounds(a, b)) for a, b in CFG] + [('objective [distance %d, norm %d]' % (u, k), evalf(u, k)) for u, k in ((0, 2), (1, 1), (1, 2))] + \
 [('gradient [distance %d, norm %d]' % (u, k), evalgrad(u, k)) for u, k in ((0, 2), (1, 1), (1, 2))] + [('constraints [%s]' % nm(a, b), evalg(a, b)) for a, b in CFG] + \
 [('Jacobian structure [%s, style %d]' % (nm(a, b), s), jacs(a, b, s)) for a, b in CFG for s in (0, 1)] + [('Jacobian values [%s]' % nm(a, b), jacv(a, b)) for a, b in CFG] + \
 [('Hessian [%s, distance objective %d, norm %d, %s]' % (nm(a, b), u, k, 'values' if s is None else 'structure %d' % s), hess(a, b, u, k, s)) for a, b in CFG for u, k in ((0, 2), (0, 1), (1, 1), (1, 2)) for s in (None, 0, 1)] + \
 [('starting point [%s, multipliers %d]' % (nm(a, b), k), start(a, b, k)) for a, b in CFG for k in (0, 1)] + [('linearity [%s]' % nm(a, b), linearity(a, b)) for a, b in CFG] + [('result [%s]' % nm(a, b), final(a, b)) for a, b in CFG] + \
 [('distance point', setpoint), ('cutoff value', cutoff)] + [('interface %s' % k, iface(k)) for k in SIG] + [('interface original', original)]
