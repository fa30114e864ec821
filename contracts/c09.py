"""C09: outer-approximation cuts are the linearisations of the nonlinear constraints and objective and never cut off a point that satisfies them."""
from common import *
import c06, coin
TUS = ['src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_oa.cpp'
OSI = c06.OSI; INF = c06.INF
ASSUMPTIONS = ['cut strengthening is off and no user linearizer is installed', 'the Jacobian structure arrays hold 0-based in-range indices (proved of initializeJacobianArrays for in-range user structures)', 'real arithmetic; right-hand sides stay below 1.79e308', 'multipliers of the last solve are available', 'sizes below 2^28']
ab = lambda v: z3.If(v >= 0, v, -v)

def setup(c, log):
    this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; ex = c.ex; ex.merge = True; user_problem(ex, ok=True)
    coin.install(ex); ll = c.int('loglevel', *(( 1, None) if log else (None, 0)))
    ex.add_model(r'CoinMessageHandler::logLevel\(\) const', lambda e, s, a, ins, dem, ctx: ll)
    def prt(e, s, a, ins, dem, ctx): T(e, 'OaMessageHandler::print only prints')
    ex.add_model(r'Bonmin::OsiTMINLPInterface::OaMessageHandler::print\(', prt)
    for f in ('linearizer_', 'cutStrengthener_'): c.set(this, f, NULL)
    c.set(this, 'oaHandler_', P(Obj('oaHandler', lazy=True))); c.set(this, 'handler_', P(Obj('handler', lazy=True)))
    c.assume(c.get(c.st, this, 'hasBeenOptimized_', 'bool'))
    nnz = c.get(c.st, p, 'nnz_jac_g_'); c.assume(nnz >= 0, nnz < 2**28); c.sizes.append(nnz)
    jr, jc, jv = c.array('jRow', nnz, 'int'), c.array('jCol', nnz, 'int'), c.array('jValues', nnz)
    for f, v in (('jRow_', jr), ('jCol_', jc), ('jValues_', jv)): c.set(this, f, v)
    JR, JC = c.arr(c.st, jr, 'int'), c.arr(c.st, jc, 'int')
    c.assume_forall(nnz, lambda t: z3.And(JR.read(t) >= 0, JR.read(t) < m, JC.read(t) >= 0, JC.read(t) < n), 'jac')
    ct = c.array('constTypes', m, 'int'); c.set(this, 'constTypes_', ct); CT = c.arr(c.st, ct, 'int')
    nl = lambda r: CT.read(r) == 1
    cnt = c.fold('nonlinear_before', 'int', lambda: z3.IntVal(0), lambda t, q: z3.If(nl(t), q + 1, q), mono=1)
    nn = c.get(c.st, this, 'nNonLinear_'); c.assume(cnt(m) <= nn, nn < 2**28, cnt(0) == 0)
    tiny, vt, rr, inf_ = [c.get(c.st, this, f, 'real') for f in ('tiny_', 'veryTiny_', 'rhsRelax_', 'infty_')]
    c.assume(tiny >= 0, vt >= 0, rr >= 0, inf_ > 0, inf_ <= zr(INF))
    return this, p, n, m, nnz, JR, JC, CT, nl, cnt, nn, (tiny, vt, rr, inf_)

def clean(a, cl, cu, rl, ru, x, tiny, vt, inf):
    """(dropped without compensation, kept, change of lower, change of upper side)"""
    A = ab(a); pos = a > 0; big = A >= tiny; nil = z3.And(z3.Not(big), A < vt)
    c1 = z3.And(cu < inf, pos, ru >= inf); c2 = z3.And(cu < inf, z3.Not(pos), rl <= -inf); c3 = z3.And(cl > -inf, z3.Not(pos), ru >= inf); c4 = z3.And(cl > -inf, pos, rl <= -inf)
    mid = z3.And(z3.Not(big), A >= vt); Z = z3.RealVal(0)
    keep = z3.Or(big, z3.And(mid, z3.Not(z3.Or(c1, c2, c3, c4))))
    dlb = z3.If(mid, z3.If(c1, a * (x - cu), z3.If(c2, Z, z3.If(c3, a * (x - cl), Z))), Z)
    dub = z3.If(mid, z3.If(c1, Z, z3.If(c2, a * (x - cu), z3.If(c3, Z, z3.If(c4, a * (x - cl), Z)))), Z)
    return nil, keep, dlb, dub

def oa(getobj, log):
    def f(c):
        this, p, n, m, nnz, JR, JC, CT, nl, cnt, nn, (tiny, vt, rr, inf_) = setup(c, log)
        x = c.array('x', n); X = c.arr(c.st, x); cs, n0 = coin.cuts(c); glob = c.bool('global')
        GL, GU, XL, XU = [c.vec(c.st, p, q)[1] for q in ('g_l_', 'g_u_', 'x_l_', 'x_u_')]
        D = c.vec(c.st, p, 'duals_sol_')[1]; I_ = zr(INF)
        for o in rets(c, c.call(OSI + '::getOuterApproximation', [P(this), cs, x, getobj, NULL, c.real('theta'), glob])):
            st = o.st
            ej, eg = calls(st, 'eval_jac_g'), calls(st, 'eval_g')
            ej = [q for q in ej if q.outs.get('vals') is not None]
            c.require(st, len(ej) == 1 and len(eg) == 1, 'constraints and Jacobian evaluated once')
            if len(ej) != 1 or len(eg) != 1: continue
            for q in (ej[0], eg[0]): c.require(st, c.forall(n, lambda j: veq(q.ins['x'].read(j), X.read(j))), '%s evaluated at the given point' % q.meth)
            V, G = ej[0].outs['vals'], eg[0].outs['g']
            R = z3.Int('R'); rl, ru = GL.read(R), GU.read(R); d = D.read(iadd(imul(2, n), R))
            lb0 = z3.If(rl > -inf_, rl - G.read(R), -I_); ub0 = z3.If(ru < inf_, ru - G.read(R), I_)
            both = z3.And(rl > -I_, ru < I_)
            lb0, ub0 = z3.If(z3.And(both, d >= 0), -I_, lb0), z3.If(z3.And(both, d <= 0), I_, ub0)
            def ent(t): col = JC.read(t); return (V.read(t),) + (col,) + clean(V.read(t), XL.read(col), XU.read(col), rl, ru, X.read(col), tiny, vt, inf_)
            mine = lambda t: JR.read(t) == R
            def sl(t, q): a, col, nil, keep, dl, du = ent(t); return z3.If(mine(t), z3.If(keep, z3.If(q > -I_, q + a * X.read(col), q), q + dl), q)
            def su(t, q): a, col, nil, keep, dl, du = ent(t); return z3.If(mine(t), z3.If(keep, z3.If(q < I_, q + a * X.read(col), q), q + du), q)
            def sr(t, q): a, col, nil, keep, dl, du = ent(t); return z3.If(z3.And(mine(t), keep), q + a * coin.Y.read(col), q)
            LB = c.fold('lb', 'real', lambda: lb0, sl); UB = c.fold('ub', 'real', lambda: ub0, su); RW = c.fold('row', 'real', lambda: z3.RealVal(0), sr)
            st.assume(R >= 0, R < m, nl(R))
            k = iadd(n0, cnt(R))
            c.require(st, ieq(coin.cut(st, cs, 'n'), iadd(iadd(n0, cnt(m)), OBJ(c, st, getobj))), 'one cut per nonlinear constraint (and one for the objective when asked)')
            lo, up, row, gl = [coin.cut(st, cs, q).read(k) for q in ('lb', 'ub', 'row', 'glob')]
            c.require(st, veq(row, RW(nnz)), 'coefficients are the gradient of the constraint')
            c.require(st, z3.And(lo <= LB(nnz), lo >= LB(nnz) - rr * z3.If(ab(LB(nnz)) > 1, ab(LB(nnz)), 1)), 'left-hand side of the linearisation, relaxed at most as configured')
            c.require(st, z3.And(up >= UB(nnz), up <= UB(nnz) + rr * z3.If(ab(UB(nnz)) > 1, ab(UB(nnz)), 1)), 'right-hand side of the linearisation, relaxed at most as configured')
            c.require(st, ieq(gl, toint(glob)), 'globally valid exactly when requested')
            # validity at an arbitrary point Y within the column bounds at which the linearised constraint holds
            lin = c.fold('lin', 'real', lambda: z3.RealVal(0), lambda t, q: z3.If(z3.And(mine(t), z3.Not(ent(t)[2])), q + ent(t)[0] * (coin.Y.read(JC.read(t)) - X.read(JC.read(t))), q))
            st.facts = st.facts + [fa(c, n, lambda q: z3.And(XL.read(q) <= coin.Y.read(q), coin.Y.read(q) <= XU.read(q)))]
            st.facts = st.facts + [fa(c, nnz + 1, lambda q: z3.And(z3.Implies(ub0 < I_, UB(q) < I_), z3.Implies(lb0 > -I_, LB(q) > -I_)))]
            c.lemma(st, nnz, lambda t: z3.Implies(ub0 < I_, UB(t) - RW(t) >= ub0 - lin(t)), 'upper side valid at every point within the bounds')
            c.lemma(st, nnz, lambda t: z3.Implies(lb0 > -I_, LB(t) - RW(t) <= lb0 - lin(t)), 'lower side valid at every point within the bounds')
            c.require(st, z3.Implies(z3.And(ub0 < I_, lin(nnz) <= ub0), row <= up), 'the cut is satisfied wherever the linearised constraint is (upper side)')
            c.require(st, z3.Implies(z3.And(lb0 > -I_, lin(nnz) >= lb0), row >= lo), 'the cut is satisfied wherever the linearised constraint is (lower side)')
    return f
def fa(c, n, f, lo=0):
    g = z3.Int('g!fa%d' % c.ex.n); c.ex.n += 1
    return Forall(g, band(ile(lo, g), ilt(g, n)), zb(f(g)), name='hyp')

def oaobj(getobj, second, log):
    """the objective cut"""
    def f(c):
        this, p, n, m, nnz, JR, JC, CT, nl, cnt, nn, (tiny, vt, rr, inf_) = setup(c, log)
        x = c.array('x', n); X = c.arr(c.st, x); cs, n0 = coin.cuts(c); glob = c.bool('global')
        XL, XU = [c.vec(c.st, p, q)[1] for q in ('x_l_', 'x_u_')]; I_ = zr(INF); theta = c.real('theta')
        x2 = c.array('x2', n + 1) if second else NULL
        for o in rets(c, c.call(OSI + '::getOuterApproximation', [P(this), cs, x, getobj, x2, theta, glob])):
            st = o.st; fs, gs = calls(st, 'eval_f'), calls(st, 'eval_grad_f'); N = coin.cut(st, cs, 'n')
            want = OBJ(c, st, getobj)
            if not fs and not gs: c.require(st, z3.And(zi(want) == 0, zi(N) == n0 + cnt(m)), 'no objective cut for a linear objective unless forced'); continue
            c.require(st, z3.And(zi(want) == 1, len(fs) == 1, len(gs) == 1), 'objective and gradient evaluated once, only when a cut is wanted')
            if len(fs) != 1 or len(gs) != 1: continue
            for q in (fs[0], gs[0]): c.require(st, c.forall(n, lambda j: veq(q.ins['x'].read(j), X.read(j))), '%s evaluated at the given point' % q.meth)
            F, G = fs[0].outs['f'], gs[0].outs['grad']
            def ent(t): return (G.read(t),) + clean(G.read(t), XL.read(t), XU.read(t), -I_, z3.RealVal(0), X.read(t), tiny, z3.RealVal(Fraction(1e-15)), inf_)
            def su(t, q): a, nil, keep, dl, du = ent(t); return z3.If(keep, q + a * X.read(t), q + du)
            def sr(t, q): a, nil, keep, dl, du = ent(t); return z3.If(keep, q + a * coin.Y.read(t), q)
            UB = c.fold('ub', 'real', lambda: -F, su); RW = c.fold('row', 'real', lambda: z3.RealVal(0), sr)
            if second:
                st.assume(zi(N) != n0 + cnt(m))
                if not c.ex.feasible(st): continue
            c.require(st, zi(N) == n0 + cnt(m) + 1, 'one objective cut')
            lo, up, row, gl = [coin.cut(st, cs, q).read(isub(N, 1)) for q in ('lb', 'ub', 'row', 'glob')]
            c.require(st, veq(row, RW(n) - coin.Y.read(n)), 'coefficients are the gradient of the objective and -1 for the epigraph variable')
            c.require(st, lo <= -I_, 'the objective cut has no lower side')
            c.require(st, veq(up, UB(n)), 'right-hand side of the linearised objective')
            c.require(st, ieq(gl, toint(glob)), 'globally valid exactly when requested')
            lin = c.fold('lin', 'real', lambda: F, lambda t, q: z3.If(ent(t)[1], q, q + G.read(t) * (coin.Y.read(t) - X.read(t))))
            st.facts = st.facts + [fa(c, n, lambda q: z3.And(XL.read(q) <= coin.Y.read(q), coin.Y.read(q) <= XU.read(q)))]
            c.lemma(st, n, lambda t: UB(t) - RW(t) >= -lin(t), 'valid at every point within the bounds')
            c.require(st, z3.Implies(coin.Y.read(n) >= lin(n), row <= up), 'satisfied whenever the epigraph variable is above the linearisation')
    return f
def OBJ(c, st, g):
    if g == 2: return 1
    if g == 0: return 0
    h = c.ex.lazy.get(('uret', 'hasLinearObjective', ()))
    return z3.If(h, z3.IntVal(0), z3.IntVal(1)) if h is not None else 1
def jac(fortran, had):
    """the Jacobian structure arrays: 0-based, in range for in-range user structures, constraint types stored"""
    def f(c):
        this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; ex = c.ex; ex.merge = True; user_problem(ex, ok=True)
        nnz = c.get(c.st, p, 'nnz_jac_g_'); c.assume(nnz >= 0, nnz < 2**28); c.sizes.append(nnz)
        c.assume(c.get(c.st, p, 'index_style_') == fortran)
        for q, k in (('jRow_', 'int'), ('jCol_', 'int'), ('jValues_', 'real'), ('constTypes_', 'int')): c.set(this, q, c.array('old_' + q, c.int('l_' + q, 0), k) if had else NULL)
        nn0 = c.get(c.st, this, 'nNonLinear_'); c.assume(nn0 >= 0, nn0 < 2**28)
        for o in rets(c, c.call(OSI + '::initializeJacobianArrays', [P(this)])):
            st = o.st; ej = [q for q in calls(st, 'eval_jac_g')]; cl = calls(st, 'get_constraints_linearity')
            c.require(st, len(ej) == 1 and ej[0].outs.get('iRow') is not None and len(cl) == 1, 'structure and constraint types asked for once')
            if len(ej) != 1 or len(cl) != 1 or ej[0].outs.get('iRow') is None: continue
            for f_, u in (('jRow_', 'iRow'), ('jCol_', 'jCol')):
                A = c.arr(st, c.get(st, this, f_, 'ptr'), 'int'); U = ej[0].outs[u]
                c.require(st, c.forall(nnz, lambda t: ieq(A.read(t), isub(U.read(t), fortran))), '%s holds 0-based indices' % f_)
            T_ = c.arr(st, c.get(st, this, 'constTypes_', 'ptr'), 'int'); C = cl[0].outs['clin']
            c.require(st, c.forall(m, lambda t: ieq(T_.read(t), C.read(t))), 'constraint types stored')
            step = lambda t, q: z3.If(C.read(t) == 1, q + 1, q)
            cnt = c.fold('nonlinear', 'int', lambda: z3.IntVal(0), step); acc = c.fold('counted', 'int', lambda: nn0, step)
            c.require(st, ieq(c.get(st, this, 'nNonLinear_'), acc(m)), 'nonlinear constraints counted')
            c.lemma(st, m, lambda t: acc(t) == nn0 + cnt(t), 'count')
            c.require(st, zi(c.get(st, this, 'nNonLinear_')) >= cnt(m), 'room for one cut per nonlinear constraint')
            c.require(st, ieq(o.val, nnz), 'number of nonzeros returned')
    return f
LOG = {0: 'silent', 1: 'logging'}
CASES = [('outer approximation cuts [%s]' % LOG[l], oa(0, l)) for l in (0, 1)] + \
        [('objective cut [mode %d%s%s]' % (g, ', with a point to separate' if s else '', ', logging' if l else ''), oaobj(g, s, l)) for g, s, l in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 0, 1), (1, 1, 0), (2, 1, 0))]
CASES += [('Jacobian structure [%s%s]' % ('Fortran' if f else 'C', ', again' if h else ''), jac(f, h)) for f in (0, 1) for h in (0, 1)]
BUDGET = 320
