"""C10: the linear relaxation handed to the MILP solver keeps every integer-feasible point: linear rows are copied, nonlinear rows linearised with valid sides, bounds, integrality and objective carried over."""
from common import *
import c06, c09, coin
from c09 import clean, ab, fa
TUS = c09.TUS; HARNESS = 'h_oa.cpp'; OSI = c06.OSI; INF = c06.INF
ASSUMPTIONS = ['no user linearizer is installed', 'the LP solver uses COIN_DBL_MAX as infinity (all COIN LP solvers do)', 'the LP solver stores what it is given (loadProblem, deleteRows, setInteger, setObjective, setDblParam, addCol, addRow)', 'user sparsity structure in range', 'real arithmetic; right-hand sides stay below 1.79e308', 'multipliers of the last solve are available', 'sizes below 2^28']
E7 = Fraction(1e-07)

def lp(c):
    """an LP solver that records what it is given"""
    ex = c.ex; o = Obj('si', lazy=True); o.cls = None; st = c.st; V = ex.vmodels; S = 'OsiSolverInterface::'
    def log(st, *a): st.ghost['lp'] = st.ghost.get('lp', ()) + (a,)
    ex.lpinf = zr(INF)
    V[S + 'getInfinity'] = lambda e, s, a, ins, m, ctx: zr(INF)
    def load(e, s, a, ins, m, ctx):
        if len(a) != 7: raise Unsupported('another form of loadProblem')
        mat = s.ghost.get(('mat', a[1].obj.id, a[1].off))
        if mat is None: raise Unsupported('unknown matrix')
        r, q, v, nz, mm, nn = mat
        arrs = [rdarr(e, s, p, n_, 'real', 8, m) for p, n_ in ((a[2], nn), (a[3], nn), (a[4], nn), (a[5], mm), (a[6], mm))]
        log(s, 'load', mat, *arrs); s.ghost['si_cols'] = nn; s.ghost['si_rows'] = mm
        s.ghost['si_int'] = AConst('int', z3.IntVal(0))
    V[S + 'loadProblem'] = load
    def dele(e, s, a, ins, m, ctx):
        k = a[1]; arr = rdarr(e, s, a[2], k, 'int', 4, m); log(s, 'delete', k, arr); s.ghost['si_rows'] = isub(s.ghost['si_rows'], k)
    V[S + 'deleteRows'] = dele
    def seti(e, s, a, ins, m, ctx):
        if len(a) != 2: raise Unsupported('another form of setInteger')
        s.ghost['si_int'] = AStore(s.ghost['si_int'], a[1], z3.IntVal(1))
    V[S + 'setInteger'] = seti
    def setd(e, s, a, ins, m, ctx): log(s, 'dbl', a[1], a[2]); return (z3.BoolVal(True),)
    V[S + 'setDblParam'] = setd
    def seto(e, s, a, ins, m, ctx): log(s, 'obj', rdarr(e, s, a[1], s.ghost['si_cols'], 'real', 8, m))
    V[S + 'setObjective'] = seto
    def addc(e, s, a, ins, m, ctx):
        if len(a) != 5: raise Unsupported('another form of addCol')
        log(s, 'col', coin.pv_get(s, a[1]), a[2], a[3], a[4]); s.ghost['si_cols'] = iadd(s.ghost['si_cols'], 1)
    V[S + 'addCol'] = addc
    def addr(e, s, a, ins, m, ctx):
        if len(a) != 4: raise Unsupported('another form of addRow')
        log(s, 'row', coin.pv_get(s, a[1]), a[2], a[3]); s.ghost['si_rows'] = iadd(s.ghost['si_rows'], 1)
    V[S + 'addRow'] = addr
    V[S + 'getNumCols'] = lambda e, s, a, ins, m, ctx: s.ghost['si_cols']
    V[S + 'getNumRows'] = lambda e, s, a, ins, m, ctx: s.ghost['si_rows']
    def mat(e, s, a, ins, dem, ctx):
        T(e, 'CoinPackedMatrix(colordered, rows, cols, values, n): the triplets given'); p, co, r, q, v, nz = a[:6]
        s.ghost[('mat', p.obj.id, p.off)] = (rdarr(e, s, r, nz, 'int', 4, dem), rdarr(e, s, q, nz, 'int', 4, dem), rdarr(e, s, v, nz, 'real', 8, dem), nz, None, None)
    ex.add_model(r'CoinPackedMatrix::CoinPackedMatrix\(bool, int const\*, int const\*, double const\*', mat)
    def dim(e, s, a, ins, dem, ctx):
        T(e, 'CoinPackedMatrix::setDimensions'); k = ('mat', a[0].obj.id, a[0].off); s.ghost[k] = s.ghost[k][:4] + (a[1], a[2])
    ex.add_model(r'CoinPackedMatrix::setDimensions\(', dim)
    def mdel(e, s, a, ins, dem, ctx): raise Unsupported('rows deleted from the matrix before it is loaded')
    ex.add_model(r'CoinPackedMatrix::deleteRows\(', mdel)
    ex.add_model(r'CoinPackedMatrix::~CoinPackedMatrix\(', lambda e, s, a, ins, dem, ctx: None)
    ex.add_model(r'CoinMessageHandler::message\(', lambda e, s, a, ins, dem, ctx: (T(e, 'message handler only prints'), P(Obj('handler', lazy=True)))[1])
    ex.add_model(r'CoinMessageHandler::operator<<\(', lambda e, s, a, ins, dem, ctx: a[0])
    return P(o)

def setup(c):
    this, p, n, m = c06.osi(c, 'xd'); p.cls = NLP; ex = c.ex; ex.merge = True; user_problem(ex, ok=True); coin.install(ex)
    for f in ('linearizer_', 'cutStrengthener_'): c.set(this, f, NULL)
    c.set(this, 'handler_', P(Obj('handler', lazy=True)))
    c.assume(c.get(c.st, this, 'hasBeenOptimized_', 'bool'))
    nnz = c.get(c.st, p, 'nnz_jac_g_'); c.assume(nnz >= 0, nnz < 2**28); c.sizes.append(nnz)
    nn0 = c.get(c.st, this, 'nNonLinear_'); c.assume(nn0 >= 0, nn0 < 2**28)
    for q, k in (('jRow_', 'int'), ('jCol_', 'int'), ('jValues_', 'real'), ('constTypes_', 'int')): c.set(this, q, NULL)
    tiny, vt, rr, inf_ = [c.get(c.st, this, f, 'real') for f in ('tiny_', 'veryTiny_', 'rhsRelax_', 'infty_')]
    c.assume(tiny >= 0, vt >= 0, rr >= 0, inf_ > 0, inf_ <= zr(INF))
    return this, p, n, m, nnz, (tiny, vt, rr, inf_)

def jacmodel(c, this, p, n, m, nnz):
    """contract of initializeJacobianArrays (proved in C09)"""
    jr, jc, jv, ct = c.array('jRow', nnz, 'int'), c.array('jCol', nnz, 'int'), c.array('jValues', nnz), c.array('constTypes', m, 'int')
    JR, JC, CT = c.arr(c.st, jr, 'int'), c.arr(c.st, jc, 'int'), c.arr(c.st, ct, 'int')
    c.assume_forall(nnz, lambda t: z3.And(JR.read(t) >= 0, JR.read(t) < m, JC.read(t) >= 0, JC.read(t) < n), 'jac')
    c.assume_forall(m, lambda t: z3.Or(CT.read(t) == 0, CT.read(t) == 1), 'types')
    def h(e, s, a, ins, dem, ctx):
        T(e, 'initializeJacobianArrays: its contract (0-based structure, constraint types), proved in C09')
        for f, v in (('jRow_', jr), ('jCol_', jc), ('jValues_', jv), ('constTypes_', ct)): e.store(s, P(this, c.offset(this.cls, f)), v, scal_ty(8, 'ptr'))
        return nnz
    c.ex.add_model(r'Bonmin::OsiTMINLPInterface::initializeJacobianArrays\(', h)
    return JR, JC, CT

def relax(getobj, part):
    def f(c):
        this, p, n, m, nnz, (tiny, vt, rr, inf_) = setup(c); si = lp(c); JR, JC, CT = jacmodel(c, this, p, n, m, nnz)
        x = c.array('x', n); X = c.arr(c.st, x); I_ = zr(INF)
        GL, GU, XL, XU = [c.vec(c.st, p, q)[1] for q in ('g_l_', 'g_u_', 'x_l_', 'x_u_')]; VT = c.vec(c.st, p, 'var_types_', 'int')[1]
        D = c.vec(c.st, p, 'duals_sol_')[1]
        def addobj(e, s, a, ins, dem, ctx): s.ghost['addobj'] = s.ghost.get('addobj', ()) + ((a[1], rdarr(e, s, a[2], n, 'real', 8, dem)),); T(e, 'addObjectiveFunction: its contract, proved in its own case')
        c.ex.add_model(r'Bonmin::OsiTMINLPInterface::addObjectiveFunction\(', addobj)
        two = lambda r: z3.And(GL.read(r) > -inf_, GU.read(r) < inf_)
        drop = lambda r: z3.And(CT.read(r) == 1, two(r), D.read(iadd(imul(2, n), r)) == 0)
        cnt = c.fold('dropped_before', 'int', lambda: z3.IntVal(0), lambda t, q: z3.If(drop(t), q + 1, q), mono=1)
        for o in rets(c, c.call(OSI + '::extractLinearRelaxation(OsiSolverInterface&, double const*, bool)', [P(this), si, x, getobj])):
            st = o.st; L = st.ghost.get('lp', ()); ld = [q for q in L if q[0] == 'load']; de = [q for q in L if q[0] == 'delete']
            ej = [q for q in calls(st, 'eval_jac_g') if q.outs.get('vals') is not None]; eg = calls(st, 'eval_g')
            c.require(st, len(ld) == 1 and len(ej) == 1 and len(eg) == 1, 'one problem loaded, constraints and Jacobian evaluated once')
            if len(ld) != 1 or len(ej) != 1 or len(eg) != 1: continue
            for q in (ej[0], eg[0]): c.require(st, c.forall(n, lambda j: veq(q.ins['x'].read(j), X.read(j))), '%s evaluated at the given point' % q.meth)
            V, G = ej[0].outs['vals'], eg[0].outs['g']
            (mr, mc, mv, nz, mm, nn), cl, cu, ob, rlo, rup = ld[0][1:]
            if part == 'shape':
                c.require(st, z3.And(zi(nz) == nnz, zi(mm) == m, zi(nn) == n), 'one row per constraint and one column per variable')
                c.require(st, c.forall(n, lambda j: z3.And(zr(cl.read(j)) == z3.If(XL.read(j) <= -inf_, -I_, XL.read(j)), zr(cu.read(j)) == z3.If(XU.read(j) >= inf_, I_, XU.read(j)))), 'variable bounds carried over')
                c.require(st, c.forall(n, lambda j: ieq(st.ghost['si_int'].read(j), z3.If(z3.Or(VT.read(j) == 1, VT.read(j) == 2), z3.IntVal(1), z3.IntVal(0)))), 'integer variables, and only they, stay integer')
                c.require(st, c.forall(nnz, lambda t: z3.And(ieq(mr.read(t), JR.read(t)), ieq(mc.read(t), JC.read(t)))), 'sparsity structure carried over')
            # rows deleted: exactly the two-sided nonlinear ones with a zero multiplier
            R = z3.Int('R'); rl, ru = GL.read(R), GU.read(R); d = D.read(iadd(imul(2, n), R))
            if part == 'deleted' and de:
                c.require(st, len(de) == 1, 'rows deleted at once'); k, da = de[0][1:]
                c.require(st, ieq(k, cnt(m)), 'only rows that are not binding are deleted')
                c.require(st, z3.Implies(z3.And(R >= 0, R < m, drop(R)), ieq(da.read(cnt(R)), R)), 'every row that is not binding is deleted')
            if part == 'deleted' and not de: c.require(st, ieq(cnt(m), 0), 'no row deleted when all are binding')
            lin = CT.read(R) != 1; st.assume(R >= 0, R < m, z3.Not(drop(R)))
            keep = lambda t: z3.Or(CT.read(JR.read(t)) == 0, ent(t)[3])
            lb0 = z3.If(rl > -inf_, rl - G.read(R) - zr(E7), -I_); ub0 = z3.If(ru < inf_, ru - G.read(R) + zr(E7), I_)
            lb0, ub0 = z3.If(z3.And(two(R), d >= 0), -I_, lb0), z3.If(z3.And(two(R), d <= 0), I_, ub0)
            def ent(t): col = JC.read(t); r = JR.read(t); return (V.read(t),) + (col,) + clean(V.read(t), XL.read(col), XU.read(col), GL.read(r), GU.read(r), X.read(col), tiny, vt, inf_)
            if part == 'shape': c.require(st, c.forall(nnz, lambda t: veq(mv.read(t), z3.If(keep(t), V.read(t), z3.RealVal(0)))), 'coefficients are the Jacobian at the given point')
            rel = lambda v: rr * z3.If(ab(v) > 1, ab(v), 1)
            LL, UU = rlo.read(R), rup.read(R)
            if part == 'linear':
                l0 = z3.If(rl > -inf_, rl, -I_); u0 = z3.If(ru < inf_, ru, I_); st.assume(CT.read(R) == 0)
                LB = c.fold('lb', 'real', lambda: l0, lambda t, q: q); UB = c.fold('ub', 'real', lambda: u0, lambda t, q: q)
                c.lemma(st, nnz, lambda t: z3.And(LB(t) == l0, UB(t) == u0), 'linear rows are not touched')
                c.require(st, z3.And(LL <= LB(nnz), LL >= LB(nnz) - rel(LB(nnz))), 'linear constraints keep their left-hand side, relaxed at most as configured')
                c.require(st, z3.And(UU >= UB(nnz), UU <= UB(nnz) + rel(UB(nnz))), 'linear constraints keep their right-hand side, relaxed at most as configured')
            if part != 'sides': continue
            mine = lambda t: JR.read(t) == R
            def sl(t, q): a, col, nil, kp, dl, du = ent(t); return z3.If(mine(t), z3.If(kp, z3.If(q > -I_, q + a * X.read(col), q), q + dl), q)
            def su(t, q): a, col, nil, kp, dl, du = ent(t); return z3.If(mine(t), z3.If(kp, z3.If(q < I_, q + a * X.read(col), q), q + du), q)
            def sr(t, q): a, col, nil, kp, dl, du = ent(t); return z3.If(z3.And(mine(t), kp), q + a * coin.Y.read(col), q)
            st.assume(CT.read(R) == 1)
            LB = c.fold('lb', 'real', lambda: lb0, sl); UB = c.fold('ub', 'real', lambda: ub0, su); RW = c.fold('row', 'real', lambda: z3.RealVal(0), sr)
            c.require(st, z3.And(LL <= LB(nnz), LL >= LB(nnz) - rel(LB(nnz))), 'left-hand side of the linearisation')
            c.require(st, z3.And(UU >= UB(nnz), UU <= UB(nnz) + rel(UB(nnz))), 'right-hand side of the linearisation')
            MR = c.fold('mrow', 'real', lambda: z3.RealVal(0), lambda t, q: z3.If(mr.read(t) == R, q + mv.read(t) * coin.Y.read(mc.read(t)), q))
            c.lemma(st, nnz, lambda t: MR(t) == RW(t), 'the row loaded is the linearisation')
            lin = c.fold('lin', 'real', lambda: z3.RealVal(0), lambda t, q: z3.If(z3.And(mine(t), z3.Not(ent(t)[2])), q + ent(t)[0] * (coin.Y.read(JC.read(t)) - X.read(JC.read(t))), q))
            st.facts = st.facts + [fa(c, n, lambda q: z3.And(XL.read(q) <= coin.Y.read(q), coin.Y.read(q) <= XU.read(q)))]
            st.facts = st.facts + [fa(c, nnz + 1, lambda q: z3.And(z3.Implies(ub0 < I_, UB(q) < I_), z3.Implies(lb0 > -I_, LB(q) > -I_)))]
            c.lemma(st, nnz, lambda t: z3.Implies(ub0 < I_, UB(t) - RW(t) >= ub0 - lin(t)), 'upper side valid')
            c.lemma(st, nnz, lambda t: z3.Implies(lb0 > -I_, LB(t) - RW(t) <= lb0 - lin(t)), 'lower side valid')
            c.require(st, z3.Implies(z3.And(ub0 < I_, lin(nnz) <= ub0), MR(nnz) <= UU), 'the row holds wherever the linearised constraint does (upper side)')
            c.require(st, z3.Implies(z3.And(lb0 > -I_, lin(nnz) >= lb0), MR(nnz) >= LL), 'the row holds wherever the linearised constraint does (lower side)')
    return f
def linobj(c):
    """with an objective: a linear one is copied, otherwise addObjectiveFunction is called once at the same point"""
    this, p, n, m, nnz, (tiny, vt, rr, inf_) = setup(c); si = lp(c); JR, JC, CT = jacmodel(c, this, p, n, m, nnz)
    x = c.array('x', n); X = c.arr(c.st, x)
    def addobj(e, s, a, ins, dem, ctx): s.ghost['addobj'] = s.ghost.get('addobj', ()) + ((a[1], rdarr(e, s, a[2], n, 'real', 8, dem), len(s.ghost.get('lp', ()))),); T(e, 'addObjectiveFunction: its contract, proved in its own case')
    c.ex.add_model(r'Bonmin::OsiTMINLPInterface::addObjectiveFunction\(', addobj)
    for o in rets(c, c.call(OSI + '::extractLinearRelaxation(OsiSolverInterface&, double const*, bool)', [P(this), si, x, 1])):
        st = o.st; L = st.ghost.get('lp', ()); ad = st.ghost.get('addobj', ()); fs, gs = calls(st, 'eval_f'), calls(st, 'eval_grad_f')
        hl = c.ex.lazy[('uret', 'hasLinearObjective', ())]; ld = [k for k, q in enumerate(L) if q[0] == 'load']
        c.require(st, len(ld) == 1, 'one problem loaded')
        if len(ld) != 1: continue
        c.require(st, c.forall(n, lambda j: veq(L[ld[0]][4].read(j), z3.RealVal(0))), 'no objective coefficients from the rows')
        if ad:
            c.require(st, z3.Not(hl), 'epigraph variable only for a nonlinear objective')
            c.require(st, len(ad) == 1 and not any(q[0] in ('obj', 'dbl') for q in L) and ad[0][2] == len(L), 'objective added once, after the rows')
            c.require(st, band(c.ex.ptreq(ad[0][0], si), True), 'to the same LP'); c.require(st, c.forall(n, lambda j: veq(ad[0][1].read(j), X.read(j))), 'linearised at the same point')
        else:
            c.require(st, hl, 'a nonlinear objective gets an epigraph variable')
            ob = [q for q in L if q[0] == 'obj']; db = [q for q in L if q[0] == 'dbl']
            c.require(st, len(ob) == 1 and len(db) == 1 and len(fs) == 1 and len(gs) == 1, 'objective and offset set once')
            if len(ob) != 1 or len(db) != 1 or len(fs) != 1 or len(gs) != 1: continue
            c.require(st, c.forall(n, lambda j: veq(ob[0][1].read(j), gs[0].outs['grad'].read(j))), 'a linear objective is copied')
            c.require(st, c.forall(n, lambda j: veq(fs[0].ins['x'].read(j), z3.RealVal(0))), 'constant evaluated at the origin')
            c.require(st, z3.And(zi(db[0][1]) == 4, zr(db[0][2]) == -fs[0].outs['f']), 'constant of a linear objective kept as objective offset')

def addobj(c):
    """the objective row: gradient, -1 for the epigraph variable, valid at every point within the bounds"""
    this, p, n, m, nnz, (tiny, vt, rr, inf_) = setup(c); si = lp(c); x = c.array('x', n); X = c.arr(c.st, x); I_ = zr(INF)
    XL, XU = [c.vec(c.st, p, q)[1] for q in ('x_l_', 'x_u_')]; rows = c.int('lp_rows', 0)
    c.st.ghost['si_cols'] = n; c.st.ghost['si_rows'] = rows
    for o in rets(c, c.call(OSI + '::addObjectiveFunction', [P(this), si, x])):
        st = o.st; L = st.ghost.get('lp', ()); fs, gs = calls(st, 'eval_f'), calls(st, 'eval_grad_f'); co = [q for q in L if q[0] == 'col']; ro = [q for q in L if q[0] == 'row']
        c.require(st, len(L) == 2 and len(co) == 1 and len(ro) == 1 and len(fs) == 1 and len(gs) == 1, 'one variable and one row added')
        if len(co) != 1 or len(ro) != 1 or len(fs) != 1 or len(gs) != 1: continue
        for q in (fs[0], gs[0]): c.require(st, c.forall(n, lambda j: veq(q.ins['x'].read(j), X.read(j))), '%s evaluated at the given point' % q.meth)
        c.require(st, z3.And(zr(co[0][1]) == 0, zr(co[0][2]) == -I_, zr(co[0][3]) == I_, zr(co[0][4]) == 1), 'a free epigraph variable with objective coefficient 1')
        F, G = fs[0].outs['f'], gs[0].outs['grad']
        ty = z3.If(rows > 0, tiny, zr(Fraction(1e-03))); vy = z3.If(rows > 0, vt, zr(Fraction(1e-08)))
        def ent(t): return (G.read(t),) + clean(G.read(t), XL.read(t), XU.read(t), -I_, z3.RealVal(0), X.read(t), ty, vy, inf_)
        def su(t, q): a, nil, keep, dl, du = ent(t); return z3.If(keep, q + a * X.read(t), q + du)
        def sr(t, q): a, nil, keep, dl, du = ent(t); return z3.If(keep, q + a * coin.Y.read(t), q)
        def slo(t, q): a, nil, keep, dl, du = ent(t); return z3.If(keep, q + a * X.read(t), q + dl)
        UB = c.fold('ub', 'real', lambda: -F, su); RW = c.fold('row', 'real', lambda: z3.RealVal(0), sr); LB = c.fold('lb', 'real', lambda: zr(Fraction(-1e300)), slo)
        row, lo, up = ro[0][1:]
        c.require(st, veq(row, RW(n) - coin.Y.read(n)), 'coefficients are the gradient and -1 for the epigraph variable')
        c.require(st, veq(up, UB(n)), 'right-hand side of the linearised objective')
        c.require(st, veq(lo, LB(n)), 'the other side is -1e300 up to the linearisation')
        lin = c.fold('lin', 'real', lambda: F, lambda t, q: z3.If(ent(t)[1], q, q + G.read(t) * (coin.Y.read(t) - X.read(t))))
        st.facts = st.facts + [fa(c, n, lambda q: z3.And(XL.read(q) <= coin.Y.read(q), coin.Y.read(q) <= XU.read(q)))]
        c.lemma(st, n, lambda t: UB(t) - RW(t) >= -lin(t), 'valid at every point within the bounds')
        c.require(st, z3.Implies(coin.Y.read(n) >= lin(n), row <= up), 'satisfied whenever the epigraph variable is above the linearisation')

PARTS = {'shape': 'columns and coefficients', 'deleted': 'rows left out', 'linear': 'linear rows', 'sides': 'nonlinear rows'}
CASES = [('linear relaxation [%s]' % w, relax(0, k)) for k, w in PARTS.items()] + [('linear relaxation [objective]', linobj), ('epigraph variable and objective row', addobj)]
BUDGET = 320
