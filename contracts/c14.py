"""C14: the decomposition algorithms test, fix and exchange integer points faithfully and leave the solvers as they found them."""
from common import *
from symex import Outcome
import re
TUS = ['src/Algorithms/BonSolverHelp.cpp', 'src/Algorithms/OaGenerators/BonOaDecBase.cpp', 'src/Algorithms/OaGenerators/BonOaNlpOptim.cpp', 'src/Algorithms/OaGenerators/BonOaFeasChecker.cpp', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp', 'src/Algorithms/BonSubMipSolver.cpp']
HARNESS = 'h_dec.cpp'
EXTRA = '''#include "BonOaDecBase.hpp"
void zz_other(OsiSolverInterface *si);
struct ZzDec : public Bonmin::OaDecompositionBase {
  static void client(OsiSolverInterface *si, bool rows, bool basis, bool bounds, bool cutoff, bool resolve){ solverManip m(si, rows, basis, bounds, cutoff, resolve); zz_other(si); m.restore(); } };
void zz_client(OsiSolverInterface *si, bool rows, bool basis, bool bounds, bool cutoff, bool resolve){ ZzDec::client(si, rows, basis, bounds, cutoff, resolve); }
'''
ASSUMPTIONS = ['outer approximation: no user linearizer is installed, at least one cut is generated at each NLP solution, the cutoff decrement is not negative','MILP solves by Cbc (no Cplex): Cbc is represented by any proven bound, status and solution','the branching objects are the integer variables of the solver (no objects list)', 'the solvers behave as their interface documents: bounds read back as set, types and solutions do not change unless set or solved', 'sizes below 2^28']
OSI = 'Bonmin::OsiTMINLPInterface'; SI = 'OsiSolverInterface'; DEC = 'Bonmin::OaDecompositionBase'; MAN = DEC + '::solverManip'
CE = '_ZTI9CoinError'
def nop(e, st, a, ins, dem, ctx):
    k = ins.ty.kind
    if k == 'void': return None
    if k == 'ptr': return a[0] if a and isinstance(a[0], P) else NULL
    return e.fresh(st, 'int' if k == 'int' else 'real', 'ext')
def solver(c, n, name='si'):
    """a solver interface with types, bounds and a solution; bounds are memory, so reads and writes are those of the code"""
    ex = c.ex; si = Obj(name, lazy=True); c.st.mem[si] = OS(); si.cls = SI; c.objs.append(si)
    isint = c.array(name + '.integer', n, 'int'); lb, ub, sol = [c.array('%s.%s' % (name, q), n) for q in ('lower', 'upper', 'solution')]
    T = c.arr(c.st, isint, 'int')
    S = dict(si=P(si), T=T, lb=lb, ub=ub, sol=sol, n=n)
    ex.__dict__.setdefault('sis', {})[si] = S
    def of(e, a): return e.sis[a[0].obj]
    for k in (SI, OSI):
        V = ex.vmodels
        V[k + '::getNumCols'] = lambda e, st, a, ins, m, ctx: of(e, a)['n']
        V[k + '::isInteger'] = lambda e, st, a, ins, m, ctx: zi(of(e, a)['T'].read(a[1])) != 0
        V[k + '::getColLower'] = lambda e, st, a, ins, m, ctx: of(e, a)['lb']
        V[k + '::getColUpper'] = lambda e, st, a, ins, m, ctx: of(e, a)['ub']
        V[k + '::getColSolution'] = lambda e, st, a, ins, m, ctx: of(e, a)['sol']
        def setter(w):
            def h(e, st, a, ins, m, ctx):
                if len(a) == 3: e.store(st, P(of(e, a)[w].obj, imul(a[1], 8)), a[2], scal_ty(8, 'real'))
                else: raise Unsupported('array setter')
            return h
        V[k + '::setColLower'] = setter('lb'); V[k + '::setColUpper'] = setter('ub')
        def setb(e, st, a, ins, m, ctx): V[SI + '::setColLower'](e, st, a[:3], ins, m, ctx); V[SI + '::setColUpper'](e, st, [a[0], a[1], a[3]], ins, m, ctx)
        V[k + '::setColBounds'] = setb
    return S
def binfo(c, n, sol):
    b = c.object('OsiBranchingInformation', 'info', vectors=False); c.set(b, 'numberColumns_', n, 4); c.set(b, 'solution_', sol); return b
def near(ex, v): return zr(ex.floor(v + zr(Fraction(1, 2))))
def dist(ex, v): d = v - near(ex, v); return z3.If(d >= 0, d, -d)
def env(c):
    n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); S = solver(c, n); N = c.int('info_columns', 0); X = c.array('x', n); b = binfo(c, N, X); tol = c.real('tol'); c.assume(tol >= 0)
    return n, S, X, b, tol
def intfeas(c):
    n, S, X, b, tol = env(c); A = c.arr(c.st, X); ex = c.ex
    off = lambda j: z3.And(zi(S['T'].read(j)) != 0, dist(ex, zr(A.read(j))) > zr(tol))
    for o in rets(c, c.call('Bonmin::integerFeasible', [S['si'], P(b), tol, NULL, 0])):
        r = zb(tobool(o.val))
        c.require(o.st, implies(r, c.forall(n, lambda j: z3.Not(off(j)))), 'accepted: every integer variable is integral within tolerance')
        c.exists(o.st, n, off, 'rejected: some integer variable is not integral', given=z3.Not(r))
        c.unchanged(o.st)
def differ(c):
    n, S, X, b, tol = env(c); Y = c.array('y', n); A, B_ = c.arr(c.st, X), c.arr(c.st, Y)
    df = lambda j: z3.And(zi(S['T'].read(j)) != 0, z3.Or(zr(A.read(j)) - zr(B_.read(j)) > zr(tol), zr(B_.read(j)) - zr(A.read(j)) > zr(tol)))
    for o in rets(c, c.call('Bonmin::isDifferentOnIntegers', [S['si'], NULL, 0, tol, X, Y])):
        r = zb(tobool(o.val))
        c.exists(o.st, n, df, 'different: some integer variable differs', given=r); c.require(o.st, implies(z3.Not(r), c.forall(n, lambda j: z3.Not(df(j)))), 'same: no integer variable differs'); c.unchanged(o.st)
def fix(c):
    n, S, X, b, tol = env(c); A = c.arr(c.st, X); ex = c.ex; L0, U0 = c.arr(c.st, S['lb']), c.arr(c.st, S['ub'])
    off = lambda j: z3.And(zi(S['T'].read(j)) != 0, z3.Or(dist(ex, zr(A.read(j))) > zr(tol), near(ex, zr(A.read(j))) > 10**10, near(ex, zr(A.read(j))) < -10**10))
    for o in c.call('Bonmin::fixIntegers', [S['si'], P(b), tol, NULL, 0]):
        if o.kind == 'throw': c.exists(o.st, n, off, 'refused only for a value that is not integral or too large'); continue
        L, U = c.arr(o.st, S['lb']), c.arr(o.st, S['ub'])
        c.require(o.st, c.forall(n, lambda j: z3.Not(off(j))), 'every integer variable is integral within tolerance')
        for W, W0, w in ((L, L0, 'lower'), (U, U0, 'upper')): c.require(o.st, c.forall(n, lambda j: zr(W.read(j)) == z3.If(zi(S['T'].read(j)) != 0, near(ex, zr(A.read(j))), zr(W0.read(j)))), 'integer variables are fixed at the rounded point, others keep their %s bound' % w)
def relax(fn):
    def f(c):
        n, S, X, b, tol = env(c); L0, U0 = c.arr(c.st, S['lb']), c.arr(c.st, S['ub'])
        for o in rets(c, c.call('Bonmin::' + fn, [S['si'], P(b), tol, NULL, 0])):
            L, U = c.arr(o.st, S['lb']), c.arr(o.st, S['ub'])
            for W, W0, s in ((L, L0, -1), (U, U0, 1)): c.require(o.st, c.forall(n, lambda j: zr(W.read(j)) == z3.If(zi(S['T'].read(j)) != 0, zr(W0.read(j)) + s * zr(tol), zr(W0.read(j)))), 'integer variables are relaxed by the tolerance, others kept')
    return f

BAB = 'Bonmin::BabInfo'
def setsol(c):
    c.st.ghost['sol'] = ()
    def h(e, st, a, ins, dem, ctx):
        sh = e.load_array(st, a[1]) if False else None
        st.ghost['sol'] = st.ghost['sol'] + ((a[1], a[2], a[3], st.copy()),)
    c.ex.add_model(r'OsiBabSolver::setSolution\(', h)
def solved(c, S):
    ex = c.ex; q = dict(opt=c.bool('solved'), ab=c.bool('unsolved'), it=c.bool('iteration_limit'), inf=c.bool('infeasible'), obj=c.real('objective')); c.assume(z3.Not(z3.And(q['opt'], q['ab'])))
    for k in (SI, OSI):
        for f, b in (('isProvenOptimal', 'opt'), ('isAbandoned', 'ab'), ('isIterationLimitReached', 'it'), ('isProvenPrimalInfeasible', 'inf'), ('getObjValue', 'obj')): ex.vmodels[k + '::' + f] = lambda e, st, a, ins, m, ctx, b=b: q[b]
        ex.vmodels[k + '::getIterationCount'] = lambda e, st, a, ins, m, ctx: e.fresh(st, 'int', 'iters')
    ex.add_model(r'CoinMessageHandler::|operator<<\(CoinMessageHandler', nop)
    ex.add_model(r'CoinCpuTime\(', lambda e, st, a, ins, dem, ctx: e.fresh(st, 'real', 'clock'))
    return q
def passed(c, st, S, q, when, what):
    """exactly one solution is passed on when `when`, and it is the NLP point with its objective"""
    n = S['n']; sol = st.ghost['sol']; ex = c.ex; X = c.arr(c.pre, S['sol'])
    if not sol: c.require(st, z3.Not(when), what + ': passed on'); return
    c.require(st, z3.And(z3.BoolVal(len(sol) == 1), when), what + ': passed on once, only then')
    p, k, ob, s2 = sol[0]; A = c.arr(s2, p)
    c.require(s2, ieq(k, iadd(n, 1)), what + ': the problem variables and the objective'); c.require(s2, zr(ob) == q['obj'], what + ': objective of the NLP')
    c.require(s2, c.forall(n, lambda j: zr(A.read(j)) == zr(X.read(j))), what + ': point of the NLP'); c.require(s2, zr(A.read(n)) == q['obj'], what + ': last entry is the objective')
def dec(c, n, cls=DEC):
    d = c.object(cls, 'oa', vectors=False); nlp = solver(c, n, 'nlp'); nlp['si'].obj.cls = OSI; c.set(d, 'nlp_', nlp['si']); c.set(d, 'objects_', NULL); h = Obj('handler', lazy=True); c.st.mem[h] = OS(); c.set(d, 'handler_', P(h)); return d, nlp
def post(c):
    n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); d, nlp = dec(c, n); q = solved(c, nlp); setsol(c); b = c.object(BAB, 'info', vectors=False); cut = c.real('cutoff')
    for o in rets(c, c.call(DEC + '::post_nlp_solve', [P(d), P(b), cut])):
        better = z3.And(q['opt'], q['obj'] < cut)
        c.require(o.st, zb(tobool(o.val)) == better, 'an improvement is reported exactly when the NLP is solved with objective below the cutoff')
        passed(c, o.st, nlp, q, better, 'an improving solution')

def nlp_solve(c, nlp, q, check):
    """resolve: `check(e, st)` states what must hold when the NLP is solved; its solution is a new point"""
    ex = c.ex; old, new = nlp['sol'], c.array('nlp.new_solution', nlp['n']); nlp['new'] = new; c.st.ghost['solves'] = 0
    def h(e, st, a, ins, m, ctx):
        check(e, st); st.ghost['solves'] = st.ghost['solves'] + 1
    for k in (SI, OSI):
        ex.vmodels[k + '::resolve'] = h
        ex.vmodels[k + '::getColSolution'] = lambda e, st, a, ins, m, ctx: (new if st.ghost['solves'] else old) if a[0].obj is nlp['si'].obj else e.sis[a[0].obj]['sol']
OPT = 'Bonmin::OaNlpOptim'
def nlpoptim(c):
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); d = c.object(OPT, 'gen', vectors=False); nlp = solver(c, n, 'nlp'); nlp['si'].obj.cls = OSI; c.set(d, 'nlp_', nlp['si']); h = Obj('handler', lazy=True); c.st.mem[h] = OS(); c.set(d, 'handler_', P(h))
    lp = solver(c, n + 1, 'lp'); q = solved(c, nlp); setsol(c); b = c.object(BAB, 'info', vectors=False); b.cls = BAB; bab = c.object('Bonmin::Bab', 'bab', vectors=False); c.set(b, 'babPtr_', P(bab))
    ex.add_model(r'OsiSolverInterface::getAuxiliaryInfo\(', lambda e, st, a, ins, dem, ctx: P(b)); ex.add_model(r'CoinDrand48\(|pow$', lambda e, st, a, ins, dem, ctx: e.fresh(st, 'real', 'rnd'))
    node = Obj('node', lazy=True); c.st.mem[node] = OS(); ex.add_model(r'CbcModel::currentNode\(', lambda e, st, a, ins, dem, ctx: P(node)); ex.add_model(r'CbcNode::depth\(', lambda e, st, a, ins, dem, ctx: z3.Int('depth'))
    L0, U0, LL, LU = [c.arr(c.st, x) for x in (nlp['lb'], nlp['ub'], lp['lb'], lp['ub'])]; T = nlp['T']; c.st.ghost['oa'] = ()
    def check(e, st):
        for w, W0, WL in (('lb', L0, LL), ('ub', U0, LU)):
            W = c.arr(st, nlp[w]); e.oblige(st, c.forall(n, lambda j: zr(W.read(j)) == z3.If(zi(T.read(j)) != 0, zr(WL.read(j)), zr(W0.read(j)))), 'pre', 'the NLP is solved over the node: integer variables within their bounds at the node, others as they were')
    nlp_solve(c, nlp, q, check)
    def oa(e, st, a, ins, m, ctx): st.ghost['oa'] = st.ghost['oa'] + (tuple(a[1:]) + (st.ghost['solves'],),)
    ex.vmodels[OSI + '::getOuterApproximation'] = oa
    cs = Obj('cuts', lazy=True); c.st.mem[cs] = OS(); info = c.object('CglTreeInfo', 'tree', vectors=False)
    av, gl = zb(c.get(c.st, d, 'addOnlyViolated_', 'bool')), zb(c.get(c.st, d, 'global_', 'bool'))
    it, ps, lv, md = zb(c.get(c.st, info, 'inTree', 'bool')), zi(c.get(c.st, info, 'pass')), zi(c.get(c.st, info, 'level')), zi(c.get(c.st, d, 'maxDepth_'))
    X = c.arr(c.st, nlp['new']); off = lambda j: z3.And(zi(T.read(j)) != 0, dist(ex, zr(X.read(j))) > zr(Fraction(1e-7)))
    for o in c.call(OPT + '::generateCuts', [P(d), lp['si'], P(cs), P(info)]):
        st = o.st; k = st.ghost['solves']; skip = z3.Or(z3.Not(it), ps > 0, lv > md)
        if o.kind == 'throw': c.require(st, z3.And(z3.BoolVal(k == 1), z3.Not(q['opt']), z3.Or(q['ab'], q['it'])), 'an error is raised only when the NLP could not be solved'); continue
        if k == 0: c.require(st, z3.BoolVal(not st.ghost['oa'] and not st.ghost['sol']), 'nothing is generated without solving the NLP'); c.unchanged(st); continue
        c.require(st, z3.And(z3.BoolVal(k == 1), z3.Not(skip)), 'one NLP is solved, in the tree, within the depth limit'); c.require(st, z3.Or(q['opt'], z3.Not(z3.Or(q['ab'], q['it']))), 'an unsolved NLP raises an error')
        for w, W0 in (('lb', L0), ('ub', U0)):
            W = c.arr(st, nlp[w]); c.require(st, c.forall(n, lambda j: zr(W.read(j)) == zr(W0.read(j))), 'the bounds of the NLP are put back')
        g = st.ghost['oa']; c.require(st, len(g) == 1, 'cuts are generated once')
        if len(g) == 1:
            xs, ob, x2, gf = g[0][1], g[0][2], g[0][3], g[0][-2]
            c.require(st, z3.And(zb(ex.ptreq(xs, nlp['new'])), zb(ieq(ob, 1)), z3.BoolVal(g[0][-1] == 1)), 'cuts at the solution of the NLP, including the objective'); c.require(st, zb(tobool(gf)) == gl, 'scope of the cuts as set')
            c.require(st, z3.If(av, zb(ex.ptreq(x2, lp['sol'])), zb(ex.ptreq(x2, NULL))), 'only cuts violated at the current point when so set')
        if st.ghost['sol']:
            c.require(st, q['opt'], 'a solution is passed on only when the NLP is solved'); c.require(st, c.forall(n, lambda j: z3.Not(off(j))), 'a solution is passed on only when it is integral')
            p, kk, ob, s2 = st.ghost['sol'][0]; A = c.arr(s2, p)
            c.require(s2, z3.And(z3.BoolVal(len(st.ghost['sol']) == 1), zb(ieq(kk, iadd(n, 1))), zr(ob) == q['obj'], zr(A.read(n)) == q['obj']), 'with its objective'); c.require(s2, c.forall(n, lambda j: zr(A.read(j)) == zr(X.read(j))), 'the solution passed on is that of the NLP')
        else: c.exists(st, n, off, 'an integral solution of the NLP is passed on', given=q['opt'])

def cutset(c, name='cs'):
    o = Obj(name, lazy=True); c.st.mem[o] = OS(); ncut = c.int('ncuts', 0); c.assume(ncut < 2**28); c.st.ghost[('cs', o.id, 'n')] = ncut; f = z3.Function('cut', z3.IntSort(), z3.IntSort())
    c.ex.add_model(r'OsiCuts::sizeRowCuts\(', lambda e, st, a, ins, dem, ctx: st.ghost[('cs', a[0].obj.id, 'n')])
    def rc(e, st, a, ins, dem, ctx):
        e.oblige(st, z3.And(zi(a[1]) >= 0, zi(a[1]) < zi(st.ghost[('cs', a[0].obj.id, 'n')])), 'pre', 'only existing cuts are read'); return SymP(f(zi(a[1])))
    c.ex.add_model(r'OsiCuts::rowCut(Ptr)?\(', rc)
    return P(o), ncut, f
def install(c):
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); m = c.int('rows', 0); c.assume(m < 2**28); c.sizes.extend([n, m]); S = solver(c, n); cs, N, f = cutset(c); k = c.int('k', 0); c.assume(k <= N); c.sizes.append(N)
    basis = c.object('CoinWarmStartBasis', 'basis', vectors=False); basis.cls = 'CoinWarmStartBasis'; basis.heap = True; art0 = ABase('int', 'artificial'); g = c.st.ghost; g['art'] = art0; g['dim'] = None; g['applied'] = (); g['ws'] = (); ok = c.bool('warm_start_accepted'); V = ex.vmodels
    V[SI + '::getNumRows'] = lambda e, st, a, ins, mm, ctx: m; V[SI + '::getWarmStart'] = lambda e, st, a, ins, mm, ctx: P(basis)
    def rs(e, st, a, ins, mm, ctx): st.ghost['dim'] = (a[1], a[2])
    V['CoinWarmStartBasis::resize'] = rs; ex.add_model(r'CoinWarmStartBasis::resize\(', lambda e, st, a, ins, dem, ctx: rs(e, st, a, ins, None, ctx))
    def sa(e, st, a, ins, dem, ctx):
        e.oblige(st, z3.And(zi(a[1]) >= 0, zi(a[1]) < m + k), 'pre', 'row statuses within the basis'); st.ghost['art'] = AStore(st.ghost['art'], a[1], a[2])
    ex.add_model(r'CoinWarmStartBasis::setArtifStatus\(', sa)
    def ap(e, st, a, ins, mm, ctx): st.ghost['applied'] = st.ghost['applied'] + ((a[1], a[2], st.copy()),)
    V[SI + '::applyRowCuts'] = ap
    def sw(e, st, a, ins, mm, ctx): st.ghost['ws'] = st.ghost['ws'] + ((len(st.ghost['applied']), st.ghost['dim'], st.ghost['art'], a[1]),); return ok
    V[SI + '::setWarmStart'] = sw; V['CoinWarmStartBasis::~CoinWarmStartBasis[deleting]'] = lambda e, st, a, ins, mm, ctx: None; ex.add_model(r'CoinWarmStartBasis::~CoinWarmStartBasis', nop)
    for o in c.call('Bonmin::installCuts', [S['si'], cs, k]):
        st = o.st; ap, ws = st.ghost['applied'], st.ghost['ws']
        c.require(st, (o.kind == 'throw') == z3.Not(ok) if isz(ok) else True, 'an error is raised exactly when the solver refuses the basis')
        c.require(st, len(ap) == 1 and len(ws) == 1, 'the cuts are added once and a basis given once')
        if len(ap) != 1 or len(ws) != 1: continue
        q, p, s2 = ap[0]; A = c.arr(s2, p, 'ptr'); c.require(s2, ieq(q, k), 'as many cuts as asked are added'); c.require(s2, c.forall(k, lambda i: ieq(ex.addr(asp(A.read(i))), f(N - k + i))), 'the cuts added are the last ones of the collection, in order')
        w, dim, art, bp = ws[0]; c.require(st, z3.And(z3.BoolVal(w == 1 and dim is not None), z3.BoolVal(isinstance(bp, P) and bp.obj is basis)), 'the extended basis is given after the cuts are added')
        if dim: c.require(st, z3.And(zb(ieq(dim[0], m + k)), zb(ieq(dim[1], n))), 'the basis has the old and the new rows'); c.require(st, c.forall(m + k, lambda i: zi(art.read(i)) == z3.If(i >= m, 1, zi(art0.read(i)))), 'new rows are basic, old ones keep their status')
def asp(v): return v if isptr(v) else SymP(v)
def manip(c):
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); m = c.int('rows', 0); c.assume(m < 2**28); c.sizes.extend([n, m]); S = solver(c, n); g = c.st.ghost; V = ex.vmodels; warm = Obj('warm', lazy=True); c.st.mem[warm] = OS(); warm.cls = 'CoinWarmStart'; warm.heap = True
    m2 = c.int('rows_after', 0); c.assume(m2 < 2**28, m2 >= m); c.sizes.append(m2); cut0, cut2 = c.real('cutoff'), c.real('cutoff_after'); c.assume(cut0 < zr(Fraction(1.7976931348623157e308)))
    nl, nu = c.array('lower_after', n), c.array('upper_after', n); g['m'] = m; g['cut'] = cut0; g['ws'] = (); g['del'] = (); g['solves'] = (); ok = c.bool('warm_start_accepted'); g['basis'] = 0
    fl = {q: c.bool(q) for q in ('rows_', 'basis_', 'bounds_', 'cutoff_', 'resolve_')}; L0, U0 = c.arr(c.st, S['lb']), c.arr(c.st, S['ub']); L2, U2 = c.arr(c.st, nl), c.arr(c.st, nu)
    V[SI + '::getNumRows'] = lambda e, st, a, ins, mm, ctx: st.ghost['m']; V[SI + '::getWarmStart'] = lambda e, st, a, ins, mm, ctx: P(warm)
    def gd(e, st, a, ins, mm, ctx): e.oblige(st, ieq(a[1], 0), 'pre', 'the dual objective limit is meant'); e.store(st, a[2], st.ghost['cut'], scal_ty(8, 'real')); return True
    def sd(e, st, a, ins, mm, ctx): e.oblige(st, ieq(a[1], 0), 'pre', 'the dual objective limit is meant'); st.ghost['cut'] = a[2]; return True
    V[SI + '::getDblParam'] = gd; V[SI + '::setDblParam'] = sd
    def dl(e, st, a, ins, mm, ctx): st.ghost['del'] = st.ghost['del'] + ((a[1], e_arr(c, st, a[2]), st.copy()),); st.ghost['m'] = isub(st.ghost['m'], a[1])
    V[SI + '::deleteRows'] = dl
    def sw(e, st, a, ins, mm, ctx): st.ghost['ws'] = st.ghost['ws'] + (a[1],); return ok
    V[SI + '::setWarmStart'] = sw
    def all_(w):
        def h(e, st, a, ins, mm, ctx):
            if len(a) != 2: raise Unsupported('single bound')
            A = c.arr(st, a[1]); o_ = S[w].obj; st.mem[o_] = st.mem[o_].w(arr=A)
        return h
    V[SI + '::setColLower'] = all_('lb'); V[SI + '::setColUpper'] = all_('ub')
    def rs(e, st, a, ins, mm, ctx): st.ghost['solves'] = st.ghost['solves'] + (1,)
    V[SI + '::resolve'] = rs; ex.add_model(r'CoinMessageHandler::|OsiSolverInterface::messageHandler', nop); V['CoinWarmStart::~CoinWarmStart[deleting]'] = lambda e, st, a, ins, mm, ctx: None
    def other(e, st, a, ins, dem, ctx):
        st.ghost['m'] = m2; st.ghost['cut'] = cut2
        for w, A in (('lb', L2), ('ub', U2)): st.mem[S[w].obj] = st.mem[S[w].obj].w(arr=A)
        st.ghost['mid'] = len(st.ghost['solves'])
    ex.add_model(r'zz_other\(', other)
    for o in c.call('zz_client', [S['si']] + [fl[q] for q in ('rows_', 'basis_', 'bounds_', 'cutoff_', 'resolve_')]):
        st = o.st; g = st.ghost
        c.require(st, z3.If(fl['resolve_'], z3.BoolVal(g.get('mid') == 1), z3.BoolVal(g.get('mid') == 0)), 'solved before use exactly when asked')
        if o.kind == 'throw': c.require(st, z3.And(fl['basis_'], z3.Not(ok)), 'an error is raised only when the saved basis is refused')
        else: c.require(st, z3.Not(z3.And(fl['basis_'], z3.Not(ok))), 'a refused basis raises an error')
        c.require(st, ieq(g['m'], z3.If(fl['rows_'], m, m2)), 'the number of rows is put back'); c.require(st, zr(g['cut']) == z3.If(fl['cutoff_'], cut0, cut2), 'the cutoff is put back')
        for q, p, s2 in g['del']: c.require(s2, c.forall(q, lambda i: zi(p.read(i)) == m + i), 'exactly the added rows are deleted')
        c.require(st, z3.If(fl['basis_'], z3.BoolVal(len(g['ws']) == 1 and all(isinstance(w, P) and w.obj is warm for w in g['ws'])), z3.BoolVal(len(g['ws']) == 0)), 'the saved basis is put back')
        for w, A0, A2 in (('lb', L0, L2), ('ub', U0, U2)):
            A = c.arr(st, S[w]); c.require(st, c.forall(n, lambda j: zr(A.read(j)) == z3.If(fl['bounds_'], zr(A0.read(j)), zr(A2.read(j)))), 'the column bounds are put back')
def e_arr(c, st, p): return c.arr(st, p, 'int')

FC = 'Bonmin::OaFeasibilityChecker'
def versions(c, nlp, lp, tol, decr):
    """contracts of the parts of the loop.  Solutions are identified by how many times their solver has been run, so
    that every use of one states which one it must be."""
    ex = c.ex; g = c.st.ghost; V = ex.vmodels
    I = z3.IntSort(); fn = {k: z3.Function(k, I, s) for k, s in (('lp_objective', z3.RealSort()), ('nlp_objective', z3.RealSort()), ('lp_optimal', z3.BoolSort()), ('lp_limit', z3.BoolSort()), ('differs', z3.BoolSort()), ('integral', z3.BoolSort()))}
    g['lpv'] = z3.IntVal(0); g['did'] = (); g['pending'] = 0; g['imp'] = False
    def need(e, st, *w, what): e.oblige(st, z3.BoolVal(all(x in st.ghost['did'] for x in w)), 'pre', what)
    def did(st, w): st.ghost['did'] = tuple(sorted(set(st.ghost['did']) | {w}))
    isl = lambda a: a[0].obj is lp['si'].obj
    both = lambda f, h: [V.__setitem__(k + '::' + f, h) for k in (SI, OSI)]
    both('getColSolution', lambda e, st, a, ins, m, ctx: lp['sol'] if isl(a) else nlp['sol'])
    both('getObjValue', lambda e, st, a, ins, m, ctx: fn['lp_objective'](zi(st.ghost['lpv'])) if isl(a) else fn['nlp_objective'](zi(st.ghost['lpv'])))
    both('isProvenOptimal', lambda e, st, a, ins, m, ctx: fn['lp_optimal'](zi(st.ghost['lpv'])) if isl(a) else e.fresh(st, 'bool', 'o'))
    both('isDualObjectiveLimitReached', lambda e, st, a, ins, m, ctx: fn['lp_limit'](zi(st.ghost['lpv'])))
    def rs(e, st, a, ins, m, ctx):
        G = st.ghost
        if isl(a):
            need(e, st, 'nlp', 'cuts', what='the LP is solved again only after cuts at the solution of the NLP'); need(e, st, 'post', what='the NLP solution has been offered as incumbent'); e.oblige(st, ieq(G['pending'], 0), 'pre', 'the LP is solved again only with all the cuts generated')
            G['lpv'] = iadd(G['lpv'], 1); G['pending'] = 0; G['did'] = (); G['imp'] = False
        else: need(e, st, 'fix', what='the NLP is solved with the integer variables fixed at the current integer point'); did(st, 'nlp')
    both('resolve', rs)
    def fx(e, st, a, ins, dem, ctx):
        T(e, 'fixIntegers (its contract is proved here)'); s = e.load(st, P(a[1].obj, iadd(a[1].off, c.offset('OsiBranchingInformation', 'solution_'))), scal_ty(8, 'ptr'))
        e.oblige(st, band(a[0].obj is nlp['si'].obj, e.ptreq(s, lp['sol'])), 'pre', 'the NLP is fixed at the current integer point'); e.oblige(st, zr(a[2]) == tol, 'pre', 'with the integer tolerance'); did(st, 'fix')
    ex.add_model(r'Bonmin::fixIntegers\(', fx)
    def pn(e, st, a, ins, dem, ctx):
        T(e, 'post_nlp_solve (its contract is proved here)'); e.oblige(st, zr(a[2]) == zr(c.deref(st, c.cutp)), 'pre', 'improvement is relative to the current cutoff'); need(e, st, 'nlp', what='incumbents are tested after the NLP is solved'); did(st, 'post'); r = e.fresh(st, 'bool', 'improved'); st.assume(implies(r, fn['nlp_objective'](zi(st.ghost['lpv'])) < zr(a[2]))); st.ghost['imp'] = r; return r
    ex.add_model(r'Bonmin::OaDecompositionBase::post_nlp_solve\(', pn)
    def sd(e, st, a, ins, m, ctx):
        v = fn['nlp_objective'](zi(st.ghost['lpv'])); e.oblige(st, band(isl(a), ieq(a[1], 0), zr(a[2]) == zr(c.deref(st, c.cutp))), 'pre', 'the LP gets the new cutoff'); e.oblige(st, zr(a[2]) == v - decr * z3.If(v > 0, v, -v), 'pre', 'the cutoff is the objective of the new incumbent less the relative decrement'); e.oblige(st, st.ghost['imp'], 'pre', 'the cutoff changes only with a new incumbent'); return True
    both('setDblParam', sd)
    def gen(kind):
        def h(e, st, a, ins, m, ctx):
            G = st.ghost; need(e, st, 'nlp', what='cuts are generated after the NLP is solved'); d = e.fresh(st, 'int', 'newcuts'); st.assume(zi(d) >= 0, zi(d) < 2**20)
            key = ('cs', a[1].obj.id, 'n')
            if a[1].obj is c.cs.obj: G[key] = iadd(G[key], d); G['pending'] = iadd(G['pending'], d); did(st, 'cuts'); c.gen(e, st, kind, a)
        return h
    both('getOuterApproximation', gen('oa')); both('getBendersCut', gen('benders')); ex.add_model(r'Bonmin::OsiTMINLPInterface::getBendersCut\(', lambda e, st, a, ins, dem, ctx: gen('benders')(e, st, a, ins, None, ctx))
    def ic(e, st, a, ins, dem, ctx):
        T(e, 'installCuts (its contract is proved here)'); e.oblige(st, band(a[0].obj is lp['si'].obj, a[1].obj is c.cs.obj, ile(st.ghost['pending'], a[2]), ile(a[2], st.ghost[('cs', a[1].obj.id, 'n')])), 'pre', 'all the new cuts are installed in the LP'); st.ghost['pending'] = 0
    ex.add_model(r'Bonmin::installCuts\(', ic)
    def df(e, st, a, ins, dem, ctx):
        e.oblige(st, band(e.ptreq(a[4], nlp['sol']), e.ptreq(a[5], lp['sol'])), 'pre', 'the NLP and LP solutions are compared'); e.oblige(st, z3.And(zr(a[3]) > 0, z3.Or(zr(a[3]) < zr(Fraction(1, 2)), zr(a[3]) == tol)), 'pre', 'tolerance below one half'); return fn['differs'](zi(st.ghost['lpv']))
    ex.add_model(r'Bonmin::isDifferentOnIntegers\(', df)
    def inf(e, st, a, ins, dem, ctx):
        s = e.load(st, P(a[1].obj, iadd(a[1].off, c.offset('OsiBranchingInformation', 'solution_'))), scal_ty(8, 'ptr')); e.oblige(st, band(e.ptreq(s, lp['sol']), zr(a[2]) == tol), 'pre', 'integrality of the LP solution is tested with the integer tolerance'); return fn['integral'](zi(st.ghost['lpv']))
    ex.add_model(r'Bonmin::integerFeasible\(', inf); ex.add_model(r'OsiBranchingInformation::~?OsiBranchingInformation\(', nop)
    return fn
def feascheck(c, kind, policy):
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); d, nlp = dec(c, n, FC); lp = solver(c, n + 1, 'lp'); solved(c, nlp); cs, N, f = cutset(c); c.cs = cs; g = c.st.ghost
    pr = c.offset(FC, 'parameters_') if 'parameters_' in c.proj.layouts[FC] else c.offset(DEC, 'parameters_'); PA = DEC + '::Parameters'; po = lambda q: pr + c.offset(PA, q)
    tol, decr, av, gl = zr(c.get(c.st, d, po('cbcIntegerTolerance_'), 'real')), zr(c.get(c.st, d, po('cbcCutoffIncrement_'), 'real')), zb(c.get(c.st, d, po('addOnlyViolated_'), 'bool')), zb(c.get(c.st, d, po('global_'), 'bool')); c.assume(tol > 0)
    pol, ty, mx = [zi(c.get(c.st, d, q)) for q in ('pol_', 'type_', 'maximum_oa_cuts_')]; c.assume(mx >= 0, ty == kind, pol == policy)
    man = c.object(MAN, 'manip', vectors=False); c.set(man, 'si_', lp['si']); c.cutp = c.scalar('cutoff'); cut0 = c.real('cutoff0'); c.ex.store(c.st, c.cutp, cut0, scal_ty(8, 'real')); b = c.object(BAB, 'info', vectors=False); info = c.object('CglTreeInfo', 'tree', vectors=False); g['eff'] = ABase('int', 'effective')
    def gen(e, st, kind, a):
        if kind == 'oa':
            e.oblige(st, band(e.ptreq(a[2], nlp['sol']), ieq(a[3], 1), z3.If(av, zb(e.ptreq(a[4], lp['sol'])), zb(e.ptreq(a[4], NULL))), ty == 0), 'pre', 'outer approximation at the NLP solution, with the objective; only violated cuts when so set'); 
        else: e.oblige(st, zb(tobool(a[2])) == gl, 'pre', 'scope of the cuts as set')
    c.gen = gen; fn = versions(c, nlp, lp, tol, decr)
    ex.add_model(r'OsiCut::setEffectiveness\(', nop)
    for o in rets(c, c.call(FC + '::performOa', [P(d), cs, P(man), P(b), c.cutp, P(info)])):
        st = o.st; v = zi(st.ghost['lpv']); cut = zr(c.deref(st, c.cutp)); r = zr(o.val)
        good = z3.And(fn['lp_optimal'](v), z3.Not(fn['lp_limit'](v)), fn['lp_objective'](v) < cut)
        c.require(st, v >= 1, 'the integer point is checked by at least one NLP')
        c.require(st, z3.Or(r == zr(Fraction(1e200)), r == zr(Fraction(-1.7976931348623157e308))), 'the bound is infinite one way or the other')
        c.require(st, (r > 0) == z3.And(good, z3.Not(fn['differs'](v))), 'the node is closed exactly when the LP optimum has the integer values of the NLP just solved')
        c.require(st, z3.Or(z3.Not(good), z3.Not(fn['differs'](v)), z3.Not(fn['integral'](v))), 'the loop ends only when there is no new integer point to check')

def gencuts(c, haslp):
    ex = c.ex; g = c.st.ghost; V = ex.vmodels; n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); d, nlp = dec(c, n); d.cls = DEC; lp = solver(c, n + 1, 'lp'); solved(c, nlp); c.set(d, 'lp_', lp['si'] if haslp else NULL)
    b = c.object(BAB, 'info', vectors=False); b.cls = BAB; bab = c.object('Bonmin::Bab', 'bab', vectors=False); c.set(b, 'babPtr_', P(bab)); best = Obj('best', lazy=True); c.st.mem[best] = OS(); best.nullc = z3.Bool('no_solution'); c.set(b, 'bestSolution_', P(best)); has = z3.Not(best.nullc)
    ex.add_model(r'OsiSolverInterface::getAuxiliaryInfo\(', lambda e, st, a, ins, dem, ctx: P(b)); ex.add_model(r'OsiBranchingInformation::~?OsiBranchingInformation\(', nop)
    node = Obj('node', lazy=True); c.st.mem[node] = OS(); node.nullc = z3.Bool('no_node'); ex.add_model(r'CbcModel::currentNode\(', lambda e, st, a, ins, dem, ctx: P(node)); dep = c.int('depth', 0); ex.add_model(r'CbcNode::depth\(', lambda e, st, a, ins, dem, ctx: dep)
    feas, ls, isint, bound, cut = c.bool('mip_feasible'), c.bool('local_search'), c.bool('integral'), c.real('bound'), c.real('cutoff'); tol = zr(c.get(c.st, d, c.offset(DEC, 'parameters_') + c.offset(DEC + '::Parameters', 'cbcIntegerTolerance_'), 'real'))
    ex.add_model(r'OsiBabSolver::mipFeasible\(', lambda e, st, a, ins, dem, ctx: feas); V[DEC + '::doLocalSearch'] = lambda e, st, a, ins, m, ctx: ls
    def inf(e, st, a, ins, dem, ctx):
        T(e, 'integerFeasible (its contract is proved here)'); s = e.load(st, P(a[1].obj, iadd(a[1].off, c.offset('OsiBranchingInformation', 'solution_'))), scal_ty(8, 'ptr')); e.oblige(st, band(e.ptreq(s, lp['sol']), zr(a[2]) == tol), 'pre', 'integrality of the current point is tested with the integer tolerance'); return isint
    ex.add_model(r'Bonmin::integerFeasible\(', inf)
    ex.add_model(r'CglTreeInfo::~?CglTreeInfo\(', nop)
    # saved cuts
    sv = c.offset(DEC, 'savedCuts_'); K = c.int('saved', 0); c.assume(K < 2**28); c.sizes.append(K); viol = z3.Function('violation', z3.IntSort(), z3.RealSort()); g['ins'] = (); g['era'] = (); g['dump'] = 0; g['oa'] = (); g['man'] = (); g['rest'] = 0
    def mine(a): return a[0].obj is d and a[0].off == sv
    ex.add_model(r'OsiCuts::sizeRowCuts\(', lambda e, st, a, ins, dem, ctx: K)
    def rc(e, st, a, ins, dem, ctx):
        e.oblige(st, z3.And(z3.BoolVal(mine(a)), zi(a[1]) >= 0, zi(a[1]) < K), 'pre', 'only existing saved cuts are read'); o = Obj('cut', lazy=True); o.cls = 'OsiRowCut'; o.tag = ('cut', a[1]); st.mem[o] = OS(); return P(o)
    ex.add_model(r'OsiCuts::rowCut(Ptr)?\(', rc)
    def vi(e, st, a, ins, m, ctx): e.oblige(st, e.ptreq(a[1], lp['sol']), 'pre', 'violation at the current point'); return viol(zi(a[0].obj.tag[1]))
    V['OsiRowCut::violated'] = vi; ex.add_model(r'OsiRowCut::violated', lambda e, st, a, ins, dem, ctx: vi(e, st, a, ins, None, ctx)); ex.add_model(r'OsiCut::setEffectiveness\(', nop)
    def ins_(e, st, a, ins, dem, ctx): st.ghost['ins'] = st.ghost['ins'] + (a[1].obj.tag[1],)
    def era(e, st, a, ins, dem, ctx): st.ghost['era'] = st.ghost['era'] + (a[1],)
    ex.add_model(r'OsiCuts::insert\(', ins_); ex.add_model(r'OsiCuts::eraseRowCut\(', era)
    def dump(e, st, a, ins, dem, ctx): st.ghost['dump'] += 1
    ex.add_model(r'OsiCuts::dumpCuts\(', dump)
    # saved state of the LP
    def mk(e, st, a, ins, dem, ctx): st.ghost['man'] = st.ghost['man'] + (tuple(a[1:]),)
    ex.add_model(r'Bonmin::OaDecompositionBase::solverManip::solverManip\(', mk)
    def rest(e, st, a, ins, dem, ctx): T(e, 'solverManip (its contract is proved here)'); e.oblige(st, len(st.ghost['oa']) == 1, 'pre', 'restored after the algorithm'); st.ghost['rest'] += 1
    ex.add_model(r'Bonmin::OaDecompositionBase::solverManip::restore\(', rest); ex.add_model(r'Bonmin::OaDecompositionBase::solverManip::~solverManip\(', nop)
    def gd(e, st, a, ins, m, ctx): e.oblige(st, ieq(a[1], 0), 'pre', 'the dual objective limit is meant'); e.store(st, a[2], cut, scal_ty(8, 'real')); return True
    V[SI + '::getDblParam'] = gd
    L0, U0 = c.arr(c.st, nlp['lb']), c.arr(c.st, nlp['ub']); L2, U2 = ABase('real', 'nlp.lower_after'), ABase('real', 'nlp.upper_after')
    def oa(e, st, a, ins, m, ctx):
        st.ghost['oa'] = st.ghost['oa'] + ((a[4], c.deref(st, a[4]), c.get(st, a[5].obj, c.offset('CglTreeInfo', 'level') + a[5].off)),)
        for w, A in (('lb', L2), ('ub', U2)): st.mem[nlp[w].obj] = st.mem[nlp[w].obj].w(arr=A)
        return bound
    V[DEC + '::performOa'] = oa
    def all_(w):
        def h(e, st, a, ins, mm, ctx):
            if len(a) != 2 or a[0].obj is not nlp['si'].obj: raise Unsupported('single bound')
            A = c.arr(st, a[1]); st.mem[nlp[w].obj] = st.mem[nlp[w].obj].w(arr=A)
        return h
    for k in (SI, OSI): V[k + '::setColLower'] = all_('lb'); V[k + '::setColUpper'] = all_('ub')
    cs = Obj('cuts', lazy=True); c.st.mem[cs] = OS(); info = c.object('CglTreeInfo', 'tree', vectors=False); leave = zb(c.get(c.st, d, 'leaveSiUnchanged_', 'bool'))
    cn0 = zi(c.get(c.st, d, 'currentNodeNumber_')); mo = c.offset('Bonmin::Bab', 'model_'); nn = zi(c.get(c.st, bab, mo + c.offset('CbcModel', 'numberNodes_'))); mb0 = zr(c.get(c.st, b, 'mipBound_', 'real'))
    for o in rets(c, c.call(DEC + '::generateCuts', [P(d), lp['si'], P(cs), P(info)])):
        st = o.st; G = st.ghost; mb = zr(c.get(st, b, 'mipBound_', 'real')); cn = zi(c.get(st, d, 'currentNodeNumber_'))
        for w, A0 in (('lb', L0), ('ub', U0)):
            A = c.arr(st, nlp[w]); c.require(st, c.forall(n, lambda j: zr(A.read(j)) == zr(A0.read(j))), 'the bounds of the NLP are put back')
        same = nn == cn0
        if G['ins'] or G['era']:
            c.require(st, z3.And(z3.BoolVal(len(G['ins']) == 1 and len(G['era']) == 1 and not G['oa'] and not G['dump']), feas, same, zi(G['ins'][0]) >= 0, zi(G['ins'][0]) < K, zi(G['ins'][0]) == zi(G['era'][0]), viol(zi(G['ins'][0])) > 0), 'one saved cut is used again, at the same node only, when it cuts the point off; it is removed from the saved ones'); c.require(st, mb == mb0, 'no bound then'); continue
        c.require(st, z3.BoolVal(G['dump'] == 1) == z3.And(feas, z3.Not(same)), 'saved cuts are forgotten exactly at a new node'); c.require(st, implies(feas, cn == nn), 'the node is remembered')
        c.require(st, implies(z3.And(feas, same), c.forall(K, lambda i: viol(i) <= 0)), 'a violated saved cut is used again')
        run = z3.And(feas, z3.Or(isint, ls)); c.require(st, z3.BoolVal(len(G['oa']) == 1) == run, 'the algorithm runs exactly on integer points or when a local search is due'); c.require(st, len(G['oa']) <= 1, 'at most once')
        c.require(st, mb == z3.If(z3.And(run, bound > zr(Fraction(-1e100))), bound, mb0), 'the bound found is the one transmitted')
        if len(G['oa']) == 1:
            c.require(st, zr(G['oa'][0][1]) == cut, 'the algorithm starts from the cutoff of the LP'); c.require(st, zi(G['oa'][0][2]) == z3.If(node.nullc, 0, dep), 'and from the depth of the node')
            c.require(st, z3.BoolVal(G['rest'] == 1) == leave, 'the LP is put back exactly when it is to be left unchanged'); c.require(st, len(G['man']) == 1, 'the LP is saved once')
            if haslp and len(G['man']) == 1:
                a = G['man'][0]; c.require(st, band(e_ptr(ex, a[0], lp['si']), *[zb(tobool(x)) == y for x, y in zip(a[1:5], (z3.BoolVal(True), leave, z3.BoolVal(True), z3.BoolVal(True)))]), 'rows, bounds and cutoff of the LP are saved, and its basis when it is to be left unchanged')
def e_ptr(ex, a, b): return ex.ptreq(a, b)
OA2 = 'Bonmin::OACutGenerator2'; SUB = 'Bonmin::SubMipSolver'
def outerapprox(c, kind):
    """OA decomposition.  Versions count the solves of the LP and of the MILP; 'bound' is the largest lower bound proven by a MILP,
    'ub' the best objective offered as incumbent, 'rep' says that an optimum repeated the integer values of the NLP just solved."""
    ex = c.ex; ex.merge = True; ex.maxiter = c.small; n = c.int("n", 1); c.assume(n < 2**28); c.sizes.append(n); d, nlp = dec(c, n, OA2); lp = solver(c, n + 1, 'lp'); solved(c, nlp); cs, N, f = cutset(c); c.cs = cs; g = c.st.ghost; V = ex.vmodels; lp['si'].obj.cls = SI
    pr = c.offset(DEC, 'parameters_'); PA = DEC + '::Parameters'; po = lambda q: pr + c.offset(PA, q)
    tol, decr, av, gl, gap = zr(c.get(c.st, d, po('cbcIntegerTolerance_'), 'real')), zr(c.get(c.st, d, po('cbcCutoffIncrement_'), 'real')), zb(c.get(c.st, d, po('addOnlyViolated_'), 'bool')), zb(c.get(c.st, d, po('global_'), 'bool')), zr(c.get(c.st, d, po('gap_tol_'), 'real')); c.assume(tol > 0, decr >= 0)
    ms, ml = zi(c.get(c.st, d, po('maxSols_'))), zi(c.get(c.st, d, po('maxLocalSearch_')))
    sub = c.object(SUB, 'submip', vectors=False); c.set(d, 'subMip_', P(sub)); so = lambda q: c.offset(SUB, q); msol = Obj('milp.solution', lazy=True); c.st.mem[msol] = OS(); MA = ex.addr(P(msol)); c.assume(zi(MA) != 0, zi(MA) != zi(ex.addr(lp['sol'])))
    man = c.object(MAN, 'manip', vectors=False); c.set(man, 'si_', lp['si']); c.cutp = c.scalar('cutoff'); cut0 = c.real('cutoff0'); c.ex.store(c.st, c.cutp, cut0, scal_ty(8, 'real')); b = c.object(BAB, 'info', vectors=False); info = c.object('CglTreeInfo', 'tree', vectors=False)
    I = z3.IntSort(); R_, B_ = z3.RealSort(), z3.BoolSort(); fn = {k: z3.Function(k, I, s) for k, s in (('lp_objective', R_), ('nlp_objective', R_), ('lp_optimal', B_), ('lp_limit', B_), ('lp_differs', B_), ('milp_differs', B_), ('integral', B_), ('milp_bound', R_), ('milp_optimal', B_), ('milp_found', B_))}
    g['lpv'] = z3.IntVal(0); g['mv'] = z3.IntVal(0); g['nv'] = z3.IntVal(0); g['did'] = (); g['pending'] = 0; g['imp'] = False; g['bound'] = zr(Fraction(-1.7976931348623157e308)); g['ub'] = cut0; g['rep'] = False; g['fresh'] = False; g['linst'] = 0
    INFB = zr(Fraction(-1.7976931348623157e308))
    def need(e, st, *w, what): e.oblige(st, z3.BoolVal(all(x in st.ghost['did'] for x in w)), 'pre', what)
    def did(st, w): st.ghost['did'] = tuple(sorted(set(st.ghost['did']) | {w}))
    isl = lambda a: a[0].obj is lp['si'].obj
    both = lambda q, h: [V.__setitem__(k + '::' + q, h) for k in (SI, OSI)]
    L = lambda st: zi(st.ghost['lpv']); NV = lambda st: zi(st.ghost['nv']); MV = lambda st: zi(st.ghost['mv'])
    both('getColSolution', lambda e, st, a, ins, m, ctx: lp['sol'] if isl(a) else nlp['sol'])
    both('getObjValue', lambda e, st, a, ins, m, ctx: fn['lp_objective'](L(st)) if isl(a) else fn['nlp_objective'](NV(st)))
    both('isProvenOptimal', lambda e, st, a, ins, m, ctx: fn['lp_optimal'](L(st)) if isl(a) else e.fresh(st, 'bool', 'o'))
    both('isDualObjectiveLimitReached', lambda e, st, a, ins, m, ctx: fn['lp_limit'](L(st)))
    ex.add_model(r'Bonmin::OsiTMINLPInterface::linearizer\(', lambda e, st, a, ins, dem, ctx: e.store(st, a[0], NULL, scal_ty(8, 'ptr')))
    good = lambda st: z3.And(fn['lp_optimal'](L(st)), z3.Not(fn['lp_limit'](L(st))), fn['lp_objective'](L(st)) < zr(c.deref(st, c.cutp)))
    ex.add_model(r'Bonmin::SubMipSolver::setLpSolver\(', lambda e, st, a, ins, dem, ctx: e.oblige(st, band(a[0].obj is sub, e.ptreq(a[1], lp['si'])), 'pre', 'the MILP is that of the LP of the node'))
    ex.add_model(r'Bonmin::SubMipSolver::solver\(', lambda e, st, a, ins, dem, ctx: lp['si'])
    def rs(e, st, a, ins, m, ctx):
        G = st.ghost
        if isl(a):
            e.oblige(st, ieq(G['pending'], 0), 'pre', 'the LP is solved again only with all the cuts generated'); e.oblige(st, z3.Or(NV(st) == 0, z3.BoolVal('post' in G['did'] and 'cuts' in G['did'])), 'pre', 'the LP is solved again after the NLP solution has been offered and cut off')
            G['lpv'] = iadd(G['lpv'], 1); G['fresh'] = False
        else: need(e, st, 'fix', what='the NLP is solved with the integer variables fixed at the current integer point'); G['nv'] = iadd(G['nv'], 1); G['did'] = ('nlp',)
    both('resolve', rs)
    def mip(e, st, a, ins, dem, ctx):
        G = st.ghost; T(e, 'MILP solves (contract proved here for Cbc)'); e.oblige(st, z3.And(z3.BoolVal(a[0].obj is sub), zr(a[1]) == zr(c.deref(st, c.cutp))), 'pre', 'the MILP is solved with the current cutoff'); e.oblige(st, ieq(G['pending'], 0), 'pre', 'the MILP has all the cuts generated')
        G['mv'] = iadd(G['mv'], 1); v = zi(G['mv']); G['fresh'] = True; q = fn['milp_bound'](v); st.assume(q >= INFB); G['bound'] = z3.If(zr(G['bound']) < q, q, zr(G['bound'])); G['did'] = ()
        for w, x, ty, sz in (('lowBound_', q, 'real', 8), ('optimal_', fn['milp_optimal'](v), 'int', 1), ('integerSolution_', SymP(z3.If(fn['milp_found'](v), zi(MA), 0)), 'ptr', 8), ('nodeCount_', e.fresh(st, 'int', 'nodes'), 'int', 4), ('iterationCount_', e.fresh(st, 'int', 'iters'), 'int', 4)): e.store(st, P(sub, so(w)), toint(x) if sz == 1 else x, scal_ty(sz, ty))
    ex.add_model(r'Bonmin::SubMipSolver::(find_good_sol|optimize|solve)\(', mip)
    def cur(e, st, s): return z3.Or(z3.And(zb(st.ghost['fresh']), fn['milp_found'](MV(st)), zi(e.addr(s)) == zi(MA)), z3.And(z3.Not(zb(st.ghost['fresh'])), fn['integral'](L(st)), zi(e.addr(s)) == zi(e.addr(lp['sol']))))
    def bsol(e, st, a): return e.load(st, P(a.obj, iadd(a.off, c.offset('OsiBranchingInformation', 'solution_'))), scal_ty(8, 'ptr'))
    def fx(e, st, a, ins, dem, ctx):
        T(e, 'fixIntegers (its contract is proved here)'); e.oblige(st, band(a[0].obj is nlp['si'].obj, cur(e, st, bsol(e, st, a[1]))), 'pre', 'the NLP is fixed at the integer point just found'); e.oblige(st, zr(a[2]) == tol, 'pre', 'with the integer tolerance'); did(st, 'fix')
    ex.add_model(r'Bonmin::fixIntegers\(', fx)
    def pn(e, st, a, ins, dem, ctx):
        G = st.ghost; T(e, 'post_nlp_solve (its contract is proved here)'); e.oblige(st, zr(a[2]) == zr(c.deref(st, c.cutp)), 'pre', 'improvement is relative to the current cutoff'); need(e, st, 'nlp', what='incumbents are tested after the NLP is solved'); did(st, 'post'); r = e.fresh(st, 'bool', 'improved'); ob = fn['nlp_objective'](NV(st)); st.assume(implies(r, ob < zr(a[2]))); G['imp'] = r; u = zr(G['ub']); G['ub'] = z3.If(z3.And(r, ob < u), ob, u); return r
    ex.add_model(r'Bonmin::OaDecompositionBase::post_nlp_solve\(', pn)
    def sd(e, st, a, ins, m, ctx):
        u = zr(st.ghost['ub']); e.oblige(st, band(isl(a), ieq(a[1], 0), zr(a[2]) == zr(c.deref(st, c.cutp))), 'pre', 'the LP gets the new cutoff'); e.oblige(st, zr(a[2]) == z3.If(u > 0, u * (1 - decr), u * (1 + decr)), 'pre', 'the cutoff is the best objective less the relative decrement'); e.oblige(st, st.ghost['imp'], 'pre', 'the cutoff changes only with a new incumbent'); return True
    both('setDblParam', sd)
    def gen(e, st, a, ins, m, ctx):
        G = st.ghost; need(e, st, 'nlp', what='cuts are generated after the NLP is solved'); dd = e.fresh(st, 'int', 'newcuts'); st.assume(zi(dd) >= 1, zi(dd) < 2**20)
        e.oblige(st, band(a[1].obj is cs.obj, e.ptreq(a[2], nlp['sol']), ieq(a[3], 1), z3.If(av, cur(e, st, a[4]), zi(e.addr(a[4])) == 0), zb(tobool(a[-1])) == gl), "pre", 'outer approximation at the NLP solution, with the objective; only cuts violated at the integer point when so set; scope as set')
        key = ('cs', cs.obj.id, 'n'); G[key] = iadd(G[key], dd); G['pending'] = iadd(G['pending'], dd); did(st, 'cuts')
    both('getOuterApproximation', gen)
    def ic(e, st, a, ins, dem, ctx):
        T(e, 'installCuts (its contract is proved here)'); e.oblige(st, band(a[0].obj is lp['si'].obj, a[1].obj is cs.obj, ile(st.ghost['pending'], a[2]), ile(a[2], st.ghost[('cs', cs.obj.id, 'n')])), 'pre', 'all the new cuts are installed in the LP'); st.ghost['pending'] = 0
    ex.add_model(r'Bonmin::installCuts\(', ic)
    def df(e, st, a, ins, dem, ctx):
        w = zb(st.ghost['fresh']); e.oblige(st, band(e.ptreq(a[4], nlp['sol']), zi(e.addr(a[5])) == z3.If(w, zi(MA), zi(e.addr(lp['sol'])))), 'pre', 'the NLP solution is compared with the optimum just found'); e.oblige(st, z3.And(zr(a[3]) > 0, z3.Or(zr(a[3]) < zr(Fraction(1, 2)), zr(a[3]) == tol)), 'pre', 'tolerance below one half')
        r = z3.If(w, fn['milp_differs'](MV(st)), fn['lp_differs'](L(st))); e.oblige(st, implies(w, fn['milp_found'](MV(st))), 'pre', 'there is a MILP solution'); st.ghost['rep'] = z3.Or(zb(st.ghost['rep']), z3.And(z3.Not(r), z3.Or(w, good(st)))); return r
    ex.add_model(r'Bonmin::isDifferentOnIntegers\(', df)
    def inf(e, st, a, ins, dem, ctx):
        e.oblige(st, band(e.ptreq(bsol(e, st, a[1]), lp['sol']), zr(a[2]) == tol), 'pre', 'integrality of the LP solution is tested with the integer tolerance'); return fn['integral'](L(st))
    ex.add_model(r'Bonmin::integerFeasible\(', inf); ex.add_model(r'OsiBranchingInformation::~?OsiBranchingInformation\(', nop)
    def hint(q):
        out = []; fl = [(f,) for f in q.flags] + [(f, h) for i, f in enumerate(q.flags) for h in q.flags[:i]]
        ub = lambda k: zr(q.ghost('ub', k)); bd = lambda k: zr(q.ghost('bound', k)); cut = lambda k: zr(q.cell(c.cutp, k)); rep = lambda k: zb(q.ghost('rep', k)); fresh = lambda k: zb(q.ghost('fresh', k)); mv = lambda k: zi(q.ghost('mv', k))
        closed = lambda k: z3.Or(bd(k) >= cut(k), z3.If(ub(k) != 0, (ub(k) - bd(k)) / z3.If(ub(k) >= 0, ub(k), -ub(k)) < gap, -bd(k) / zr(Fraction(1e-10)) < gap))
        out.append(lambda k: z3.And(zr(q.ghost('ub', k)) >= cut(k))); out.append(lambda k: mv(k) >= 1)
        for v in q.reals:
            V_ = lambda k, v=v: zr(q.val(v, k)); out.append(lambda k, V_=V_: V_(k) == ub(k)); out.append(lambda k, V_=V_: z3.Or(V_(k) == bd(k), rep(k))); out.append(lambda k, V_=V_: z3.Or(V_(k) == bd(k), rep(k), closed(k)))
            for f in q.flags: out.append(lambda k, V_=V_, f=f: z3.Or(z3.Not(zb(tobool(q.val(f, k)))), V_(k) == bd(k), rep(k))); out.append(lambda k, V_=V_, f=f: z3.Or(zb(tobool(q.val(f, k))), V_(k) == bd(k), rep(k), closed(k)))
        sol = lambda k: zi(ex.addr(q.cell(P(sub, so('integerSolution_')), k)))
        out.append(lambda k: sol(k) == z3.If(fn['milp_found'](mv(k)), zi(MA), 0))
        for fs in fl: out.append(lambda k, fs=fs: implies(z3.And(*[zb(tobool(q.val(f, k))) for f in fs]), z3.And(fresh(k), fn['milp_found'](mv(k)))))
        return out
    ex.loop_hints = [hint]
    for o in rets(c, c.call(OA2 + '::performOa', [P(d), cs, P(man), P(b), c.cutp, P(info)])):
        st = o.st; G = st.ghost; cut = zr(c.deref(st, c.cutp)); r = zr(o.val); bd, ub = zr(G['bound']), zr(G['ub'])
        c.require(st, MV(st) >= 1, 'at least one MILP is solved')
        c.require(st, z3.Or(r == bd, zb(G['rep']), bd >= cut, z3.If(ub != 0, (ub - bd) / z3.If(ub >= 0, ub, -ub) < gap, -bd / zr(Fraction(1e-10)) < gap)), 'a bound above the proven one is returned only when the proven one reaches the cutoff or the gap is closed, or an optimum repeats the integer values of the NLP just solved')
        c.require(st, r >= bd, 'the proven bound is not lost') if False else None
def submip(c, fname, old, nostrat=False):
    """MILP solves by Cbc: what is kept is what Cbc proved and found, with the cutoff, time and gap given"""
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); c.sizes.append(n); g = c.st.ghost; V = ex.vmodels; A = ex.add_model; sub = c.object(SUB, 'submip', vectors=False); clp = Obj('clp', lazy=True); c.st.mem[clp] = OS(); clp.cls = 'OsiClpSolverInterface'
    c.set(sub, 'clp_', P(clp)); c.set(sub, 'cpx_', NULL); prev = c.array('old_solution', n) if old else NULL
    if old: prev.obj.heap = True
    c.set(sub, 'integerSolution_', prev); strat = Obj('strategy', lazy=True); c.st.mem[strat] = OS(); strat.cls = 'CbcStrategyDefault'; c.set(sub, 'strategy_', NULL if nostrat else P(strat)); gap = zr(c.get(c.st, sub, 'gap_tol_', 'real'))
    cut, tm, lg = c.real('cutoff'), c.real('time'), c.int('loglevel'); F = dict(k=c.int('solutions', 0), bound=c.real('cbc_bound'), opt=c.bool('cbc_optimal'), inf=c.bool('cbc_infeasible')); X = c.array('cbc_solution', n); g['run'] = 0; g['cut'] = None; g['lp'] = 0
    def gen(e, st, a, ins, dem, ctx):
        k = ins.ty.kind
        if k == 'void': return None
        if k == 'int': return e.fresh(st, 'bool' if ins.ty.width == 1 else 'int', 'ext')
        if k == 'ptr':
            o = Obj('ext_%d' % e.n, lazy=True); e.n += 1; st.mem[o] = OS(); return P(o)
        return e.fresh(st, 'real', 'ext')
    rx = re.compile(r'(Cbc|Osi|Coin|Cgl|Bonmin::CbcStrategy)'); ex.extrx = [(rx, gen)]; ex.vrx = [(rx, gen)]
    for k in (SI, 'OsiClpSolverInterface'):
        V[k + '::getNumCols'] = lambda e, st, a, ins, m, ctx: n; V[k + '::resolve'] = nop_
    cl = Obj('strategy2', lazy=True); c.st.mem[cl] = OS(); cl.cls = 'CbcStrategyDefault'; cl.heap = True
    for k in ('CbcStrategy', 'CbcStrategyDefault'): V[k + '::clone'] = lambda e, st, a, ins, m, ctx: P(cl); V[k + '::~%s[deleting]' % k] = nop_
    A(r'strcpy$', lambda e, st, a, ins, dem, ctx: a[0])
    def setc(e, st, a, ins, dem, ctx): st.ghost['cut'] = a[1]
    A(r'CbcModel::CbcModel\(OsiSolverInterface const&\)', lambda e, st, a, ins, dem, ctx: e.oblige(st, a[1].obj is clp, 'pre', 'the MILP is that of the LP given'))
    A(r'CbcModel::setCutoff\(', setc); A(r'CbcModel::isProvenOptimal\(', lambda e, st, a, ins, dem, ctx: F['opt']); A(r'CbcModel::isProvenInfeasible\(', lambda e, st, a, ins, dem, ctx: F['inf']); A(r'CbcModel::getBestPossibleObjValue\(', lambda e, st, a, ins, dem, ctx: F['bound'])
    def search(e, st, a, ins, dem, ctx):
        m = a[0]; at = lambda q, o=0: P(m.obj, iadd(m.off, c.offset('CbcModel', q) + o)); G = st.ghost; e.oblige(st, G['run'] == 0, 'pre', 'one search'); G['run'] = 1
        e.oblige(st, zr(G['cut']) == cut if G['cut'] is not None else False, 'pre', 'the cutoff given is used'); e.oblige(st, zr(e.load(st, at('dblParam_', 40), scal_ty(8, 'real'))) == tm, 'pre', 'the time given is used')
        if fname == 'optimize': e.oblige(st, zr(e.load(st, at('dblParam_', 32), scal_ty(8, 'real'))) == gap, 'pre', 'the gap set is used')
        else: e.oblige(st, zi(e.load(st, at('intParam_', 4), scal_ty(4, 'int'))) == 1, 'pre', 'the search stops at the first solution')
        e.store(st, at('numberSolutions_'), F['k'], scal_ty(4, 'int')); e.store(st, at('bestSolution_'), X, scal_ty(8, 'ptr'))
    A(r'CbcModel::branchAndBound\(', search)
    for o in rets(c, c.call(SUB + '::' + fname, [P(sub), cut, lg, tm])):
        st = o.st; r = c.get(st, sub, 'integerSolution_', 'ptr'); c.require(st, st.ghost['run'] == 1, 'the MILP is solved'); c.require(st, zr(c.get(st, sub, 'lowBound_', 'real')) == F['bound'], 'the bound kept is the one proven'); c.require(st, zb(c.get(st, sub, 'optimal_', 'bool')) == z3.Or(F['opt'], F['inf']), 'the MILP counts as solved exactly when the search is complete')
        if isinstance(r, P) and r.obj is not None:
            c.require(st, F['k'] > 0, 'a solution is kept only when one was found'); B = c.arr(st, r); c.require(st, c.forall(n, lambda j: zr(B.read(j)) == zr(c.arr(c.pre, X).read(j))), 'the solution kept is the best one found')
        else: c.require(st, F['k'] == 0, 'no solution is kept only when none was found')
def nop_(e, st, a, ins, m, ctx): return None
def setlp(c, own, old):
    ex = c.ex; n = c.int('n', 1); c.assume(n < 2**28); sub = c.object(SUB, 'submip', vectors=False); mine = Obj('own_lp', lazy=True); c.st.mem[mine] = OS(); mine.cls = 'OsiClpSolverInterface'; mine.heap = True; lp = Obj('lp', lazy=True); c.st.mem[lp] = OS(); lp.cls = 'OsiClpSolverInterface'; c.set(sub, 'clp_', P(mine)); c.set(sub, 'cpx_', NULL); c.set(sub, 'ownClp_', own, 1)
    prev = c.array('old_solution', n) if old else NULL
    if old: prev.obj.heap = True
    c.set(sub, 'integerSolution_', prev); c.st.ghost['freed'] = 0
    def de(e, st, a, ins, m, ctx): e.oblige(st, a[0].obj is mine, 'pre', 'only the own LP is deleted'); st.ghost['freed'] += 1
    for k in (SI, 'OsiClpSolverInterface'): ex.vmodels[k + '::~%s[deleting]' % k] = de
    for o in rets(c, c.call(SUB + '::setLpSolver', [P(sub), P(lp)])):
        st = o.st; c.require(st, ex.ptreq(c.get(st, sub, 'clp_', 'ptr'), P(lp)), 'the LP given is used'); c.require(st, zr(c.get(st, sub, 'lowBound_', 'real')) <= zr(Fraction(-1e300)), 'no bound is proven yet'); c.require(st, z3.Not(zb(c.get(st, sub, 'optimal_', 'bool'))), 'nothing is solved yet'); c.require(st, ex.ptreq(c.get(st, sub, 'integerSolution_', 'ptr'), NULL), 'there is no solution yet'); c.require(st, z3.And(z3.BoolVal(st.ghost['freed'] == own), z3.Not(zb(c.get(st, sub, 'ownClp_', 'bool')))), 'the LP is not owned')
    return
CASES = [('generateCuts', lambda c: gencuts(c, False)), ('generateCuts own LP', lambda c: gencuts(c, True)), ('installCuts', install), ('solverManip', manip), ('integerFeasible', intfeas), ('isDifferentOnIntegers', differ), ('fixIntegers', fix), ('relaxIntegers', relax('relaxIntegers')), ('post_nlp_solve', post), ('OaNlpOptim', nlpoptim)]
for _k, _kn in ((0, 'outer-approx'), (1, 'Benders')):
    for _p, _pn in ((0, 'detect-cycles'), (1, 'keep-all'), (2, 'as-normal')): CASES.append(('feasibilityChecker %s %s' % (_kn, _pn), lambda c, k=_k, p=_p: feascheck(c, k, p)))
CASES.append(('outer approximation', lambda c: outerapprox(c, 0)))
for _f in ('optimize', 'find_good_sol'):
    for _o in (0, 1): CASES.append(('MILP %s [%s]' % (_f, 'earlier solution' if _o else 'no earlier solution'), lambda c, f=_f, o=_o: submip(c, f, o)))
for _o in (0, 1):
    for _w in (0, 1): CASES.append(('MILP LP given [own=%d, earlier solution=%d]' % (_w, _o), lambda c, w=_w, o=_o: setlp(c, w, o)))
CASES.append(('MILP find_good_sol [default strategy]', lambda c: submip(c, 'find_good_sol', 1, True)))
CASES.sort(key=lambda x: not x[0].startswith(('feasibilityChecker', 'outer')))
