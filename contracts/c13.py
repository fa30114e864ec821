"""C13: nodes whose relaxation is infeasible or could not be solved are branched on, fathomed or stop the search exactly as configured."""
from common import *
from symex import Outcome
import c06
TUS = ['src/CbcBonmin/BonCbcNlpStrategy.cpp', 'src/CbcBonmin/BonCbcNode.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_node.cpp'
EXTRA = '''#include "BonCbcNode.hpp"
#include "BonOsiTMINLPInterface.hpp"
int zz_use(Bonmin::BonCbcPartialNodeInfo &o, Bonmin::OsiTMINLPInterface &i){ i.forceBranchable(); i.forceInfeasible(); return o.getSequenceOfInfeasiblesSize() + o.getSequenceOfUnsolvedSize(); }
'''
ASSUMPTIONS = ['Cbc asks the strategy about a node with the solver that solved it; what the solver reports (unsolved, infeasible, iteration limit) is arbitrary but does not change between queries', 'constructors of the Cbc base classes are unknown code that does not touch the counters', 'sizes below 2^28']
OSI = c06.OSI; STR = 'Bonmin::CbcNlpStrategy'; PART = 'Bonmin::BonCbcPartialNodeInfo'; FULL = 'Bonmin::BonCbcFullNodeInfo'
UE = '_ZTIPN6Bonmin10TNLPSolver13UnsolvedErrorE'
def nop(e, st, a, ins, dem, ctx):
    k = ins.ty.kind
    if k == 'void': return None
    if k == 'ptr': return a[0] if a and isinstance(a[0], P) else NULL
    return e.fresh(st, 'int' if k == 'int' else 'real', 'ext')
def env(c, kind):
    ex = c.ex; this, p, n, m = c06.osi(c); this.cls = OSI
    ab, inf, it = c.bool('unsolved'), c.bool('infeasible'), c.bool('iteration_limit')
    for k in ('OsiSolverInterface', OSI):
        for f, b in (('isAbandoned', ab), ('isProvenPrimalInfeasible', inf), ('isIterationLimitReached', it)):
            ex.vmodels[k + '::' + f] = lambda e, st, a, ins, mm, ctx, b=b: b
        ex.vmodels[k + '::getStrParam'] = lambda e, st, a, ins, mm, ctx: True
    err = Obj('error', lazy=True); c.st.mem[err] = OS()
    ex.vmodels['Bonmin::TNLPSolver::newUnsolvedError'] = lambda e, st, a, ins, mm, ctx: P(err)
    model = Obj('cbcmodel', lazy=True); c.st.mem[model] = OS(); model.cls = 'CbcModel'; c.objs.append(model); c.set(model, 'solver_', P(this)); h = Obj('handler', lazy=True); c.st.mem[h] = OS(); c.set(model, 'handler_', P(h))
    ex.add_model(r'CoinMessageHandler::(operator<<|message|finish)|operator<<\(CoinMessageHandler', nop)
    par = NULL
    if kind != 'none':
        po = c.object({'partial': PART, 'full': FULL, 'other': 'CbcFullNodeInfo'}[kind], 'parent', vectors=False); po.cls = {'partial': PART, 'full': FULL, 'other': 'CbcFullNodeInfo'}[kind]; par = P(po)
    cnt = {}
    for k, f in (('u', 'sequenceOfUnsolvedSize_'), ('i', 'sequenceOfInfeasiblesSize_')):
        cnt[k] = zi(c.get(c.st, par.obj, f)) if kind in ('partial', 'full') else z3.IntVal(0)
        c.assume(cnt[k] >= 0, cnt[k] < 2**28)
    return this, p, n, m, model, par, cnt, ab, inf, it, P(err)
def status(kind):
    def f(c):
        this, p, n, m, model, par, cnt, ab, inf, it, err = env(c, kind); s = c.object(STR, 'strategy', vectors=False); c.sizes.append(n)
        mf, mi, pr = [zi(c.get(c.st, s, q)) for q in ('maxFailure_', 'maxInfeasible_', 'pretendFailIsInfeasible_')]; c.assume(mf >= 0, mi >= 0)
        hf0 = zb(c.get(c.st, s, 'hasFailed_', 'bool')); ob0 = zr(c.get(c.st, p, 'obj_value_', 'real')); X0 = c.vec(c.st, p, 'x_sol_')[1]; T = c.vec(c.st, p, 'var_types_', 'int')[1]; L = c.vec(c.st, p, 'x_l_')[1]; U = c.vec(c.st, p, 'x_u_')[1]
        c.assume_forall(n, lambda j: z3.And(zi(T.read(j)) >= 0, zi(T.read(j)) <= 2))
        for o in c.call(STR + '::status', [P(s), P(model), par, c.int('where')]):
            st = o.st
            if kind != 'partial':
                c.require(st, o.kind == 'ret' and zi(o.val) == -1, 'nothing decided at the root and its children'); c.unchanged(st); continue
            u, i = cnt['u'] + 1, cnt['i'] + 1
            go = z3.Or(z3.And(ab, u <= mf), z3.And(z3.Not(ab), inf, i < mi)); giveup = z3.And(ab, u > mf); fathom = z3.And(giveup, pr != 0); stop = z3.And(giveup, pr == 0)
            hf = zb(c.get(st, s, 'hasFailed_', 'bool')); ob = zr(c.get(st, p, 'obj_value_', 'real')); X = c.vec(st, p, 'x_sol_')[1]
            c.require(st, hf == z3.Or(hf0, giveup), 'a failure is remembered exactly when a node is given up')
            if o.kind == 'throw':
                c.require(st, isinstance(o.val, tuple) and o.val[0] == UE and zb(c.ex.ptreq(o.val[1], err)), 'the error is that of the NLP solver'); c.require(st, stop, 'the search is stopped only after too many consecutive failures, when so configured'); continue
            r = zi(o.val)
            c.require(st, z3.Not(stop), 'too many consecutive failures stop the search when so configured')
            c.require(st, (r == 0) == go, 'branched on exactly while the consecutive failures or infeasibilities are within the limit')
            c.require(st, (r == 2) == fathom, 'fathomed exactly after too many consecutive failures, when so configured'); c.require(st, z3.Or(r == 0, r == 2, r == -1), 'no other decision')
            c.require(st, ob == z3.If(go, zr(Fraction(-1e200)), z3.If(fathom, zr(Fraction(1e200)), ob0)), 'objective: very low to branch, very high to fathom, else as solved')
            free = lambda j: z3.And(go, zi(T.read(j)) != 0, zr(U.read(j)) - zr(L.read(j)) >= zr(Fraction(1, 2)))
            c.require(st, c.forall(n, lambda j: implies(free(j), zr(X.read(j)) == -zr(c.ex.floor(-zr(L.read(j)))) + zr(Fraction(1, 2)))), 'to branch, every free integer variable is put halfway between two integers')
            c.require(st, c.forall(n, lambda j: implies(free(j), z3.And(zr(X.read(j)) > zr(L.read(j)), zr(X.read(j)) < zr(L.read(j)) + 2))), 'to branch, free integer variables stay next to their lower bound')
            c.require(st, c.forall(n, lambda j: implies(z3.Not(z3.And(go, zi(T.read(j)) != 0)), zr(X.read(j)) == zr(X0.read(j)))), 'no other value is changed')
    return f
def node(kind):
    def f(c):
        this, p, n, m, model, par, cnt, ab, inf, it, err = env(c, kind); ex = c.ex
        ex.add_model(r'CbcPartialNodeInfo::CbcPartialNodeInfo\(', nop); ex.add_model(r'CbcPartialNodeInfo::~CbcPartialNodeInfo\(', nop)
        new = c.object(PART, 'new', vectors=False)
        for o in rets(c, c.call(PART + '::BonCbcPartialNodeInfo(CbcModel*, CbcNodeInfo*, CbcNode*, int, int const*, double const*, CoinWarmStartDiff const*)', [P(new), P(model), par, NULL, 0, NULL, NULL, NULL])):
            c.require(o.st, zi(c.get(o.st, new, 'sequenceOfUnsolvedSize_')) == z3.If(z3.Or(ab, it), cnt['u'] + 1, 0), 'consecutive failures: one more than the parent, none when solved')
            c.require(o.st, zi(c.get(o.st, new, 'sequenceOfInfeasiblesSize_')) == z3.If(inf, cnt['i'] + 1, 0), 'consecutive infeasibilities: one more than the parent, none otherwise')
    return f
def copies(c):
    a, b = c.object(PART, 'a', vectors=False), c.object(PART, 'b', vectors=False); ex = c.ex
    ex.add_model(r'CbcPartialNodeInfo::CbcPartialNodeInfo\(', nop); ex.add_model(r'CbcPartialNodeInfo::~CbcPartialNodeInfo\(', nop)
    u, i = c.get(c.st, b, 'sequenceOfUnsolvedSize_'), c.get(c.st, b, 'sequenceOfInfeasiblesSize_')
    for o in rets(c, c.call(PART + '::BonCbcPartialNodeInfo(Bonmin::BonCbcPartialNodeInfo const&)', [P(a), P(b)])):
        c.require(o.st, z3.And(zi(c.get(o.st, a, 'sequenceOfUnsolvedSize_')) == zi(u), zi(c.get(o.st, a, 'sequenceOfInfeasiblesSize_')) == zi(i)), 'copies keep the counts')
def scopy(c):
    a, b = c.object(STR, 'a', vectors=False), c.object(STR, 'b', vectors=False); ex = c.ex
    ex.add_model(r'CbcStrategy::CbcStrategy\(', nop); ex.add_model(r'CbcStrategy::~CbcStrategy\(', nop)
    v = {q: c.get(c.st, b, q) for q in ('maxFailure_', 'maxInfeasible_', 'pretendFailIsInfeasible_')}
    for o in rets(c, c.call(STR + '::CbcNlpStrategy(Bonmin::CbcNlpStrategy const&)', [P(a), P(b)])):
        for q in v: c.require(o.st, ieq(c.get(o.st, a, q), v[q]), 'copies keep the policy')
def sctor(c):
    a = c.object(STR, 'a', vectors=False); ex = c.ex; x, y, z = c.int('x'), c.int('y'), c.int('z')
    ex.add_model(r'CbcStrategy::(CbcStrategy|~CbcStrategy|setPreProcessState)\(', nop)
    for o in rets(c, c.call(STR + '::CbcNlpStrategy(int, int, int)', [P(a), x, y, z])):
        for q, w in zip(('maxFailure_', 'maxInfeasible_', 'pretendFailIsInfeasible_'), (x, y, z)): c.require(o.st, ieq(c.get(o.st, a, q), w), 'policy as given')
        c.require(o.st, bnot(c.get(o.st, a, 'hasFailed_', 'bool')), 'no failure yet')
CASES = [('status [parent %s]' % k, status(k)) for k in ('partial', 'full', 'none')] + [('node [parent %s]' % k, node(k)) for k in ('partial', 'full', 'none')] + [('node copy', copies), ('strategy copy', scopy), ('strategy', sctor)]
