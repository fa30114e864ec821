"""C05: every evaluation the NLP solver asks for is answered by the user's problem, unchanged."""
from common import *
TUS = ['src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_nlp.cpp'
EXTRA = '''#include "BonTMINLP2TNLP.hpp"
'''
ASSUMPTIONS = ['user callbacks write exactly the documented number of entries and nothing else']

def build(c):
    user_problem(c.ex)
    this, n, m = nlp_object(c)
    return this, n, m

def fwd(meth, mode=''):
    """run meth with symbolic arguments; exactly one user callback with the same arguments, its outputs and result returned"""
    def f(c):
        this, n, m = build(c)
        spec = TMINLP[meth]; args = [P(this)]; vals = {}; outp = []
        for s in spec:
            q = s.split(':')
            if q[0] == 'i':
                if q[1] == 'n': v = c.int('n'); c.assume(ieq(v, n))
                elif q[1] == 'm': v = c.int('m'); c.assume(ieq(v, m))
                else: v = c.int(q[1], 0, 2**28)
                vals[q[1]] = v
            elif q[0] == 'b': v = c.bool(q[1])
            elif q[0] == 'r': v = c.real(q[1])
            elif q[0] == 'in': v = None
            elif q[0] == 'out': v = None
            else: v = c.scalar('o_' + q[1], 'real' if q[0] == 'R' else 'int', {'R': 8, 'I': 4, 'B': 1}[q[0]]); outp.append((q[1], v, q[0], None))
            args.append(v)
        for k, s in enumerate(spec):
            q = s.split(':')
            if q[0] in ('in', 'out'):
                z = vals.get(q[2], n)
                null = (mode == 'structure' and q[3] in ('x', 'vals', 'lambda')) or (mode == 'values' and q[3] in ('iRow', 'jCol'))
                if null: args[k + 1] = NULL; continue
                args[k + 1] = c.array('a_' + q[3], z, q[1])
                if q[0] == 'out': outp.append((q[3], args[k + 1], 'A' + q[1], z))
        if meth == 'eval_grad_gi':      # room for a full row
            c.ex.lazy[('nele',)] = 1
        for o in rets(c, c.call(NLP + '::' + meth, args)):
            st = o.st; cs = calls(st)
            c.require(st, len(cs) == 1, 'exactly one user callback')
            if len(cs) != 1: continue
            ca = cs[0]
            ins = [(s.split(':')[3], vals[s.split(':')[2]], c.arr(c.pre, args[k + 1])) for k, s in enumerate(spec) if s.startswith('in:') and args[k + 1] is not NULL]
            sc = {k: args[k + 1] for k, s in enumerate(spec) if s[0] in 'ibr' and not s.startswith('in:')}
            same_call(c, st, ca, meth, sc, ins)
            for nm, p, kd, z in outp:
                w = ca.outs.get(nm)
                if kd[0] == 'A':
                    A = c.arr(st, p, kd[1:]); zz = ca.outs['nele'] if meth == 'eval_grad_gi' else z
                    if w is None: c.require(st, False, '%s requested from the user' % nm); continue
                    c.require(st, c.forall(zz, lambda j: veq(A.read(j), w.read(j))), '%s is the user value' % nm)
                else:
                    got = c.deref(st, p, {'R': 'real', 'I': 'int', 'B': 'bool'}[kd]); c.require(st, veq(got, w), '%s is the user value' % nm)
            if ca.ret is not None: c.require(st, veq(tobool(o.val), ca.ret), 'success flag of the user passed on')
            c.unchanged(st, [p for _, p, _, _ in outp])
    return f

def nogradgi(c):
    """eval_grad_gi: the row may have any number of entries up to n"""
    this, n, m = build(c)
    old = c.ex.vmodels['Bonmin::TMINLP::eval_grad_gi']
    return None

def upper(c):
    this, n, m = build(c)
    x = c.array('x', n)
    for o in rets(c, c.call(NLP + '::evaluateUpperBoundingFunction', [P(this), x])):
        cs = calls(o.st, 'eval_upper_bound_f'); c.require(o.st, len(cs) == 1, 'one callback')
        same_call(c, o.st, cs[0], 'eval_upper_bound_f', {0: n}, [('x', n, c.arr(c.pre, x))])
        c.require(o.st, veq(o.val, cs[0].outs['f']), 'value returned'); c.unchanged(o.st)

def info(c):
    this, n, m = build(c)
    outs = [c.scalar('o%d' % k, 'int') for k in range(5)]
    pre = [c.get(c.st, this, f) for f in ('nnz_jac_g_', 'nnz_h_lag_', 'index_style_')]
    for o in rets(c, c.call(NLP + '::get_nlp_info', [P(this)] + outs)):
        for p, w, nm in zip(outs, [n, m] + pre, ('variables', 'constraints', 'jacobian entries', 'hessian entries', 'index style')):
            c.require(o.st, ieq(c.deref(o.st, p, 'int'), w), 'reported number of %s' % nm)
        c.require(o.st, tobool(o.val), 'succeeds'); c.unchanged(o.st, outs)

def fwd0(meth):
    def f(c):
        this, n, m = build(c)
        for o in rets(c, c.call(NLP + '::' + meth, [P(this)])):
            cs = calls(o.st, meth); c.require(o.st, len(cs) == 1, 'one callback')
            if len(cs) == 1: c.require(o.st, c.ex.ptreq(o.val, cs[0].ret) if isptr(o.val) else veq(tobool(o.val), tobool(cs[0].ret)), 'answer passed on')
            c.unchanged(o.st)
    return f

CASES = [(m, fwd(m)) for m in ('eval_f', 'eval_grad_f', 'eval_g', 'eval_gi', 'get_scaling_parameters', 'get_variables_linearity', 'get_constraints_linearity')] \
  + [('%s (%s)' % (m, k), fwd(m, k)) for m in ('eval_jac_g', 'eval_h', 'eval_grad_gi') for k in ('structure', 'values')] \
  + [('upper bounding objective', upper), ('get_nlp_info', info)] + [(m, fwd0(m)) for m in ('hasUpperBoundingObjective', 'hasLinearObjective', 'get_const_xtra_id')]
