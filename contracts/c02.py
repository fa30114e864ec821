"""C02: starting points (primal and dual) reach the NLP solver exactly as given."""
from common import *
TUS = ['src/Interfaces/BonTMINLP2TNLP.cpp']
HARNESS = 'h_nlp.cpp'
EXTRA = '''#include "BonTMINLP2TNLP.hpp"
int (Bonmin::TMINLP2TNLP::*a3)() = &Bonmin::TMINLP2TNLP::has_x_init; typedef const Ipopt::Number* (Bonmin::TMINLP2TNLP::*A)()const;
A b1 = &Bonmin::TMINLP2TNLP::x_init_user, b2=&Bonmin::TMINLP2TNLP::x_init, b3=&Bonmin::TMINLP2TNLP::duals_init;'''
ASSUMPTIONS = ['the problem has at least one variable and sizes below 2^28']

def inv(c, this, n, m, shape):
    """representation invariant of the stored start: none / primal only / primal and dual (one buffer of 3n+m)"""
    ln = c.vec(c.st, this, 'x_init_')[0]
    if shape == 'none': c.assume(ieq(ln, 0)); c.set(this, 'duals_init_', NULL)
    elif shape == 'x': c.assume(ieq(ln, n)); c.set(this, 'duals_init_', NULL)
    else:
        c.assume(ieq(ln, iadd(imul(3, n), m))); b = buf(c, c.st, this, 'x_init_')
        c.set(this, 'duals_init_', P(b.obj, imul(8, n)))

def post_inv(c, st, this, n, m, what):
    """the stored dual start, if any, lies in the stored vector right after the primals"""
    d = c.get(st, this, 'duals_init_', 'ptr'); ln = c.vec(st, this, 'x_init_')[0]; b = buf(c, st, this, 'x_init_')
    if isinstance(d, P) and d.obj is None: return
    c.require(st, ieq(ln, iadd(imul(3, n), m)), what + ': dual start has room for all multipliers')
    c.require(st, c.ex.ptreq(d, P(b.obj, imul(8, n))), what + ': dual start follows the primal start in live storage')

def setx(shape):
    def f(c):
        this, n, m = nlp_object(c); inv(c, this, n, m, shape)
        a = c.int('n'); c.assume(ieq(a, n)); x = c.array('x', a)
        for o in rets(c, c.call(NLP + '::setxInit', [P(this), a, x])):
            A = c.vec(o.st, this, 'x_init_'); X = c.arr(c.pre, x)
            c.require(o.st, ile(n, A[0]), 'primal start stored')
            c.require(o.st, c.forall(n, lambda j: veq(A[1].read(j), X.read(j))), 'stored primal start is the given point')
            if shape == 'xd':
                A0 = c.vec(c.pre, this, 'x_init_')[1]
                c.require(o.st, c.forall(iadd(imul(3, n), m), lambda j: veq(A[1].read(j), A0.read(j)), lo=n), 'dual start kept')
            post_inv(c, o.st, this, n, m, 'setxInit')
            c.unchanged(o.st, [buf(c, c.pre, this, 'x_init_'), (this, c.offset(NLP, 'x_init_'), 24)])
    return f

def setd(shape):
    def f(c):
        this, n, m = nlp_object(c); inv(c, this, n, m, shape)
        k = iadd(imul(2, n), m)
        a = c.int('k'); c.assume(ieq(a, k)); d = c.array('d', a)
        for o in rets(c, c.call(NLP + '::setDualsInit', [P(this), a, d])):
            L, A = c.vec(o.st, this, 'x_init_'); D = c.arr(c.pre, d)
            c.require(o.st, ieq(L, iadd(k, n)), 'storage for primal and dual start')
            c.require(o.st, c.forall(k, lambda j: veq(A.read(iadd(n, j)), D.read(j))), 'stored dual start is the given one')
            if shape != 'none':
                A0 = c.vec(c.pre, this, 'x_init_')[1]
                c.require(o.st, c.forall(n, lambda j: veq(A.read(j), A0.read(j))), 'primal start kept')
            post_inv(c, o.st, this, n, m, 'setDualsInit')
            dp = c.get(o.st, this, 'duals_init_', 'ptr'); c.require(o.st, bnot(c.ex.ptreq(dp, NULL)), 'dual start is registered')
            c.unchanged(o.st, [buf(c, c.pre, this, 'x_init_'), (this, c.offset(NLP, 'x_init_'), 24), (this, c.offset(NLP, 'duals_init_'), 8)])
    return f

def getsp(shape, ix, iz, il):
    def f(c):
        this, n, m = nlp_object(c); inv(c, this, n, m, shape)
        a, b = c.int('n'), c.int('m'); c.assume(ieq(a, n), ieq(b, m))
        x, zl, zu = [c.array(s, a) for s in ('ox', 'ozl', 'ozu')]; la = c.array('ola', b)
        for o in rets(c, c.call(NLP + '::get_starting_point', [P(this), a, ix, x, iz, zl, zu, b, il, la])):
            S = c.vec(c.pre, this, 'x_init_')[1]; U = c.vec(c.pre, this, 'x_init_user_')[1]
            X, ZL, ZU, LA = [c.arr(o.st, p) for p in (x, zl, zu, la)]
            ok = tobool(o.val)
            want = True if (shape == 'xd' or not (iz or il)) else False
            c.require(o.st, veq(ok, want), 'succeeds exactly when every requested part is available')
            if ix: c.require(o.st, c.forall(n, lambda j: veq(X.read(j), (U if shape == 'none' else S).read(j))), 'primal start is the one set, or the user start if none is set')
            if want and iz:
                c.require(o.st, c.forall(n, lambda j: veq(ZL.read(j), S.read(iadd(n, j)))), 'lower-bound multipliers delivered')
                c.require(o.st, c.forall(n, lambda j: veq(ZU.read(j), S.read(iadd(imul(2, n), j)))), 'upper-bound multipliers delivered')
            if want and il:
                c.require(o.st, c.forall(m, lambda j: veq(LA.read(j), S.read(iadd(imul(3, n), j)))), 'constraint multipliers delivered')
            c.unchanged(o.st, ([x] if ix else []) + ([zl, zu] if iz else []) + ([la] if il else []) + [(this, c.offset(NLP, 'need_new_warm_starter_'), 1)])
    return f

def reset(shape):
    def f(c):
        this, n, m = nlp_object(c); inv(c, this, n, m, shape)
        U = c.vec(c.st, this, 'x_init_user_')[1]
        for o in rets(c, c.call(NLP + '::resetStartingPoint', [P(this)])):
            c.require(o.st, ieq(c.vec(o.st, this, 'x_init_')[0], 0), 'no stored primal start remains')
            post_inv(c, o.st, this, n, m, 'resetStartingPoint')
            vec_is(c, o.st, this, 'x_init_user_', n, c.vec(c.pre, this, 'x_init_user_')[1], 'user start kept')
            c.unchanged(o.st, [buf(c, c.pre, this, 'x_init_'), (this, c.offset(NLP, 'x_init_'), 24), (this, c.offset(NLP, 'duals_init_'), 8), (this, c.offset(NLP, 'curr_warm_starter_'), 8)])
    return f

def has(shape):
    def f(c):
        this, n, m = nlp_object(c); inv(c, this, n, m, shape)
        for o in rets(c, c.call(NLP + '::has_x_init', [P(this)])):
            c.require(o.st, ieq(o.val, {'none': 0, 'x': 1, 'xd': 2}[shape]), 'has_x_init says what is stored'); c.unchanged(o.st)
    return f

SH = ('none', 'x', 'xd')
CASES = [('setxInit [%s]' % s, setx(s)) for s in SH] + [('setDualsInit [%s]' % s, setd(s)) for s in SH] \
  + [('get_starting_point [%s,%d%d%d]' % (s, i, j, k), getsp(s, i, j, k)) for s in SH for i in (False, True) for j in (False, True) for k in (False, True)] \
  + [('resetStartingPoint [%s]' % s, reset(s)) for s in SH] + [('has_x_init [%s]' % s, has(s)) for s in SH]
