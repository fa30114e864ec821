"""Assumed contracts of CoinUtils/Osi containers: a packed vector is observed through its value at one
arbitrary fixed point Y (sum of inserted value * Y[index]); a cut collection through the sequence of
(lower, upper, value of the row at Y, global flag) of the cuts inserted."""
from common import *
PVS = 72    # sizeof(CoinPackedVector)
Y = ABase('real', 'Y')

def pv_key(p):
    if not isinstance(p, P) or p.obj is None: raise Unsupported('packed vector through an unknown pointer')
    if p.obj.tag == 'pvarr': return ('pvA', p.obj.id), idivexact(p.off, PVS)
    if isz(p.off): raise Unsupported('packed vector at a symbolic offset')
    return ('pv', p.obj.id, p.off), None
def pv_get(st, p):
    k, i = pv_key(p)
    v = st.ghost.get(k)
    if v is None: raise Unsupported('packed vector never constructed')
    return v if i is None else v.read(i)
def pv_set(st, p, v):
    k, i = pv_key(p)
    st.ghost[k] = v if i is None else AStore(st.ghost[k], i, v)

def install(ex, log=None):
    A = ex.add_model
    def ctor(e, s, a, ins, dem, ctx): T(e, 'CoinPackedVector: insert appends one coefficient'); pv_set(s, a[0], z3.RealVal(0))
    A(r'CoinPackedVector::CoinPackedVector\(bool\)', ctor)
    def cctor(e, s, a, ins, dem, ctx): pv_set(s, a[0], pv_get(s, a[1]))
    A(r'CoinPackedVector::CoinPackedVector\(CoinPackedVector(Base)? const&', cctor)
    def asg(e, s, a, ins, dem, ctx): pv_set(s, a[0], pv_get(s, a[1])); return a[0]
    A(r'CoinPackedVector::operator=\(', asg)
    def clear(e, s, a, ins, dem, ctx): pv_set(s, a[0], z3.RealVal(0))
    A(r'CoinPackedVector::clear\(', clear)
    A(r'CoinPackedVector::(~CoinPackedVector|reserve)\(', lambda e, s, a, ins, dem, ctx: None)
    def ins_(e, s, a, ins, dem, ctx):
        T(e, 'CoinPackedVector: insert appends one coefficient'); pv_set(s, a[0], zr(pv_get(s, a[0])) + zr(a[2]) * Y.read(a[1]))
    A(r'CoinPackedVector::insert\(int, double\)', ins_)
    def dot(e, s, a, ins, dem, ctx):
        T(e, 'CoinPackedVectorBase::dotProduct (some real number)'); return e.fresh(s, 'real', 'dot')
    A(r'CoinPackedVectorBase::dotProduct\(', dot)
    def vctor(e, s, a, ins, dem, ctx):
        T(e, 'std::vector<CoinPackedVector> of empty vectors')
        bi.vec_init_fresh(e, s, a[0]); o = e.new_obj(s, 'pvarr', size=imul(a[1], PVS), heap=True); o.tag = 'pvarr'
        s.ghost[('pvA', o.id)] = AConst('real', z3.RealVal(0))
        bi.w8(e, s, a[0], 0, P(o, 0)); bi.w8(e, s, a[0], 8, P(o, imul(a[1], PVS))); bi.w8(e, s, a[0], 16, P(o, imul(a[1], PVS)))
    A(r'std::vector<CoinPackedVector.*>::vector\(unsigned long, ', vctor)
    A(r'std::vector<CoinPackedVector.*>::~vector\(', lambda e, s, a, ins, dem, ctx: None)
    # row cuts
    key = lambda p, f: ('rc', p.obj.id, p.off, f)
    def rc(e, s, a, ins, dem, ctx):
        T(e, 'OsiRowCut: setters store what they are given'); p = a[0]
        s.ghost[key(p, 'lb')] = zr(-INF); s.ghost[key(p, 'ub')] = zr(INF); s.ghost[key(p, 'row')] = z3.RealVal(0); e.store(s, P(p.obj, iadd(p.off, 16)), 0, scal_ty(4, 'int'))
    A(r'OsiRowCut::OsiRowCut\(\)', rc)
    A(r'OsiRowCut::~OsiRowCut\(', lambda e, s, a, ins, dem, ctx: None)
    def setf(f):
        def h(e, s, a, ins, dem, ctx): s.ghost[key(a[0], f)] = zr(a[1])
        return h
    A(r'OsiRowCut::setLb\(', setf('lb')); A(r'OsiRowCut::setUb\(', setf('ub'))
    def setrow(e, s, a, ins, dem, ctx): s.ghost[key(a[0], 'row')] = pv_get(s, a[1])
    A(r'OsiRowCut::setRow\(CoinPackedVector const&\)', setrow)
    def sglob(e, s, a, ins, dem, ctx): e.store(s, P(a[0].obj, iadd(a[0].off, 16)), a[1] if 'AsInteger' in dem else toint(tobool(a[1])), scal_ty(4, 'int'))
    A(r'OsiCut::setGloballyValid(AsInteger)?\(', sglob)
    A(r'OsiCut::setEffectiveness\(', lambda e, s, a, ins, dem, ctx: None)
    def insc(e, s, a, ins, dem, ctx):
        T(e, 'OsiCuts::insert appends the cut'); i = a[0].obj.id; n = s.ghost[('cs', i, 'n')]; p = a[1]
        for f in ('lb', 'ub', 'row'): s.ghost[('cs', i, f)] = AStore(s.ghost[('cs', i, f)], n, s.ghost[key(p, f)])
        g = e.load(s, P(p.obj, iadd(p.off, 16)), scal_ty(4, 'int')); s.ghost[('cs', i, 'glob')] = AStore(s.ghost[('cs', i, 'glob')], n, g)
        s.ghost[('cs', i, 'n')] = iadd(n, 1)
    A(r'OsiCuts::insert\(OsiRowCut const&\)', insc)
INF = Fraction(1.7976931348623157e308)

def cuts(c, name='cs'):
    o = Obj(name, lazy=True); c.st.mem[o] = OS(); g = c.st.ghost
    n0 = c.int('cuts_before', 0)
    g[('cs', o.id, 'n')] = n0
    for f in ('lb', 'ub', 'row'): g[('cs', o.id, f)] = ABase('real', 'old_%s_%s' % (name, f))
    g[('cs', o.id, 'glob')] = ABase('int', 'old_%s_glob' % name)
    return P(o), n0
def cut(st, cs, f): return st.ghost[('cs', cs.obj.id, f)]
