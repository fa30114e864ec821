"""Contracts assumed on dependencies (libstdc++, CoinUtils, Ipopt BLAS wrappers, runtime).
Each is part of the trusted base and is recorded in the evidence when used."""
import re, z3
from terms import *
from memory import *
from symex import Outcome

def T(ex, what): ex.trusted.add(what)

def elem_of(dem, cls='std::vector'):
    m = re.search(re.escape(cls) + r'<', dem)
    i = m.end(); d = 1; s = ''
    while i < len(dem):
        c = dem[i]
        if c == '<': d += 1
        if c == '>': d -= 1
        if d == 0 or (d == 1 and c == ','): break
        s += c; i += 1
    return esz_kind(s.strip())

def esz_kind(t):
    t = t.strip()
    if t.endswith(('*', '&')): return (8, 'ptr')
    t = t.replace('const', '').strip()
    if t in ('double', 'Number', 'Ipopt::Number'): return (8, 'real')
    if t in ('int', 'unsigned int', 'Index'): return (4, 'int')
    if t in ('unsigned long', 'long', 'long long'): return (8, 'int')
    if t in ('char', 'unsigned char', 'signed char'): return (1, 'int')
    if t == 'bool': return None
    if re.search(r'(Type|Status|Enum|Mode|Style|Linearity\w*|VariableType|LinearityType|ComparisonModes)$', t): return (4, 'int')
    return None

def zero(kind): return Fraction(0) if kind == 'real' else 0

# ---------------------------------------------------------------- vectors
class Ty8:
    kind = 'ptr'; size = 8; width = 64
PTR = Ty8()

def vec_raw(ex, st, p):
    s = ex.load(st, p, PTR); f = ex.load(st, P(p.obj, iadd(p.off, 8)), PTR)
    return s, f

def vec_len(ex, st, p, esz):
    s, f = vec_raw(ex, st, p)
    if s.obj is None: return 0
    if s.obj is not f.obj: raise Unsupported('vector with inconsistent storage')
    return idivexact(isub(f.off, s.off), esz)

def vec_arr(ex, st, p, esz, kind):
    """FArr contents (index 0 = first element)"""
    s, f = vec_raw(ex, st, p)
    if s.obj is None: return AConst(kind, zero(kind))
    os = ex.os(st, s.obj)
    if os.arr is None: os = ex.to_array(st, s.obj, os, esz, kind)
    o = idivexact(s.off, esz)
    if isinstance(o, int) and o == 0: return os.arr
    return AFun(kind, lambda i: os.arr.read(iadd(i, o)))

def vec_set(ex, st, p, esz, kind, n, arr, name='vecbuf'):
    """install a fresh buffer with n elements"""
    s = None
    try:
        s, f = vec_raw(ex, st, p)
    except Unsupported: pass
    if s is not None and isinstance(s, P) and s.obj is not None and s.obj.heap:
        st.mem[s.obj] = ex.os(st, s.obj).w(freed=True)
    o = ex.new_obj(st, name, size=imul(n, esz), arr=arr, esz=esz, heap=True)
    w8(ex, st, p, 0, P(o, 0)); w8(ex, st, p, 8, P(o, imul(n, esz))); w8(ex, st, p, 16, P(o, imul(n, esz)))
    return o

def w8(ex, st, p, d, v): ex.store(st, P(p.obj, iadd(p.off, d)), v, PTR)

def vec_init_fresh(ex, st, p):
    for d in (0, 8, 16): w8(ex, st, p, d, NULL)

def v_resize(ex, st, a, ins, dem, ctx):
    ek = elem_of(dem)
    if ek is None: raise Unsupported('vector element type in ' + dem)
    esz, kind = ek; T(ex, 'std::vector::resize')
    n = vec_len(ex, st, a[0], esz); new = a[1]
    fill = zero(kind)
    if len(a) > 2: fill = ex.toarrval(ex.load(st, a[2], scal_ty(esz, kind)), kind)
    eq = ieq(n, new)
    if eq is True or (isz(eq) and ex.prove_quick(st, eq)): return
    outs = []
    sa, sb = ex.split(st, eq) if isz(eq) else (None, st)
    if sa is not None: outs.append((sa, None))
    if sb is not None:
        s1, s2 = ex.split(sb, ilt(new, n))
        if s1 is not None:      # shrink: storage kept
            s, f = vec_raw(ex, s1, a[0]); ns = iadd(s.off, imul(new, esz))
            s1.mem[s.obj] = ex.os(s1, s.obj).w(size=ns); w8(ex, s1, a[0], 8, P(s.obj, ns)); outs.append((s1, None))
        if s2 is not None:
            old = vec_arr(ex, s2, a[0], esz, kind) if not (isinstance(n, int) and n == 0) else None
            arr = AConst(kind, fill)
            if old is not None: arr = ACopy(arr, 0, n, old, 0)
            vec_set(ex, s2, a[0], esz, kind, new, arr); outs.append((s2, None))
    return outs

class _Ty:
    def __init__(s, kind, size, width): s.kind, s.size, s.width = kind, size, width
def scal_ty(esz, kind):
    if kind == 'real': return _Ty('double', 8, 0)
    if kind == 'ptr': return _Ty('ptr', 8, 64)
    return _Ty('int', esz, esz * 8)

def v_clear(ex, st, a, ins, dem, ctx):
    T(ex, 'std::vector::clear')
    s, f = vec_raw(ex, st, a[0]); w8(ex, st, a[0], 8, s)
    if s.obj is not None: st.mem[s.obj] = ex.os(st, s.obj).w(size=0 if isinstance(s.off, int) and s.off == 0 else ex.os(st, s.obj).size)

def v_push(ex, st, a, ins, dem, ctx):
    ek = elem_of(dem)
    if ek is None: raise Unsupported('vector element type in ' + dem)
    esz, kind = ek; T(ex, 'std::vector::push_back')
    v = ex.toarrval(ex.load(st, a[1], scal_ty(esz, kind)), kind)
    s, f = vec_raw(ex, st, a[0])
    if s.obj is None:
        vec_set(ex, st, a[0], esz, kind, 1, AStore(AConst(kind, zero(kind)), 0, v)); return
    os = ex.os(st, s.obj)
    if os.arr is None: os = ex.to_array(st, s.obj, os, esz, kind)
    ns = iadd(f.off, esz)
    st.mem[s.obj] = os.w(arr=AStore(os.arr, idivexact(f.off, esz), v), size=ns)
    w8(ex, st, a[0], 8, P(s.obj, ns)); w8(ex, st, a[0], 16, P(s.obj, ns))

def v_assign(ex, st, a, ins, dem, ctx):
    ek = elem_of(dem)
    if ek is None: raise Unsupported('vector element type in ' + dem)
    esz, kind = ek; T(ex, 'std::vector::operator=')
    if a[0].obj is a[1].obj and ieq(a[0].off, a[1].off) is True: return a[0]
    n = vec_len(ex, st, a[1], esz)
    arr = vec_arr(ex, st, a[1], esz, kind)
    vec_set(ex, st, a[0], esz, kind, n, arr)
    return a[0]

def v_copyctor(ex, st, a, ins, dem, ctx):
    ek = elem_of(dem)
    if ek is None: raise Unsupported('vector element type in ' + dem)
    esz, kind = ek; T(ex, 'std::vector copy constructor')
    n = vec_len(ex, st, a[1], esz); arr = vec_arr(ex, st, a[1], esz, kind)
    vec_init_fresh(ex, st, a[0]); vec_set(ex, st, a[0], esz, kind, n, arr)

def v_sizector(ex, st, a, ins, dem, ctx):
    ek = elem_of(dem)
    if ek is None: raise Unsupported('vector element type in ' + dem)
    esz, kind = ek; T(ex, 'std::vector size constructor')
    fill = zero(kind)
    if len(a) > 3: fill = ex.toarrval(ex.load(st, a[2], scal_ty(esz, kind)), kind)
    vec_init_fresh(ex, st, a[0]); vec_set(ex, st, a[0], esz, kind, a[1], AConst(kind, fill))

def v_dtor(ex, st, a, ins, dem, ctx):
    T(ex, 'std::vector destructor')

def v_reserve(ex, st, a, ins, dem, ctx): T(ex, 'std::vector::reserve')

# ---------------------------------------------------------------- runtime
def rt_new(ex, st, a, ins, dem, ctx):
    T(ex, 'operator new (never fails)')
    o = ex.new_obj(st, 'new@%d' % ins.line, size=a[0], heap=True)
    return P(o, 0)

def rt_delete(ex, st, a, ins, dem, ctx):
    p = a[0]
    if isinstance(p, P) and p.obj is not None:
        os = ex.os(st, p.obj)
        if os.freed: ex.oblige(st, False, 'memory', 'double free of %s' % p.obj.name)
        if p.obj.heap: st.mem[p.obj] = os.w(freed=True)
        elif p.obj.lazy: st.mem[p.obj] = os.w(freed=True)

def rt_assert(ex, st, a, ins, dem, ctx):
    ex.oblige(st, False, 'assert', 'assertion at line %d' % ins.line)
    return []

def rt_throw(ex, st, a, ins, dem, ctx):
    v = None
    if dem == '__cxa_throw' and isinstance(a[1], P) and a[1].obj is not None:
        n = a[1].obj.name.lstrip('@')
        try: v = (n, ex.load(st, a[0], PTR) if n.startswith('_ZTIP') else a[0])
        except Unsupported: v = None
    return [Outcome('throw', st, v)]
def rt_begin_catch(ex, st, a, ins, dem, ctx):
    v = st.ghost.get(('exc', a[0].obj.id))
    if v is None: raise Unsupported('catch of an unknown exception')
    return v[1]
def rt_excalloc(ex, st, a, ins, dem, ctx):
    return P(ex.new_obj(st, 'exception', size=None, heap=True), 0)
def rt_nop(ex, st, a, ins, dem, ctx): return None
def rt_first(ex, st, a, ins, dem, ctx): return a[0]
def rt_abort(ex, st, a, ins, dem, ctx): return [Outcome('throw', st)]

def opaque(ex, st, a, ins, dem, ctx):
    """no tracked effect; fresh result"""
    T(ex, 'no tracked effect: ' + dem.split('(')[0])
    k = ins.ty.kind
    if k == 'void': return None
    if k == 'ptr':
        o = Obj('ret_' + re.sub(r'\W+', '_', dem.split('(')[0])[-30:], lazy=True); return P(o, 0)
    if k == 'int' and ins.ty.width == 1: return ex.fresh(st, 'bool', 'ret')
    if k == 'int': return ex.fresh(st, 'int', 'ret')
    if k == 'double': return ex.fresh(st, 'real', 'ret')
    raise Unsupported('opaque result of ' + dem)

def ostream(ex, st, a, ins, dem, ctx):
    T(ex, 'output streams and message handlers have no tracked effect')
    if ins.ty.kind == 'ptr': return a[0]
    if ins.ty.kind == 'void': return None
    return opaque(ex, st, a, ins, dem, ctx)

# ---------------------------------------------------------------- array primitives
def setarr(ex, st, p, n, kind, esz, build, what):
    """overwrite p[0..n) with build(FArr)"""
    if isinstance(n, int) and n == 0: return
    if not isinstance(p, P): raise Unsupported(what + ' through symbolic pointer')
    if p.obj is None:
        ex.oblige(st, ile(n, 0), 'memory', what + ' to null'); return
    os = ex.os(st, p.obj)
    if isz(p.obj.nullc) and not p.obj.origin: ex.oblige(st, implies(ilt(0, n), bnot(p.obj.nullc)), 'memory', what + ' to possibly null %s' % p.obj.name)
    if os.freed: ex.oblige(st, False, 'memory', what + ' to freed ' + p.obj.name)
    if os.size is not None:
        ex.oblige(st, implies(ilt(0, n), band(ile(0, p.off), ile(iadd(p.off, imul(n, esz)), os.size))), 'memory', '%s in bounds of %s' % (what, p.obj.name))
    os = ex.os(st, p.obj)
    if os.arr is None: os = ex.to_array(st, p.obj, os, esz, kind)
    if os.esz != esz: raise Unsupported(what + ' element size')
    nn = n
    if isz(n) and not ex.prove_quick(st, n >= 0): nn = z3.If(n > 0, n, z3.IntVal(0))
    st.mem[p.obj] = os.w(arr=ACopy(os.arr, idivexact(p.off, esz), nn, build, 0))

def rdarr(ex, st, p, n, kind, esz, what):
    """FArr view of p[0..]"""
    if not isinstance(p, P): raise Unsupported(what + ' through symbolic pointer')
    if p.obj is None:
        ex.oblige(st, ile(n, 0), 'memory', what + ' from null'); return AConst(kind, zero(kind))
    os = ex.os(st, p.obj)
    if isz(p.obj.nullc) and not p.obj.origin: ex.oblige(st, implies(ilt(0, n), bnot(p.obj.nullc)), 'memory', what + ' from possibly null %s' % p.obj.name)
    if os.freed: ex.oblige(st, False, 'memory', what + ' from freed ' + p.obj.name)
    if os.size is not None:
        ex.oblige(st, implies(ilt(0, n), band(ile(0, p.off), ile(iadd(p.off, imul(n, esz)), os.size))), 'memory', '%s in bounds of %s' % (what, p.obj.name))
    os = ex.os(st, p.obj)
    if os.arr is None: os = ex.to_array(st, p.obj, os, esz, kind)
    if os.esz != esz: raise Unsupported(what + ' element size')
    o = idivexact(p.off, esz)
    arr = os.arr
    if isinstance(o, int) and o == 0: return arr
    return AFun(kind, lambda i: arr.read(iadd(i, o)))

def copyn(ex, st, src, n, dst, esz, kind, what):
    if isinstance(n, int) and n <= 0: return
    a = rdarr(ex, st, src, n, kind, esz, what)
    setarr(ex, st, dst, n, kind, esz, a, what)

def b_dcopy(ex, st, a, ins, dem, ctx):
    T(ex, 'Ipopt::IpBlasDcopy')
    n, x, ix, y, iy = a
    if iy != 1: raise Unsupported('IpBlasDcopy stride')
    if ix == 1: copyn(ex, st, x, n, y, 8, 'real', 'IpBlasDcopy')
    elif ix == 0:
        v = ex.load(st, x, scal_ty(8, 'real')); setarr(ex, st, y, n, 'real', 8, AConst('real', v), 'IpBlasDcopy')
    else: raise Unsupported('IpBlasDcopy stride')

def tpl(dem, name):
    m = re.search(re.escape(name) + r'<', dem); i = m.end(); d = 1; s = ''
    while i < len(dem):
        c = dem[i]
        if c == '<': d += 1
        if c == '>': d -= 1
        if d == 0 or (d == 1 and c == ','): break
        s += c; i += 1
    return s.strip()

def c_copyn(ex, st, a, ins, dem, ctx):
    nm = re.search(r'(Coin\w*Copy\w*N|CoinMemcpyN|CoinDisjointCopyN|CoinCopyN)<', dem).group(1)
    ek = esz_kind(tpl(dem, nm))
    if ek is None: return NotImplemented
    T(ex, nm); copyn(ex, st, a[0], a[1], a[2], ek[0], ek[1], nm)

def c_filln(ex, st, a, ins, dem, ctx):
    nm = re.search(r'(CoinFillN|CoinZeroN)<', dem).group(1)
    ek = esz_kind(tpl(dem, nm))
    if ek is None: return NotImplemented
    T(ex, nm)
    v = a[2] if nm == 'CoinFillN' else zero(ek[1])
    setarr(ex, st, a[0], a[1], ek[1], ek[0], AConst(ek[1], ex.toarrval(v, ek[1])), nm)

def c_copyof(ex, st, a, ins, dem, ctx):
    nm = 'CoinCopyOfArray'
    ek = esz_kind(tpl(dem, nm))
    if ek is None or 'CoinCopyOfArrayPartial' in dem: return NotImplemented
    T(ex, nm)
    src, n = a[0], a[1]
    outs = []
    def mk(s2):
        o = ex.new_obj(s2, 'copyOfArray@%d' % ins.line, size=imul(n, ek[0]), arr=ex.fresh_arr(s2, ek[1], 'copyof'), esz=ek[0], heap=True)
        copyn(ex, s2, src, n, P(o, 0), ek[0], ek[1], nm); return P(o, 0)
    if src.obj is None:
        if len(a) == 2: return NULL
        o = ex.new_obj(st, 'copyOfArray@%d' % ins.line, size=imul(n, ek[0]), arr=AConst(ek[1], a[2]), esz=ek[0], heap=True); return P(o, 0)
    if isz(src.obj.nullc):
        sa, sb = ex.split(st, src.obj.nullc)
        if sa is not None:
            if len(a) == 2: outs.append((sa, NULL))
            else: outs.append((sa, P(ex.new_obj(sa, 'copyOfArray', size=imul(n, ek[0]), arr=AConst(ek[1], a[2]), esz=ek[0], heap=True), 0)))
        if sb is not None: outs.append((sb, mk(sb)))
        return outs
    return mk(st)

def s_copy(ex, st, a, ins, dem, ctx):
    """std::copy(first,last,out) on raw pointers / vector iterators of scalars"""
    ek = copy_elem(dem)
    if ek is None: return NotImplemented
    T(ex, 'std::copy'); esz, kind = ek
    f, l, o = a
    if f.obj is not l.obj: raise Unsupported('std::copy range')
    n = idivexact(isub(l.off, f.off), esz)
    copyn(ex, st, f, n, o, esz, kind, 'std::copy')
    return P(o.obj, iadd(o.off, imul(n, esz)))

def copy_elem(dem):
    m = re.search(r'std::(?:copy|fill|fill_n|uninitialized_copy)<(.*)', dem)
    if not m: return None
    s = m.group(1)
    if 'bool' in s.split('(')[0]: return None
    m2 = re.match(r'(?:__gnu_cxx::__normal_iterator<)?([\w: ]+?)(?: const)?\*', s)
    if not m2: return None
    t = m2.group(1)
    if re.match(r'(?:__gnu_cxx::__normal_iterator<)?[\w: ]+\*\*', s) or '**' in s.split(',')[0]: return (8, 'ptr')
    return esz_kind(t)

def s_fill(ex, st, a, ins, dem, ctx):
    ek = copy_elem(dem)
    if ek is None: return NotImplemented
    T(ex, 'std::fill'); esz, kind = ek
    v = ex.toarrval(ex.load(st, a[2], scal_ty(esz, kind)), kind)
    if 'std::fill_n' in dem:
        n = a[1]; setarr(ex, st, a[0], n, kind, esz, AConst(kind, v), 'std::fill_n'); return P(a[0].obj, iadd(a[0].off, imul(n, esz)))
    f, l = a[0], a[1]
    if f.obj is not l.obj: raise Unsupported('std::fill range')
    n = idivexact(isub(l.off, f.off), esz)
    setarr(ex, st, f, n, kind, esz, AConst(kind, v), 'std::fill')

def m_floor(ex, st, a, ins, dem, ctx): return ex.floor(a[0])
def m_ceil(ex, st, a, ins, dem, ctx):
    v = a[0]
    if isinstance(v, Fraction): return Fraction(v.__ceil__())
    return -ex.floor(-v)
def m_fabs(ex, st, a, ins, dem, ctx):
    v = a[0]
    if isinstance(v, Fraction): return abs(v)
    return z3.If(v >= 0, v, -v)
def m_sqrt(ex, st, a, ins, dem, ctx):
    f = z3.Function('sqrt', R, R); r = f(zr(a[0])); st.assume(z3.Implies(zr(a[0]) >= 0, z3.And(r >= 0, r * r == zr(a[0])))); return r
def m_uf(name):
    def h(ex, st, a, ins, dem, ctx):
        f = z3.Function(name, *([R] * len(a)), R); return f(*[zr(x) for x in a])
    return h

def smart_get(ex, st, p): return ex.load(st, p, PTR)
def smart_set(ex, st, a, ins, dem, ctx):
    T(ex, 'SmartPtr behaves as a plain pointer (reference counts not tracked)')
    v = a[1]
    return v

def sp_ctor_raw(ex, st, a, ins, dem, ctx):
    T(ex, 'SmartPtr behaves as a plain pointer (reference counts not tracked)')
    v = a[1]
    if 'SmartPtr<' in dem.split('(')[-1] or re.search(r'\((?:Ipopt|Coin)::SmartPtr', dem): v = ex.load(st, v, PTR)
    ex.store(st, a[0], v, PTR); return a[0] if 'operator=' in dem else None
def sp_ctor0(ex, st, a, ins, dem, ctx): ex.store(st, a[0], NULL, PTR)
def sp_dtor(ex, st, a, ins, dem, ctx):
    T(ex, 'SmartPtr behaves as a plain pointer (reference counts not tracked)')

def rt_dyncast(ex, st, a, ins, dem, ctx):
    T(ex, 'dynamic_cast: null or the same object')
    p = a[0]
    tn = a[2].obj.name if isinstance(a[2], P) else '?'
    if isinstance(p, SymP):
        b = z3.Function('isa_%s' % tn, I, B)(zi(ex.addr(p)))
        sa, sb = ex.split(st, b)
        return ([(sa, p)] if sa is not None else []) + ([(sb, NULL)] if sb is not None else [])
    if p.obj is None: return NULL
    if p.obj.cls:
        r = ex.isa(p.obj.cls, tn)
        if r is not None: return p if r else NULL
    b = z3.Bool('isa(%s,%s)' % (p.obj.name + str(p.obj.id), tn))
    sa, sb = ex.split(st, band(b, bnot(p.obj.nullc)) if isz(p.obj.nullc) else b)
    return ([(sa, p)] if sa is not None else []) + ([(sb, NULL)] if sb is not None else [])

def install(ex):
    A = ex.add_model
    V = r'(?:std|Bonmin)::vector<.*>::'
    V = r'std::vector<.*>::'
    # opaque output
    A(r'(std::basic_ostream|std::ostream|std::operator<<|std::endl|std::flush|std::ios|std::__cxx11::basic_o?string(stream|buf)|std::setw|std::setprecision|std::basic_ios|std::ios_base|CoinMessageHandler::|CoinMessages::|printf|fprintf|puts|putchar|fputs|fwrite|fflush)', ostream)
    A(r'.*std::basic_ostream<.*operator<<', ostream)
    A(r'.*std::basic_ostream<char, std::char_traits<char>>& std::(operator<<|endl|flush)', ostream)
    A(r'std::(vector|__cxx11::list)<.*>::~', v_dtor)
    A(V + r'resize\(', v_resize)
    A(V + r'clear\(', v_clear)
    A(V + r'(push_back|emplace_back<.*>)\(', v_push)
    A(V + r'operator=\(std::vector<.*> const&\)', v_assign)
    A(V + r'vector\(std::vector<.*> const&\)', v_copyctor)
    A(V + r'vector\(unsigned long, ', v_sizector)
    A(V + r'reserve\(', v_reserve)
    A(r'operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)', rt_new)
    A(r'operator delete(\[\])?\(', rt_delete)
    A(r'(malloc)$', rt_new); A(r'free$', rt_delete)
    A(r'__assert_fail$', rt_assert)
    A(r'__cxa_throw$|__cxa_rethrow$|std::__throw_', rt_throw)
    A(r'__cxa_allocate_exception$', rt_excalloc); A(r'__cxa_begin_catch$', rt_begin_catch)
    A(r'__cxa_(free_exception|guard_|atexit|end_catch)|__clang_call_terminate', rt_nop)
    A(r'(abort|exit|std::terminate\(\))$', rt_abort)
    A(r'Ipopt::IpBlasDcopy\(', b_dcopy)
    A(r'void Coin(\w*CopyN|MemcpyN)<', c_copyn)
    A(r'void Coin(FillN|ZeroN)<', c_filln)
    A(r'.*CoinCopyOfArray<', c_copyof)
    A(r'.* std::copy<', s_copy)
    A(r'.* std::fill(_n)?<', s_fill)
    A(r'floor$|std::floor', m_floor); A(r'ceil$|std::ceil', m_ceil); A(r'fabs$|std::fabs\(|std::abs\(double', m_fabs)
    A(r'sqrt$', m_sqrt)
    for f in ('pow', 'exp', 'log', 'sin', 'cos'): A(f + '$', m_uf(f))
    SP = r'(?:Ipopt|Coin)::SmartPtr<.*>::'
    A(SP + r'SmartPtr\(', sp_ctor_raw); A(SP + r'SmartPtr\(\)', sp_ctor0)
    A(SP + r'operator=\(', sp_ctor_raw); A(SP + r'~SmartPtr', sp_dtor)
    A(r'__gxx_personality', rt_nop)
    A(r'__dynamic_cast$', rt_dyncast)
    A(r'std::__cxx11::basic_string<.*>::|std::(__cxx11::)?(operator\+|to_string)|strlen$|.*std::__cxx11::basic_string<.*> std::operator\+', opaque)
    A(r'CoinCpuTime\(\)|CoinWallclockTime|CoinGetTimeOfDay', opaque)
