"""Term helpers: concrete values are Python int / Fraction / bool, symbolic ones are z3."""
import z3
from fractions import Fraction

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

class Unsupported(Exception):
    pass

def isz(x): return isinstance(x, z3.ExprRef)

def zi(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    if isz(x):
        if z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(x): return x
    raise Unsupported('int term expected: %r' % (x,))

def zr(x):
    if isinstance(x, bool): raise Unsupported('real expected')
    if isinstance(x, (int, Fraction)):
        x = Fraction(x); return z3.RealVal(str(x.numerator) if x.denominator == 1 else '%d/%d' % (x.numerator, x.denominator))
    if isz(x) and z3.is_real(x): return x
    if isz(x) and z3.is_int(x): return z3.ToReal(x)
    raise Unsupported('real term expected: %r' % (x,))

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    if isz(x):
        if z3.is_bool(x): return x
        if z3.is_int(x): return x != 0
    raise Unsupported('bool term expected: %r' % (x,))

def norm(t):
    """fold z3 literals to Python values"""
    if not isz(t): return t
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

_simp_cache = {}
def simp(t):
    if not isz(t): return t
    return norm(z3.simplify(t))

# ---- linear integer expressions -------------------------------------------------
_LIN = {}     # term id -> (term kept alive, result); results are never mutated
def lin(t):
    """-> (const, {id:(term,coef)})"""
    if isinstance(t, bool): return (int(t), {})
    if isinstance(t, int): return (t, {})
    i = t.get_id(); r = _LIN.get(i)
    if r is None: r = _LIN[i] = (t, lin_(t))
    return r[1]
def lin_(t):
    if z3.is_int_value(t): return (t.as_long(), {})
    if z3.is_add(t):
        c, d = 0, {}
        for ch in t.children():
            c2, d2 = lin(ch); c += c2
            for k, (tm, co) in d2.items():
                o = d.get(k); d[k] = (tm, co + (o[1] if o else 0))
        return (c, {k: v for k, v in d.items() if v[1]})
    if z3.is_sub(t):
        ch = t.children(); c, d = lin(ch[0]); d = dict(d)
        for x in ch[1:]:
            c2, d2 = lin(x); c -= c2
            for k, (tm, co) in d2.items():
                o = d.get(k); d[k] = (tm, (o[1] if o else 0) - co)
        return (c, {k: v for k, v in d.items() if v[1]})
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        c, d = lin(t.children()[0]); return (-c, {k: (tm, -co) for k, (tm, co) in d.items()})
    if z3.is_mul(t):
        ch = t.children(); co = 1; rest = []
        for x in ch:
            c, d = lin(x)
            if not d: co *= c
            else: rest.append((c, d))
        if not rest: return (co, {})
        if len(rest) == 1:
            c, d = rest[0]; return (c * co, {k: (tm, v * co) for k, (tm, v) in d.items()} if co else {})
        return (0, {t.get_id(): (t, 1)})
    return (0, {t.get_id(): (t, 1)})

def unlin(c, d):
    items = sorted(d.values(), key=lambda x: x[0].get_id())
    if not items: return c
    ts = [tm if co == 1 else z3.IntVal(co) * tm for tm, co in items]
    if c: ts.append(z3.IntVal(c))
    r = ts[0]
    for x in ts[1:]: r = r + x
    return r

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    c1, d1 = lin(a); c2, d2 = lin(b); d = dict(d1)
    for k, (tm, co) in d2.items():
        o = d.get(k); d[k] = (tm, co + (o[1] if o else 0))
    return unlin(c1 + c2, {k: v for k, v in d.items() if v[1]})

def ineg(a):
    if isinstance(a, int): return -a
    c, d = lin(a); return unlin(-c, {k: (tm, -co) for k, (tm, co) in d.items()})

def isub(a, b): return iadd(a, ineg(b))

def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(b, int): a, b = b, a
    if isinstance(a, int):
        if a == 0: return 0
        c, d = lin(b); return unlin(a * c, {k: (tm, a * co) for k, (tm, co) in d.items()})
    return zi(a) * zi(b)

def idivexact(a, n):
    """a / n, assuming a multiple of n"""
    if n == 1: return a
    if isinstance(a, int): return a // n
    c, d = lin(a)
    if c % n == 0 and all(co % n == 0 for _, co in d.values()):
        return unlin(c // n, {k: (tm, co // n) for k, (tm, co) in d.items()})
    return zi(a) / z3.IntVal(n)

def divisible(a, n):
    if n == 1: return True
    if isinstance(a, int): return a % n == 0
    c, d = lin(a)
    return c % n == 0 and all(co % n == 0 for _, co in d.values())

def tdiv(a, b):
    """C truncated division"""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b); return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b > 0 and divisible(a, b): return idivexact(a, b)
    a, b = zi(a), zi(b)
    return z3.If(a >= 0, z3.If(b >= 0, a / b, -(a / (-b))), z3.If(b >= 0, -((-a) / b), (-a) / (-b)))

def bnot(a):
    if isinstance(a, bool): return not a
    a = zb(a)
    return a.arg(0) if z3.is_not(a) else z3.Not(a)
def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        elif z3.is_true(x): pass
        elif z3.is_false(x): return False
        else: r.append(zb(x))
    return True if not r else r[0] if len(r) == 1 else z3.And(*r)
def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        elif z3.is_false(x): pass
        elif z3.is_true(x): return True
        else: r.append(zb(x))
    return False if not r else r[0] if len(r) == 1 else z3.Or(*r)
def implies(a, b): return bor(bnot(a), b)

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isz(a) and isz(b) and a.eq(b): return a
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b: return a
    if isinstance(a, bool) and isinstance(b, bool): return c if a else bnot(c)
    ka = kindof(a); kb = kindof(b)
    if 'real' in (ka, kb): return z3.If(c, zr(a), zr(b))
    if ka == 'bool' and kb == 'bool': return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))

def kindof(v):
    if isinstance(v, bool): return 'bool'
    if isinstance(v, int): return 'int'
    if isinstance(v, Fraction): return 'real'
    if isz(v):
        if z3.is_bool(v): return 'bool'
        if z3.is_int(v): return 'int'
        if z3.is_real(v): return 'real'
    return 'ptr'

def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = isub(a, b)
    if isinstance(d, int): return d == 0
    return zi(a) == zi(b)
def ilt(a, b):
    d = isub(a, b)
    if isinstance(d, int): return d < 0
    return zi(a) < zi(b)
def ile(a, b):
    d = isub(a, b)
    if isinstance(d, int): return d <= 0
    return zi(a) <= zi(b)

def req(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return zr(a) == zr(b)

def veq(a, b):
    """equality of two scalar values of the same kind"""
    ka, kb = kindof(a), kindof(b)
    if ka == 'real' or kb == 'real': return req(a, b)
    if ka == 'bool' and kb == 'bool':
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        return zb(a) == zb(b)
    return ieq(toint(a), toint(b))

def toint(v):
    if isinstance(v, bool): return int(v)
    if isz(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def tobool(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return v != 0
    if z3.is_bool(v): return v
    # undo ite(c,1,0)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() != 0 and b.as_long() == 0: return c
            if a.as_long() == 0 and b.as_long() != 0: return z3.Not(c)
    return v != 0

def sort_of(kind): return {'int': I, 'real': R, 'bool': B, 'ptr': I}[kind]
def tz(v, kind):
    return zr(v) if kind == 'real' else zb(v) if kind == 'bool' else zi(toint(v))

def subst(t, pairs):
    if not isz(t): return t
    pairs = [(a, b if isz(b) else tz(b, kindof(a))) for a, b in pairs]
    return norm(z3.substitute(t, *pairs))
