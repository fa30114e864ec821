"""Discharges obligations with z3 after manual (trigger-driven) instantiation of the
history facts of loops and of quantified contract facts; proves fold equalities by
induction."""
import z3, time
from terms import *

class Forall:
    """forall g in range: body(g).  body is a z3 formula over the plain constant g."""
    __slots__ = ('g', 'rng', 'body', 'nested', 'name', 'patdecls', '_pats', '_memo', 'last')
    def __init__(s, g, rng, body, nested=(), name=''):
        s.g, s.rng, s.body, s.nested, s.name = g, rng, body, list(nested), name; s._pats = None; s._memo = {}; s.last = None
    def subst(s, pairs):
        r = Forall(s.g, subst(s.rng, pairs), subst(s.body, pairs), [(subst(gd, pairs), n.subst(pairs)) for gd, n in s.nested], s.name)
        if s.last is not None: r.last = subst(s.last, pairs)
        return r
    def inst(s, t):
        r = s._memo.get(t.get_id())
        if r is None: r = s._memo[t.get_id()] = s.inst_(t) + (t,)
        return r[0], r[1]
    def inst_(s, t):
        pr = [(s.g, t)]
        r = subst(s.rng, pr)
        if isz(r) and simp(r) is False: return True, []
        b = subst(s.body, pr)
        f = implies(r, b) if isz(b) or isinstance(b, bool) else b
        nested = []
        for gd, n in s.nested:
            n2 = n.subst(pr); gd2 = band(r, subst(gd, pr))
            nested.append(Forall(n2.g, band(gd2, n2.rng), n2.body, n2.nested, n2.name))
        return f, nested
    def patterns(s):
        """(decl, argpos, a, b): application decl(..., a*g+b, ...) in body"""
        if s._pats is not None: return s._pats
        out = {}; seen = set(); stack = [x for x in (s.body, s.rng) if isz(x)]
        nn = [n for _, n in s.nested]; bound = []
        while nn:
            q = nn.pop(); bound.append(q.g); stack += [x for x in (q.body, q.rng) if isz(x)]; nn += [z for _, z in q.nested]
        gid = s.g.get_id()
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                for p in range(t.num_args()):
                    a = t.arg(p)
                    if z3.is_int(a):
                        c, d = lin(a)
                        if gid in d and abs(d[gid][1]) == 1:
                            rest = unlin(c, {k: v for k, v in d.items() if k != gid})
                            if not occurs(rest, s.g) and not any(occurs(rest, b) for b in bound): out[(t.decl().get_id(), p, d[gid][1], str(rest))] = (t.decl(), p, d[gid][1], rest)
            stack += t.children()
        s._pats = list(out.values())
        return s._pats

def ids(ts): return tuple(x.get_id() for x in ts)

def occurs(t, g):
    if not isz(t): return False
    st = [t]; seen = set(); gid = g.get_id()
    while st:
        x = st.pop()
        if x.get_id() == gid: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
    return False

_APPS = {}    # term id -> (term kept alive, [uninterpreted applications])
def apps1(t):
    r = _APPS.get(t.get_id())
    if r is not None: return r[1]
    o = []; seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args():
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED: o.append((d.get_id(), x))
                st += x.children()
    _APPS[t.get_id()] = (t, o)
    return o

def apps(ts):
    out = {}; seen = set()
    for t in ts:
        if not isz(t): continue
        for d, x in apps1(t):
            i = x.get_id()
            if i in seen: continue
            seen.add(i); out.setdefault(d, []).append(x)
    return out

def apps_old(ts):
    out = {}; seen = set(); st = [t for t in ts if isz(t)]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args(): out.setdefault(t.decl().get_id(), []).append(t)
            st += t.children()
    return out

def conj(f):
    """top-level conjuncts, looking through and / not-or / not-implies"""
    if z3.is_and(f): return [g for x in f.children() for g in conj(x)]
    if z3.is_not(f):
        x = f.arg(0)
        if z3.is_or(x): return [g for y in x.children() for g in conj(z3.Not(y))]
        if z3.is_implies(x): return conj(x.arg(0)) + conj(z3.Not(x.arg(1)))
        if z3.is_not(x): return conj(x.arg(0))
    return [f]

class Fold:
    """A function F(params.., t) with F(..,0)=init and a step equation.
       origin 'loop': the step equation is a history fact of the loop;
       origin 'spec': init/step given here as functions of (params, t)."""
    def __init__(s, decl, kind, tpos=-1, init=None, step=None, name='', K=None, origin='spec', loop=None):
        s.decl, s.kind, s.tpos, s.init, s.step, s.name, s.K, s.origin, s.loop = decl, kind, tpos, init, step, name, K, origin, loop
        s.ar = decl.arity(); s.tp = tpos % s.ar; s.mono = 0
    def split(s, args):
        return [a for i, a in enumerate(args) if i != s.tp], args[s.tp]
    def app(s, p, t):
        a = list(p); a.insert(s.tp, zi(t)); return s.decl(*a)
    def axiom(s, t):
        if s.origin != 'spec': return []
        p, tm = s.split([t.arg(i) for i in range(t.num_args())])
        out = [z3.Implies(tm == 0, t == tz(s.init(p), s.kind))]
        c, d = lin(tm)
        if c >= 1:
            pt = isub(tm, 1)
            out.append(z3.Implies(zi(pt) >= 0, t == tz(s.step(p, pt, s.app(p, pt)), s.kind)))
        return out

_NL = {}
def nonlin1(t):
    r = _NL.get(t.get_id())
    if r is not None: return r[1]
    o = {}; seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            ch = x.children()
            if ch and z3.is_real(x) and (z3.is_mul(x) or z3.is_div(x)) and sum(not z3.is_rational_value(c) for c in ch) >= 2: o[i] = x
            elif ch and z3.is_div(x) and z3.is_real(x) and not z3.is_rational_value(ch[1]): o[i] = x
            st += ch
    _NL[t.get_id()] = (t, o)
    return o
def nonlin(fs):
    o = {}
    for f in fs:
        if isz(f): o.update(nonlin1(f))
    return o

_MUL = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort()); _DIV = z3.Function('div', z3.RealSort(), z3.RealSort(), z3.RealSort())
def abstract_products(fs, ms, cong=False):
    """replace innermost-last; each product a*b (after taking out numerals) becomes a constant with lemmas"""
    terms = sorted(ms.values(), key=lambda t: len(t.sexpr())); pairs = []; lem = []; done = {}
    sub = lambda t: z3.substitute(t, *reversed(pairs)) if pairs and isz(t) and nonlin1(t) else t
    for t in terms:
        if z3.is_div(t):
            a, b = sub(t.arg(0)), sub(t.arg(1)); v = _DIV(z3.ToReal(a) if a.is_int() else a, z3.ToReal(b) if b.is_int() else b) if cong else z3.FreshReal('quot')
            lem += [z3.Implies(z3.And(a >= 0, b > 0), v >= 0), z3.Implies(z3.And(a <= 0, b > 0), v <= 0), z3.Implies(z3.And(b > 0, a <= b), v <= 1), z3.Implies(z3.And(b > 0, a >= b), v >= 1)]
            pairs.append((t, v)); continue
        num = z3.RealVal(1); rest = []
        for c in t.children():
            if z3.is_rational_value(c): num = z3.simplify(num * c)
            else: rest.append(sub(c))
        v = rest[0]
        for b in rest[1:]:
            x, y = (v, b) if v.get_id() <= b.get_id() else (b, v)
            k = (x.get_id(), y.get_id())
            if k not in done:
                w = _MUL(*[z3.ToReal(q) if q.is_int() else q for q in (x, y)]) if cong else z3.FreshReal('prod'); done[k] = (w, x, y)
                lem += [z3.Implies(z3.And(x >= 0, y >= 0), w >= 0), z3.Implies(z3.And(x <= 0, y <= 0), w >= 0), z3.Implies(z3.And(x >= 0, y <= 0), w <= 0), z3.Implies(z3.And(x <= 0, y >= 0), w <= 0),
                        z3.Implies(z3.Or(x == 0, y == 0), w == 0), z3.Implies(x == 1, w == y), z3.Implies(y == 1, w == x)]
                for p, q in ((x, y), (y, x)):
                    lem += [z3.Implies(z3.And(p <= 1, q >= 0), w <= q), z3.Implies(z3.And(p <= 1, q <= 0), w >= q), z3.Implies(z3.And(p >= 1, q >= 0), w >= q), z3.Implies(z3.And(p >= 1, q <= 0), w <= q), z3.Implies(p == -1, w == -q)]
            v = done[k][0]
        pairs.append((t, num * v if not (z3.is_rational_value(num) and num.as_fraction() == 1) else v))
    nl = [f for f in fs if isz(f) and nonlin1(f)]; rest = [f for f in fs if not (isz(f) and nonlin1(f))]
    return rest + ([sub(z3.And(*nl))] if nl else []) + lem

_FLOOR = z3.Function('floor', z3.RealSort(), z3.IntSort())
def abstract_floors(fs):
    """floors become an uninterpreted function (unsat is sound); None if there are none"""
    fm = z3.And(*[zb(f) for f in fs]); ts = {}; seen = set(); st = [fm]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_INT): ts[x.get_id()] = x
        st += x.children()
    if not ts: return None
    pairs = []
    for t in sorted(ts.values(), key=lambda t: len(t.sexpr())):
        a = z3.substitute(t.arg(0), *reversed(pairs)) if pairs else t.arg(0)
        f = _FLOOR(z3.simplify(a)); pairs.append((t, f))
    return [z3.substitute(fm, *reversed(pairs))]

class Prover:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.folds = {}     # decl id -> Fold
        self.solver_time = 0.0; self.queries = 0
        self.skn = 0; self.active = []; self.store = []    # lemmas proved by induction, with the path condition they hold under
        self.lemma_s = 60
        self.submap = []    # bounded refutation mode: fixed sizes

    def sk(self, name='j', sort=I):
        self.skn += 1
        return z3.Const('%s!sk%d' % (name, self.skn), sort)

    def check(self, fs, timeout=None):
        """products of two unknowns are first abstracted by fresh reals with sign/monotonicity lemmas (unsat is sound)"""
        ms = nonlin(fs)
        if ms:
            r = self.check_(abstract_products(fs, ms), timeout)
            if r[0] == 'unsat': return r
        r = self.check_(fs, timeout)
        if r[0] == 'unknown' and ms:
            q = self.check_(abstract_products(fs, ms, True), timeout)   # equal factors give equal products
            if q[0] == 'unsat': return q
        if r[0] == 'unknown':
            fl = abstract_floors(fs)
            if fl is not None:
                q = self.check_(fl, timeout)
                if q[0] == 'unsat': return q
        return r

    def check_(self, fs, timeout=None):
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        for f in fs:
            if isinstance(f, bool):
                if not f: return 'unsat', None
                continue
            s.add(f)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t; self.queries += 1
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None

    def instantiate(self, fs, facts, rounds=3, cap=400):
        """fs: QF formulas; facts: Forall list. returns extra instances"""
        extra = []; done = set(); work = list(facts); self.keep = []
        for rd in range(rounds):
            ap = apps(fs + extra)
            new = []
            nested_new = []
            for F in work:
                cands = {}
                for decl, p, a, rest in F.patterns():
                    for t in ap.get(decl.get_id(), ()):
                        e = t.arg(p)
                        v = e if isinstance(rest, int) and rest == 0 and a == 1 else isub(e, rest)
                        if a == -1: v = ineg(v)
                        v = zi(v)
                        cands[v.get_id()] = v; self.keep.append(v)
                for key, v in cands.items():
                    kk = (id(F), key)
                    if kk in done: continue
                    done.add(kk)
                    f, nested = F.inst(zi(v))
                    if isz(f): new.append(f)
                    elif f is False: new.append(z3.BoolVal(False))
                    nested_new += nested
                    if len(done) > cap: break
                if len(done) > cap: break
            # spec/loop fold axioms
            for did, ts in apps(fs + extra + new).items():
                F = self.folds.get(did)
                if not F or F.origin != 'spec': continue
                for t in ts:
                    kk = ('fold', t.get_id())
                    if kk in done: continue
                    done.add(kk)
                    new += F.axiom(t)
            # counters that only grow (shrink): order of their values at the times mentioned
            for did, ts in apps(fs + extra + new).items():
                F = self.folds.get(did)
                if not F or not F.mono: continue
                ts = ts[:10]
                for i, t1 in enumerate(ts):
                    for t2 in ts[i + 1:]:
                        kk = ('mono', t1.get_id(), t2.get_id())
                        if kk in done: continue
                        done.add(kk); self.keep += [t1, t2]
                        p1, a1 = F.split([t1.arg(q) for q in range(t1.num_args())]); p2, a2 = F.split([t2.arg(q) for q in range(t2.num_args())])
                        if any(not x.eq(y) for x, y in zip(p1, p2)): continue
                        N = F.K(p1) if F.K else None
                        for (ta, va), (tb, vb) in (((a1, t1), (a2, t2)), ((a2, t2), (a1, t1))):
                            if F.origin == 'spec':
                                nx = tz(F.step(p1, ta, va), F.kind); new.append(z3.Implies(z3.And(ta >= 0, ta < tb), nx <= vb if F.mono > 0 else nx >= vb))
                            new.append(z3.Implies(z3.And(ta >= 0, ta <= tb, tb <= zi(N)) if N is not None else z3.And(ta >= 0, ta <= tb), va <= vb if F.mono > 0 else va >= vb))
            work = work + nested_new
            if not new and not nested_new: break
            extra += new
            if len(done) > cap: break
        return extra

    def prove(self, pc, facts, goal, depth=0, lemmas=True, timeout=None):
        """returns ('proved',None) | ('refuted',model) | ('unknown',reason)"""
        if isinstance(goal, bool) and goal: return 'proved', None
        if self.submap:
            goal = subst(goal, self.submap); pc = [subst(f, self.submap) for f in pc]
            pc = [f for f in pc if f is not True] + [v == c for v, c in self.submap]; pc = [z3.BoolVal(False) if f is False else f for f in pc]
            if isz(goal): goal = simp(goal)
            if isinstance(goal, bool) and goal: return 'proved', None
        ng = bnot(goal) if not isinstance(goal, bool) else True
        ngz = ng if isz(ng) else z3.BoolVal(bool(ng))
        if lemmas and not self.submap:
            cj = conj(ngz); hyp = [f for f in cj if not self._folds_in([f])]
            if hyp and len(hyp) < len(cj): pc = list(pc) + hyp; ngz = z3.And(*[f for f in cj if self._folds_in([f])])
        base = [f for f in pc] + [ngz]
        if self.store and not self.submap:
            ids = set(f.get_id() for f in pc if isz(f))
            facts = facts + [F for key, _, F in self.store if key <= ids]
        inst = self.instantiate(base, facts, rounds=12, cap=2000) if self.submap else self.instantiate(base, facts)
        r, m = self.check(base + inst, timeout)
        if r == 'unsat': return 'proved', None
        if not self.submap and depth < 2:
            # last completed iteration of each loop
            xs = [F.inst(zi(F.last))[0] for F in facts if F.last is not None]; xs = [f for f in xs if isz(f)]
            if xs:
                base = base + xs; inst = self.instantiate(base, facts)
                r, m = self.check(base + inst, timeout)
                if r == 'unsat': return 'proved', None
        hasfold = self._folds_in(base + inst)
        if self.submap and r == 'sat' and not facts:
            # every fold present must be fully unfolded for the model to count
            full = all(F.origin == 'spec' and z3.is_int_value(z3.simplify(F.split([t.arg(i) for i in range(t.num_args())])[1])) for F, ts in hasfold for t in ts)
            return ('refuted', m) if full else ('unknown', m)
        if self.submap: return 'unknown', m
        if lemmas and depth < 2 and hasfold:
            cnts = [(F, ts) for F, ts in hasfold if F.kind == 'int' and F.ar == 1]
            if any(F.origin == 'spec' for F, _ in cnts) and any(F.origin == 'loop' for F, _ in cnts):
                n0 = len(self.store)
                lem = self.fold_lemmas(pc, facts, base + inst, cnts, depth)
                if lem:
                    facts = facts + [F for _, _, F in self.store[n0:]]
                    base = base + lem; inst = self.instantiate(base, facts)
                    r2, m2 = self.check(base + inst, timeout)
                    if r2 == 'unsat': return 'proved', None
                    hasfold = self._folds_in(base + inst)
        if lemmas and depth < 2 and hasfold:
            lem = self.persist(pc, facts, base + inst, hasfold, depth)
            if lem:
                base = base + lem; inst = self.instantiate(base, facts)
                r2, m2 = self.check(base + inst, timeout)
                if r2 == 'unsat': return 'proved', None
                hasfold = self._folds_in(base + inst)
        if lemmas and depth < 3 and hasfold:
            ing = self._folds_in([ngz])
            lem = self.fold_lemmas(pc, facts, base + inst, ing, depth) if len(ing) > 1 or (ing and len(ing[0][1]) > 1) else []
            if lem:
                base2 = base + lem
                inst2 = self.instantiate(base2, facts)
                r2, m2 = self.check(base2 + inst2, timeout)
                if r2 == 'unsat': return 'proved', None
            if depth >= 2: return 'unknown', m
            lem = lem + self.fold_lemmas(pc, facts, base + inst, hasfold, depth, ngz)
            if lem:
                base2 = base + lem
                inst2 = self.instantiate(base2, facts)
                r2, m2 = self.check(base2 + inst2, timeout)
                if r2 == 'unsat': return 'proved', None
        if r == 'sat' and not hasfold and not facts: return 'refuted', m
        if r == 'sat' and not hasfold: return 'refuted?', m
        return 'unknown', m

    def _folds_in(self, fs):
        out = []
        for did, ts in apps(fs).items():
            F = self.folds.get(did)
            if F: out.append((F, ts))
        return out

    def persist(self, pc, facts, fs, present, depth):
        """array element written at a growing index c(R) keeps its value: A(t, c(R)) == A(R+1, c(R)) for t > R, by induction"""
        lem = []
        for F, ts in present:
            if F.origin != 'loop' or F.tp != F.ar - 2: continue
            if not any(G.loop is F.loop and G.mono for G in self.folds.values()): continue
            seen = set()
            for t in ts:
                j = t.arg(F.ar - 1); tm = t.arg(F.tp)
                for did, cs in apps([j]).items():
                    C = self.folds.get(did)
                    if not C or not C.mono or not (C.loop is F.loop or C.origin == 'spec'): continue
                    for ca in cs:
                        if set(lin(j)[1]) != {ca.get_id()}: continue
                        pr, rr = C.split([ca.arg(q) for q in range(ca.num_args())])
                        key = (rr.get_id(), j.get_id())
                        if key in seen: continue
                        seen.add(key)
                        pair = ('persist', F.decl.get_id(), rr.get_id(), j.get_id())
                        if pair in self.active: continue
                        prm, _ = F.split([t.arg(q) for q in range(t.num_args())]); N = F.K(prm)
                        t0 = norm(zi(iadd(rr, 1)))
                        v = self.sk('t'); a0 = F.app(prm, t0)
                        hyp = [v >= t0, t0 >= 0, v < zi(N), F.app(prm, v) == a0]
                        self.active.append(pair)
                        try: r = self.prove(pc + hyp, facts, F.app(prm, v + 1) == a0, depth + 1, lemmas=False, timeout=3000)
                        finally: self.active.pop()
                        if r[0] != 'proved': continue
                        w = self.sk('tl'); pcs = [f for f in pc if isz(f)]
                        self.store.append((frozenset(f.get_id() for f in pcs), pcs, Forall(w, z3.And(w >= t0, t0 >= 0, w <= zi(N)), F.app(prm, w) == a0)))
                        lem.append(z3.Implies(z3.And(tm >= t0, t0 >= 0, tm <= zi(N)), F.app(prm, tm) == a0))
        return lem

    def fold_lemmas(self, pc, facts, fs, present, depth, ng=None):
        """try pairwise equalities F(p,t)=G(q,t) by induction for all pairs present at 'final' times"""
        lem = []
        items = []; times = {}
        for F, ts in present:
            seen = set()
            for t in ts:
                prm, tm = F.split([t.arg(i) for i in range(t.num_args())])
                times.setdefault((F.decl.get_id(), ids(prm)), {})[tm.get_id()] = tm
            for t in ts:
                args = [t.arg(i) for i in range(t.num_args())]
                prm, tm = F.split(args)
                k2 = ids(prm)
                if k2 in seen: continue
                seen.add(k2); items.append((F, prm, tm))
        tried = set()
        if ng is not None:
            ing = set(F.decl.get_id() for F, _ in self._folds_in([ng]))
        t0 = time.time()
        order = [(i, j) for i in range(len(items)) for j in range(i + 1, len(items))]
        order.sort(key=lambda ij: items[ij[0]][0].origin == items[ij[1]][0].origin)      # a specification fold against a loop first
        for i, j in order:
            if True:
                F, p, tF = items[i]; G, q, tG = items[j]
                if F.kind != G.kind: continue
                if ng is not None and F.decl.get_id() not in ing and G.decl.get_id() not in ing and depth > 0: continue
                if time.time() - t0 > self.lemma_s: return lem
                if F.decl.get_id() == G.decl.get_id() and ids(p) == ids(q): continue
                if F.origin == 'loop' and G.origin == 'loop' and F.loop is G.loop: continue
                key = (F.name, ids(p), G.name, ids(q))
                if key in tried or len(tried) > 40: continue
                tried.add(key)
                pair = frozenset((F.decl.get_id(), G.decl.get_id()))
                if pair in self.active: continue    # already being proved by an enclosing induction
                self.active.append(pair)
                try: got = self.induct(pc, facts, F, p, G, q, tF, tG, depth, list(times[F.decl.get_id(), ids(p)].values())[:6] + list(times[G.decl.get_id(), ids(q)].values())[:6])
                finally: self.active.pop()
                for l in got: lem.append(l)
        return lem

    def induct(self, pc, facts, F, p, G, q, tF, tG, depth, at=()):
        """forall t in [0,N]: F(p,t)==G(q,t)  with N = K of the loop fold(s)"""
        shifts = [0]
        N = F.K(p) if F.K else None
        N2 = G.K(q) if G.K else None
        out = []
        for s in shifts:
            f0 = F.app(p, 0); g0 = G.app(q, s)
            b = self.prove(pc, facts, veq(f0, g0), depth + 1, lemmas=False, timeout=3000)
            if b[0] != 'proved': continue
            t = self.sk('t')
            hyp = [t >= 0, F.app(p, t) == G.app(q, iadd(t, s))]
            if N is not None: hyp.append(t < N)
            if N2 is not None: hyp.append(t < N2)
            if N is None and N2 is None:
                hyp.append(z3.Or(t < zi(tF), t < zi(tG)))
            goal = F.app(p, t + 1) == G.app(q, iadd(t + 1, s))
            st = self.prove(pc + hyp, facts, goal, depth + 1, lemmas=True, timeout=5000)
            if st[0] == 'proved':
                for tm in {x.get_id(): x for x in [zi(tF), zi(tG)] + list(at)}.values():
                    c = [zi(tm) >= 0]
                    if N is not None: c.append(zi(tm) <= N)
                    if N2 is not None: c.append(zi(tm) <= N2)
                    out.append(z3.Implies(z3.And(*c), F.app(p, tm) == G.app(q, iadd(tm, s))))
                tt = self.sk('tl'); rng = [tt >= 0]
                if N is not None: rng.append(tt <= N)
                if N2 is not None: rng.append(tt <= N2)
                if N is None and N2 is None: rng.append(z3.Or(tt <= zi(tF), tt <= zi(tG)))
                pcs = [f for f in pc if isz(f)]
                self.store.append((frozenset(f.get_id() for f in pcs), pcs, Forall(tt, z3.And(*rng), F.app(p, tt) == G.app(q, iadd(tt, s)))))
                break
        return out
