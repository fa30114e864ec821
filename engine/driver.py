"""Compiles /repo sources to LLVM bitcode on every run, loads layouts, and offers the contract API."""
import os, re, subprocess, hashlib, sys, time, shutil, tempfile, z3
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from terms import *
from memory import *
from prover import Forall, Fold
import llvmir, symex, builtins_ as bi
from symex import Executor, Outcome

REPO = os.environ.get('BONMIN_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = '/usr/lib/llvm-18/bin/'
PASSES = 'function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)'

def incs():
    out = ['-I' + VERIF + '/config']
    for d, ds, fs in os.walk(REPO + '/src'):
        out.append('-I' + d)
    return out + ['-I/usr/include/coin']

def cflags():
    return ['-std=gnu++17', '-DHAVE_CONFIG_H', '-DHAVE_CSTDDEF', '-DBONMINLIB_BUILD'] + incs()

class BuildError(Exception): pass

def compile_tu(src, outdir):
    base = os.path.basename(src)[:-4]
    bc = os.path.join(outdir, base + '.bc'); dump = os.path.join(outdir, base + '.dump')
    cmd = [LL + 'clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only',
           '-fwhole-program-vtables', '-flto', '-fvisibility=hidden', '-w', '-Xclang', '-fdump-vtable-layouts', '-Xclang', '-fdump-record-layouts',
           '-emit-llvm', '-c', src if src.startswith('/') else os.path.join(REPO, src), '-o', bc] + cflags()
    with open(dump, 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise BuildError('%s does not compile:\n%s' % (src, r.stderr[-2000:]))
    return bc, dump

def parse_layouts(text, layouts):
    for part in text.split('*** Dumping AST Record Layout')[1:]:
        lines = part.strip('\n').split('\n')
        cls = None; fields = {}
        stack = []
        for ln in lines:
            m = re.match(r'\s*(\d+)(?::\d+-\d+)? \| (\s*)(.*)$', ln)
            if not m:
                if cls is not None: break
                continue
            off = int(m.group(1)); ind = len(m.group(2)) // 2; txt = m.group(3)
            if cls is None:
                cls = re.sub(r'^(class|struct|union) ', '', txt).strip(); cls = re.sub(r' \(empty\)$', '', cls)
                continue
            txt = txt.strip()
            fm = re.match(r'(.*?)\s*(?:([A-Za-z_]\w*))?$', txt)
            isbase = '(base)' in txt or '(primary base)' in txt or '(virtual base)' in txt
            while stack and stack[-1][0] >= ind: stack.pop()
            if isbase or 'vtable pointer' in txt or '(empty)' in txt:
                nm = None; ty = txt
            else:
                mm = re.match(r'(.*\S)\s+(\w+)$', txt); nm, ty = (mm.group(2), mm.group(1)) if mm else (None, txt)
            pathn = [s[1] for s in stack if s[1]]
            full = '.'.join(pathn + ([nm] if nm else []))
            if nm: 
                if full not in fields: fields[full] = (off, ty)
            if isbase:
                bt = re.sub(r' \((primary base|base|virtual base)\)', '', txt); bt = re.sub(r'^(class|struct) ', '', bt)
                fields.setdefault('%s<base:%s>' % ('.'.join(pathn) + ('.' if pathn else ''), bt.strip()), (off, bt.strip()))
            stack.append((ind, nm))
        if cls and (cls not in layouts or len(fields) > len(layouts[cls])): layouts[cls] = fields

def parse_vtables(text, vt):
    for m in re.finditer(r"VTable indices for '([^']+)' \(\d+ entries\)\.\n((?:\s*\d+ \| .*\n)+)", text):
        cls = m.group(1)
        for ln in m.group(2).strip('\n').split('\n'):
            i, sig = ln.split('|', 1); sig = sig.strip()
            vt[(cls, int(i))] = sig

def methname(sig):
    """'bool Bonmin::TMINLP::eval_f(Ipopt::Index, ...)' -> 'Bonmin::TMINLP::eval_f'"""
    s = sig
    d = 0
    # cut at the parameter list
    i = s.find('(')
    head = s[:i].strip()
    # last token with :: (skip return type)
    toks = head.split(' ')
    for t in range(len(toks)):
        cand = ' '.join(toks[t:])
        if '::' in toks[t] and not cand.startswith(('const ', 'class ')):
            # return type may itself contain '::' ; take the last token
            pass
    n = toks[-1].lstrip('*&')
    if 'operator' in head:
        k = head.index('operator'); pre = head[:k].split(' ')[-1].lstrip('*&'); n = pre + head[k:]
    if '[deleting]' in sig: n += '[deleting]'
    if '[complete]' in sig: n += '[complete]'
    return n

class Project:
    """a set of translation units of /repo, linked into one bitcode module"""
    def __init__(self, tus, workdir=None, extra_src=None):
        self.tmp = workdir or tempfile.mkdtemp(prefix='bonver_')
        os.makedirs(self.tmp, exist_ok=True)
        t = time.time()
        tus = list(tus)
        if extra_src:
            f = os.path.join(self.tmp, 'zz_odr_use.cpp'); open(f, 'w').write(extra_src); tus.append(f)
        with ThreadPoolExecutor(8) as tp: res = list(tp.map(lambda s: compile_tu(s, self.tmp), tus))
        self.tus = list(tus)
        linked = os.path.join(self.tmp, 'linked.bc'); out = os.path.join(self.tmp, 'opt.bc')
        if len(res) > 1:
            r = subprocess.run([LL + 'llvm-link', '-o', linked] + [x[0] for x in res], capture_output=True, text=True)
            if r.returncode: raise BuildError(r.stderr[-2000:])
        else: linked = res[0][0]
        r = subprocess.run([LL + 'opt', '-passes=' + PASSES, linked, '-o', out], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        self.layouts = {}; vt = {}
        for _, d in res:
            tx = open(d, errors='replace').read(); parse_layouts(tx, self.layouts); parse_vtables(tx, vt)
        self.mod = llvmir.Module(out)
        self.vt = {}
        for (cls, slot), sig in vt.items(): self.vt[(mangle_ts(cls), slot)] = methname(sig)
        self.build_s = time.time() - t

    def executor(self, timeout_ms=10000):
        ex = Executor(self.mod, self.layouts, self.vt, timeout_ms)
        bi.install(ex)
        ex.mangle = mangle_ts; ex.ts_cls = {mangle_ts(c): c for c in self.layouts}
        return ex

def mangle_ts(cls):
    parts = cls.split('::')
    if any('<' in p for p in parts): return cls
    if len(parts) == 1: return '_ZTS%d%s' % (len(parts[0]), parts[0])
    if parts[0] == 'std' : return '_ZTSSt' + ''.join('%d%s' % (len(p), p) for p in parts[1:])
    return '_ZTSN' + ''.join('%d%s' % (len(p), p) for p in parts) + 'E'

VEC = re.compile(r'(?:class |struct )?(?:std|Bonmin)::vector<(.*)>$')

class Case:
    """one verification case: a pre-state, a call of the real function body, checks on every path"""
    def __init__(self, proj, ex, name):
        self.proj, self.ex, self.name = proj, ex, name
        self.st = State()
        self.objs = []
        self.st.assume(ex.fpinf > z3.RealVal('179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458954514382464234321326889464182768467546703537516986049910576551282076245490086823228571570309100'))
        self.pre = None
        self.small = 0; self.sizes = []

    # ---- building the pre-state
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None: self.st.assume(ile(lo, v))
        if hi is not None: self.st.assume(ile(v, hi))
        return v
    def real(self, name): return z3.Real(name)
    def bool(self, name): return z3.Bool(name)
    def offset(self, cls, field):
        L = self.proj.layouts.get(cls)
        if L is None: raise Unsupported('no layout for class ' + cls)
        if field not in L: raise Unsupported('class %s has no field %s' % (cls, field))
        return L[field][0]
    def object(self, cls, name, vectors=True):
        o = Obj(name, lazy=True); o.cls = cls
        self.st.mem[o] = OS()
        self.objs.append(o)
        L = self.proj.layouts.get(cls)
        if L is None: raise Unsupported('no layout for class ' + cls)
        if vectors:
            for f, (off, ty) in list(L.items()):
                m = VEC.match(ty)
                if m and '<base' not in f:
                    el = m.group(1)
                    el = split_tpl(el)
                    ek = bi.esz_kind(el.replace('enum ', '').replace('class ', '').replace('struct ', ''))
                    if ek is None and 'enum ' in el: ek = (4, 'int')
                    if ek is None: continue
                    self.mkvec(o, off, '%s.%s' % (name, f), *ek)
        return o
    def mkvec(self, o, off, name, esz, kind):
        n = z3.Int('len(%s)' % name); self.st.assume(n >= 0); self.sizes.append(n)
        b = Obj(name, lazy=True); b.heap = True
        self.st.mem[b] = OS(size=imul(n, esz), arr=ABase(kind, name), esz=esz)
        self.objs.append(b)
        os = self.st.mem[o]; cells = dict(os.cells)
        cells[off] = (8, P(b, 0)); cells[off + 8] = (8, P(b, imul(n, esz))); cells[off + 16] = (8, P(b, imul(n, esz)))
        self.st.mem[o] = os.w(cells=cells)
        return b
    def array(self, name, n, kind='real', esz=None, nullable=False):
        esz = esz or {'real': 8, 'int': 4, 'ptr': 8}[kind]
        o = Obj(name, lazy=True)
        if isz(n): self.sizes.append(n)
        if nullable: o.nullc = z3.Bool('null(%s)' % name)
        self.st.mem[o] = OS(size=imul(n, esz) if n is not None else None, arr=ABase(kind, name), esz=esz)
        self.objs.append(o)
        return P(o, 0)
    def scalar(self, name, kind='real', esz=None):
        """out-parameter cell"""
        o = Obj(name, lazy=True); self.st.mem[o] = OS(size=esz or (8 if kind == 'real' else 4)); self.objs.append(o); return P(o, 0)
    def set(self, obj, field, v, size=8):
        off = self.offset(obj.cls, field); os = self.st.mem[obj]; cells = dict(os.cells); cells[off] = (size, v); self.st.mem[obj] = os.w(cells=cells)
    def assume(self, *f): self.st.assume(*f)
    def assume_forall(self, n, f, name='pre', lo=0):
        g = z3.Int('g!%s%d' % (name, self.ex.n)); self.ex.n += 1
        b = f(g); self.st.facts.append(Forall(g, band(ile(lo, g), ilt(g, n)), zb(b), name=name))

    # ---- views
    def get(self, st, obj, field, kind='int', size=None):
        off = self.offset(obj.cls, field) if isinstance(field, str) else field
        ty = bi.scal_ty(size or {'int': 4, 'real': 8, 'ptr': 8, 'bool': 1}[kind], 'int' if kind == 'bool' else kind)
        s, self.ex.sink = self.ex.sink, False
        try: v = self.ex.load(st, P(obj, off), ty)
        finally: self.ex.sink = s
        return tobool(v) if kind == 'bool' else v
    def deref(self, st, p, kind='real', size=None):
        ty = bi.scal_ty(size or {'int': 4, 'real': 8, 'ptr': 8, 'bool': 1}[kind], 'int' if kind == 'bool' else kind)
        s, self.ex.sink = self.ex.sink, False
        try: v = self.ex.load(st, p, ty)
        finally: self.ex.sink = s
        return tobool(v) if kind == 'bool' else v
    def vec(self, st, obj, field, kind='real', esz=None):
        """(length, read function) of a vector field"""
        off = self.offset(obj.cls, field) if isinstance(field, str) else field
        esz = esz or {'real': 8, 'int': 4, 'ptr': 8}[kind]
        s, self.ex.sink = self.ex.sink, False
        try:
            p = P(obj, off)
            n = bi.vec_len(self.ex, st, p, esz); a = bi.vec_arr(self.ex, st, p, esz, kind)
        finally: self.ex.sink = s
        return n, a
    def arr(self, st, p, kind='real', esz=None):
        esz = esz or {'real': 8, 'int': 4, 'ptr': 8}[kind]
        s, self.ex.sink = self.ex.sink, False
        try: a = bi.rdarr(self.ex, st, p, 1, kind, esz, 'spec')
        finally: self.ex.sink = s
        return a

    # ---- running
    def find(self, name):
        m = self.proj.mod
        c = [d for d in m.bydem if d == name or d.startswith(name + '(')]
        c = [d for d in c if m.has_body(m.bydem[d][0])]
        if not c: raise Unsupported('function %s not found in the module' % name)
        if len(c) > 1: raise Unsupported('function %s ambiguous: %s' % (name, c))
        names = m.bydem[c[0]]
        return sorted(names, key=lambda n: ('C1' not in n and 'D1' not in n, n))[0]
    def call(self, fname, args):
        mangled = self.find(fname)
        if not self.ex.feasible(self.st, timeout=5000): raise Unsupported('vacuous precondition in case ' + self.name)
        if self.small: self.shrink()
        self.pre = self.st.copy()
        st = self.st.copy()
        self.fn = fname
        outs = self.ex.exec_fn(st, mangled, args)
        self.ex.curwhere = fname
        self.outs = outs
        return outs
    def shrink(self):
        """bounded refutation mode: fix every size to a small value"""
        s = z3.Solver(); s.set('timeout', 4000); s.add(*self.st.pc)
        vs = {}
        for z in self.sizes:
            for _, (t, _c) in lin(z)[1].items(): vs[t.get_id()] = t
        for t in vs.values():
            for f in (t == self.small, t <= self.small, t <= 2 * self.small, t <= 12):
                s.push(); s.add(f)
                if s.check() == z3.sat: break
                s.pop()
        if s.check() != z3.sat: raise Unsupported('no small pre-state')
        m = s.model(); sub = []
        for t in vs.values():
            v = m.eval(t, model_completion=True); sub.append((t, v)); self.st.assume(t == v)
        self.ex.small = self.small
        self.ex.prover.submap = sub
        nf = []
        for F in self.st.facts:
            r = subst(F.rng, sub); done = False
            if isz(r):
                q = z3.Solver(); q.set('timeout', 2000); q.add(*[x for x in (subst(f, sub) for f in self.st.pc) if isz(x)]); q.add(r); q.add(z3.Or(F.g > 14, F.g < 0))
                if q.check() == z3.unsat and not F.nested:
                    for i in range(15):
                        f, _ = F.inst(z3.IntVal(i)); self.st.assume(f)
                    done = True
            if not done: nf.append(F)
        self.st.facts = nf
    def require(self, st, goal, what):
        self.ex.curwhere = '%s [%s]' % (self.fn, self.name)
        return self.ex.oblige(st, goal, 'post', what)
    def exists(self, st, n, f, what, given=True):
        """given implies some k in [0,n) with f(k).  Witnesses tried: the integer variables of the path (loop
        counters) and, at bounded sizes, every index.  A failure at unbounded size is inconclusive, never a refutation."""
        ks = {}; stack = [x for x in st.pc if isz(x)]; seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_int(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: ks[str(x)] = x
            stack += x.children()
        cand = list(ks.values()) + [k - 1 for k in ks.values()] + (list(range(0, 3 * self.small + 3)) if self.small else [0])
        ok = self.require(st, implies(given, bor(*[band(ile(0, k), ilt(k, n), f(k)) for k in cand])), what)
        if not ok and not self.small: self.ex.obls[-1].status = 'unknown'
        return ok
    def forall(self, n, f, lo=0):
        j = self.ex.prover.sk('j')
        return implies(band(ile(lo, j), ilt(j, n)), f(j))
    def fold(self, name, kind, init, step, npar=0, mono=0):
        """specification fold F(p..,t): F(p..,0)=init(p..), F(p..,t+1)=step(p..,t,F(p..,t))"""
        if mono:
            q = [self.ex.prover.sk('m', sort_of(kind))]; ps = [self.ex.prover.sk('p') for _ in range(npar + 1)]
            nx = step(*ps, q[0]); r = self.ex.prover.check([z3.Not(nx >= q[0] if mono > 0 else nx <= q[0])])
            if r[0] != 'unsat': raise Unsupported('specification fold %s is not monotone' % name)
        d = z3.Function(name, *([I] * (npar + 1)), sort_of(kind))
        self.ex.prover.folds[d.get_id()] = Fold(d, kind, tpos=-1, init=lambda p: init(*p), step=lambda p, t, prev: step(*p, t, prev), name=name)
        self.ex.prover.folds[d.get_id()].mono = mono
        return lambda *a: d(*[zi(x) for x in a])
    def lemma(self, st, n, f, what):
        """f(t) for every t in [0,n], by induction: base and step are obligations; the conclusion becomes a fact"""
        self.require(st, f(z3.IntVal(0)), what + ': base of the induction')
        t = self.ex.prover.sk('t'); st2 = st.copy(); st2.assume(t >= 0, t < zi(n)); st2.assume(f(t))
        self.require(st2, f(t + 1), what + ': step of the induction')
        g = z3.Int('g!l%d' % self.ex.n); self.ex.n += 1
        st.facts = st.facts + [Forall(g, band(ile(0, g), ile(g, n)), zb(f(g)), name=what)]
    def unchanged(self, st, allowed=(), what='frame'):
        """every object of the pre-state keeps its contents, except allowed: list of
        (obj, offset, nbytes) / obj (whole) / (obj, '*')"""
        pre = self.pre
        whole = set(); cells = {}
        for a in allowed:
            if isinstance(a, Obj): whole.add(a)
            elif isinstance(a, P): whole.add(a.obj)
            else: cells.setdefault(a[0], []).append((a[1], a[1] + a[2]))
        for o in list(st.mem):
            if o in whole: continue
            s1 = st.mem[o]; s0 = pre.mem.get(o)
            if s0 is None:
                if not o.lazy: continue
                s0 = OS(epoch=s1.epoch)
            if s1 is s0: continue
            if o in pre.mem and s1.freed and not s0.freed and not o.heap: self.require(st, False, what + ': %s freed' % o.name)
            if s1.epoch != s0.epoch: self.require(st, False, what + ': %s havocked' % o.name); continue
            if s1.arr is not None:
                a0 = s0.arr
                if a0 is None:
                    k = s1.arr.kind
                    a0 = self.ex.lazy.get((o.id, 'arr', s1.epoch, k))
                    if a0 is None or a0 is s1.arr: continue
                if a0 is s1.arr: continue
                j = self.ex.prover.sk('j')
                rng = ile(0, j)
                if s0.size is not None and s0.esz: rng = band(rng, ilt(imul(j, s0.esz), s0.size))
                self.require(st, implies(rng, veq(s1.arr.read(j), a0.read(j))), what + ': %s unchanged' % o.name)
            else:
                for off, (n, v) in s1.cells.items():
                    if any(lo <= off < hi for lo, hi in cells.get(o, ())): continue
                    c0 = s0.cells.get(off)
                    v0 = c0[1] if c0 else self.ex.lazy.get((o.id, off, s1.epoch))
                    if v0 is None:
                        z = [1 for lo, hi in s0.zero if lo <= off < hi]
                        if z: v0 = NULL if isptr(v) else 0
                        else: self.require(st, False, what + ': %s.%s written' % (o.name, self.ex.fieldname(o, off))); continue
                    if v is v0: continue
                    g = self.ex.ptreq(v, v0) if isptr(v) or isptr(v0) else veq(v, v0)
                    self.require(st, g, what + ': %s.%s unchanged' % (o.name, self.ex.fieldname(o, off)))

def split_tpl(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == ',' and d == 0: return s[:i].strip()
    return s.strip()
