"""Loads LLVM bitcode produced by clang from /repo's current sources through the
LLVM-C API (ctypes) and exposes functions as plain Python structures."""
import ctypes as C, subprocess, struct
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_size_t, c_double, c_longlong, c_ulonglong, byref, POINTER

_L = C.CDLL('libLLVM-18.so.1' if False else '/usr/lib/llvm-18/lib/libLLVM.so.1')

def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn

V = c_void_p
CtxCreate = _f('LLVMContextCreate', V)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ParseIR = _f('LLVMParseIRInContext', c_int, V, V, POINTER(V), POINTER(c_char_p))
FirstFn = _f('LLVMGetFirstFunction', V, V); NextFn = _f('LLVMGetNextFunction', V, V)
NamedFn = _f('LLVMGetNamedFunction', V, V, c_char_p)
FirstGl = _f('LLVMGetFirstGlobal', V, V); NextGl = _f('LLVMGetNextGlobal', V, V)
ValName = _f('LLVMGetValueName2', c_void_p, V, POINTER(c_size_t))
CountBBs = _f('LLVMCountBasicBlocks', c_uint, V)
FirstBB = _f('LLVMGetFirstBasicBlock', V, V); NextBB = _f('LLVMGetNextBasicBlock', V, V)
FirstI = _f('LLVMGetFirstInstruction', V, V); NextI = _f('LLVMGetNextInstruction', V, V)
Opcode = _f('LLVMGetInstructionOpcode', c_int, V)
NumOps = _f('LLVMGetNumOperands', c_int, V); GetOp = _f('LLVMGetOperand', V, V, c_uint)
TypeOf = _f('LLVMTypeOf', V, V); TypeKind = _f('LLVMGetTypeKind', c_int, V)
IntWidth = _f('LLVMGetIntTypeWidth', c_uint, V)
ICmpPred = _f('LLVMGetICmpPredicate', c_int, V); FCmpPred = _f('LLVMGetFCmpPredicate', c_int, V)
GepTy = _f('LLVMGetGEPSourceElementType', V, V)
DataLayout = _f('LLVMGetModuleDataLayout', V, V)
OffsetOf = _f('LLVMOffsetOfElement', c_ulonglong, V, V, c_uint)
ABISize = _f('LLVMABISizeOfType', c_ulonglong, V, V)
StoreSize = _f('LLVMStoreSizeOfType', c_ulonglong, V, V)
ElemTy = _f('LLVMGetElementType', V, V)
StructElem = _f('LLVMStructGetTypeAtIndex', V, V, c_uint)
StructN = _f('LLVMCountStructElementTypes', c_uint, V)
ArrLen = _f('LLVMGetArrayLength2', c_ulonglong, V)
StructName = _f('LLVMGetStructName', c_char_p, V)
NumInc = _f('LLVMCountIncoming', c_uint, V); IncV = _f('LLVMGetIncomingValue', V, V, c_uint); IncB = _f('LLVMGetIncomingBlock', V, V, c_uint)
NumSucc = _f('LLVMGetNumSuccessors', c_uint, V); Succ = _f('LLVMGetSuccessor', V, V, c_uint)
IsCond = _f('LLVMIsConditional', c_int, V)
ValueKind = _f('LLVMGetValueKind', c_int, V)
ConstSExt = _f('LLVMConstIntGetSExtValue', c_longlong, V)
ConstReal = _f('LLVMConstRealGetDouble', c_double, V, POINTER(c_int))
ConstOpcode = _f('LLVMGetConstOpcode', c_int, V)
Called = _f('LLVMGetCalledValue', V, V)
NumArgs = _f('LLVMGetNumArgOperands', c_uint, V)
NumParams = _f('LLVMCountParams', c_uint, V); Param = _f('LLVMGetParam', V, V, c_uint)
AllocTy = _f('LLVMGetAllocatedType', V, V)
DbgLine = _f('LLVMGetDebugLocLine', c_uint, V)
DbgFile = _f('LLVMGetDebugLocFilename', c_void_p, V, POINTER(c_uint))
BBasVal = _f('LLVMBasicBlockAsValue', V, V)
Init = _f('LLVMGetInitializer', V, V)
IsDecl = _f('LLVMIsDeclaration', c_int, V)
RetTy = _f('LLVMGetReturnType', V, V); GlobTy = _f('LLVMGlobalGetValueType', V, V)
ExtN = _f('LLVMGetNumIndices', c_uint, V); ExtIdx = _f('LLVMGetIndices', POINTER(c_uint), V)
MDStr = _f('LLVMGetMDString', c_void_p, V, POINTER(c_uint))
GetNNeg = _f('LLVMGetNNeg', c_int, V)
AsStr = _f('LLVMGetAsString', c_void_p, V, POINTER(c_size_t)); IsStr = _f('LLVMIsConstantString', c_int, V)
AliasGetAliasee = _f('LLVMAliasGetAliasee', V, V)
PrintVal = _f('LLVMPrintValueToString', c_void_p, V)
AggElem = _f('LLVMGetAggregateElement', V, V, c_uint)
FnSubprog = _f('LLVMGetSubprogram', V, V)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad',61:'cleanupret',62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vec',14:'metadata',16:'token'}
# LLVMValueKind
VK = dict(enumerate(['arg','bb','memuse','memdef','memphi','fn','alias','ifunc','global','blockaddr','cexpr','carray','cstruct','cvector','undef','zero','cdataarray','cdatavector','cint','cfp','null','ctoken','mdval','inlineasm','inst','poison','target']))

def vname(v):
    n = c_size_t(); p = ValName(v, byref(n)); return C.string_at(p, n.value).decode()

class Ty:
    __slots__ = ('kind', 'width', 'ref', 'size', 'name')
    def __init__(s, kind, width, ref, size, name): s.kind, s.width, s.ref, s.size, s.name = kind, width, ref, size, name
    def __repr__(s): return s.name or (s.kind + (str(s.width) if s.kind == 'int' else ''))

class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'line', 'file', 'blk')
    def __repr__(s): return f'%{s.id} = {s.op} {s.ops} {s.x} @{s.line}'

class Block:
    __slots__ = ('idx', 'name', 'insts', 'succs', 'preds', 'phis')

class Function:
    pass

class Module:
    def __init__(self, path):
        self.path = path
        ctx = CtxCreate(); buf = V(); msg = c_char_p()
        if MemBuf(path.encode(), byref(buf), byref(msg)): raise RuntimeError('cannot read %s' % path)
        m = V()
        if ParseIR(ctx, buf, byref(m), byref(msg)): raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.ctx, self.m = ctx, m
        self.dl = DataLayout(m)
        self.fnrefs = {}
        f = FirstFn(m)
        while f:
            self.fnrefs[vname(f)] = f; f = NextFn(f)
        names = list(self.fnrefs)
        out = subprocess.run(['llvm-cxxfilt-18'] if False else ['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.bydem = {}
        for n, d in self.dem.items(): self.bydem.setdefault(d, []).append(n)
        self.globrefs = {}
        g = FirstGl(m)
        while g:
            self.globrefs[vname(g)] = g; g = NextGl(g)
        self.fns = {}
        self.tycache = {}

    def ty(self, t):
        r = self.tycache.get(t)
        if r: return r
        k = TK.get(TypeKind(t), 'other'); w = IntWidth(t) if k == 'int' else 0
        size = None
        if k in ('int', 'double', 'float', 'ptr', 'struct', 'array', 'x86_fp80'):
            try: size = ABISize(self.dl, t)
            except Exception: size = None
        nm = None
        if k == 'struct':
            b = StructName(t); nm = b.decode() if b else None
        r = Ty(k, w, t, size, nm); self.tycache[t] = r
        return r

    def has_body(self, name):
        f = self.fnrefs.get(name); return bool(f) and not IsDecl(f)

    def find(self, dem):
        """mangled name for a demangled signature (exact), prefer the complete-object ctor/dtor"""
        c = self.bydem.get(dem, [])
        return c

    def global_string(self, name):
        g = self.globrefs.get(name)
        if not g: return None
        i = Init(g)
        if i and IsStr(i):
            n = c_size_t(); p = AsStr(i, byref(n)); return C.string_at(p, n.value)
        return None

    def operand(self, v, ids):
        k = VK.get(ValueKind(v), '?')
        if k == 'inst': return ('i', ids[v])
        if k == 'arg': return ('a', ids[v])
        if k == 'cint':
            t = self.ty(TypeOf(v))
            if t.width > 64:
                s = C.string_at(PrintVal(v)).decode(); return ('int', t.width, int(s.split()[-1]))
            val = ConstSExt(v)
            return ('int', t.width, val)
        if k == 'cfp':
            lossy = c_int(); return ('fp', ConstReal(v, byref(lossy)))
        if k == 'null': return ('null',)
        if k in ('undef', 'poison'): return ('undef', self.ty(TypeOf(v)))
        if k == 'fn': return ('fn', vname(v))
        if k == 'global': return ('glob', vname(v))
        if k == 'alias': return self.operand(AliasGetAliasee(v), ids)
        if k == 'zero': return ('zero', self.ty(TypeOf(v)))
        if k == 'cexpr':
            op = OPC.get(ConstOpcode(v), '?')
            ops = [self.operand(GetOp(v, i), ids) for i in range(NumOps(v))]
            x = self.gep(v, ops) if op == 'gep' else None
            return ('cexpr', op, ops, x, self.ty(TypeOf(v)))
        if k == 'bb': return ('bb', ids.get(v))
        if k == 'mdval':
            n = c_uint(); p = MDStr(v, byref(n)); return ('md', C.string_at(p, n.value).decode() if p else None)
        if k in ('cstruct', 'carray', 'cdataarray', 'cvector', 'cdatavector'):
            return ('cagg', v, self.ty(TypeOf(v)))
        return ('?', k)

    def gep(self, v, ops):
        """constant byte offset plus list of (operand, stride)"""
        t = GepTy(v); off = 0; terms = []
        n = NumOps(v)
        cur = t
        o = ops[1]
        sz = ABISize(self.dl, cur)
        if o[0] == 'int': off += o[2] * sz
        else: terms.append((o, sz))
        for i in range(2, n):
            o = ops[i]; k = TK.get(TypeKind(cur))
            if k == 'struct':
                idx = o[2]; off += OffsetOf(self.dl, cur, idx); cur = StructElem(cur, idx)
            elif k == 'array' or k == 'vec':
                cur = ElemTy(cur); sz = ABISize(self.dl, cur)
                if o[0] == 'int': off += o[2] * sz
                else: terms.append((o, sz))
            else: raise RuntimeError('gep type')
        return (off, terms, self.ty(t))

    def fn(self, name):
        r = self.fns.get(name)
        if r: return r
        f = self.fnrefs[name]
        r = Function(); r.name = name; r.dem = self.dem[name]; r.mod = self
        ids = {}
        r.params = []
        for i in range(NumParams(f)):
            p = Param(f, i); ids[p] = i; r.params.append((vname(p), self.ty(TypeOf(p))))
        blks = []; b = FirstBB(f)
        while b:
            ids[BBasVal(b)] = len(blks); blks.append(b); b = NextBB(b)
        nid = 0
        insts = []
        for b in blks:
            i = FirstI(b); l = []
            while i:
                ids[i] = nid; nid += 1; l.append(i); i = NextI(i)
            insts.append(l)
        r.blocks = []
        for bi, b in enumerate(blks):
            B = Block(); B.idx = bi; B.name = vname(BBasVal(b)); B.insts = []; B.succs = []; B.preds = []; B.phis = []
            for i in insts[bi]:
                I = Inst(); I.id = ids[i]; I.op = OPC.get(Opcode(i), '?%d' % Opcode(i)); I.ty = self.ty(TypeOf(i)); I.x = None; I.blk = bi
                I.line = DbgLine(i) 
                fl = c_uint(); p = DbgFile(i, byref(fl)); I.file = C.string_at(p, fl.value).decode() if p and fl.value else ''
                op = I.op
                if op == 'phi':
                    I.ops = []
                    I.x = {ids[IncB(i, j) if False else BBasVal(IncB(i, j))]: self.operand(IncV(i, j), ids) for j in range(NumInc(i))}
                    B.phis.append(I); continue
                if op == 'br':
                    s = [ids[BBasVal(Succ(i, j))] for j in range(NumSucc(i))]
                    I.ops = [self.operand(GetOp(i, 0), ids)] if IsCond(i) else []
                    I.x = s; B.succs = s
                elif op == 'switch':
                    I.ops = [self.operand(GetOp(i, 0), ids)]
                    n = NumOps(i); cases = []
                    dflt = ids[GetOp(i, 1)]
                    for j in range(2, n, 2): cases.append((ConstSExt(GetOp(i, j)), ids[GetOp(i, j + 1)]))
                    I.x = (dflt, cases); B.succs = [dflt] + [c[1] for c in cases]
                elif op in ('call', 'invoke'):
                    na = NumArgs(i)
                    I.ops = [self.operand(GetOp(i, j), ids) for j in range(na)]
                    cal = self.operand(Called(i), ids)
                    dests = None
                    if op == 'invoke':
                        dests = (ids[BBasVal(Succ(i, 0))], ids[BBasVal(Succ(i, 1))]); B.succs = list(dests)
                    I.x = (cal, dests)
                else:
                    I.ops = [self.operand(GetOp(i, j), ids) for j in range(NumOps(i))]
                    if op == 'gep': I.x = self.gep(i, I.ops)
                    elif op == 'icmp': I.x = ICMP[ICmpPred(i)]
                    elif op == 'fcmp': I.x = FCMP[FCmpPred(i)]
                    elif op == 'alloca': I.x = self.ty(AllocTy(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        n = ExtN(i); p = ExtIdx(i); I.x = [p[j] for j in range(n)]
                    elif op == 'zext': I.x = self.ty(TypeOf(GetOp(i, 0)))
                    elif op in ('trunc', 'sext', 'ptrtoint'): I.x = self.ty(TypeOf(GetOp(i, 0)))
                    elif op == 'store': I.x = self.ty(TypeOf(GetOp(i, 0)))
                B.insts.append(I)
            r.blocks.append(B)
        for B in r.blocks:
            for s in B.succs: r.blocks[s].preds.append(B.idx)
        r.nins = nid
        self._loops(r)
        self.fns[name] = r
        return r

    def _loops(self, r):
        n = len(r.blocks); 
        # reachable
        order = []; seen = set(); st = [(0, iter(r.blocks[0].succs))] if n else []
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(r.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
        order.reverse(); r.rpo = order
        full = set(order); dom = {b: full for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in r.blocks[b].preds if p in full]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        r.loops = {}
        for b in order:
            for s in r.blocks[b].succs:
                if s in dom[b]:
                    body = r.loops.setdefault(s, {s}); work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += [p for p in r.blocks[x].preds if p in full]
        r.dom = dom
