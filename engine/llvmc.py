"""Thin ctypes layer over libLLVM-18's C API: loads bitcode and converts it to
plain Python objects.  No IR is invented here; everything comes from clang's output."""
import ctypes as C, re, struct, subprocess

def _load():
    for n in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so',
              '/usr/lib/llvm-18/lib/libLLVM.so.18.1', 'libLLVM-18.so.1', 'libLLVM-18.so'):
        try:
            return C.CDLL(n)
        except OSError:
            pass
    raise RuntimeError('libLLVM-18 not found')

L = _load()
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = fn('LLVMContextCreate', P)
CreateMB = fn('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = fn('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetDL = fn('LLVMGetModuleDataLayout', P, P)
ABISize = fn('LLVMABISizeOfType', C.c_ulonglong, P, P)
ABIAlign = fn('LLVMABIAlignmentOfType', C.c_uint, P, P)
StoreSize = fn('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
OffsetOf = fn('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
FirstFn = fn('LLVMGetFirstFunction', P, P); NextFn = fn('LLVMGetNextFunction', P, P)
FirstG = fn('LLVMGetFirstGlobal', P, P); NextG = fn('LLVMGetNextGlobal', P, P)
FirstAl = fn('LLVMGetFirstGlobalAlias', P, P); NextAl = fn('LLVMGetNextGlobalAlias', P, P)
Aliasee = fn('LLVMAliasGetAliasee', P, P)
FirstBB = fn('LLVMGetFirstBasicBlock', P, P); NextBB = fn('LLVMGetNextBasicBlock', P, P)
FirstI = fn('LLVMGetFirstInstruction', P, P); NextI = fn('LLVMGetNextInstruction', P, P)
IsDecl = fn('LLVMIsDeclaration', C.c_int, P)
GetName2 = fn('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
Opcode = fn('LLVMGetInstructionOpcode', C.c_int, P)
NumOps = fn('LLVMGetNumOperands', C.c_int, P); GetOp = fn('LLVMGetOperand', P, P, C.c_uint)
TypeOf = fn('LLVMTypeOf', P, P); TypeKind = fn('LLVMGetTypeKind', C.c_int, P)
IntWidth = fn('LLVMGetIntTypeWidth', C.c_uint, P)
ElemType = fn('LLVMGetElementType', P, P); ArrLen = fn('LLVMGetArrayLength2', C.c_uint64, P)
VecSize = fn('LLVMGetVectorSize', C.c_uint, P)
NStruct = fn('LLVMCountStructElementTypes', C.c_uint, P); StructAt = fn('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ValueKind = fn('LLVMGetValueKind', C.c_int, P)
ConstZ = fn('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
ConstReal = fn('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
ConstOpcode = fn('LLVMGetConstOpcode', C.c_int, P)
IsCString = fn('LLVMIsConstantString', C.c_int, P)
GetAsString = fn('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t))
AggElem = fn('LLVMGetAggregateElement', P, P, C.c_uint)
GEPSrc = fn('LLVMGetGEPSourceElementType', P, P)
AllocTy = fn('LLVMGetAllocatedType', P, P)
Called = fn('LLVMGetCalledValue', P, P)
NArgs = fn('LLVMGetNumArgOperands', C.c_uint, P)
NormDest = fn('LLVMGetNormalDest', P, P); UnwDest = fn('LLVMGetUnwindDest', P, P)
IsCond = fn('LLVMIsConditional', C.c_int, P); Cond = fn('LLVMGetCondition', P, P)
NSucc = fn('LLVMGetNumSuccessors', C.c_uint, P); Succ = fn('LLVMGetSuccessor', P, P, C.c_uint)
NInc = fn('LLVMCountIncoming', C.c_uint, P); IncV = fn('LLVMGetIncomingValue', P, P, C.c_uint); IncB = fn('LLVMGetIncomingBlock', P, P, C.c_uint)
NIdx = fn('LLVMGetNumIndices', C.c_uint, P); Idx = fn('LLVMGetIndices', C.POINTER(C.c_uint), P)
NClauses = fn('LLVMGetNumClauses', C.c_uint, P); Clause = fn('LLVMGetClause', P, P, C.c_uint); IsCleanup = fn('LLVMIsCleanup', C.c_int, P)
RMWOp = fn('LLVMGetAtomicRMWBinOp', C.c_int, P)
ICmpP = fn('LLVMGetICmpPredicate', C.c_int, P); FCmpP = fn('LLVMGetFCmpPredicate', C.c_int, P)
GetInit = fn('LLVMGetInitializer', P, P); IsGConst = fn('LLVMIsGlobalConstant', C.c_int, P)
GVType = fn('LLVMGlobalGetValueType', P, P); GetAlign = fn('LLVMGetAlignment', C.c_uint, P)
NParams = fn('LLVMCountParams', C.c_uint, P); Param = fn('LLVMGetParam', P, P, C.c_uint)
KindID = fn('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
AttrAt = fn('LLVMGetEnumAttributeAtIndex', P, P, C.c_uint, C.c_uint)
AttrTy = fn('LLVMGetTypeAttributeValue', P, P)
FnRet = fn('LLVMGetReturnType', P, P)
DbgLine = fn('LLVMGetDebugLocLine', C.c_uint, P)
DbgFile = fn('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(C.c_uint))
PrintV = fn('LLVMPrintValueToString', C.c_void_p, P)
PrintT = fn('LLVMPrintTypeToString', C.c_void_p, P)
NMask = fn('LLVMGetNumMaskElements', C.c_uint, P); MaskV = fn('LLVMGetMaskValue', C.c_int, P, C.c_uint)

def cstr(p):
    return C.string_at(p).decode('utf-8', 'replace')

def vname(v):
    n = C.c_size_t()
    p = GetName2(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf-8', 'replace')

OPN = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__ = ('kind','width','size','align','elems','offs','elem','n','name')
    # kind: int ptr float struct array vector void label meta
    def __repr__(self): return self.name

class Glob:
    __slots__ = ('name','size','align','const','init','decl','ty')

class Inst:
    __slots__ = ('op','id','ty','ops','x','line','file','fn','bb','idx','key')
    def __repr__(self): return f'<{self.op} {self.ops} {self.x}>'

class Block:
    __slots__ = ('name','insts','idx','fn','preds','succs','phis','nphi')

class Func:
    __slots__ = ('name','dem','params','blocks','decl','byval','nregs','loops','ret','vararg')
    def __repr__(self): return f'<fn {self.dem}>'

class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        mb = P(); msg = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError('read %s: %s' % (path, msg.value))
        mod = P()
        if ParseIR(ctx, mb, C.byref(mod), C.byref(msg)):
            raise RuntimeError('parse %s: %s' % (path, msg.value))
        self.mod = mod
        self.dl = GetDL(mod)
        self.types = {}
        self.funcs = {}
        self.globs = {}
        self.alias = {}
        self.byval_kind = KindID(b'byval', 5)
        f = FirstFn(mod); fl = []
        while f:
            fl.append(f); f = NextFn(f)
        g = FirstG(mod); gl = []
        while g:
            gl.append(g); g = NextG(g)
        a = FirstAl(mod)
        while a:
            self.alias[vname(a)] = vname(Aliasee(a)); a = NextAl(a)
        for f in fl:
            F = Func(); F.name = vname(f); F.decl = bool(IsDecl(f)); F.blocks = []; F.loops = None
            F.byval = {}
            self.funcs[F.name] = F
        names = list(self.funcs)
        try:
            out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        except OSError:
            out = names
        for n, d in zip(names, out):
            self.funcs[n].dem = d
        for g in gl:
            G = Glob(); G.name = vname(g); vt = GVType(g); G.ty = self.ty(vt)
            G.size = G.ty.size; G.align = GetAlign(g) or G.ty.align; G.const = bool(IsGConst(g))
            G.decl = bool(IsDecl(g)); G.init = None
            self.globs[G.name] = G
        for g in gl:
            G = self.globs[vname(g)]
            if not G.decl:
                out = []
                self.flatten(GetInit(g), 0, out)
                G.init = out
        for f in fl:
            if not IsDecl(f):
                self.load_fn(f)
            else:
                self.funcs[vname(f)].params = []
    # --- types
    def ty(self, t):
        r = self.types.get(t)
        if r: return r
        k = TypeKind(t)
        T = Ty(); T.kind = None; T.width = 0; T.size = 0; T.align = 1; T.elems = None; T.offs = None; T.elem = None; T.n = 0
        self.types[t] = T
        if k == 8: T.kind = 'int'; T.width = IntWidth(t)
        elif k == 12: T.kind = 'ptr'; T.width = 64
        elif k == 2: T.kind = 'float'; T.width = 32
        elif k == 3: T.kind = 'float'; T.width = 64
        elif k == 4: T.kind = 'float'; T.width = 80
        elif k == 10: T.kind = 'struct'; T.elems = [self.ty(StructAt(t, i)) for i in range(NStruct(t))]
        elif k == 11: T.kind = 'array'; T.elem = self.ty(ElemType(t)); T.n = ArrLen(t)
        elif k == 13: T.kind = 'vector'; T.elem = self.ty(ElemType(t)); T.n = VecSize(t)
        elif k == 0: T.kind = 'void'
        else: T.kind = 'other%d' % k
        if T.kind in ('int','ptr','float','struct','array','vector'):
            try:
                if not (k == 10 and L.LLVMIsOpaqueStruct(P(t))):
                    T.size = ABISize(self.dl, t); T.align = ABIAlign(self.dl, t)
            except Exception:
                pass
        if k == 10:
            T.offs = [OffsetOf(self.dl, t, i) for i in range(len(T.elems))]
        T.name = {'int': 'i%d' % T.width, 'ptr': 'ptr', 'float': 'f%d' % T.width}.get(T.kind, T.kind)
        return T
    # --- constants: returns operand encodings
    #  ('c', int) | ('g', name, off) | ('u',) undef | ('z',) zero aggregate | ('agg', [..]) | ('null',)
    def const(self, v):
        k = ValueKind(v)
        T = self.ty(TypeOf(v))
        if k == 18:
            if T.width <= 64: return ('c', ConstZ(v))
            s = cstr(PrintV(v)); return ('c', int(s.split()[-1]) & ((1 << T.width) - 1))
        if k == 19:
            lo = C.c_int(); d = ConstReal(v, C.byref(lo))
            if T.width == 64:
                s = cstr(PrintV(v)).split()[-1]
                if s.startswith('0x'): return ('c', int(s, 16))
                return ('c', struct.unpack('<Q', struct.pack('<d', d))[0])
            if T.width == 32:
                s = cstr(PrintV(v)).split()[-1]
                if s.startswith('0x'):
                    d = struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
                return ('c', struct.unpack('<I', struct.pack('<f', d))[0])
            return ('u',)
        if k == 20: return ('null',)
        if k in (14, 25): return ('u',)
        if k == 15: return ('z',)
        if k in (5, 8): return ('g', vname(v), 0)
        if k == 6: return ('g', self.alias.get(vname(v), vname(v)), 0)
        if k in (11, 12, 13, 16, 17):
            n = len(T.elems) if T.kind == 'struct' else T.n
            return ('agg', [self.const(AggElem(v, i)) for i in range(n)])
        if k in (9, 21, 22, 23):
            return ('u',)
        return self.cexpr(v)
    def cexpr(self, v):
        op = OPN.get(ConstOpcode(v))
        if op == 'gep':
            base = self.const(GetOp(v, 0))
            off = 0; t = self.ty(GEPSrc(v))
            for i in range(1, NumOps(v)):
                iv = self.const(GetOp(v, i))
                if iv[0] != 'c': return ('u',)
                w = self.ty(TypeOf(GetOp(v, i))).width
                ix = iv[1] - (1 << w) if iv[1] >> (w - 1) else iv[1]
                if i == 1: off += ix * t.size
                elif t.kind == 'struct': off += t.offs[ix]; t = t.elems[ix]
                else: t = t.elem; off += ix * t.size
            if base[0] == 'g': return ('g', base[1], base[2] + off)
            if base[0] == 'null': return ('c', off & (2**64 - 1))
            return ('u',)
        if op in ('bitcast', 'inttoptr', 'ptrtoint'):
            return self.const(GetOp(v, 0))
        if op in ('add', 'sub') :
            a = self.const(GetOp(v, 0)); b = self.const(GetOp(v, 1))
            s = 1 if op == 'add' else -1
            if a[0] == 'g' and b[0] == 'c': return ('g', a[1], a[2] + s * b[1])
            if a[0] == 'c' and b[0] == 'c': return ('c', (a[1] + s * b[1]) & (2**64 - 1))
        return ('u',)
    def flatten(self, v, off, out):
        """initialiser -> list of (offset, nbytes, operand)"""
        T = self.ty(TypeOf(v)); k = ValueKind(v)
        if T.kind in ('struct', 'array', 'vector'):
            if k == 15: out.append((off, T.size, ('z',))); return
            if k in (14, 25): return
            if k == 16 and IsCString(v):
                n = C.c_size_t(); p = GetAsString(v, C.byref(n))
                out.append((off, n.value, ('bytes', C.string_at(p, n.value)))); return
            n = len(T.elems) if T.kind == 'struct' else T.n
            for i in range(n):
                o = T.offs[i] if T.kind == 'struct' else i * T.elem.size
                self.flatten(AggElem(v, i), off + o, out)
            return
        out.append((off, T.size, self.const(v)))
    # --- functions
    def load_fn(self, f):
        F = self.funcs[vname(f)]
        ids = {}
        F.params = []
        for i in range(NParams(f)):
            p = Param(f, i); ids[p] = len(ids); F.params.append((ids[p], self.ty(TypeOf(p))))
            at = AttrAt(f, i + 1, self.byval_kind)
            if at: F.byval[i] = self.ty(AttrTy(at))
        bbs = []; b = FirstBB(f)
        while b: bbs.append(b); b = NextBB(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        raw = []
        for b in bbs:
            il = []; i = FirstI(b)
            while i:
                il.append(i); ids[i] = len(ids); i = NextI(i)
            raw.append(il)
        F.nregs = len(ids)
        def opnd(v):
            r = ids.get(v)
            if r is not None: return ('v', r)
            if ValueKind(v) == 1: return ('bb', bidx[v])
            return self.const(v)
        for bi, b in enumerate(bbs):
            B = Block(); B.idx = bi; B.fn = F; B.insts = []; B.preds = set(); B.succs = []; B.name = '%d' % bi
            F.blocks.append(B)
            for i in raw[bi]:
                I = Inst(); I.op = OPN.get(Opcode(i), 'op%d' % Opcode(i)); I.id = ids[i]; I.ty = self.ty(TypeOf(i)); I.x = None
                I.fn = F; I.bb = bi; I.idx = len(B.insts)
                I.line = DbgLine(i); ln = C.c_uint(); fp = DbgFile(i, C.byref(ln)) if I.line else None
                I.file = C.string_at(fp, ln.value).decode() if fp else ''
                op = I.op
                if op in ('call', 'invoke'):
                    n = NArgs(i)
                    I.ops = [opnd(GetOp(i, k)) for k in range(n)]
                    cv = Called(i)
                    I.x = {'callee': opnd(cv) if ValueKind(cv) != 23 else ('asm',), 'tys': [self.ty(TypeOf(GetOp(i, k))) for k in range(n)]}
                    if ValueKind(cv) == 6: I.x['callee'] = ('g', self.alias[vname(cv)], 0)
                    if op == 'invoke':
                        I.x['norm'] = bidx[NormDest(i)]; I.x['unw'] = bidx[UnwDest(i)]
                elif op == 'br':
                    if IsCond(i):
                        I.ops = [opnd(Cond(i))]; I.x = (bidx[Succ(i, 0)], bidx[Succ(i, 1)])
                    else:
                        I.ops = []; I.x = (bidx[Succ(i, 0)],)
                elif op == 'switch':
                    n = NumOps(i)
                    I.ops = [opnd(GetOp(i, 0))]
                    cases = [(self.const(GetOp(i, k))[1], bidx[GetOp(i, k + 1)]) for k in range(2, n, 2)]
                    I.x = (bidx[GetOp(i, 1)], cases, self.ty(TypeOf(GetOp(i, 0))))
                elif op == 'phi':
                    I.ops = []
                    I.x = {}
                    for k in range(NInc(i)):
                        I.x[bidx[IncB(i, k)]] = opnd(IncV(i, k))
                else:
                    I.ops = [opnd(GetOp(i, k)) for k in range(NumOps(i))]
                    if op == 'icmp': I.x = (ICMP[ICmpP(i)], self.ty(TypeOf(GetOp(i, 0))))
                    elif op == 'fcmp': I.x = (FCMP[FCmpP(i)], self.ty(TypeOf(GetOp(i, 0))))
                    elif op == 'gep':
                        t = self.ty(GEPSrc(i)); coff = 0; dyn = []
                        for k in range(1, len(I.ops)):
                            o = I.ops[k]
                            if k == 1: sc = t.size
                            elif t.kind == 'struct':
                                coff += t.offs[o[1]]; t = t.elems[o[1]]; continue
                            else: t = t.elem; sc = t.size
                            w = self.ty(TypeOf(GetOp(i, k))).width
                            if o[0] == 'c':
                                ix = o[1] - (1 << w) if o[1] >> (w - 1) else o[1]
                                coff += ix * sc
                            else: dyn.append((o, sc, w))
                        I.x = (coff, dyn)
                    elif op == 'alloca': I.x = (self.ty(AllocTy(i)), GetAlign(i))
                    elif op in ('extractvalue', 'insertvalue'): I.x = [Idx(i)[k] for k in range(NIdx(i))]
                    elif op == 'landingpad':
                        I.ops = []; I.x = ([self.const(Clause(i, k)) for k in range(NClauses(i))], bool(IsCleanup(i)), [self.ty(TypeOf(Clause(i, k))).kind for k in range(NClauses(i))])
                    elif op == 'atomicrmw': I.x = RMWOp(i)
                    elif op == 'shufflevector': I.x = [MaskV(i, k) for k in range(NMask(i))]
                    elif op in ('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','bitcast','ptrtoint','inttoptr','freeze','ret','store','fneg','select','extractelement','insertelement','cmpxchg'):
                        I.x = [self.ty(TypeOf(GetOp(i, k))) for k in range(NumOps(i))]
                B.insts.append(I)
            T = B.insts[-1]
            if T.op == 'br': B.succs = list(T.x)
            elif T.op == 'switch': B.succs = [T.x[0]] + [c[1] for c in T.x[1]]
            elif T.op == 'invoke': B.succs = [T.x['norm'], T.x['unw']]
            B.phis = [I for I in B.insts if I.op == 'phi']; B.nphi = len(B.phis)
        for B in F.blocks:
            for s in B.succs: F.blocks[s].preds.add(B.idx)
        F.loops = natural_loops(F)

def natural_loops(F):
    """header idx -> set of block idxs (union over back edges), via dominators"""
    n = len(F.blocks)
    order = []; seen = set()
    stack = [(0, iter(F.blocks[0].succs))]; seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(F.blocks[s].succs))); break
        else:
            order.append(b); stack.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in F.blocks[b].preds if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]: d = inter(d, p)
            if idom.get(b) != d: idom[b] = d; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in F.blocks[x].preds if p in num)
    return loops
