"""Reads LLVM bitcode (produced from /repo's sources on every run) through the
LLVM-C API and materialises it as plain Python objects."""
import ctypes as C, struct, subprocess, glob, os

def _lib():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError("libLLVM-18 not found")

L = _lib()
P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
ValueName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
CountBBs = _f("LLVMCountBasicBlocks", C.c_uint, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
IsOpaqueStruct = _f("LLVMIsOpaqueStruct", C.c_int, P)
ModDL = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_uint64, P, P)
ElemOff = _f("LLVMOffsetOfElement", C.c_uint64, P, P, C.c_uint)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
RealVal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
PrintVal = _f("LLVMPrintValueToString", C.c_void_p, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
CountInc = _f("LLVMCountIncoming", C.c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncBlk = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
CalledVal = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
GlobInit = _f("LLVMGetInitializer", P, P)
GlobValTy = _f("LLVMGlobalGetValueType", P, P)
IsGlobConst = _f("LLVMIsGlobalConstant", C.c_int, P)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
MaskElems = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
IsVolatile = _f("LLVMGetVolatile", C.c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
IsInlineAsm = _f("LLVMIsAInlineAsm", P, P)
IsNull = _f("LLVMIsNull", C.c_int, P)
ByValAttr = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
GetEnumAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
AttrTypeVal = _f("LLVMGetTypeAttributeValue", P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',
 25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',
 36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',
 56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}

class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "offs", "size", "store")
    def __repr__(s):
        return f"<{s.k}{s.w or ''}{'x%d'%s.n if s.n else ''} {s.size}>"
    def is_int(s): return s.k == 'int'

class V:  # value reference
    __slots__ = ("k", "ty", "v", "ops", "x", "name")
    # k: 'int','fp','null','undef','global','func','ce','arg','inst','agg','asm','bb','zero','meta'
    def __init__(s, k, ty, v=None, ops=None, x=None, name=None):
        s.k, s.ty, s.v, s.ops, s.x, s.name = k, ty, v, ops, x, name

class Inst:
    __slots__ = ("op", "ty", "ops", "x", "id", "name", "blk", "fn", "volatile")
    def __repr__(s): return f"<{s.op} #{s.id}>"

class Block:
    __slots__ = ("name", "insts", "idx", "succ", "phis", "preds")
    def __repr__(s): return f"<bb {s.idx}>"

class Fn:
    __slots__ = ("name", "dname", "mod", "ref", "_blocks", "nparams", "params", "decl", "_loops", "byval")
    def __repr__(s): return f"<fn {s.dname}>"

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, err = P(), C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(f"cannot read {path}: {err.value}")
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(f"cannot parse {path}: {err.value}")
        self.m, self.dl = m, ModDL(m)
        self._ty, self._vals = {}, {}
        self.fns, self.globals = {}, {}
        names = []
        f = FirstFunction(m)
        self._byval_kind = ByValAttr(b"byval", 5)
        while f:
            fn = Fn()
            fn.name, fn.mod, fn.ref, fn._blocks = self._name(f), self, f, None
            fn.decl = CountBBs(f) == 0
            fn.nparams = CountParams(f)
            fn._loops = None
            fn.byval = {}
            for i in range(fn.nparams):
                a = GetEnumAttr(f, i + 1, self._byval_kind)
                if a:
                    fn.byval[i] = self.ty(AttrTypeVal(a))
            self.fns[fn.name] = fn
            names.append(fn.name)
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = NextGlobal(g)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.by_dname = {}
        for n, d in zip(names, out):
            self.fns[n].dname = d
            self.by_dname.setdefault(d, self.fns[n])

    def _name(self, v):
        n = C.c_size_t()
        p = ValueName(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    def fn(self, name):
        """Look up by exact symbol, exact demangled name, or demangled name without parameters."""
        if name in self.fns: return self.fns[name]
        if name in self.by_dname: return self.by_dname[name]
        c = [f for d, f in self.by_dname.items() if d.split("(")[0] == name]
        if len(c) == 1: return c[0]
        raise KeyError(f"function {name!r}: {len(c)} candidates")

    def ty(self, t):
        r = self._ty.get(t)
        if r: return r
        k = TypeKind(t)
        r = Ty(); r.k = '?'; r.w = r.n = 0; r.el = r.fields = r.offs = None; r.size = r.store = 0
        self._ty[t] = r
        if k == 0: r.k = 'void'
        elif k in (1, 2, 3): r.k, r.w = 'float', {1: 16, 2: 32, 3: 64}[k]
        elif k == 4: r.k, r.w = 'x86fp80', 80
        elif k == 8: r.k, r.w = 'int', IntWidth(t)
        elif k == 9: r.k = 'func'
        elif k == 10:
            r.k = 'struct'
            if not IsOpaqueStruct(t):
                n = StructN(t)
                r.fields = [self.ty(StructAt(t, i)) for i in range(n)]
                r.offs = [ElemOff(self.dl, t, i) for i in range(n)]
                r.n = n
        elif k == 11: r.k, r.n, r.el = 'array', ArrLen(t), self.ty(ElemType(t))
        elif k == 12: r.k, r.w = 'ptr', 64
        elif k == 13: r.k, r.n, r.el = 'vector', VecLen(t), self.ty(ElemType(t))
        elif k == 7: r.k = 'label'
        elif k == 14: r.k = 'meta'
        elif k == 16: r.k = 'token'
        if r.k in ('float', 'int', 'array', 'ptr', 'vector', 'x86fp80') or (r.k == 'struct' and r.fields is not None):
            r.size, r.store = ABISize(self.dl, t), StoreSize(self.dl, t)
        return r

    def val(self, v):
        """Constants / globals (not instructions)"""
        r = self._vals.get(v)
        if r: return r
        k = ValueKind(v)
        ty = self.ty(TypeOf(v))
        if k == 5: r = V('func', ty, self._name(v))
        elif k in (6, 7, 8): r = V('global', ty, self._name(v))
        elif k in (11, 12, 13):
            r = V('agg', ty, ops=[self.val(GetOp(v, i)) for i in range(NumOps(v))])
        elif k in (14, 25): r = V('undef', ty)
        elif k == 15: r = V('zero', ty)
        elif k in (16, 17):
            r = V('agg', ty, ops=[self.val(AggElem(v, i)) for i in range(ty.n)])
        elif k == 18:
            if ty.w <= 64: r = V('int', ty, ZExtVal(v))
            else:
                t = PrintVal(v)
                s = C.string_at(t).decode().split()[-1]
                r = V('int', ty, int(s) & ((1 << ty.w) - 1))
        elif k == 19:
            l = C.c_int()
            d = RealVal(v, C.byref(l))
            if ty.w == 32: b = struct.unpack("<I", struct.pack("<f", d))[0]
            elif ty.w == 64: b = struct.unpack("<Q", struct.pack("<d", d))[0]
            elif ty.w == 16: b = struct.unpack("<H", struct.pack("<e", d))[0]
            else: b = d
            r = V('int', ty, b)
        elif k == 20: r = V('null', ty)
        elif k == 23: r = V('asm', ty)
        elif k == 22: r = V('meta', ty)
        elif k == 10:
            oc = OPC.get(ConstOpcode(v))
            x = self.ty(GEPSrc(v)) if oc == 'getelementptr' else None
            r = V('ce', ty, oc, [self.val(GetOp(v, i)) for i in range(NumOps(v))], x)
        else: r = V('undef', ty)
        self._vals[v] = r
        return r

    def blocks(self, fn):
        if fn._blocks is not None: return fn._blocks
        bbs, imap, bmap = [], {}, {}
        b = FirstBB(fn.ref)
        while b:
            bl = Block(); bl.idx = len(bbs); bl.name = None; bl.insts = []; bl.succ = []; bl.preds = []; bl.phis = []
            bmap[b] = bl; bbs.append((b, bl)); b = NextBB(b)
        raw = []
        for b, bl in bbs:
            i = FirstInst(b)
            while i:
                ins = Inst(); ins.id = len(raw); ins.op = OPC.get(Opcode(i), 'op%d' % Opcode(i)); ins.ty = self.ty(TypeOf(i))
                ins.blk = bl; ins.fn = fn; ins.x = None; ins.name = self._name(i); ins.volatile = False
                imap[i] = ins; raw.append((i, ins)); bl.insts.append(ins); i = NextInst(i)
        params = {}
        fn.params = []
        for n in range(fn.nparams):
            p = GetParam(fn.ref, n)
            v = V('arg', self.ty(TypeOf(p)), n, name=self._name(p))
            params[p] = v; fn.params.append(v)
        vcache = {}
        def val(v):
            r = vcache.get(v)
            if r: return r
            if v in imap:
                ins = imap[v]; r = V('inst', ins.ty, ins.id, x=ins)
            elif v in params: r = params[v]
            elif ValueKind(v) == 1 or v in bmap: r = V('bb', None, bmap.get(v))
            else:
                r = self.val(v)
            vcache[v] = r
            return r
        for i, ins in raw:
            op = ins.op
            if op == 'phi':
                ins.ops = []
                ins.x = [(bmap[IncBlk(i, n)], val(IncVal(i, n))) for n in range(CountInc(i))]
                ins.blk.phis.append(ins)
            elif op in ('br', 'switch'):
                ns = NumSucc(i)
                succ = [bmap[Succ(i, n)] for n in range(ns)]
                if op == 'br':
                    ins.ops = [val(GetOp(i, 0))] if ns == 2 else []
                    ins.x = succ
                else:
                    ins.ops = [val(GetOp(i, 0))]
                    ins.x = (succ[0], [(self.val(GetOp(i, 2 * n)).v, succ[n]) for n in range(1, ns)])
                ins.blk.succ = succ
            elif op in ('call', 'invoke'):
                na = NumArgOps(i)
                cv = CalledVal(i)
                args = [val(GetOp(i, n)) for n in range(na)]
                ins.ops = args
                callee = V('asm', None) if IsInlineAsm(cv) else val(cv)
                nd = ud = None
                if op == 'invoke':
                    nd, ud = bmap[NormalDest(i)], bmap[UnwindDest(i)]
                    ins.blk.succ = [nd, ud]
                ins.x = (callee, nd, ud)
            else:
                ins.ops = [val(GetOp(i, n)) for n in range(NumOps(i))]
                if op == 'icmp': ins.x = ICMP[ICmpPred(i)]
                elif op == 'fcmp': ins.x = FCMP[FCmpPred(i)]
                elif op == 'getelementptr': ins.x = self.ty(GEPSrc(i))
                elif op == 'alloca': ins.x = self.ty(AllocTy(i))
                elif op in ('extractvalue', 'insertvalue'):
                    ins.x = [Idxs(i)[n] for n in range(NumIdx(i))]
                elif op == 'shufflevector':
                    ins.x = [MaskVal(i, n) for n in range(MaskElems(i))]
                elif op == 'atomicrmw': ins.x = RMW.get(RMWOp(i))
                if op in ('load', 'store'): ins.volatile = bool(IsVolatile(i))
        for _, bl in bbs:
            for s in bl.succ: s.preds.append(bl)
        fn._blocks = [bl for _, bl in bbs]
        return fn._blocks

    def loops(self, fn):
        """natural loops: {header_idx: set(block idx)} (merged per header)"""
        if fn._loops is not None: return fn._loops
        B = self.blocks(fn)
        n = len(B)
        # dominators (iterative)
        order, seen = [], set()
        st = [(B[0], iter(B[0].succ))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx); st.append((s, iter(s.succ))); break
            else:
                order.append(b.idx); st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in B[b].preds:
                    p = p.idx
                    if p not in idom: continue
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in B[b].succ:
                if dom(s.idx, b):
                    body = loops.setdefault(s.idx, {s.idx})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk.extend(p.idx for p in B[x].preds if p.idx in num)
        fn._loops = loops
        return loops

    def ginit(self, name):
        g = self.globals[name]
        ty = self.ty(GlobValTy(g))
        i = GlobInit(g)
        return ty, (self.val(i) if i else None), bool(IsGlobConst(g))
