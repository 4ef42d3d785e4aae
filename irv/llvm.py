"""Loads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C, subprocess, re

L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so.1') if False else C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so')
P = C.c_void_p

def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

ctx_create = _f('LLVMContextCreate', P)
mb_file = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_bc = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
parse_ir = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
first_fn = _f('LLVMGetFirstFunction', P, P); next_fn = _f('LLVMGetNextFunction', P, P)
first_gl = _f('LLVMGetFirstGlobal', P, P); next_gl = _f('LLVMGetNextGlobal', P, P)
vname = _f('LLVMGetValueName2', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
first_bb = _f('LLVMGetFirstBasicBlock', P, P); next_bb = _f('LLVMGetNextBasicBlock', P, P)
first_in = _f('LLVMGetFirstInstruction', P, P); next_in = _f('LLVMGetNextInstruction', P, P)
opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
nops = _f('LLVMGetNumOperands', C.c_int, P); opnd = _f('LLVMGetOperand', P, P, C.c_uint)
typeof = _f('LLVMTypeOf', P, P); tkind = _f('LLVMGetTypeKind', C.c_int, P)
intw = _f('LLVMGetIntTypeWidth', C.c_uint, P)
vkind = _f('LLVMGetValueKind', C.c_int, P)
zext = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
icmp_pred = _f('LLVMGetICmpPredicate', C.c_int, P)
fcmp_pred = _f('LLVMGetFCmpPredicate', C.c_int, P)
nsucc = _f('LLVMGetNumSuccessors', C.c_uint, P); succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
n_inc = _f('LLVMCountIncoming', C.c_uint, P); inc_v = _f('LLVMGetIncomingValue', P, P, C.c_uint); inc_b = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
gep_ty = _f('LLVMGetGEPSourceElementType', P, P)
alloca_ty = _f('LLVMGetAllocatedType', P, P)
n_idx = _f('LLVMGetNumIndices', C.c_uint, P); idxs = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
called = _f('LLVMGetCalledValue', P, P); called_ty = _f('LLVMGetCalledFunctionType', P, P)
n_args = _f('LLVMGetNumArgOperands', C.c_uint, P)
n_params = _f('LLVMCountParams', C.c_uint, P); param = _f('LLVMGetParam', P, P, C.c_uint)
isdecl = _f('LLVMIsDeclaration', C.c_int, P)
norm_dest = _f('LLVMGetNormalDest', P, P); unw_dest = _f('LLVMGetUnwindDest', P, P)
n_clauses = _f('LLVMGetNumClauses', C.c_uint, P); clause = _f('LLVMGetClause', P, P, C.c_uint); is_cleanup = _f('LLVMIsCleanup', C.c_int, P)
DL = _f('LLVMGetModuleDataLayout', P, P)
abisize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P); offof = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
storesz = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
el_ty = _f('LLVMGetElementType', P, P); st_n = _f('LLVMCountStructElementTypes', C.c_uint, P); st_at = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
arr_len = _f('LLVMGetArrayLength', C.c_uint, P) ; 
sname = _f('LLVMGetStructName', C.c_char_p, P)
ret_ty = _f('LLVMGetReturnType', P, P)
fty_n = _f('LLVMCountParamTypes', C.c_uint, P)
ce_op = _f('LLVMGetConstOpcode', C.c_int, P)
init_of = _f('LLVMGetInitializer', P, P)
gvty = _f('LLVMGlobalGetValueType', P, P)
rmw_op = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
isvar = _f('LLVMIsFunctionVarArg', C.c_int, P)
val_str = _f('LLVMPrintValueToString', C.c_void_p, P)
ty_str = _f('LLVMPrintTypeToString', C.c_void_p, P)
dispose_msg = _f('LLVMDisposeMessage', None, C.c_void_p)
is_const_str = _f('LLVMIsConstantString', C.c_int, P)
as_str = _f('LLVMGetAsString', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
const_real = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
aggr_el = _f('LLVMGetAggregateElement', P, P, C.c_uint)
isglobconst = _f('LLVMIsGlobalConstant', C.c_int, P)

OP = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}

class Ty:
    __slots__ = ('k','w','size','elem','n','elems','offs','name','store')
    # k in: void int ptr struct array float func other
    def __repr__(s): return s.name

class Module:
    def __init__(self, path):
        self.ctx = ctx_create()
        buf = P(); err = C.c_char_p()
        if mb_file(path.encode(), C.byref(buf), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if path.endswith('.ll'):
            if parse_ir(self.ctx, buf, C.byref(m), C.byref(err)): raise RuntimeError(err.value)
        else:
            if parse_bc(self.ctx, buf, C.byref(m)): raise RuntimeError('bitcode')
        self.m = m; self.dl = DL(m)
        self.types = {}
        self.funcs = {}; self.byptr = {}
        f = first_fn(m)
        while f:
            fn = Function(self, f); self.funcs[fn.name] = fn; self.byptr[f] = fn
            f = next_fn(f)
        names = list(self.funcs)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        rest = [k for k, o in enumerate(out[:len(names)]) if o.startswith('_Z')]
        if rest:   # newer manglings
            o2 = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names[k] for k in rest), capture_output=True, text=True).stdout.split('\n')
            for k, d in zip(rest, o2):
                while '>>' in d and 'operator>>' not in d: d = d.replace('>>', '> >')
                out[k] = d
        self.dem = {}
        for n, d in zip(names, out):
            self.funcs[n].dem = d
        self.globals = {}
        g = first_gl(m)
        while g:
            n = _name(g); self.globals[n] = g; g = next_gl(g)
    def ty(self, t):
        r = self.types.get(t)
        if r: return r
        r = Ty(); self.types[t] = r
        k = tkind(t); r.w = 0; r.elem = None; r.n = 0; r.elems = []; r.offs = []; r.store = 0
        s = ty_str(t); r.name = C.string_at(s).decode(); dispose_msg(s)
        r.size = None
        if k == 0: r.k = 'void'
        elif k == 8: r.k = 'int'; r.w = intw(t)
        elif k == 12: r.k = 'ptr'; r.w = 64
        elif k == 10:
            r.k = 'struct'; n = st_n(t)
            r.elems = [self.ty(st_at(t, i)) for i in range(n)]
            if 'opaque' not in r.name.split('=')[-1][:10]:
                try: r.offs = [offof(self.dl, t, i) for i in range(n)]
                except Exception: pass
        elif k == 11: r.k = 'array'; r.elem = self.ty(el_ty(t)); r.n = arr_len(t)
        elif k in (2,3,4): r.k = 'float'; r.w = {2:32,3:64,4:80}.get(k,64)
        elif k == 9: r.k = 'func'
        elif k == 13: r.k = 'vector'; 
        else: r.k = 'other%d' % k
        if r.k in ('int','ptr','struct','array','float','vector'):
            if not (r.k == 'struct' and r.name.endswith('opaque')):
                r.size = abisize(self.dl, t); r.store = storesz(self.dl, t)
        return r
    def value(self, v):
        """operand -> tuple"""
        k = vkind(v)
        # LLVMValueKind: 0 Argument,1 BB,2 MemoryUse..,5 Function,6 GlobalAlias,7 GlobalIFunc,8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstantArray,12 ConstantStruct,13 ConstantVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 Int,19 FP,20 NullPtr,21 TokenNone,22 MetadataAsValue,23 InlineAsm,24 Instruction,25 Poison
        if k in (0, 24): return ('r', v)
        if k == 18: return ('int', zext(v), intw(typeof(v))) if intw(typeof(v)) <= 64 else ('bigint', v)
        if k == 20: return ('null',)
        if k == 5: return ('fn', _name(v))
        if k == 8: return ('gv', _name(v))
        if k in (14, 25): return ('undef', self.ty(typeof(v)))
        if k == 15: return ('zero', self.ty(typeof(v)))
        if k == 19:
            b = C.c_int(); return ('fp', const_real(v, C.byref(b)))
        if k == 10:
            o = OP.get(ce_op(v))
            ops = [self.value(opnd(v, i)) for i in range(nops(v))]
            if o == 'gep': return ('cegep', self.ty(gep_ty(v)), ops)
            return ('ce', o, ops, self.ty(typeof(v)))
        if k in (11, 12, 16):
            t = self.ty(typeof(v)); n = t.n if t.k == 'array' else len(t.elems)
            return ('agg', t, [self.value(aggr_el(v, i)) for i in range(n)])
        if k == 22: return ('md',)
        if k == 1: return ('bb', v)
        return ('other', k)
    def global_init(self, name):
        g = self.globals[name]
        i = init_of(g)
        return (self.ty(gvty(g)), self.value(i) if i else None, bool(isglobconst(g)))

def _name(v):
    n = C.c_size_t(); p = vname(v, C.byref(n)); return C.string_at(p, n.value).decode()

class Function:
    def __init__(self, mod, f):
        self.mod = mod; self.f = f; self.name = _name(f); self.dem = self.name
        self.decl = bool(isdecl(f)); self._blocks = None
        self.params = [param(f, i) for i in range(n_params(f))]
    @property
    def nparams(self): return len(self.params)
    def body(self):
        if self._blocks is None: self._load()
        return self._blocks
    def _load(self):
        bs = {}; self.entry = None
        b = first_bb(self.f)
        while b:
            if self.entry is None: self.entry = b
            ins = []
            i = first_in(b)
            while i:
                I = Instr(self.mod, i)
                if I.op: ins.append(I)
                i = next_in(i)
            bs[b] = ins
            b = next_bb(b)
        self._blocks = bs
        self._loops = None
    def loops(self):
        """natural loops: header -> set of blocks"""
        self.body()
        if self._loops is not None: return self._loops
        import collections
        succs = {b: ins[-1].succs for b, ins in self._blocks.items()}
        # dominators (iterative)
        order = []; seen = set()
        st = [(self.entry, iter(succs[self.entry]))]; seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succs[s]))); break
            else:
                order.append(n); st.pop()
        rpo = order[::-1]; preds = collections.defaultdict(list)
        for b in rpo:
            for s in succs[b]: preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == self.entry: continue
                d = None
                for p in preds[b]:
                    d = set(dom[p]) if d is None else d & dom[p]
                d = (d or set()) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in rpo:
            for s in succs[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s}); stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x); stack.extend(preds[x])
        self._loops = loops
        return loops

class Instr:
    __slots__ = ('id','op','ty','ops','succs','x','extra','mod')
    def __init__(self, mod, i):
        self.id = i; o = OP.get(opcode(i), '?%d' % opcode(i)); self.op = o; self.mod = mod
        self.ty = mod.ty(typeof(i)); self.succs = []; self.x = None; self.extra = None; self.ops = []
        if o == 'phi':
            self.x = {inc_b(i, k): mod.value(inc_v(i, k)) for k in range(n_inc(i))}; return
        if o in ('call', 'invoke'):
            na = n_args(i)
            self.ops = [mod.value(opnd(i, k)) for k in range(na)]
            self.x = mod.value(called(i))
            self.extra = [mod.ty(typeof(opnd(i, k))) for k in range(na)]
            if o == 'invoke': self.succs = [norm_dest(i), unw_dest(i)]
            elif self.x[0] == 'fn' and self.x[1].startswith('llvm.dbg'): self.op = None
            elif self.x[0] == 'fn' and self.x[1].startswith('llvm.lifetime'): self.op = None
            return
        if o in ('br', 'switch'):
            self.succs = [succ(i, k) for k in range(nsucc(i))]
            if o == 'br':
                self.ops = [mod.value(opnd(i, 0))] if nsucc(i) == 2 else []
            else:
                self.ops = [mod.value(opnd(i, 0))]
                self.x = [(zext(opnd(i, 2 + 2 * k)), opnd(i, 3 + 2 * k)) for k in range((nops(i) - 2) // 2)]
                self.extra = succ(i, 0)
            return
        self.ops = [mod.value(opnd(i, k)) for k in range(nops(i))]
        if o == 'icmp': self.x = ICMP[icmp_pred(i)]; self.extra = mod.ty(typeof(opnd(i, 0)))
        elif o == 'fcmp': self.x = fcmp_pred(i)
        elif o == 'gep': self.x = mod.ty(gep_ty(i)); self.extra = None
        elif o == 'alloca': self.x = mod.ty(alloca_ty(i))
        elif o in ('extractvalue', 'insertvalue'): self.x = [idxs(i)[k] for k in range(n_idx(i))]
        elif o == 'landingpad':
            self.x = [mod.value(clause(i, k)) for k in range(n_clauses(i))]; self.extra = bool(is_cleanup(i))
        elif o == 'atomicrmw': self.x = RMW.get(rmw_op(i)); self.extra = mod.ty(typeof(opnd(i, 1)))
        elif o == 'store': self.extra = mod.ty(typeof(opnd(i, 0)))
        elif o in ('zext', 'sext', 'trunc', 'ptrtoint', 'cmpxchg', 'bitcast', 'freeze','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc'): self.extra = mod.ty(typeof(opnd(i, 0)))
        elif o == 'ret': self.extra = None
    def text(self):
        s = val_str(self.id); t = C.string_at(s).decode(); dispose_msg(s); return t.strip()
