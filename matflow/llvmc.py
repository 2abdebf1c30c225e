"""Thin ctypes binding to the LLVM-C API (libLLVM-18): only what matflow needs to read IR."""
import ctypes as C, ctypes.util, os

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"]
L = None
for c in _cands:
    try:
        L = C.CDLL(c); break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn

U = C.c_uint
CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
ContextCreate = _f("LLVMContextCreate", P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
_ValueName2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
def ValueName(v):
    n = C.c_size_t(); p = _ValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ""
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
CountStruct = _f("LLVMCountStructElementTypes", U, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
ElemType = _f("LLVMGetElementType", P, P)
ArrayLength = _f("LLVMGetArrayLength2", C.c_uint64, P)
VectorSize = _f("LLVMGetVectorSize", U, P)
ConstIntZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstRealDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
_PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
_PrintType = _f("LLVMPrintTypeToString", C.c_void_p, P)
_Dispose = _f("LLVMDisposeMessage", None, C.c_void_p)
def PrintValue(v):
    p = _PrintValue(v); s = C.string_at(p).decode(errors="replace"); _Dispose(p); return s
def PrintType(v):
    p = _PrintType(v); s = C.string_at(p).decode(errors="replace"); _Dispose(p); return s
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
IsAInstruction = _f("LLVMIsAInstruction", P, P)
IsNull = _f("LLVMIsNull", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSourceType = _f("LLVMGetGEPSourceElementType", P, P)
AggElem = _f("LLVMGetAggregateElement", P, P, U)
Initializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOperands = _f("LLVMGetNumArgOperands", U, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
_AttrKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
def AttrKind(n): return _AttrKind(n.encode(), len(n))
FnAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
CallAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
AttrType = _f("LLVMGetTypeAttributeValue", P, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
NumSuccessors = _f("LLVMGetNumSuccessors", U, P)
Successor = _f("LLVMGetSuccessor", P, P, U)
Condition = _f("LLVMGetCondition", P, P)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
Indices = _f("LLVMGetIndices", C.POINTER(U), P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NumMask = _f("LLVMGetNumMaskElements", U, P)
MaskValue = _f("LLVMGetMaskValue", C.c_int, P, U)
NumClauses = _f("LLVMGetNumClauses", U, P)
Clause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
DebugLine = _f("LLVMGetDebugLocLine", U, P)
_DebugFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(U))
_DebugDir = _f("LLVMGetDebugLocDirectory", C.c_void_p, P, C.POINTER(U))
def DebugLoc(i):
    n = U(); p = _DebugFile(i, C.byref(n))
    if not p: return None
    f = C.string_at(p, n.value).decode(errors="replace")
    return f, DebugLine(i)
GlobalAliasTarget = _f("LLVMAliasGetAliasee", P, P)

# opcodes
OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",
 8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",
 20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"gep",
 30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",
 39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",
 49:"vaarg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",
 55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
# type kinds
TK = {0:"void",1:"half",2:"float",3:"double",4:"x86_fp80",5:"fp128",6:"ppc",7:"label",8:"int",9:"function",10:"struct",
      11:"array",12:"ptr",13:"vector",14:"metadata",17:"svector",16:"token",18:"bfloat"}
# value kinds (LLVMValueKind, LLVM 18)
VK = {0:"arg",1:"bb",2:"memuse",3:"memdef",4:"memphi",5:"function",6:"alias",7:"ifunc",8:"global",9:"blockaddr",
 10:"cexpr",11:"carray",12:"cstruct",13:"cvector",14:"undef",15:"zeroagg",16:"cdataarray",17:"cdatavector",18:"cint",19:"cfp",
 20:"null",21:"tokennone",22:"mdasvalue",23:"asm",24:"inst",25:"poison",26:"ctargetnone"}

class RawModule:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb = P(); err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        m = P()
        if ParseIR(self.ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.td = DataLayout(m)
        self.functions = {}
        f = FirstFunction(m)
        while f:
            self.functions[ValueName(f)] = f; f = NextFunction(f)
        self.globals = {}
        g = FirstGlobal(m)
        while g:
            self.globals[ValueName(g)] = g; g = NextGlobal(g)

_dem = None
def demangle(n):
    global _dem
    if _dem is None:
        lib = C.CDLL("libstdc++.so.6")
        _dem = lib.__cxa_demangle; _dem.restype = C.c_void_p
        _dem.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
    st = C.c_int()
    r = _dem(n.encode(), None, None, C.byref(st))
    if not r: return n
    s = C.string_at(r).decode(); return s
