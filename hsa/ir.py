"""Reads LLVM bitcode (through the LLVM-C API of libLLVM-18) into plain Python
objects: the typed, resolved program the analyses work on."""
import ctypes, glob, re, subprocess, os
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, byref, POINTER

_L = None
def L():
    global _L
    if _L is None:
        for p in ('libLLVM-18.so', 'libLLVM-18.so.1', 'libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so'):
            try:
                _L = ctypes.CDLL(p)
                break
            except OSError:
                pass
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        vp = ['LLVMContextCreate', 'LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
              'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMGetOperand', 'LLVMTypeOf', 'LLVMGetElementType', 'LLVMGetAllocatedType',
              'LLVMGetGEPSourceElementType', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetInitializer', 'LLVMGetAggregateElement',
              'LLVMGetIncomingValue', 'LLVMGetIncomingBlock', 'LLVMGetParam', 'LLVMGetModuleDataLayout', 'LLVMStructGetTypeAtIndex',
              'LLVMGlobalGetValueType', 'LLVMGetCalledValue', 'LLVMGetSuccessor', 'LLVMValueAsBasicBlock', 'LLVMGetReturnType', 'LLVMGetCondition',
              'LLVMGetCalledFunctionType', 'LLVMGetSwitchDefaultDest', 'LLVMGetElementAsConstant']
        for n in vp:
            getattr(_L, n).restype = c_void_p
        for n in ('LLVMGetValueName2', 'LLVMGetStructName', 'LLVMGetDebugLocFilename', 'LLVMGetAsString', 'LLVMGetTarget', 'LLVMGetInlineAsmAsmString'):
            getattr(_L, n).restype = c_char_p
        for n in ('LLVMPrintValueToString', 'LLVMPrintTypeToString', 'LLVMPrintModuleToString'):
            getattr(_L, n).restype = c_void_p
        _L.LLVMConstIntGetZExtValue.restype = c_ulonglong
        for n in ('LLVMOffsetOfElement', 'LLVMABISizeOfType', 'LLVMSizeOfTypeInBits'):
            getattr(_L, n).restype = c_ulonglong
        _L.LLVMGetArrayLength2.restype = c_ulonglong
    return _L

def _v(x):
    return c_void_p(x)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       60: 'addrspacecast', 68: 'freeze', 66: 'fneg'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# value kinds
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS, VK_GVAR = 0, 1, 5, 6, 8
VK_CE, VK_ARR, VK_STRUCT, VK_UNDEF, VK_AGZERO, VK_DARR, VK_INT, VK_FP, VK_NULL, VK_INSTR = 10, 11, 12, 14, 15, 16, 18, 19, 20, 24
VK_POISON = 25

class Type:
    __slots__ = ('kind', 'bits', 'size', 'elem', 'n', 'fields', 'offs', 'name')
    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        return self.name or self.kind

class Const:          # integer constant
    __slots__ = ('v', 'w')
    def __init__(self, v, w):
        self.v, self.w = v, w
    def __repr__(self):
        return '%d:i%d' % (self.v, self.w)
class Null:
    __slots__ = ()
class Undef:
    __slots__ = ('ty',)
    def __init__(self, ty=None):
        self.ty = ty
class GRef:           # address of a global (function or variable) plus a constant offset
    __slots__ = ('name', 'off')
    def __init__(self, name, off=0):
        self.name, self.off = name, off
    def __repr__(self):
        return '@%s+%d' % (self.name, self.off)
class Agg:            # constant aggregate: list of (offset, const)
    __slots__ = ('items', 'size')
    def __init__(self, items, size):
        self.items, self.size = items, size
class Opaque:
    __slots__ = ('text',)
    def __init__(self, text):
        self.text = text

class Arg:
    __slots__ = ('name', 'ty', 'idx')
class Instr:
    __slots__ = ('op', 'ops', 'ty', 'pred', 'callee', 'line', 'file', 'block', 'phi', 'geps', 'aty', 'succs', 'cases', 'idx', 'name', 'uses', 'flags', 'fnty')
    def __repr__(self):
        return '<%s@%s:%s>' % (self.op, self.file, self.line)
class Block:
    __slots__ = ('name', 'instrs', 'func', 'succs', 'preds', 'idx', 'rpo', 'loophead', 'loop')
    def __repr__(self):
        return '%s:%s' % (self.func.name, self.name or self.idx)
class Function:
    __slots__ = ('name', 'args', 'blocks', 'module', 'retty', 'vararg', 'decl', 'internal', 'line', 'file', 'loops')
    def __repr__(self):
        return 'fn ' + self.name
class Global:
    __slots__ = ('name', 'ty', 'size', 'const', 'internal', 'init', 'decl', 'module', 'line')

class Module:
    def __init__(self, path):
        self.path = path
        self.funcs, self.globals = {}, {}
        l = L()
        ctx = l.LLVMContextCreate()
        buf = c_void_p(); err = c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(err)):
            raise RuntimeError('cannot read %s' % path)
        m = c_void_p()
        if l.LLVMParseBitcodeInContext2(_v(ctx), buf, byref(m)):
            raise RuntimeError('cannot parse %s' % path)
        self.m = m
        self.td = l.LLVMGetModuleDataLayout(m)
        self.ptrsize = l.LLVMPointerSize(_v(self.td))
        self.bigendian = l.LLVMByteOrder(_v(self.td)) == 0
        self._types, self._consts = {}, {}
        g = l.LLVMGetFirstGlobal(m)
        gl = []
        while g:
            gl.append(g)
            g = l.LLVMGetNextGlobal(_v(g))
        f = l.LLVMGetFirstFunction(m)
        fl = []
        while f:
            fl.append(f)
            f = l.LLVMGetNextFunction(_v(f))
        for g in gl:
            o = Global()
            o.module = self
            o.name = self._name(g)
            o.ty = self._type(l.LLVMGlobalGetValueType(_v(g)))
            o.size = o.ty.size
            o.const = bool(l.LLVMIsGlobalConstant(_v(g)))
            o.internal = l.LLVMGetLinkage(_v(g)) in (8, 9)
            o.decl = bool(l.LLVMIsDeclaration(_v(g)))
            self.globals[o.name] = o
        for g in gl:
            o = self.globals[self._name(g)]
            i = l.LLVMGetInitializer(_v(g)) if not o.decl else None
            o.init = self._const(i) if i else None
        for f in fl:
            self._func(f)
        self._resolve_constant_pointers()
        l.LLVMDisposeModule(m)
        l.LLVMContextDispose(_v(ctx))
        self._types = self._consts = None
        self._lay = None

    def _resolve_constant_pointers(self):
        """calls by a constant pointer to a function are calls of that function"""
        for f in self.funcs.values():
            for b in f.blocks:
                for i in b.instrs:
                    c = i.callee
                    if i.op == 'call' and isinstance(c, Instr) and c.op == 'load' and isinstance(c.ops[0], GRef):
                        g = self.globals.get(c.ops[0].name)
                        if g is not None and g.const and isinstance(g.init, GRef) and g.init.name in self.funcs:
                            i.callee = g.init
                            i.flags |= 4 if c.flags & 2 else 8

    def _name(self, v):
        n = c_size_t()
        return (L().LLVMGetValueName2(_v(v), byref(n)) or b'').decode('utf8', 'replace')

    def _type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        l = L()
        r = Type()
        self._types[t] = r
        k = l.LLVMGetTypeKind(_v(t))
        r.name = None; r.bits = 0; r.size = 0; r.elem = None; r.n = 0; r.fields = None; r.offs = None
        if k == 8:
            r.kind = 'int'; r.bits = l.LLVMGetIntTypeWidth(_v(t)); r.size = (r.bits + 7) // 8
        elif k == 12:
            r.kind = 'ptr'; r.size = self.ptrsize; r.bits = self.ptrsize * 8
        elif k == 0:
            r.kind = 'void'
        elif k == 11:
            r.kind = 'array'; r.elem = self._type(l.LLVMGetElementType(_v(t))); r.n = l.LLVMGetArrayLength2(_v(t)); r.size = l.LLVMABISizeOfType(_v(self.td), _v(t))
        elif k == 10:
            r.kind = 'struct'
            r.name = (l.LLVMGetStructName(_v(t)) or b'').decode()
            if l.LLVMIsOpaqueStruct(_v(t)):
                r.fields, r.offs = [], []
            else:
                n = l.LLVMCountStructElementTypes(_v(t))
                r.fields = [self._type(l.LLVMStructGetTypeAtIndex(_v(t), c_uint(i))) for i in range(n)]
                r.offs = [l.LLVMOffsetOfElement(_v(self.td), _v(t), c_uint(i)) for i in range(n)]
                r.size = l.LLVMABISizeOfType(_v(self.td), _v(t))
        elif k in (2, 3):
            r.kind = 'fp'; r.size = {2: 4, 3: 8}[k]; r.bits = r.size * 8
        elif k == 9:
            r.kind = 'func'
        else:
            r.kind = 'other%d' % k
            try:
                r.size = l.LLVMABISizeOfType(_v(self.td), _v(t)) if l.LLVMTypeIsSized(_v(t)) else 0
            except Exception:
                pass
        return r

    def _const(self, v):
        r = self._consts.get(v)
        if r is None:
            r = self._consts[v] = self._const1(v)
        return r

    def _const1(self, v):
        l = L()
        k = l.LLVMGetValueKind(_v(v))
        ty = self._type(l.LLVMTypeOf(_v(v)))
        if k == VK_INT:
            if ty.bits > 64:
                return Opaque('wide')
            return Const(l.LLVMConstIntGetZExtValue(_v(v)), ty.bits)
        if k == VK_NULL:
            return Null()
        if k in (VK_UNDEF, VK_POISON):
            return Undef(ty)
        if k in (VK_FUNC, VK_GVAR, VK_GALIAS):
            return GRef(self._name(v))
        if k == VK_AGZERO:
            return Agg([], ty.size)
        if k in (VK_ARR, VK_DARR, VK_STRUCT):
            items = []
            n = ty.n if ty.kind == 'array' else len(ty.fields)
            for i in range(n):
                e = l.LLVMGetElementAsConstant(_v(v), c_uint(i)) if k == VK_DARR else l.LLVMGetOperand(_v(v), c_uint(i))
                off = ty.elem.size * i if ty.kind == 'array' else ty.offs[i]
                # not cached: constants of the same type and value share one handle
                c = self._const(e)
                if isinstance(c, Agg):
                    items += [(off + o, x) for o, x in c.items]
                elif isinstance(c, Const) and c.v == 0:
                    pass
                else:
                    items.append((off, c))
            return Agg(items, ty.size)
        if k == VK_CE:
            opc = OPC.get(l.LLVMGetConstOpcode(_v(v)))
            if opc == 'gep':
                base = self._const(l.LLVMGetOperand(_v(v), 0))
                off = 0
                cur = self._type(l.LLVMGetGEPSourceElementType(_v(v)))
                for i in range(1, l.LLVMGetNumOperands(_v(v))):
                    c = self._const(l.LLVMGetOperand(_v(v), i))
                    iv = c.v if isinstance(c, Const) else 0
                    if isinstance(c, Const) and iv >> (c.w - 1):
                        iv -= 1 << c.w
                    if i == 1:
                        off += iv * cur.size
                    elif cur.kind == 'struct':
                        off += cur.offs[iv]; cur = cur.fields[iv]
                    else:
                        cur = cur.elem; off += iv * cur.size
                if isinstance(base, GRef):
                    return GRef(base.name, base.off + off)
                return Opaque('gep')
            if opc in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self._const(l.LLVMGetOperand(_v(v), 0))
            return Opaque('ce:%s' % opc)
        if k == VK_FP:
            return Opaque('fp')
        return Opaque('kind%d' % k)

    def _func(self, f):
        l = L()
        o = Function()
        o.name = self._name(f); o.module = self; o.blocks = []; o.loops = None
        o.decl = bool(l.LLVMIsDeclaration(_v(f)))
        o.internal = l.LLVMGetLinkage(_v(f)) in (8, 9)
        ft = l.LLVMGlobalGetValueType(_v(f))
        o.vararg = bool(l.LLVMIsFunctionVarArg(_v(ft)))
        o.retty = self._type(l.LLVMGetReturnType(_v(ft)))
        o.args = []
        o.line = l.LLVMGetDebugLocLine(_v(f)) if not o.decl else 0
        n = c_uint()
        o.file = (l.LLVMGetDebugLocFilename(_v(f), byref(n)) or b'').decode() if not o.decl else ''
        vals = {}
        for i in range(l.LLVMCountParams(_v(f))):
            p = l.LLVMGetParam(_v(f), c_uint(i))
            a = Arg(); a.idx = i; a.name = self._name(p); a.ty = self._type(l.LLVMTypeOf(_v(p)))
            o.args.append(a); vals[p] = a
        self.funcs[o.name] = o
        if o.decl:
            return
        bmap, todo = {}, []
        b = l.LLVMGetFirstBasicBlock(_v(f))
        while b:
            B = Block(); B.func = o; B.name = ''; B.instrs = []; B.idx = len(o.blocks); B.succs = []; B.preds = []; B.loophead = False; B.loop = None
            o.blocks.append(B); bmap[b] = B
            b = l.LLVMGetNextBasicBlock(_v(b))
        cnt = 0
        for b, B in list(bmap.items()):
            i = l.LLVMGetFirstInstruction(_v(b))
            while i:
                I = Instr()
                I.op = OPC.get(l.LLVMGetInstructionOpcode(_v(i)), 'op%d' % l.LLVMGetInstructionOpcode(_v(i)))
                I.ty = self._type(l.LLVMTypeOf(_v(i))); I.block = B; I.idx = cnt; cnt += 1
                I.ops = []; I.pred = I.callee = I.phi = I.geps = I.aty = I.succs = I.cases = None
                I.uses = 0; I.flags = 0; I.fnty = None
                I.line = l.LLVMGetDebugLocLine(_v(i))
                I.file = ''
                I.name = ''
                vals[i] = I
                todo.append((i, I)); B.instrs.append(I)
                i = l.LLVMGetNextInstruction(_v(i))
        def val(x):
            r = vals.get(x)
            if r is not None:
                if isinstance(r, Instr):
                    r.uses += 1
                return r
            k = l.LLVMGetValueKind(_v(x))
            if k == VK_BB:
                return bmap[x]
            if k in (VK_INSTR, VK_ARG):
                raise KeyError('dangling value')
            if k == 23:
                n = c_size_t()
                t = l.LLVMGetInlineAsmAsmString(_v(x), byref(n)) or b''
                return Opaque('asm' if t.strip() == b'' else 'asm code')
            if k in (17, 21, 22):   # metadata etc.
                return Opaque('md')
            return self._const(x)
        for i, I in todo:
            n = l.LLVMGetNumOperands(_v(i))
            if I.op == 'br':
                if l.LLVMIsConditional(_v(i)):
                    I.ops = [val(l.LLVMGetCondition(_v(i)))]
                I.succs = [bmap[l.LLVMGetSuccessor(_v(i), c_uint(k))] for k in range(l.LLVMGetNumSuccessors(_v(i)))]
            elif I.op == 'switch':
                I.ops = [val(l.LLVMGetOperand(_v(i), 0))]
                I.cases = []
                for k in range(2, n, 2):
                    I.cases.append((self._const(l.LLVMGetOperand(_v(i), c_uint(k))).v, bmap[l.LLVMValueAsBasicBlock(_v(l.LLVMGetOperand(_v(i), c_uint(k + 1))))]))
                I.succs = [bmap[l.LLVMGetSwitchDefaultDest(_v(i))]] + [c[1] for c in I.cases]
            elif I.op == 'phi':
                I.phi = []
                for k in range(l.LLVMCountIncoming(_v(i))):
                    I.phi.append((val(l.LLVMGetIncomingValue(_v(i), c_uint(k))), bmap[l.LLVMGetIncomingBlock(_v(i), c_uint(k))]))
            elif I.op == 'call':
                cv = l.LLVMGetCalledValue(_v(i))
                na = l.LLVMGetNumArgOperands(_v(i))
                I.callee = val(cv)
                nm = I.callee.name if isinstance(I.callee, GRef) else None
                if nm and nm.startswith('llvm.dbg'):
                    I.op = 'nop'
                    continue
                I.ops = [val(l.LLVMGetOperand(_v(i), c_uint(k))) for k in range(na)]
            else:
                I.ops = [val(l.LLVMGetOperand(_v(i), c_uint(k))) for k in range(n)]
                if I.op in ('load', 'store') and l.LLVMGetVolatile(_v(i)):
                    I.flags = 2
                if I.op == 'icmp':
                    I.pred = PRED[l.LLVMGetICmpPredicate(_v(i))]
                elif I.op == 'alloca':
                    I.aty = self._type(l.LLVMGetAllocatedType(_v(i)))
                    I.name = self._name(i)
                elif I.op == 'gep':
                    # list of (scale, operand) plus constant
                    cur = self._type(l.LLVMGetGEPSourceElementType(_v(i)))
                    I.aty = cur
                    const, terms = 0, []
                    for k in range(1, n):
                        opnd = I.ops[k]
                        if k == 1:
                            sc = cur.size
                        elif cur.kind == 'struct':
                            const += cur.offs[opnd.v]; cur = cur.fields[opnd.v]
                            continue
                        else:
                            cur = cur.elem; sc = cur.size
                        if isinstance(opnd, Const):
                            x = opnd.v
                            if x >> (opnd.w - 1):
                                x -= 1 << opnd.w
                            const += x * sc
                        else:
                            terms.append((sc, opnd))
                    I.geps = (const, terms)
                elif I.op in ('extractvalue', 'insertvalue'):
                    I.flags = 1
            if I.op in ('br', 'switch'):
                B = I.block
                for s in I.succs:
                    if s not in B.succs:
                        B.succs.append(s)
                    if B not in s.preds:
                        s.preds.append(B)
        for i, I in todo:
            I.file = o.file
            if I.line:
                n2 = c_uint()
                I.file = (l.LLVMGetDebugLocFilename(_v(i), byref(n2)) or o.file.encode()).decode()
        for B in o.blocks:
            B.instrs = [x for x in B.instrs if x.op != 'nop']
        _cfg(o)

    def layouts(self):
        """{struct name: (size, {field: (offset, size)})} from the debug information"""
        if self._lay is None:
            self._lay = di_layouts(self.path)
        return self._lay

def _cfg(f):
    """reverse postorder, natural loops"""
    order, seen = [], set()
    stack = [(f.blocks[0], iter(f.blocks[0].succs))]
    seen.add(f.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    for b in f.blocks:
        b.rpo = 10 ** 9
    for i, b in enumerate(order):
        b.rpo = i
    # dominators
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in b.preds:
                if p in idom:
                    if n is None:
                        n = p
                    else:
                        x, y = p, n
                        while x is not y:
                            while x.rpo > y.rpo:
                                x = idom[x]
                            while y.rpo > x.rpo:
                                y = idom[y]
                        n = x
            if idom.get(b) is not n:
                idom[b] = n
                ch = True
    def dom(a, b):
        while True:
            if a is b:
                return True
            if b is order[0]:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in x.preds if p.rpo < 10 ** 9)
            elif s.rpo <= b.rpo:
                s.loophead = True      # irreducible
    for h in loops:
        h.loophead = True
    f.loops = loops
    for h, body in sorted(loops.items(), key=lambda x: -len(x[1])):
        for b in body:
            b.loop = h

def di_layouts(path):
    t = subprocess.run(['llvm-dis-18', path, '-o', '-'], capture_output=True, text=True).stdout
    md = {}
    for m in re.finditer(r'(?m)^(!\d+) = (?:distinct )?(!DI(?:Composite|Derived|Basic)Type\(.*\)|!\{.*\})$', t):
        md[m.group(1)] = m.group(2)
    def attr(s, k):
        m = re.search(r'[(, ]%s: (?:"([^"]*)"|([^,)]+))' % k, s)
        return None if not m else (m.group(1) if m.group(1) is not None else m.group(2))
    def tysize(r, d=0):
        s = md.get(r, '')
        if attr(s, 'size'):
            return int(attr(s, 'size')) // 8
        if attr(s, 'baseType') and d < 20:
            return tysize(attr(s, 'baseType'), d + 1)
        return 0
    def isptr(r, d=0):
        s = md.get(r, '')
        if 'DW_TAG_pointer_type' in s:
            return True
        if d < 20 and s.startswith('!DIDerivedType') and attr(s, 'baseType'):
            return isptr(attr(s, 'baseType'), d + 1)
        return False
    out = {}
    for k, s in md.items():
        if s.startswith('!DICompositeType') and 'DW_TAG_structure_type' in s and attr(s, 'name') and attr(s, 'elements'):
            fl = {}
            for e in re.findall(r'!\d+', md.get(attr(s, 'elements'), '')):
                es = md.get(e, '')
                if 'DW_TAG_member' in es:
                    fl[attr(es, 'name')] = (int(attr(es, 'offset') or 0) // 8, tysize(e), isptr(attr(es, 'baseType')))
            out[attr(s, 'name')] = (int(attr(s, 'size') or 0) // 8, fl)
    return out

class Program:
    """the modules of one configuration, linked by name"""
    def __init__(self, paths):
        self.modules = [Module(p) for p in paths]
        self.funcs, self.globals = {}, {}
        for m in self.modules:
            for n, f in m.funcs.items():
                if not f.decl and not f.internal:
                    self.funcs[n] = f
        self.ptrsize = self.modules[0].ptrsize if self.modules else 8
        self.bigendian = self.modules[0].bigendian if self.modules else False
    def resolve(self, module, name):
        """the definition of the function NAME as seen from MODULE, or its declaration"""
        f = module.funcs.get(name)
        if f is not None and not f.decl:
            return f
        g = self.funcs.get(name)
        return g if g is not None else f
    def resolve_global(self, module, name):
        g = module.globals.get(name)
        if g is not None and not g.decl:
            return g
        for m in self.modules:
            h = m.globals.get(name)
            if h is not None and not h.decl and not h.internal:
                return h
        return g
    def layout(self, struct):
        for m in self.modules:
            r = m.layouts().get(struct)
            if r:
                return r
        return None
    def functions(self):
        seen = set()
        for m in self.modules:
            for f in m.funcs.values():
                if not f.decl and id(f) not in seen:
                    seen.add(id(f))
                    yield f
