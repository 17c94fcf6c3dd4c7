"""CUDA kernels from /repo's source: compiled by clang to LLVM IR, which is executed symbolically thread by thread, or
compiled natively and called through ctypes for the replays."""
import ctypes
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

from . import engine as E
from . import snp

PRELUDE = '''struct dim3_ { int x, y, z; };
extern "C" { extern dim3_ threadIdx, blockIdx, blockDim, gridDim; double atomicAdd_(double*, double); }
static inline double atomicAdd(double* p, double v) { return atomicAdd_(p, v); }
static inline int min(int a, int b) { return b < a ? b : a; }
static inline int max(int a, int b) { return a < b ? b : a; }
static inline long min(long a, long b) { return b < a ? b : a; }
static inline long max(long a, long b) { return a < b ? b : a; }
static inline double min(double a, double b) { return b < a ? b : a; }
static inline double max(double a, double b) { return a < b ? b : a; }
static inline double fmin(double a, double b) { return b < a ? b : a; }
static inline double fmax(double a, double b) { return a < b ? b : a; }
static inline double fma(double a, double b, double c) { return a * b + c; }
static inline double fabs(double a) { return a < 0 ? -a : a; }
static inline int abs(int a) { return a < 0 ? -a : a; }
template<class T> static inline T __ldg(const T* p) { return *p; }
typedef unsigned int uint; typedef unsigned long size_t;
#define __global__ __attribute__((used))
#define __host__
#define __noinline__
#define __launch_bounds__(...)
#define __inline__ inline
#define __device__ static
#define __forceinline__ inline
#define __restrict__
'''
NATIVE = '''extern "C" { dim3_ threadIdx, blockIdx, blockDim, gridDim; double atomicAdd_(double* p, double v) { double o = *p; *p += v; return o; } }
'''
_CACHE = {}
SIZE = {'double': 8, 'float': 4, 'i64': 8, 'i32': 4, 'i8': 1, 'i1': 1, 'ptr': 8, 'i16': 2}


class KernelError(Exception):
    """the launch does something undefined: outside an array, a data race, a wrong element type"""


def clang():
    for c in ('clang++', 'clang++-18', 'clang++-17'):
        if shutil.which(c):
            return c
    raise E.Unsupported('no clang')


def failed(err):
    m = [x for x in err.splitlines() if 'error:' in x]
    m = m[0] if m else err[:200]
    if any(x in m for x in ('undeclared identifier', 'unknown type', 'no template named', 'no matching function', 'undefined')):
        # possibly a part of CUDA that the prelude does not have
        raise E.Unsupported('CUDA source: ' + m)
    raise KernelError('CUDA source does not compile: ' + m)


def compile_ir(code):
    k = hashlib.sha256(code.encode()).hexdigest()
    if k not in _CACHE:
        r = subprocess.run([clang(), '-x', 'c++', '-S', '-emit-llvm', '-O0', '-ffp-contract=off', '-fno-exceptions', '-w', '-o', '-', '-'],
                           input=PRELUDE + code, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            failed(r.stderr)
        try:
            _CACHE[k] = Module(r.stdout)
        except (AttributeError, IndexError, ValueError, KeyError) as e:
            raise E.Unsupported(f'LLVM IR: {e}')
    return _CACHE[k]


def native(code):
    k = 'so' + hashlib.sha256(code.encode()).hexdigest()
    if k not in _CACHE:
        d = tempfile.mkdtemp(prefix='symrr_')
        try:
            r = subprocess.run([clang(), '-x', 'c++', '-shared', '-fPIC', '-O1', '-ffp-contract=off', '-w', '-o', d + '/k.so', '-'],
                               input=PRELUDE + NATIVE + code, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                failed(r.stderr)
            _CACHE[k] = ctypes.CDLL(d + '/k.so')
        finally:
            shutil.rmtree(d)
    return _CACHE[k]


def _split(s):
    """split at top-level commas"""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Func:
    def __init__(self, name, params):
        self.name, self.params, self.blocks, self.first = name, params, {}, None


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.consts = {}
        f = blk = None
        for line in text.splitlines():
            line = line.split(' ;')[0] if not line.startswith(';') else ''
            s = line.strip()
            if not s:
                continue
            if s.startswith('define'):
                m = re.match(r'define .*?@("?[\w.$]+"?)\((.*)\)[^()]*\{$', s)
                ps = []
                for p in _split(m.group(2)):
                    w = p.split()
                    ps.append((w[0], w[-1]))
                f = Func(m.group(1), ps)
                self.funcs[f.name] = f
                n = len(ps)
                blk = None
                self._auto = str(n) if all(p[1] == f'%{i}' for i, p in enumerate(ps)) else 'entry'
                continue
            if f is None:
                continue
            if s == '}':
                f = None
                continue
            m = re.match(r'^("?[\w.$-]+"?):', line)
            if m:
                blk = m.group(1)
                f.blocks[blk] = []
                f.first = f.first or blk
                continue
            if blk is None:
                blk = self._auto
                f.blocks[blk] = []
                f.first = blk
            f.blocks[blk].append(parse(s))


FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'tail',
         'noundef', 'volatile', 'signext', 'zeroext', 'dso_local', 'notail', 'musttail'}


def parse(s):
    s = re.sub(r', !\w+(\.\w+)? ![\d]+', '', s)
    s = re.sub(r', align \d+', '', s)
    s = re.sub(r' #\d+$', '', s)
    dst = None
    m = re.match(r'^(%[\w.$-]+) = (.*)$', s)
    if m:
        dst, s = m.group(1), m.group(2)
    op, _, rest = s.partition(' ')
    ws = rest.split(' ')
    nsw = 'nsw' in ws[:2]
    while ws and ws[0] in FLAGS:
        ws.pop(0)
    rest = ' '.join(ws)
    if op in ('tail', 'notail', 'musttail'):
        op, _, rest = rest.partition(' ')
        ws = rest.split(' ')
        while ws and ws[0] in FLAGS:
            ws.pop(0)
        rest = ' '.join(ws)
    if op == 'alloca':
        return ('alloca', dst, _split(rest)[0])
    if op == 'load':
        t, p = _split(rest)
        return ('load', dst, t, p.split()[-1])
    if op == 'store':
        v, p = _split(rest)
        t, v = v.split(' ', 1)
        return ('store', None, t, v, p.split()[-1])
    if op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
        t, ab = rest.split(' ', 1)
        a, b = _split(ab)
        return (op, dst, t, a, b, nsw)
    if op == 'fneg':
        t, a = rest.split(' ', 1)
        return ('fneg', dst, a)
    if op in ('icmp', 'fcmp'):
        pred, t, ab = rest.split(' ', 2)
        a, b = _split(ab)
        return (op, dst, pred, t, a, b)
    if op == 'br':
        if rest.startswith('label'):
            return ('jmp', None, rest.split('%')[1])
        c, a, b = _split(rest)
        return ('br', None, c.split()[-1], a.split('%')[1], b.split('%')[1])
    if op == 'getelementptr':
        ps = _split(rest)
        return ('gep', dst, ps[0], ps[1].split()[-1], [p.split()[-1] for p in ps[2:]])
    if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fpext', 'fptrunc', 'bitcast'):
        m = re.match(r'(\S+) (\S+) to (\S+)', rest)
        return (op, dst, m.group(1), m.group(2), m.group(3))
    if op == 'select':
        c, a, b = _split(rest)
        return ('select', dst, c.split()[-1], a.split(' ')[-1], b.split(' ')[-1])
    if op == 'phi':
        t, r = rest.split(' ', 1)
        arms = re.findall(r'\[\s*([^,]+),\s*%([\w.$-]+)\s*\]', r)
        return ('phi', dst, [(a.strip(), b) for a, b in arms])
    if op == 'call':
        m = re.match(r'.*?@("?[\w.$]+"?)\((.*)\)', rest)
        args = [a.split()[-1] for a in _split(m.group(2))]
        return ('call', dst, m.group(1), args)
    if op == 'ret':
        return ('ret', None, None if rest.strip() == 'void' else rest.split()[-1])
    if op == 'unreachable':
        return ('ret', None, None)
    return ('?', dst, s)


class Buf:
    """a device array as the kernel sees it: flat memory"""

    def __init__(self, name, data, size, inttype):
        self.name, self.data, self.size, self.inttype = name, data, size, inttype
        self.writer = {}
        self.readers = {}


class Cell:
    __slots__ = ('v', 'size')

    def __init__(self):
        self.v = None


class Ptr:
    __slots__ = ('b', 'off')

    def __init__(self, b, off):
        self.b, self.off = b, off


GLOBS = {'@threadIdx', '@blockIdx', '@blockDim', '@gridDim'}


def _int(t):
    return int(t[1:])


def wrap(v, bits):
    if isinstance(v, int) and not isinstance(v, bool):
        v &= (1 << bits) - 1
        return v - (1 << bits) if v >> (bits - 1) else v
    return v


class Thread:
    def __init__(self, mod, launch, tid, bid, bdim, gdim):
        self.mod, self.launch = mod, launch
        self.g = {'@threadIdx': tid, '@blockIdx': bid, '@blockDim': bdim, '@gridDim': gdim}
        self.id = (bid, tid)
        self.steps = 0

    def val(self, env, x, t=None):
        if x[0] == '%':
            return env[x]
        if x[0] == '@':
            return Ptr(x, 0)
        if x in ('true', 'false'):
            return x == 'true'
        if x in ('undef', 'poison'):
            raise KernelError('undefined value used')
        if x == 'null':
            return Ptr(None, 0)
        if x.startswith('0x'):
            import struct
            return E.SymReal(E.to_frac(struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0])) if self.launch.symbolic else \
                struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
        if 'e' in x or '.' in x:
            return float(x)
        return int(x)

    def load(self, p, t):
        b = p.b
        if isinstance(b, Cell):
            if b.v is None:
                raise KernelError('uninitialised local variable read')
            return b.v
        if isinstance(b, str):
            return self.g[b][p.off // 4]
        i = self.index(p, t, 'reads')
        w = b.writer.get(i)
        if w is not None and w != self.id:
            raise KernelError(f'data race: {b.name}[{i}] read by one thread and written by another')
        b.readers.setdefault(i, set()).add(self.id)
        return b.data[i]

    def index(self, p, t, what):
        b = p.b
        if b is None:
            raise KernelError('null pointer')
        off = p.off
        if not isinstance(off, int):
            off = int(off)
        n = SIZE[t]
        if n != b.size or (t[0] == 'i') != b.inttype or off % n:
            raise KernelError(f'{what} {b.name} as {t} though its elements are {"int" if b.inttype else "float"}{8 * b.size}')
        i = off // n
        if not 0 <= i < len(b.data):
            raise KernelError(f'{what} {b.name}[{i}] outside its {len(b.data)} elements')
        return i

    def store(self, p, t, v, atomic=False):
        b = p.b
        if isinstance(b, Cell):
            b.v = v
            return
        i = self.index(p, t, 'writes')
        w = b.writer.get(i)
        me = 'atomic' if atomic else self.id
        if (w is not None and w != me) or (not atomic and b.readers.get(i, {self.id}) - {self.id}):
            raise KernelError(f'data race: {b.name}[{i}] written by two threads')
        b.writer[i] = me
        b.data[i] = v

    def call(self, name, args):
        if name not in self.mod.funcs:
            if name == 'atomicAdd_':
                p, v = args
                i = self.index(p, 'double', 'adds to')
                b = p.b
                if b.readers.get(i):
                    raise KernelError(f'data race: {b.name}[{i}]')
                old = b.data[i]
                self.store(p, 'double', add(old, v), True)
                return old
            if name.startswith('llvm.fmuladd'):
                return add(mul(args[0], args[1]), args[2])
            if name.startswith('llvm.smin'):
                return min(args)
            if name.startswith('llvm.smax'):
                return max(args)
            if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg')):
                return None
            raise E.Unsupported('kernel calls ' + name)
        f = self.mod.funcs[name]
        env = {p[1]: a for p, a in zip(f.params, args)}
        blk, prev = f.first, None
        while True:
            nxt = None
            for ins in f.blocks[blk]:
                op, d = ins[0], ins[1]
                self.steps += 1
                if self.steps > 200000:
                    raise KernelError('the kernel does not terminate')
                if op == 'load':
                    env[d] = self.load(self.val(env, ins[3]), ins[2])
                elif op == 'store':
                    self.store(self.val(env, ins[4]), ins[2], self.val(env, ins[3]))
                elif op in ('add', 'sub', 'mul'):
                    a, b = self.val(env, ins[3]), self.val(env, ins[4])
                    v = a + b if op == 'add' else a - b if op == 'sub' else a * b
                    w = wrap(v, _int(ins[2]))
                    if ins[5] and isinstance(v, int) and w != v:
                        raise KernelError('signed integer overflow')
                    env[d] = w
                elif op in ('sdiv', 'srem'):
                    a, b = int(self.val(env, ins[3])), int(self.val(env, ins[4]))
                    if b == 0:
                        raise KernelError('integer division by zero')
                    q = abs(a) // abs(b)
                    q = q if (a < 0) == (b < 0) else -q
                    env[d] = q if op == 'sdiv' else a - b * q
                elif op in ('udiv', 'urem'):
                    n = (1 << _int(ins[2])) - 1
                    a, b = int(self.val(env, ins[3])) & n, int(self.val(env, ins[4])) & n
                    if b == 0:
                        raise KernelError('integer division by zero')
                    env[d] = wrap(a // b if op == 'udiv' else a % b, _int(ins[2]))
                elif op in ('and', 'or', 'xor'):
                    a, b = self.val(env, ins[3]), self.val(env, ins[4])
                    if isinstance(a, (bool, E.SymBool)) or isinstance(b, (bool, E.SymBool)):
                        a, b = bool(a), bool(b)
                    a, b = (int(a), int(b)) if not isinstance(a, bool) else (a, b)
                    env[d] = a & b if op == 'and' else a | b if op == 'or' else a ^ b
                elif op in ('shl', 'ashr', 'lshr'):
                    a, b = int(self.val(env, ins[3])), int(self.val(env, ins[4]))
                    n = _int(ins[2])
                    env[d] = wrap(a << b, n) if op == 'shl' else a >> b if op == 'ashr' else wrap((a & ((1 << n) - 1)) >> b, n)
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                    a, b = self.val(env, ins[3]), self.val(env, ins[4])
                    env[d] = {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': div}[op](a, b)
                elif op == 'fneg':
                    env[d] = sub(0.0, self.val(env, ins[2]))
                elif op == 'icmp':
                    a, b = self.val(env, ins[4]), self.val(env, ins[5])
                    p = ins[2]
                    if p[0] == 'u':
                        n = (1 << _int(ins[3])) - 1
                        a, b, p = int(a) & n, int(b) & n, 's' + p[1:]
                    env[d] = CMP[p](a, b)
                elif op == 'fcmp':
                    a, b = self.val(env, ins[4]), self.val(env, ins[5])
                    p = ins[2]
                    if a != a is True or _nan(a) or _nan(b):
                        env[d] = p[0] == 'u'
                    else:
                        env[d] = FCMP[p[1:]](num(a), num(b))
                elif op == 'jmp':
                    nxt = ins[2]
                elif op == 'br':
                    nxt = ins[3] if bool(self.val(env, ins[2])) else ins[4]
                elif op == 'gep':
                    p = self.val(env, ins[3])
                    ix = [self.val(env, i) for i in ins[4]]
                    if ins[2].startswith('%struct.dim3'):
                        off = p.off + 12 * ix[0] + (4 * ix[1] if len(ix) > 1 else 0)
                    else:
                        off = p.off + SIZE[ins[2]] * (ix[0] if isinstance(ix[0], int) else int(ix[0]))
                    env[d] = Ptr(p.b, off)
                elif op in ('sext', 'bitcast'):
                    env[d] = self.val(env, ins[3])
                    if ins[2] == 'i1':
                        env[d] = -int(bool(env[d]))
                elif op == 'zext':
                    v = self.val(env, ins[3])
                    env[d] = int(bool(v)) if ins[2] == 'i1' else (v if not isinstance(v, int) or v >= 0 else v & ((1 << _int(ins[2])) - 1))
                elif op == 'trunc':
                    v = self.val(env, ins[3])
                    env[d] = bool(int(v) & 1) if ins[4] == 'i1' else wrap(v, _int(ins[4]))
                elif op in ('sitofp', 'uitofp'):
                    v = self.val(env, ins[3])
                    env[d] = E.SymReal.lift(v) if self.launch.symbolic else float(v)
                elif op == 'fptosi':
                    v = self.val(env, ins[3])
                    env[d] = int(v.to_int()) if isinstance(v, E.SymReal) else int(v)
                elif op in ('fpext', 'fptrunc'):
                    raise E.Unsupported('single precision arithmetic in a kernel')
                elif op == 'select':
                    env[d] = self.val(env, ins[3]) if bool(self.val(env, ins[2])) else self.val(env, ins[4])
                elif op == 'phi':
                    env[d] = next(self.val(env, v) for v, b in ins[2] if b == prev)
                elif op == 'alloca':
                    if ins[2] not in SIZE:
                        raise E.Unsupported('local array in a kernel')
                    env[d] = Ptr(Cell(), 0)
                elif op == 'call':
                    r = self.call(ins[2], [self.val(env, a) for a in ins[3]])
                    if d:
                        env[d] = r
                elif op == 'ret':
                    return None if ins[2] is None else self.val(env, ins[2])
                else:
                    raise E.Unsupported('kernel instruction ' + str(ins))
            prev, blk = blk, nxt


def _nan(x):
    return isinstance(x, float) and x != x


def num(x):
    return x


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
FCMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
        'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def _sym(a, b):
    return E.is_sym(a) or E.is_sym(b)


def add(a, b):
    return snp.e_add(a, b) if _sym(a, b) else a + b


def sub(a, b):
    return snp.e_sub(a, b) if _sym(a, b) else a - b


def mul(a, b):
    return snp.e_mul(a, b) if _sym(a, b) else a * b


def div(a, b):
    if _sym(a, b):
        return snp.e_div(a, b)
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def memory(h):
    """the elements of an array in the order they lie in memory"""
    o = snp.raw(h) if isinstance(h, snp.SArr) else h
    return o if o.flags['C_CONTIGUOUS'] else o.ravel(order='K')


def tids(dims):
    return [(x, y, z) for z in range(dims[1][2]) for y in range(dims[1][1]) for x in range(dims[1][0])]


class Launch:
    def __init__(self, code, name, symbolic):
        self.code, self.name, self.symbolic = code, name, symbolic
        try:
            self.mod = compile_ir(code)
        except E.Unsupported:
            if symbolic:
                raise
            self.mod = None
            return
        if name not in self.mod.funcs:
            raise KernelError('no kernel ' + name)
        self.f = self.mod.funcs[name]
        self.inst = 0

    def run(self, grid, block, args):
        """args: host arrays (device memory) and numbers, in kernel order"""
        if self.symbolic:
            self.interpret(grid, block, args)
            return
        back = None
        if self.mod is not None:
            try:
                dims, nat, back = self.interpret(grid, block, args)
            except E.Unsupported:
                pass
        if back is None:
            if self.mod is None:
                raise E.Unsupported('kernel ' + self.name)
            nat = [(t, a if t == 'ptr' else int(a) if t[0] == 'i' else float(a)) for (t, pn), a in zip(self.f.params, args)]
            dims = tuple(int(x) for x in grid) + (1,) * (3 - len(grid)), tuple(int(x) for x in block) + (1,) * (3 - len(block))
        self.native(dims, nat, back)

    def interpret(self, grid, block, args):
        f = self.f
        if len(args) != len(f.params):
            raise KernelError(f'kernel {self.name} takes {len(f.params)} arguments, {len(args)} given')
        vals, back, nat = [], [], []
        for (t, pn), a in zip(f.params, args):
            if t == 'ptr':
                if not isinstance(a, np.ndarray):
                    raise KernelError(f'number passed for pointer argument of {self.name}')
                m = memory(a)
                dt = a._sdt if isinstance(a, snp.SArr) else a.dtype
                b = Buf(f'argument {len(vals)}', list(m.reshape(-1)), dt.itemsize, dt.kind in 'iub')
                vals.append(Ptr(b, 0))
                back.append((a, b))
                nat.append((t, a))
            else:
                if isinstance(a, np.ndarray):
                    raise KernelError(f'array passed for scalar argument of {self.name}')
                if t[0] == 'i':
                    isz = np.dtype(type(a)).itemsize if isinstance(a, np.generic) else 8
                    if isinstance(a, (float, np.floating)) or isz < SIZE[t] or wrap(int(a), 8 * SIZE[t]) != int(a):
                        raise KernelError(f'scalar argument {a!r} of {self.name} is not a {t}')
                    a = int(a)
                vals.append(a)
                nat.append((t, a))
        dims = tuple(int(x) for x in grid) + (1,) * (3 - len(grid)), tuple(int(x) for x in block) + (1,) * (3 - len(block))
        if max(dims[1]) > 1024 or dims[1][0] * dims[1][1] * dims[1][2] > 1024:
            raise KernelError('more than 1024 threads per block')
        if min(dims[0]) < 1:
            raise KernelError('empty launch grid')
        for bz in range(dims[0][2]):
            for by in range(dims[0][1]):
                for bx in range(dims[0][0]):
                    for tid in tids(dims):
                        th = Thread(self.mod, self, tid, (bx, by, bz), dims[1], dims[0])
                        try:
                            th.call(self.name, vals)
                        except (AttributeError, IndexError, ValueError, KeyError, TypeError) as e:
                            raise E.Unsupported(f'kernel {self.name}: {type(e).__name__} {e}')
        for a, b in back:
            if not b.writer:
                continue
            if isinstance(a, snp.SArr):
                o = snp.raw(a)
                if not o.flags['C_CONTIGUOUS']:
                    raise E.Unsupported('kernel output not contiguous')
                flat = o.reshape(-1)
                for i in b.writer:
                    flat[i] = E.norm_scalar(b.data[i]) if not isinstance(b.data[i], float) or E.special(b.data[i]) else E.SymReal(E.to_frac(b.data[i]))
        return dims, nat, back

    def native(self, dims, args, back):
        lib = native(self.code)
        fn = getattr(lib, self.name)
        fn.restype = None
        cargs, bufs = [], []
        PAD = 64
        for t, a in args:
            if t == 'ptr':
                m = memory(a).reshape(-1)
                g = np.full(m.size + 2 * PAD, np.nan if m.dtype.kind == 'f' else 0, dtype=m.dtype)
                g[PAD:PAD + m.size] = m
                bufs.append((a, g, m.size))
                cargs.append(ctypes.c_void_p(g.ctypes.data + PAD * g.itemsize))
            else:
                cargs.append({'i32': ctypes.c_int32, 'i64': ctypes.c_int64, 'double': ctypes.c_double}[t](a))

        class D(ctypes.Structure):
            _fields_ = [('x', ctypes.c_int), ('y', ctypes.c_int), ('z', ctypes.c_int)]
        ti, bi, bd, gd = (D.in_dll(lib, n) for n in ('threadIdx', 'blockIdx', 'blockDim', 'gridDim'))
        gd.x, gd.y, gd.z = dims[0]
        bd.x, bd.y, bd.z = dims[1]
        for bz in range(dims[0][2]):
            for by in range(dims[0][1]):
                for bx in range(dims[0][0]):
                    bi.x, bi.y, bi.z = bx, by, bz
                    for tid in tids(dims):
                        ti.x, ti.y, ti.z = tid
                        fn(*cargs)
        for i, (a, g, n) in enumerate(bufs):
            new = g[PAD:PAD + n]
            if back is None:
                m = a if a.flags['C_CONTIGUOUS'] else None
                if m is not None and m.dtype.kind == 'f':
                    m.reshape(-1)[:] = new
                continue
            b = back[i][1]
            if b.writer:
                got = np.array(b.data, dtype=float)
                if not np.allclose(got, new, rtol=1e-9, atol=1e-300, equal_nan=True):
                    raise AssertionError('symbolic kernel interpreter disagrees with the compiled kernel')
                a.reshape(-1)[:] = new
