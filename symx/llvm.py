"""Symbolic execution of klang's C extension modules from their LLVM IR.

The current C source is compiled to LLVM IR with clang on every run; the functions of the
module (module init included) are interpreted instruction by instruction over the values
of the engine (doubles may be symbolic).  Memory is modelled as separate objects: every
access is checked for bounds, lifetime and initialisation.  The Python and numpy C API
(external functions of the module) are replaced by their documented contract; reference
counts are the ones the code really maintains in the object headers.
"""
import math
import os
import re
import shutil
import struct
import subprocess
import tempfile

import numpy as np
import z3

from symx import arrays, core, llir, loader, transc
from symx.core import SBool, SInt, SNum, SReal, Unsupported, is_sym

REPO = os.environ.get('KLANG_REPO', '/repo')
INCLUDES = ['/usr/include/pypy3.9', '/opt/pypyvenv/lib/pypy3.9/site-packages/numpy/core/include']
SOURCES = {'klang.audio._envelope': 'klang/audio/_envelope.c', 'klang.audio._filters': 'klang/audio/_filters.c'}
MODULES = {}
MAX_STEPS = 400000
TYPE_SLOTS = dict(name=1, basicsize=2, dealloc=4, methods=27, members=28, getset=29, base=30, init=35, alloc=36,
                  new=37, free=38)


def prepare(names=None):
    """Compile and parse the extension modules (once per process, before forking)."""
    for name in names or SOURCES:
        if name not in MODULES:
            tmp = tempfile.mkdtemp(prefix='klangll')
            try:
                out = os.path.join(tmp, 'm.ll')
                cmd = ['clang', '-S', '-emit-llvm', '-O0', '-w', '-Xclang', '-disable-O0-optnone']
                cmd += ['-I' + d for d in INCLUDES] + [os.path.join(REPO, SOURCES[name]), '-o', out]
                subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                with open(out) as fp:
                    MODULES[name] = llir.Module(fp.read())
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        api_table()


_API = {}


def api_table():
    """Index of the numpy C API table -> function name (from numpy's own header)."""
    if not _API:
        with open(os.path.join(INCLUDES[1], 'numpy', '__multiarray_api.h')) as fp:
            text = fp.read().replace('\\\n', ' ')
        for m in re.finditer(r'#define\s+(\w+)\s+\(\*(\(.*?)PyArray_API\[(\d+)\]\)', text):
            _API[int(m.group(3))] = (m.group(1), '(*)' in m.group(2))
    return _API


class Mem:

    __slots__ = ('size', 'name', 'kind', 'freed', 'cells', 'fills', 'pyval', 'func')

    def __init__(self, size, name, kind):
        self.size, self.name, self.kind = size, name, kind
        self.freed = False
        self.cells = {}
        self.fills = []
        self.pyval = None
        self.func = None


class Ptr:

    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.obj is other.obj and self.off == other.off

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return '<%s+%s>' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)
UNINIT = object()


class NullArg:
    """Marks a deleted attribute."""


def signed(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


HEAD = 24       # ob_refcnt, ob_pypy_link, ob_type


class Interp:

    def __init__(self, name):
        self.ir = MODULES[name]
        self.name = name
        self.globals = {}
        self.error = None
        self.steps = 0
        self.heap = []
        self.depth = 0
        self.types = {}
        self.exports = {}
        self.immortal = 1 << 20
        self.arrTy = self.ir.types.get('%struct.tagPyArrayObject_fields')
        if self.arrTy is None and '%struct.tagPyArrayObject_fields' in self.ir.typeDefs:
            self.arrTy = self.ir.named('%struct.tagPyArrayObject_fields')
        if self.arrTy is None:
            h = llir.Ty('struct', fields=[llir.int_ty(64), llir.int_ty(64), llir.PTR])
            i32, p = llir.int_ty(32), llir.PTR
            self.arrTy = llir.Ty('struct', fields=[h, p, i32, p, p, p, p, i32, p, p, p])
        self.none = self.singleton('_Py_NoneStruct', None)
        self.true = self.singleton('_Py_TrueStruct', True)
        self.false = self.singleton('_Py_FalseStruct', False)
        self.arrayType = self.alloc(408, 'PyArray_Type', 'static')
        self.capsuleType = None
        self.api = self.alloc(8 * 400, 'PyArray_API table', 'static')
        for i, (fn, isFunc) in api_table().items():
            m = self.function(fn) if isFunc else None
            if fn == 'PyArray_Type':
                m = self.arrayType
            elif m is None:
                m = self.alloc(408, fn, 'static')
            self.api.cells[8 * i] = (8, Ptr(m))

    # ------------------------------------------------------------ violations

    def bug(self, label):
        core.engine().prove(False, label)
        raise core.PathAborted()

    # ------------------------------------------------------------ memory

    def alloc(self, size, name, kind):
        m = Mem(size, name, kind)
        if kind == 'heap':
            self.heap.append(m)
        return m

    def function(self, name):
        m = Mem(0, name, 'func')
        m.func = name
        return m

    def singleton(self, name, value):
        m = self.alloc(HEAD, name, 'static')
        m.pyval = value
        m.cells[0] = (8, 1 << 20)
        return m

    def access(self, p, size, what):
        if not isinstance(p, Ptr):
            raise Unsupported('access through integer')
        obj = p.obj
        if obj is None:
            self.bug('memory safety: %s through a null pointer' % what)
        if obj.freed:
            self.bug('memory safety: %s after free' % what)
        if obj.kind == 'func':
            raise Unsupported('data access to a function')
        if p.off < 0 or p.off + size > obj.size:
            self.bug('memory safety: %s out of bounds' % what)
        return obj

    def store(self, p, size, value):
        obj = self.access(p, size, 'write')
        off = p.off
        cells = obj.cells
        cur = cells.get(off)
        if cur is None or cur[0] != size:
            self.carve(obj, off, size)
        cells[off] = (size, value)

    def carve(self, obj, off, size):
        """Remove [off, off + size) from the cells, splitting cells which stick out."""
        for o in [o for o, (s, _) in obj.cells.items() if o < off + size and off < o + s and o != off - 100]:
            s, v = obj.cells.pop(o)
            if o >= off and o + s <= off + size:
                continue
            raw = self.to_bytes(v, s)
            for i, b in enumerate(raw):
                if not off <= o + i < off + size:
                    obj.cells[o + i] = (1, b)

    def to_bytes(self, v, size):
        if v is UNINIT:
            return [UNINIT] * size
        if isinstance(v, int):
            return list((v & ((1 << 8 * size) - 1)).to_bytes(size, 'little'))
        if isinstance(v, float):
            return list(struct.pack('<d' if size == 8 else '<f', v))
        if v == NULL:
            return [0] * size
        raise Unsupported('bytes of a symbolic or pointer value')

    def raw_load(self, obj, off, size):
        cur = obj.cells.get(off)
        if cur is not None and cur[0] == size:
            return cur[1]
        raw = []
        for i in range(size):
            b = UNINIT
            for o, (s, v) in obj.cells.items():
                if o <= off + i < o + s:
                    b = self.to_bytes(v, s)[off + i - o]
                    break
            else:
                for lo, hi, byte in reversed(obj.fills):
                    if lo <= off + i < hi:
                        b = byte
                        break
            raw.append(b)
        if UNINIT in raw:
            return UNINIT
        return int.from_bytes(bytes(raw), 'little')

    def load(self, ty, p):
        obj = self.access(p, ty.size, 'read')
        v = self.raw_load(obj, p.off, ty.size)
        if v is UNINIT:
            if obj.kind == 'stack' and ty.kind in ('i', 'ptr'):
                self.bug('memory safety: uninitialised variable is used')
            self.bug('memory safety: uninitialised memory is used')
        return self.convert(v, ty)

    def convert(self, v, ty):
        if ty.kind == 'double':
            if isinstance(v, int):
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            return v
        if ty.kind == 'float':
            if isinstance(v, int):
                return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            return v
        if ty.kind == 'ptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        if ty.kind == 'i':
            if isinstance(v, float):
                return int.from_bytes(struct.pack('<d', v), 'little')
            if isinstance(v, Ptr):
                return 0 if v == NULL else v
            if isinstance(v, SReal):
                raise Unsupported('bits of a symbolic double')
            return v & ((1 << ty.bits) - 1)
        raise Unsupported('load of aggregate')

    def fill(self, p, byte, n):
        if not n:
            return
        obj = self.access(p, n, 'write')
        self.carve(obj, p.off, n)
        obj.fills.append((p.off, p.off + n, byte))

    def copy(self, dst, src, n):
        if not n:
            return
        so = self.access(src, n, 'read')
        do = self.access(dst, n, 'write')
        new = []
        covered = []
        for o, (s, v) in so.cells.items():
            if o >= src.off and o + s <= src.off + n:
                new.append((o - src.off, s, v))
                covered.append((o, o + s))
            elif o < src.off + n and src.off < o + s:
                raise Unsupported('memcpy splits a value')
        for lo, hi, byte in so.fills:
            lo, hi = max(lo, src.off), min(hi, src.off + n)
            if lo < hi:
                new.insert(0, (lo - src.off, None, (hi - lo, byte)))
        self.carve(do, dst.off, n)
        do.fills.append((dst.off, dst.off + n, UNINIT))
        for o, s, v in new:
            if s is None:
                do.fills.append((dst.off + o, dst.off + o + v[0], v[1]))
            else:
                do.cells[dst.off + o] = (s, v)

    def free(self, p):
        if p == NULL:
            return
        if p.obj is None or p.off != 0 or p.obj.kind != 'heap':
            self.bug('memory safety: invalid free')
        if p.obj.freed:
            self.bug('memory safety: double free')
        p.obj.freed = True
        self.heap.remove(p.obj)

    # ------------------------------------------------------------ globals

    def global_ptr(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.ir.funcs or name in self.ir.declared:
            ret = Ptr(self.function(name))
            self.globals[name] = ret
            return ret
        ty, init = self.ir.globals[name]
        plain = canonical(name)
        if init is None:        # external data
            if plain == '_Py_NoneStruct':
                ret = Ptr(self.none)
            elif plain == '_Py_TrueStruct':
                ret = Ptr(self.true)
            elif plain == '_Py_FalseStruct':
                ret = Ptr(self.false)
            elif plain.startswith('PyExc_'):
                import builtins
                exc = self.alloc(HEAD, plain, 'static')
                exc.pyval = getattr(builtins, plain[6:], RuntimeError)
                exc.cells[0] = (8, 1 << 20)
                m = self.alloc(8, plain, 'static')
                m.cells[0] = (8, Ptr(exc))
                ret = Ptr(m)
            else:
                m = self.alloc(max(ty.size, 8), plain, 'static')
                m.fills.append((0, m.size, 0))
                m.cells[0] = (8, 1 << 20)
                if plain.endswith('_Type'):
                    m.pyval = plain
                ret = Ptr(m)
            self.globals[name] = ret
            return ret
        m = self.alloc(ty.size, name, 'static')
        self.globals[name] = ret = Ptr(m)
        self.init_const(m, 0, ty, init)
        return ret

    def init_const(self, m, off, ty, c):
        if c.kind == 'zero' or c.kind == 'undef':
            if ty.size:
                m.fills.append((off, off + ty.size, 0))
        elif c.kind == 'agg':
            if ty.size:
                m.fills.append((off, off + ty.size, 0))
            offs = ty.offsets if ty.kind == 'struct' else [i * ty.el.size for i in range(ty.n)]
            for o, (t, v) in zip(offs, c.val):
                self.init_const(m, off + o, t, v)
        elif c.kind == 'str':
            for i, b in enumerate(c.val):
                m.cells[off + i] = (1, b)
        else:
            m.cells[off] = (ty.size, self.const(c))

    def const(self, c):
        if c.kind in ('int', 'float'):
            return c.val
        if c.kind == 'null':
            return NULL
        if c.kind == 'zero':
            return {'i': 0, 'double': 0., 'float': 0., 'ptr': NULL}.get(c.ty.kind)
        if c.kind == 'undef':
            return {'i': 0, 'double': 0., 'float': 0., 'ptr': NULL}.get(c.ty.kind)
        if c.kind == 'global':
            return self.global_ptr(c.val)
        if c.kind == 'gep':
            sty, args = c.val
            base = self.const(args[0][1])
            return self.gep(sty, base, [(t, self.const(v)) for t, v in args[1:]])
        if c.kind == 'cast':
            return self.const(c.val)
        raise Unsupported('constant %s' % c.kind)

    def gep(self, ty, base, idx):
        off = base.off
        for k, (t, i) in enumerate(idx):
            if not isinstance(i, int):
                raise Unsupported('symbolic index')
            i = signed(i, t.bits)
            if k == 0:
                off += i * ty.size
            elif ty.kind == 'struct':
                off += ty.offsets[i]
                ty = ty.fields[i]
            else:
                ty = ty.el
                off += i * ty.size
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ execution

    def call_ptr(self, p, args):
        if not isinstance(p, Ptr) or p.obj is None:
            self.bug('memory safety: call through a null pointer')
        if p.obj.kind != 'func':
            raise Unsupported('call of data')
        return self.call(p.obj.func, args)

    def call(self, name, args):
        f = self.ir.funcs.get(name)
        if f is None:
            return self.external(canonical(name), args)
        loader.ENCODED.add('%s:%s' % (SOURCES[self.name], name[1:]))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('deep recursion in C code')
        env = {n: v for (t, n), v in zip(f.params, args)}
        stack = []
        cur, prev = f.entry, None
        try:
            while True:
                nxt = None
                block = f.blocks[cur]
                phis = [i for i in block if i[0] == 'phi']
                if phis:
                    vals = [self.val(env, i[3][prev]) for i in phis]
                    for i, v in zip(phis, vals):
                        env[i[1]] = v
                for ins in block:
                    op = ins[0]
                    self.steps += 1
                    if op == 'phi':
                        continue
                    if op == 'br':
                        nxt = ins[2]
                    elif op == 'condbr':
                        nxt = ins[3] if self.truth(self.val(env, ins[2])) else ins[4]
                    elif op == 'switch':
                        v = self.val(env, ins[3])
                        nxt = ins[5].get(v, ins[4])
                    elif op == 'ret':
                        return None if ins[3] is None else self.val(env, ins[3])
                    elif op == 'unreachable':
                        self.bug('unreachable code is reached')
                    else:
                        r = self.step(env, ins, stack)
                        if ins[1] is not None:
                            env[ins[1]] = r
                if self.steps > MAX_STEPS:
                    raise Unsupported('C code runs for more than %d steps' % MAX_STEPS)
                prev, cur = cur, nxt
        finally:
            self.depth -= 1
            for m in stack:
                m.freed = True

    def val(self, env, v):
        return env[v] if type(v) is str else self.const(v)

    def truth(self, c):
        return bool(c)

    def step(self, env, ins, stack):
        op = ins[0]
        if op == 'load':
            return self.load(ins[2], self.val(env, ins[3]))
        if op == 'store':
            ty, v = ins[2], self.val(env, ins[3])
            if ty.kind in ('struct', 'arr'):
                raise Unsupported('store of aggregate')
            if isinstance(v, SBool):
                v = int(bool(v))
            return self.store(self.val(env, ins[4]), ty.size, v)
        if op == 'getelementptr':
            return self.gep(ins[2], self.val(env, ins[3]), [(t, self.val(env, v)) for t, v in ins[4]])
        if op == 'alloca':
            n = 1 if ins[3] is None else self.val(env, ins[3])
            m = self.alloc(ins[2].size * n, 'local', 'stack')
            stack.append(m)
            return Ptr(m)
        if op == 'bin':
            return self.binary(ins[2], ins[3], self.val(env, ins[4]), self.val(env, ins[5]))
        if op == 'icmp':
            return self.icmp(ins[2], ins[3], self.val(env, ins[4]), self.val(env, ins[5]))
        if op == 'fcmp':
            return self.fcmp(ins[2], self.val(env, ins[4]), self.val(env, ins[5]))
        if op == 'cast':
            return self.cast(ins[2], ins[3], self.val(env, ins[4]), ins[5])
        if op == 'call':
            callee = self.val(env, ins[3])
            args = [self.val(env, v) if t is not llir.LABEL else None for t, v in ins[4]]
            return self.call_ptr(callee, args)
        if op == 'select':
            c = self.val(env, ins[2])
            return self.val(env, ins[3]) if self.truth(c) else self.val(env, ins[4])
        if op == 'fneg':
            return -self.val(env, ins[3])
        if op == 'freeze':
            return self.val(env, ins[3])
        raise Unsupported('instruction %s' % op)

    def binary(self, op, ty, a, b):
        if op[0] == 'f':
            return fop(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return (a.off - b.off) & ((1 << ty.bits) - 1)
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + (1 if op == 'add' else -1) * signed(b, ty.bits))
            raise Unsupported('arithmetic with pointers')
        if isinstance(a, SBool):
            a = int(bool(a))
        if isinstance(b, SBool):
            b = int(bool(b))
        mask = (1 << ty.bits) - 1
        sa, sb = signed(a, ty.bits), signed(b, ty.bits)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if b == 0:
                self.bug('integer division by zero')
            if op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            else:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                r = q if op == 'sdiv' else sa - q * sb
        elif op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = sa >> b
        else:
            raise Unsupported(op)
        return r & mask

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = Ptr(None, a) if isinstance(a, int) else a
            b = Ptr(None, b) if isinstance(b, int) else b
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if a.obj is b.obj:
                a, b = a.off, b.off
                return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
            raise Unsupported('order of unrelated pointers')
        if isinstance(a, SBool) or isinstance(b, SBool):
            a, b = int(bool(a)), int(bool(b))
        if pred[0] == 's':
            a, b = signed(a, ty.bits), signed(b, ty.bits)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
            pred if pred in ('eq', 'ne') else pred[1:]])

    def fcmp(self, pred, a, b):
        nan = isnan(a) or isnan(b)
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if pred == 'ord':
            return int(not nan)
        if pred == 'uno':
            return int(nan)
        if nan:
            return int(pred[0] == 'u')
        rel = pred[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[rel]()
        return r if isinstance(r, SBool) else int(bool(r))

    def cast(self, op, ty, v, to):
        if isinstance(v, SBool):
            v = int(bool(v))
        if op in ('zext', 'trunc'):
            if isinstance(v, Ptr):
                raise Unsupported('cast of pointer bits')
            return v & ((1 << to.bits) - 1)
        if op == 'sext':
            return signed(v, ty.bits) & ((1 << to.bits) - 1)
        if op == 'sitofp':
            return float(signed(v, ty.bits))
        if op == 'uitofp':
            return float(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, SReal):
                t = core.trunc(v)
                v = core.engine().concretise(t.z) if isinstance(t, SInt) else int(t)
            elif not math.isfinite(v):
                self.bug('undefined behaviour: conversion of a non finite double to an integer')
            v = int(v)
            lo, hi = (-(1 << to.bits - 1), (1 << to.bits - 1) - 1) if op == 'fptosi' else (0, (1 << to.bits) - 1)
            if not lo <= v <= hi:
                self.bug('undefined behaviour: double out of range of the integer type')
            return v & ((1 << to.bits) - 1)
        if op in ('fpext', 'bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int):
                return Ptr(None, v)
            return v
        if op == 'fptrunc':
            if is_sym(v):
                raise Unsupported('float32 arithmetic')
            return struct.unpack('<f', struct.pack('<f', v))[0]
        raise Unsupported('cast %s' % op)

    # ------------------------------------------------------------ Python values

    def box(self, value):
        """New reference to a Python value."""
        if value is None:
            return self.incref(Ptr(self.none))
        if value is True:
            return self.incref(Ptr(self.true))
        if value is False:
            return self.incref(Ptr(self.false))
        if isinstance(value, CObject):
            return self.incref(value._ptr)
        if is_array(value):
            return self.box_array(value)
        m = self.alloc(HEAD, 'python object', 'heap')
        m.pyval = value
        m.cells[0] = (8, 1)
        m.cells[8] = (8, 0)
        m.cells[16] = (8, NULL)
        return Ptr(m)

    def incref(self, p):
        s, n = p.obj.cells[0]
        p.obj.cells[0] = (8, n + 1)
        return p

    def decref(self, p):
        self.access(p, 8, 'release of an object')
        n = p.obj.cells[0][1] - 1
        p.obj.cells[0] = (8, n)
        if n == 0:
            self.dealloc(p)
        elif n > 1 << 62 or n < 0:
            self.bug('memory safety: object is released too often')

    def dealloc(self, p):
        obj = p.obj
        if obj.kind != 'heap':
            self.bug('memory safety: static object is deallocated')
        ty = obj.cells.get(16, (8, NULL))[1]
        if isinstance(ty, Ptr) and ty.obj is self.arrayType:
            data = obj.cells[self.arrTy.offsets[1]][1]
            if data.obj is not None and not data.obj.freed and obj.pyval != 'view':
                self.heap.remove(data.obj)
                data.obj.freed = True
            for i in (3, 4):
                d = obj.cells[self.arrTy.offsets[i]][1]
                if d.obj is not None:
                    d.obj.freed = True
            self.free(p)
            return
        if isinstance(ty, Ptr) and ty.obj is not None and ty.obj is not self.arrayType:
            slot = self.slot(ty, 'dealloc')
            if slot != NULL:
                self.call_ptr(slot, [p])
                return
        self.free(p)

    def slot(self, ty, name):
        tt = self.ir.types.get('%struct._typeobject') or self.ir.named('%struct._typeobject')
        v = self.raw_load(ty.obj, ty.off + tt.offsets[TYPE_SLOTS[name]], 8)
        return NULL if v == 0 or v is UNINIT else v

    def new_array(self, dims, fill=None):
        """Fresh float64 array."""
        n = 1
        for d in dims:
            n *= d
        data = self.alloc(8 * n, 'array data', 'heap')
        strides = []
        s = 8
        for d in reversed(dims):
            strides.insert(0, s)
            s *= d
        if fill is not None:
            for i, v in enumerate(fill):
                data.cells[8 * i] = (8, v)
        return self.array_object(Ptr(data), dims, strides)

    def array_object(self, data, dims, strides, view=False):
        m = self.alloc(self.arrTy.size, 'array', 'heap')
        m.fills.append((0, m.size, 0))
        o = self.arrTy.offsets
        ds = self.alloc(8 * max(len(dims), 1), 'dims', 'static')
        ss = self.alloc(8 * max(len(dims), 1), 'strides', 'static')
        for i, (d, s) in enumerate(zip(dims, strides)):
            ds.cells[8 * i] = (8, d)
            ss.cells[8 * i] = (8, s & ((1 << 64) - 1))
        m.cells[0] = (8, 1)
        m.cells[16] = (8, Ptr(self.arrayType))
        m.cells[o[1]] = (8, data)
        m.cells[o[2]] = (4, len(dims))
        m.cells[o[3]] = (8, Ptr(ds))
        m.cells[o[4]] = (8, Ptr(ss))
        contiguous, s = True, 8
        for d, st in zip(reversed(dims), reversed(strides)):
            if d != 1 and st != s:
                contiguous = False
            s *= d
        if 0 in dims:
            contiguous = True
        m.cells[o[7]] = (4, 0x400 | 0x100 | (1 if contiguous else 0) | (2 if contiguous and len(dims) == 1 else 0))
        if view:
            m.pyval = 'view'
        return Ptr(m)

    def box_array(self, arr):
        raw = arrays.plain(arr)
        if kind_of(arr) != 'f':
            p = self.box(['array', [cast(v) for v in raw.ravel().tolist()], raw.shape])
            return p
        if raw.size == 0 or raw.flags.c_contiguous:
            vals = list(raw.ravel()) if raw.size else []
            return self.new_array(list(raw.shape), vals)
        # strided view: the elements in between belong to the base
        item = raw.itemsize
        strides = [s // item * 8 for s in raw.strides]
        lo = sum(min(0, (d - 1) * s) for d, s in zip(raw.shape, strides))
        hi = sum(max(0, (d - 1) * s) for d, s in zip(raw.shape, strides)) + 8
        base = raw.base
        data = self.alloc(hi - lo, 'array data', 'heap')
        for idx in np.ndindex(*raw.shape):
            o = sum(i * s for i, s in zip(idx, strides)) - lo
            data.cells[o] = (8, raw[idx])
        if base is not None and base.ndim == raw.ndim == 1 and base.flags.c_contiguous:
            start = (raw.__array_interface__['data'][0] - base.__array_interface__['data'][0]) // item
            # the whole base is one allocation
            data.size = 8 * base.size
            data.cells = {8 * i: (8, v) for i, v in enumerate(base)}
            return self.array_object(Ptr(data, 8 * start), list(raw.shape), strides)
        return self.array_object(Ptr(data, -lo), list(raw.shape), strides)

    def array_parts(self, p):
        o = self.arrTy.offsets
        c = p.obj.cells
        nd = c[o[2]][1]
        dims = [c[o[3]][1].obj.cells[8 * i][1] for i in range(nd)]
        strides = [signed(c[o[4]][1].obj.cells[8 * i][1], 64) for i in range(nd)]
        return c[o[1]][1], dims, strides

    def array_values(self, p):
        data, dims, strides = self.array_parts(p)
        vals = []
        for idx in np.ndindex(*dims):
            q = Ptr(data.obj, data.off + sum(i * s for i, s in zip(idx, strides)))
            obj = self.access(q, 8, 'read')
            v = self.raw_load(obj, q.off, 8)
            if v is UNINIT:
                self.bug('memory safety: the result contains uninitialised memory')
            vals.append(self.convert(v, llir.DOUBLE))
        return vals, dims

    def is_array(self, p):
        ty = p.obj.cells.get(16, (8, NULL))[1] if p.obj is not None else NULL
        return isinstance(ty, Ptr) and ty.obj is self.arrayType

    def unbox(self, p):
        """Python value of a reference (the reference stays)."""
        if self.is_array(p):
            vals, dims = self.array_values(p)
            flat = arrays.symarray(vals) if vals else arrays.numpy_proxy.zeros(0)
            return flat if len(dims) == 1 else flat.reshape(tuple(dims))
        return p.obj.pyval

    def set_error(self, exc, msg):
        self.error = (exc, msg)

    def take_error(self):
        err, self.error = self.error, None
        if err is None:
            return SystemError('error return without exception set')
        exc, msg = err
        return exc if isinstance(exc, BaseException) else exc(msg)

    # ------------------------------------------------------------ external functions

    def external(self, name, args):
        fn = EXTERNALS.get(name)
        if fn is None:
            raise Unsupported('external function %s' % name)
        return fn(self, *args)

    def cstr(self, p):
        out = []
        while True:
            obj = self.access(p, 1, 'read')
            b = self.raw_load(obj, p.off, 1)
            if b is UNINIT:
                self.bug('memory safety: uninitialised memory is used')
            if b == 0:
                return bytes(out).decode('latin-1')
            out.append(b)
            p = Ptr(p.obj, p.off + 1)

    # Python level entry points

    def run(self, p, args):
        """Call a C function returning a new reference or NULL."""
        self.steps = 0
        return self.call_ptr(p, args)

    def result(self, p):
        if p == NULL:
            raise self.take_error()
        if self.error is not None:
            self.error = None
            raise SystemError('An exception was set, but function returned a value')
        value = self.unbox(p)
        if isinstance(p.obj.pyval, CObject):
            return p.obj.pyval
        self.decref(p)
        return value

    def with_args(self, values, call):
        """Box values, call, release them again; arrays written by the code are copied back."""
        boxed = [NULL if v is NullArg else self.box(v) for v in values]

        def release():
            for b in boxed:
                if b.obj is not None:
                    self.decref(b)
        try:
            ret = call(boxed)
        except Exception:
            release()
            raise
        for v, b in zip(values, boxed):
            if v is not NullArg and is_array(v) and b.obj is not None and self.is_array(b):
                vals, dims = self.array_values(b)
                raw = arrays.plain(v)
                for idx, new in zip(np.ndindex(*raw.shape), vals):
                    if new is not raw[idx]:
                        v[idx if len(idx) > 1 else idx[0]] = new
        release()
        return ret

    def live(self):
        return list(self.heap)


def canonical(name):
    name = name.lstrip('@')
    return re.sub(r'^(_?)PyPy', r'\1Py', name)


def isnan(x):
    return isinstance(x, float) and x != x


def is_array(x):
    return isinstance(x, (arrays.SymArray, np.ndarray))


def kind_of(arr):
    dt = getattr(arr, 'dtype', None)
    return getattr(dt, 'kind', 'f') if getattr(dt, 'kind', 'f') != 'O' else 'f'


def cast(v):
    if isinstance(v, SBool):
        return SReal(core.zreal(v))
    if isinstance(v, SInt):
        return SReal(core.zreal(v))
    if isinstance(v, (bool, int)):
        return float(v)
    return v


def nonfinite(x):
    return isinstance(x, float) and not math.isfinite(x)


def representative(x):
    """A float with the sign of x (forks)."""
    if not is_sym(x):
        return x
    if x > 0:
        return 1.
    return -1. if x < 0 else 0.


def fop(op, a, b):
    if nonfinite(a) or nonfinite(b):
        a, b = representative(a), representative(b)
    if is_sym(a) or is_sym(b):
        if op == 'fdiv':
            if b == 0:
                a, b = representative(a), 0.
                return ieee('fdiv', a, b)
            return a / b
        if op == 'frem':
            raise Unsupported('fmod')
        return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b}[op]()
    return ieee(op, a, b)


def ieee(op, a, b):
    with np.errstate(all='ignore'):
        x, y = np.float64(a), np.float64(b)
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
             'frem': lambda: np.fmod(x, y)}[op]()
    return float(r)


EXTERNALS = {}


def ext(*names):
    def deco(fn):
        for n in names:
            EXTERNALS[n] = fn
        return fn
    return deco


# ---- libc

@ext('malloc', 'PyMem_Malloc', 'PyMem_RawMalloc', 'PyObject_Malloc')
def _malloc(s, n):
    if n > 1 << 40:
        return NULL
    return Ptr(s.alloc(n, 'malloc', 'heap'))


@ext('calloc', 'PyMem_Calloc')
def _calloc(s, n, m):
    if n * m > 1 << 40:
        return NULL
    obj = s.alloc(n * m, 'calloc', 'heap')
    if n * m:
        obj.fills.append((0, n * m, 0))
    return Ptr(obj)


@ext('free', 'PyMem_Free', 'PyMem_RawFree', 'PyObject_Free', 'PyObject_Del')
def _free(s, p):
    s.free(p)


@ext('llvm.memset.p0.i64', 'memset')
def _memset(s, p, byte, n, *a):
    s.fill(p, byte & 255, n)
    return p


@ext('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove')
def _memcpy(s, dst, src, n, *a):
    s.copy(dst, src, n)
    return dst


@ext('perror', 'printf', 'puts', 'fprintf', 'putchar', 'fflush', 'fputs', 'llvm.lifetime.start.p0',
     'llvm.lifetime.end.p0', 'llvm.assume', 'llvm.dbg.declare', 'llvm.stackrestore.p0', 'PyErr_Print')
def _nothing(s, *a):
    return 0


@ext('llvm.stacksave.p0')
def _stacksave(s):
    return NULL


@ext('exit', 'abort', '_exit', '__assert_fail', 'Py_FatalError')
def _exit(s, *a):
    s.bug('the process is ended')


@ext('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
def _fmuladd(s, a, b, c):
    return fop('fadd', fop('fmul', a, b), c)


@ext('llvm.maxnum.f64', 'fmax')
def _fmax(s, a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return a if a >= b else b


@ext('llvm.minnum.f64', 'fmin')
def _fmin(s, a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return a if a <= b else b


@ext('llvm.fabs.f64', 'fabs')
def _fabs(s, a):
    return abs(a)


@ext('exp')
def _exp(s, x):
    if not is_sym(x):
        if x != x:
            return x
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf
    return transc.exp(x)


@ext('log')
def _log(s, x):
    if not is_sym(x):
        return math.log(x) if x > 0 else -math.inf if x == 0 else math.nan
    if x == 0:
        return -math.inf
    if x < 0:
        return math.nan
    return transc.log(x)


@ext('sqrt', 'llvm.sqrt.f64')
def _sqrt(s, x):
    return transc.sqrt(x)


@ext('floor', 'llvm.floor.f64')
def _floor(s, x):
    r = core.floor(x) if is_sym(x) else float(math.floor(x)) if math.isfinite(x) else x
    return SReal(core.zreal(r)) if is_sym(r) else float(r)


@ext('isnan', '__isnan')
def _isnan(s, x):
    return int(isnan(x))


@ext('llvm.is.fpclass.f64')
def _fpclass(s, x, mask):
    if is_sym(x):
        if x == 0:
            cls = 0x40
        elif x > 0:
            cls = 0x100
        else:
            cls = 0x8
    elif x != x:
        cls = 0x2
    elif math.isinf(x):
        cls = 0x200 if x > 0 else 0x4
    elif x == 0:
        cls = 0x40 if math.copysign(1., x) > 0 else 0x20
    else:
        cls = 0x100 if x > 0 else 0x8
    return int(bool(cls & mask))


# ---- reference counts, errors

@ext('_Py_Dealloc')
def _py_dealloc(s, p):
    s.access(p, 8, 'release of an object')
    s.dealloc(p)


@ext('Py_IncRef', '_Py_IncRef')
def _incref(s, p):
    if p != NULL:
        s.access(p, 8, 'reference to an object')
        s.incref(p)


@ext('Py_DecRef', '_Py_DecRef')
def _decref(s, p):
    if p != NULL:
        s.decref(p)


@ext('PyErr_SetString')
def _set_string(s, exc, msg):
    s.set_error(exc.obj.pyval, s.cstr(msg))


@ext('PyErr_Format')
def _format(s, exc, fmt, *args):
    s.set_error(exc.obj.pyval, s.cstr(fmt))
    return NULL


@ext('PyErr_SetNone')
def _set_none(s, exc):
    s.set_error(exc.obj.pyval, '')


@ext('PyErr_NoMemory')
def _no_memory(s):
    s.set_error(MemoryError, '')
    return NULL


@ext('PyErr_Occurred')
def _occurred(s):
    if s.error is None:
        return NULL
    exc = s.error[0]
    m = s.alloc(HEAD, 'exception type', 'static')
    m.pyval = exc
    return Ptr(m)


@ext('PyErr_Clear')
def _clear(s):
    s.error = None


@ext('PyErr_ExceptionMatches')
def _matches(s, exc):
    e = s.error[0] if s.error else None
    e = type(e) if isinstance(e, BaseException) else e
    return int(e is not None and issubclass(e, exc.obj.pyval))


@ext('PyErr_BadArgument')
def _bad_argument(s):
    s.set_error(TypeError, 'bad argument type for built-in operation')
    return 0


# ---- numbers

def to_double(value):
    """float(value) as PyFloat_AsDouble does."""
    if isinstance(value, SNum):
        return cast(value)
    if isinstance(value, SBool):
        return cast(value)
    if isinstance(value, (bool, int, float, np.floating, np.integer)):
        return float(value)
    from fractions import Fraction
    if isinstance(value, Fraction):
        return float(value)
    if hasattr(type(value), '__float__') and not isinstance(value, (str, bytes)):
        return float(value)
    raise TypeError('must be real number, not %s' % type(value).__name__)


@ext('PyFloat_AsDouble')
def _as_double(s, p):
    if p == NULL:
        # PyPy dereferences the missing object
        s.bug('memory safety: read through a null pointer')
    try:
        return to_double(s.unbox(p))
    except Exception as err:
        s.set_error(type(err), str(err))
        return -1.


@ext('PyFloat_FromDouble')
def _from_double(s, x):
    return s.box(x)


@ext('PyFloat_Check', 'PyFloat_CheckExact')
def _float_check(s, p):
    return int(isinstance(s.unbox(p), (float, SReal)))


@ext('PyNumber_Check')
def _number_check(s, p):
    if p == NULL:
        return 0
    return int(isinstance(s.unbox(p), (float, int, SNum)))


@ext('PyLong_Check')
def _long_check(s, p):
    return int(isinstance(s.unbox(p), (int, SInt)))


def to_int(value):
    if isinstance(value, SInt):
        return core.engine().concretise(value.z)
    if isinstance(value, SBool):
        return int(bool(value))
    if isinstance(value, (bool, int, np.integer)):
        return int(value)
    if isinstance(value, (float, SReal)):
        raise TypeError('integer argument expected, got float')
    if hasattr(type(value), '__index__'):
        return value.__index__()
    raise TypeError('an integer is required (got type %s)' % type(value).__name__)


def int_from(lo, hi, bits):
    def fn(s, p):
        if p == NULL:
            s.bug('memory safety: read through a null pointer')
        try:
            v = to_int(s.unbox(p))
            if not lo <= v <= hi:
                raise OverflowError('Python int too large or small to convert')
            return v & ((1 << bits) - 1)
        except Exception as err:
            s.set_error(type(err), str(err))
            return (1 << bits) - 1
    return fn


EXTERNALS['PyLong_AsSize_t'] = int_from(0, 2**64 - 1, 64)
EXTERNALS['PyLong_AsUnsignedLong'] = EXTERNALS['PyLong_AsUnsignedLongLong'] = int_from(0, 2**64 - 1, 64)
EXTERNALS['PyLong_AsSsize_t'] = EXTERNALS['PyLong_AsLong'] = EXTERNALS['PyLong_AsLongLong'] = \
    EXTERNALS['PyNumber_AsSsize_t'] = int_from(-2**63, 2**63 - 1, 64)
EXTERNALS['_PyLong_AsInt'] = int_from(-2**31, 2**31 - 1, 32)


@ext('PyLong_FromSsize_t', 'PyLong_FromLong', 'PyLong_FromLongLong')
def _from_ssize(s, n):
    return s.box(signed(n, 64))


@ext('PyLong_FromSize_t', 'PyLong_FromUnsignedLong')
def _from_size(s, n):
    return s.box(n)


@ext('PyBool_FromLong')
def _bool_from_long(s, n):
    return s.box(bool(n))


@ext('PyObject_IsTrue')
def _is_true(s, p):
    if p == NULL:
        s.bug('memory safety: read through a null pointer')
    try:
        return int(bool(s.unbox(p)))
    except Exception as err:
        s.set_error(err, str(err))
        return (1 << 32) - 1


# ---- argument parsing

def parse_values(s, fmt, values, targets):
    """Store converted values; values may end early or contain a missing marker."""
    optional = False
    i = 0
    k = 0
    fmt = fmt.split(':')[0].split(';')[0]
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c == '|':
            optional = True
            continue
        if c == '$':
            continue
        present = k < len(values) and values[k] is not NullArg
        p = targets[k]
        extra = None
        if c == 'O' and fmt[i:i + 1] == '!':
            raise Unsupported('O! format')
        k += 1
        if not present:
            if not optional:
                raise TypeError('function missing required argument (pos %d)' % k)
            continue
        v = values[k - 1]
        if c == 'O':
            s.store(p, 8, v)
            continue
        v = s.unbox(v)
        if c == 'd':
            s.store(p, 8, to_double(v))
        elif c in 'il':
            size = 4 if c == 'i' else 8
            n = to_int(v)
            if not -(1 << size * 8 - 1) <= n < 1 << size * 8 - 1:
                raise OverflowError('signed integer is out of range')
            s.store(p, size, n & ((1 << size * 8) - 1))
        elif c == 'n':
            s.store(p, 8, to_int(v) & ((1 << 64) - 1))
        elif c == 'p':
            s.store(p, 4, int(bool(v)))
        else:
            raise Unsupported('argument format %s' % c)


@ext('_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_ParseTupleAndKeywords')
def _parse_kw(s, args, kwargs, fmt, kwlist, *targets):
    names = []
    p = kwlist
    while True:
        q = s.load(llir.PTR, p)
        if q == NULL:
            break
        names.append(s.cstr(q))
        p = Ptr(p.obj, p.off + 8)
    try:
        pos = s.unbox(args)
        kw = {} if kwargs == NULL else s.unbox(kwargs)
        if len(pos) > len(names):
            raise TypeError('function takes at most %d arguments' % len(names))
        values = list(pos) + [NullArg] * (len(names) - len(pos))
        for key, v in kw.items():
            if key not in names:
                raise TypeError('%s is an invalid keyword argument' % key)
            if names.index(key) < len(pos):
                raise TypeError('argument given by name and position')
            values[names.index(key)] = v
        parse_values(s, s.cstr(fmt), values, targets)
        return 1
    except Exception as err:
        s.set_error(err, str(err))
        return 0


@ext('_PyArg_ParseTuple_SizeT', 'PyArg_ParseTuple')
def _parse_tuple(s, args, fmt, *targets):
    try:
        values = list(s.unbox(args))
        if len(values) > len(targets):
            raise TypeError('function takes at most %d arguments' % len(targets))
        parse_values(s, s.cstr(fmt), values, targets)
        return 1
    except Exception as err:
        s.set_error(err, str(err))
        return 0


@ext('_PyArg_Parse_SizeT', 'PyArg_Parse')
def _parse(s, arg, fmt, *targets):
    try:
        parse_values(s, s.cstr(fmt), [arg], targets)
        return 1
    except Exception as err:
        s.set_error(err, str(err))
        return 0


# ---- types and modules

@ext('PyType_Ready')
def _ready(s, ty):
    tt = s.ir.named('%struct._typeobject')

    def put(name, fn):
        off = ty.off + tt.offsets[TYPE_SLOTS[name]]
        cur = s.raw_load(ty.obj, off, 8)
        if cur == 0 or cur == NULL or cur is UNINIT:
            ty.obj.cells[off] = (8, Ptr(s.function(fn)))
    put('alloc', '@PyType_GenericAlloc')
    put('free', '@PyObject_Free')
    put('new', '@PyType_GenericNew')
    return 0


@ext('PyType_GenericAlloc')
def _generic_alloc(s, ty, n):
    tt = s.ir.named('%struct._typeobject')
    size = s.raw_load(ty.obj, ty.off + tt.offsets[TYPE_SLOTS['basicsize']], 8)
    m = s.alloc(size, 'object', 'heap')
    m.fills.append((0, size, 0))
    m.cells[0] = (8, 1)
    m.cells[16] = (8, ty)
    return Ptr(m)


@ext('PyType_GenericNew')
def _generic_new(s, ty, args, kw):
    return _generic_alloc(s, ty, 0)


@ext('PyModule_Create2')
def _module_create(s, mdef, api):
    m = s.box('module')
    return m


@ext('PyModule_AddObject')
def _add_object(s, mod, name, p):
    s.exports[s.cstr(name)] = p
    return 0


@ext('PyModule_AddType')
def _add_type(s, mod, p):
    s.exports[s.cstr(s.slot(p, 'name')).split('.')[-1]] = p
    return 0


@ext('PyImport_ImportModule')
def _import(s, name):
    return s.box('imported module')


@ext('PyObject_GetAttrString')
def _getattr_string(s, p, name):
    if s.cstr(name) == '_ARRAY_API':
        m = s.box('capsule')
        for g in s.ir.globals:
            if canonical(g) == 'PyCapsule_Type':
                m.obj.cells[16] = (8, s.global_ptr(g))
        return m
    raise Unsupported('attribute %s' % s.cstr(name))


@ext('PyCapsule_GetPointer')
def _capsule(s, p, name):
    return Ptr(s.api)


# ---- numpy

def _define(name, pattern):
    for f in ('_numpyconfig.h',):
        with open(os.path.join(INCLUDES[1], 'numpy', f)) as fp:
            m = re.search(r'#define\s+%s\s+(\w+)' % name, fp.read())
            return int(m.group(1), 0)


@ext('PyArray_GetNDArrayCVersion')
def _abi(s):
    return _define('NPY_ABI_VERSION', None)


@ext('PyArray_GetNDArrayCFeatureVersion')
def _feature(s):
    return _define('NPY_API_VERSION', None)


@ext('PyArray_GetEndianness')
def _endian(s):
    return 1


@ext('PyArray_DescrFromType')
def _descr(s, num):
    m = s.alloc(HEAD, 'dtype', 'static')
    m.cells[0] = (8, 1 << 20)
    m.pyval = num
    return Ptr(m)


@ext('PyArray_FromAny')
def _from_any(s, op, descr, mn, mx, flags, context):
    mn, mx = signed(mn, 32), signed(mx, 32)
    if descr != NULL and descr.obj.pyval != 12:
        raise Unsupported('array of another type')
    if op == NULL:
        s.bug('memory safety: read through a null pointer')
    try:
        if s.is_array(op):
            data, dims, strides = s.array_parts(op)
            if mx and len(dims) > mx:
                raise ValueError('object too deep for desired array')
            if mn and len(dims) < mn:
                if len(dims) == 0:
                    return s.new_array([1] * mn, s.array_values(op)[0])
                raise ValueError('object of too small depth for desired array')
            o = s.arrTy.offsets
            have = op.obj.cells[o[7]][1]
            if not flags & 0x20 and (not flags & 1 or have & 1):
                return s.incref(op)
            vals, dims = s.array_values(op)
            return s.new_array(dims, list(vals))
        vals, dims = nested(s.unbox(op))
        if mx and len(dims) > mx:
            raise ValueError('object too deep for desired array')
        if mn and len(dims) < mn:
            if dims:
                raise ValueError('object of too small depth for desired array')
            dims = [1] * mn
        return s.new_array(dims, vals)
    except Exception as err:
        s.set_error(err, str(err))
        return NULL


def nested(value):
    """Values and shape of what np.asarray(value, float) makes of value."""
    if isinstance(value, list) and value[:1] == ['array']:
        return value[1], list(value[2])
    if isinstance(value, (SNum, SBool)) or isinstance(value, (bool, int, float)):
        return [cast(value)], []
    if value is None:
        return [math.nan], []
    if isinstance(value, (list, tuple)):
        if not len(value):
            return [], [0]
        parts = [nested(v) for v in value]
        if any(p[1] != parts[0][1] for p in parts):
            raise ValueError('setting an array element with a sequence.')
        return [v for p in parts for v in p[0]], [len(value)] + parts[0][1]
    if isinstance(value, str):
        raise ValueError('could not convert string to float: %r' % value)
    raise TypeError('float() argument must be a string or a number, not %r' % type(value).__name__)


@ext('PyArray_New')
def _array_new(s, subtype, nd, dims, num, strides, data, itemsize, flags, obj):
    if num != 12 or data != NULL:
        raise Unsupported('array of another type')
    return _new_dims(s, nd, dims)


def _new_dims(s, nd, dims, zero=False):
    ds = [signed(s.load(llir.int_ty(64), Ptr(dims.obj, dims.off + 8 * i)), 64) for i in range(nd)]
    if any(d < 0 for d in ds):
        s.set_error(ValueError, 'negative dimensions are not allowed')
        return NULL
    n = 1
    for d in ds:
        n *= d
    if n * 8 > 1 << 40:
        s.set_error(MemoryError if n * 8 < 1 << 63 else ValueError, 'Maximum allowed size exceeded')
        return NULL
    return s.new_array(ds, [0.] * n if zero else None)


@ext('PyArray_Zeros')
def _array_zeros(s, nd, dims, descr, order):
    return _new_dims(s, nd, dims, True)


@ext('PyArray_Empty')
def _array_empty(s, nd, dims, descr, order):
    return _new_dims(s, nd, dims)


@ext('PyArray_NewFromDescr')
def _array_descr(s, subtype, descr, nd, dims, strides, data, flags, obj):
    if data != NULL:
        raise Unsupported('array over foreign data')
    return _new_dims(s, nd, dims)


@ext('PyArray_NewLikeArray')
def _array_like(s, proto, order, descr, subok):
    return s.new_array(s.array_parts(proto)[1])


@ext('PyArray_NewCopy')
def _array_copy(s, p, order):
    vals, dims = s.array_values(p)
    return s.new_array(dims, list(vals))


@ext('PyArray_Return')
def _array_return(s, p):
    if p == NULL:
        return p
    vals, dims = s.array_parts(p)[0], s.array_parts(p)[1]
    if not dims:
        v = s.array_values(p)[0][0]
        s.decref(p)
        return s.box(v)
    return p


@ext('PyArray_Size')
def _array_size(s, p):
    n = 1
    for d in s.array_parts(p)[1]:
        n *= d
    return n


# ------------------------------------------------------------ Python level view

class CModule:

    def __init__(self, name):
        self._in = s = Interp(name)
        short = name.split('.')[-1]
        p = s.run(s.global_ptr('@PyInit_' + short), [])
        if p == NULL:
            raise s.take_error()
        for key, ty in s.exports.items():
            setattr(self, key, CType(s, ty, key))


class CType:

    def __init__(self, s, ptr, name):
        self._in, self._ptr, self.__name__ = s, ptr, name
        self._members, self._methods = {}, {}
        self._load()

    def _load(self):
        s = self._in

        def rows(slot, struct_):
            p = s.slot(self._ptr, slot)
            ty = s.ir.named(struct_) if struct_ in s.ir.typeDefs else None
            if p == NULL or ty is None:
                return
            while True:
                vals = [s.load(f, Ptr(p.obj, p.off + o)) for f, o in zip(ty.fields, ty.offsets)]
                if vals[0] == NULL:
                    return
                yield [s.cstr(vals[0])] + vals[1:]
                p = Ptr(p.obj, p.off + ty.size)
        for name, kind, off, flags, doc in rows('members', '%struct.PyMemberDef'):
            self._members[name] = ('member', kind, off, flags)
        for name, get, set_, doc, closure in rows('getset', '%struct.PyGetSetDef'):
            self._members[name] = ('getset', get, set_, closure)
        for name, fn, flags, doc in rows('methods', '%struct.PyMethodDef'):
            self._methods[name] = (fn, flags)

    def __call__(self, *args, **kwargs):
        s = self._in
        boxed = [s.box(a) for a in args]
        kw = {k: s.box(v) for k, v in kwargs.items()}
        pa = s.box(tuple(boxed))
        pk = s.box(dict(kw)) if kw else NULL

        def release():
            for p in boxed + list(kw.values()) + [pa] + ([pk] if kw else []):
                s.decref(p)
        p = s.run(s.slot(self._ptr, 'new'), [self._ptr, pa, pk])
        if p == NULL:
            release()
            raise s.take_error()
        if s.error is not None:
            release()
            s.error = None
            raise SystemError('An exception was set, but function returned a value')
        init = s.slot(self._ptr, 'init')
        if init != NULL:
            rc = s.run(init, [p, pa, pk])
            if signed(rc, 32) < 0 or s.error is not None:
                release()
                s.decref(p)
                raise s.take_error()
        release()
        return CObject(self, p)


class CObject:

    def __init__(self, type_, ptr):
        object.__setattr__(self, '_type', type_)
        object.__setattr__(self, '_ptr', ptr)

    def _member(self, name):
        m = self._type._members.get(name)
        if m is None:
            raise AttributeError(name)
        return m

    def __getattr__(self, name):
        t = self._type
        s = t._in
        if name in t._methods:
            fn, flags = t._methods[name]

            def method(*args, **kwargs):
                kind = flags & 0xf
                if kind == 8:
                    if len(args) != 1 or kwargs:
                        raise TypeError('%s() takes exactly one argument' % name)
                    return s.with_args(args, lambda b: s.result(s.run(fn, [self._ptr] + b)))
                if kind == 4:
                    if args or kwargs:
                        raise TypeError('%s() takes no arguments' % name)
                    return s.result(s.run(fn, [self._ptr, NULL]))
                if kind in (1, 3):
                    if kwargs and kind == 1:
                        raise TypeError('%s() takes no keyword arguments' % name)

                    def call(b):
                        tup = s.box(tuple(b[:len(args)]))
                        kw = s.box(dict(zip(kwargs, b[len(args):]))) if kwargs else NULL
                        r = s.result(s.run(fn, [self._ptr, tup] + ([kw] if kind == 3 else [])))
                        s.decref(tup)
                        if kwargs:
                            s.decref(kw)
                        return r
                    return s.with_args(args + tuple(kwargs.values()), call)
                raise Unsupported('calling convention %d' % flags)
            return method
        m = self._member(name)
        if m[0] == 'getset':
            return s.result(s.run(m[1], [self._ptr, m[3]]))
        kind, off = m[1], m[2]
        p = Ptr(self._ptr.obj, self._ptr.off + off)
        if kind == 4:
            return s.load(llir.DOUBLE, p)
        if kind == 14:
            return bool(s.load(llir.int_ty(8), p))
        if kind in (1, 2, 12):
            bits = {1: 32, 2: 64, 12: 64}[kind]
            return signed(s.load(llir.int_ty(bits), p), bits)
        raise Unsupported('member type %d' % kind)

    def _set(self, name, value):
        s = self._type._in
        if name not in self._type._members:
            raise AttributeError(name)
        m = self._member(name)
        if m[0] == 'getset':
            if m[2] == NULL:
                raise AttributeError('attribute %r is not writable' % name)
            rc = s.with_args([value], lambda b: s.run(m[2], [self._ptr] + b + [m[3]]))
            if signed(rc, 32) < 0:
                raise s.take_error()
            if s.error is not None:
                s.error = None
                raise SystemError('An exception was set, but function returned a value')
            return
        kind, off, flags = m[1], m[2], m[3]
        if flags & 1:
            raise AttributeError('readonly attribute')
        if value is NullArg:
            raise TypeError("can't delete numeric/char attribute")
        p = Ptr(self._ptr.obj, self._ptr.off + off)
        if kind == 4:
            s.store(p, 8, to_double(value))
        elif kind == 14:
            if not isinstance(value, (bool, SBool)):
                raise TypeError('attribute value type must be bool')
            s.store(p, 1, int(bool(value)))
        elif kind in (1, 2, 12):
            s.store(p, 4 if kind == 1 else 8, to_int(value) & ((1 << (32 if kind == 1 else 64)) - 1))
        else:
            raise Unsupported('member type %d' % kind)

    def __setattr__(self, name, value):
        self._set(name, value)

    def __delattr__(self, name):
        self._set(name, NullArg)

    def close(self):
        """Drop the only reference."""
        self._type._in.decref(self._ptr)

    def __copy__(self):
        raise TypeError('cannot pickle')

    def __deepcopy__(self, memo):
        raise TypeError('cannot pickle')


LOADED = {}


def module(name):
    """Fresh module for the current path."""
    prepare([name])
    eng = core.engine()
    key = (id(eng), eng.paths, name)
    if LOADED.get('key') != key:
        LOADED.clear()
        LOADED['key'] = key
        LOADED['mod'] = CModule(name)
    return LOADED['mod']
