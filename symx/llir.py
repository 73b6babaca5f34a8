"""Reads textual LLVM IR (clang -S -emit-llvm -O0) into plain Python structures."""
import re
import struct

TOKEN = re.compile(r'''
    [%@](?:"[^"]*"|[-\w.$]+)      # values, types, globals
  | c?"[^"]*"                     # strings
  | \#\d+ | ![\w.]*               # attribute groups, metadata
  | -?0x[KLMHR]?[0-9A-Fa-f]+      # hex floats
  | -?\d+\.\d*(?:[eE][-+]?\d+)?   # decimal floats
  | -?\d+
  | \.\.\.
  | [A-Za-z_][\w.]*
  | [(){}\[\]<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


class Ty:

    __slots__ = ('kind', 'bits', 'el', 'n', 'fields', 'packed', 'size', 'align', 'offsets')

    def __init__(self, kind, bits=0, el=None, n=0, fields=None, packed=False):
        self.kind, self.bits, self.el, self.n, self.fields, self.packed = kind, bits, el, n, fields, packed
        self.offsets = None
        if kind == 'i':
            size = 1
            while size * 8 < bits:
                size *= 2
            self.size = self.align = size
        elif kind == 'double' or kind == 'ptr':
            self.size = self.align = 8
        elif kind == 'float':
            self.size = self.align = 4
        elif kind == 'arr':
            self.size, self.align = n * el.size, el.align
        elif kind == 'struct':
            off, al, offsets = 0, 1, []
            for f in fields:
                if not packed:
                    off = -(-off // f.align) * f.align
                    al = max(al, f.align)
                offsets.append(off)
                off += f.size
            self.offsets = offsets
            self.size, self.align = -(-off // al) * al, al
        else:
            self.size, self.align = 0, 1

    def __repr__(self):
        return self.kind + (str(self.bits) if self.kind == 'i' else '')


VOID, DOUBLE, FLOAT, PTR, LABEL = Ty('void'), Ty('double'), Ty('float'), Ty('ptr'), Ty('label')
_INTS = {}


def int_ty(bits):
    if bits not in _INTS:
        _INTS[bits] = Ty('i', bits)
    return _INTS[bits]


ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone immarg returned
nofree nest swiftself swifterror noinline alwaysinline local_unnamed_addr unnamed_addr dso_local internal private
external common weak linkonce linkonce_odr weak_odr global constant hidden protected default tail musttail notail
fast nnan ninf nsz arcp contract afn reassoc inbounds nuw nsw exact volatile atomic nounwind thread_local extern_weak
available_externally writable allocptr allocalign ccc fastcc coldcc disjoint nneg willreturn'''.split())
PATTRS = set('align dereferenceable dereferenceable_or_null sret byval elementtype initializes range'.split())


class Const:
    """Constant: kind in int, float, null, undef, zero, str, global, agg, gep, cast."""

    __slots__ = ('kind', 'val', 'ty')

    def __init__(self, kind, val, ty=None):
        self.kind, self.val, self.ty = kind, val, ty


class Func:

    def __init__(self, name):
        self.name, self.params, self.blocks, self.ret, self.vararg = name, [], {}, VOID, False
        self.entry = None


class Module:

    def __init__(self, text):
        self.types = {}
        self.globals = {}       # name -> (ty, init Const or None)
        self.funcs = {}
        self.declared = set()
        self.pending = {}
        self.parse(text)

    # -- lexing helpers

    def parse(self, text):
        lines = text.split('\n')
        # named types may refer to each other in any order
        self.typeDefs = {}
        for line in lines:
            m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', line)
            if m:
                self.typeDefs[m.group(1)] = m.group(2)
        i = 0
        while i < len(lines):
            line = lines[i]
            if line.startswith('@'):
                self.parse_global(line)
            elif line.startswith('declare'):
                self.declared.add(re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', line).group(1))
            elif line.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(line, lines[i + 1:j])
                i = j
            i += 1

    def toks(self, line):
        line = re.sub(r',? ![\w.]+ ?![\w.]*.*$', '', line) if ' !' in line else line
        self.t = TOKEN.findall(line)
        self.p = 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else None

    def next(self):
        tok = self.t[self.p]
        self.p += 1
        return tok

    def expect(self, tok):
        got = self.next()
        if got != tok:
            raise IRError('expected %s, got %s in %s' % (tok, got, ' '.join(self.t)))

    def accept(self, tok):
        if self.peek() == tok:
            self.p += 1
            return True
        return False

    def skip_attrs(self):
        while self.p < len(self.t):
            tok = self.t[self.p]
            if tok in ATTRS or tok.startswith('#'):
                self.p += 1
            elif tok in PATTRS:
                self.p += 1
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.p += 1
            else:
                return

    def skip_parens(self):
        depth = 0
        while True:
            tok = self.next()
            depth += (tok == '(') - (tok == ')')
            if not depth:
                return

    # -- types

    def named(self, name):
        if name not in self.types:
            t, p = self.t, self.p
            self.t, self.p = TOKEN.findall(self.typeDefs[name]), 0
            self.types[name] = Ty('struct', fields=[]) if self.peek() == 'opaque' else self.ty()
            self.t, self.p = t, p
        return self.types[name]

    def ty(self):
        tok = self.next()
        if tok == 'void':
            ret = VOID
        elif tok == 'double':
            ret = DOUBLE
        elif tok == 'float':
            ret = FLOAT
        elif tok == 'ptr':
            ret = PTR
        elif tok in ('label', 'metadata'):
            ret = LABEL
        elif tok[0] == 'i' and tok[1:].isdigit():
            ret = int_ty(int(tok[1:]))
        elif tok[0] == '%':
            ret = self.named(tok)
        elif tok == '[':
            n = int(self.next())
            self.expect('x')
            el = self.ty()
            self.expect(']')
            ret = Ty('arr', el=el, n=n)
        elif tok in '{<':
            packed = tok == '<'
            if packed:
                self.expect('{')
            fields = []
            while not self.accept('}'):
                fields.append(self.ty())
                self.accept(',')
            if packed:
                self.expect('>')
            ret = Ty('struct', fields=fields, packed=packed)
        else:
            raise IRError('type %s in %s' % (tok, ' '.join(self.t)))
        if self.peek() == '(':          # function type
            self.skip_parens()
        return ret

    # -- values

    def value(self, ty):
        tok = self.next()
        c = tok[0]
        if c == '%':
            return tok
        if c == '@':
            return Const('global', tok, ty)
        if tok in ('null', 'none'):
            return Const('null', 0, ty)
        if tok in ('undef', 'poison'):
            return Const('undef', None, ty)
        if tok == 'zeroinitializer':
            return Const('zero', 0, ty)
        if tok == 'true':
            return Const('int', 1, ty)
        if tok == 'false':
            return Const('int', 0, ty)
        if c == 'c' and tok[1:2] == '"':
            raw = tok[2:-1]
            data = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return Const('str', data.encode('latin-1'), ty)
        if tok == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            sty = self.ty()
            args = []
            while self.accept(','):
                self.skip_attrs()
                t = self.ty()
                self.skip_attrs()
                args.append((t, self.value(t)))
            self.expect(')')
            return Const('gep', (sty, args), ty)
        if tok in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.expect('(')
            t = self.ty()
            v = self.value(t)
            self.expect('to')
            self.ty()
            self.expect(')')
            return Const('cast', v, ty)
        if tok in '{[<':
            close = {'{': '}', '[': ']', '<': '}'}[tok]
            if tok == '<':
                self.expect('{')
            vals = []
            while not self.accept(close):
                t = self.ty()
                vals.append((t, self.value(t)))
                self.accept(',')
            if tok == '<':
                self.expect('>')
            return Const('agg', vals, ty)
        if ty.kind in ('double', 'float'):
            if tok.startswith('0x'):
                return Const('float', struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0], ty)
            return Const('float', float(tok), ty)
        if ty.kind == 'i':
            return Const('int', int(tok) & ((1 << ty.bits) - 1), ty)
        raise IRError('value %s in %s' % (tok, ' '.join(self.t)))

    # -- top level

    def parse_global(self, line):
        self.toks(line)
        name = self.next()
        self.expect('=')
        external = False
        while self.peek() in ATTRS or self.peek() in PATTRS or self.peek() == 'addrspace':
            external |= self.peek() in ('external', 'extern_weak')
            if self.peek() == 'addrspace':
                self.p += 1
                self.skip_parens()
            else:
                self.p += 1
        ty = self.ty()
        init = None
        if not external and self.peek() not in (None, ','):
            init = self.value(ty)
        self.globals[name] = (ty, init)

    def parse_func(self, head, body):
        self.toks(head)
        self.next()
        self.skip_attrs()
        f = Func(None)
        f.ret = self.ty()
        f.name = self.next()
        self.expect('(')
        while not self.accept(')'):
            if self.accept('...'):
                f.vararg = True
                continue
            t = self.ty()
            self.skip_attrs()
            f.params.append((t, self.next()))
            self.accept(',')
        cur = '%' + str(len(f.params))
        f.entry = cur
        f.blocks[cur] = []
        i = 0
        first = True
        while i < len(body):
            line = body[i]
            i += 1
            m = re.match(r'^("[^"]*"|[-\w.$]+):', line)
            if m:
                cur = '%' + m.group(1)
                if first:
                    f.blocks = {}
                    f.entry = cur
                f.blocks[cur] = []
                first = False
                continue
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            first = False
            while line.count('[') > line.count(']'):
                line += ' ' + body[i].strip()
                i += 1
            f.blocks[cur].append(self.instr(line))
        self.funcs[f.name] = f

    # -- instructions

    def instr(self, line):
        self.toks(line)
        dst = None
        if self.peek(1) == '=':
            dst = self.next()
            self.next()
        op = self.next()
        while op in ('tail', 'musttail', 'notail'):
            op = self.next()
        if op == 'alloca':
            self.skip_attrs()
            t = self.ty()
            n = None
            if self.accept(',') and self.peek() not in ('align', None):
                nt = self.ty()
                n = self.value(nt)
            return (op, dst, t, n)
        if op == 'load':
            self.skip_attrs()
            t = self.ty()
            self.expect(',')
            self.ty()
            return (op, dst, t, self.value(PTR))
        if op == 'store':
            self.skip_attrs()
            t = self.ty()
            v = self.value(t)
            self.expect(',')
            self.ty()
            return (op, None, t, v, self.value(PTR))
        if op == 'getelementptr':
            self.skip_attrs()
            t = self.ty()
            args = []
            while self.accept(','):
                at = self.ty()
                args.append((at, self.value(at)))
            return (op, dst, t, args[0][1], args[1:])
        if op == 'br':
            if self.accept('label'):
                return (op, None, self.next())
            self.ty()
            c = self.value(int_ty(1))
            self.expect(',')
            self.expect('label')
            a = self.next()
            self.expect(',')
            self.expect('label')
            return ('condbr', None, c, a, self.next())
        if op == 'switch':
            t = self.ty()
            v = self.value(t)
            self.expect(',')
            self.expect('label')
            default = self.next()
            self.expect('[')
            cases = {}
            while not self.accept(']'):
                ct = self.ty()
                c = self.value(ct)
                self.expect(',')
                self.expect('label')
                cases[c.val] = self.next()
            return (op, None, t, v, default, cases)
        if op == 'ret':
            t = self.ty()
            return (op, None, t, None if t is VOID else self.value(t))
        if op == 'unreachable':
            return (op, None)
        if op in ('icmp', 'fcmp'):
            self.skip_attrs()
            pred = self.next()
            t = self.ty()
            a = self.value(t)
            self.expect(',')
            return (op, dst, pred, t, a, self.value(t))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self.skip_attrs()
            t = self.ty()
            a = self.value(t)
            self.expect(',')
            return ('bin', dst, op, t, a, self.value(t))
        if op in ('fneg', 'freeze'):
            self.skip_attrs()
            t = self.ty()
            return (op, dst, t, self.value(t))
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr'):
            self.skip_attrs()
            t = self.ty()
            v = self.value(t)
            self.expect('to')
            return ('cast', dst, op, t, v, self.ty())
        if op == 'select':
            self.skip_attrs()
            self.ty()
            c = self.value(int_ty(1))
            self.expect(',')
            t = self.ty()
            a = self.value(t)
            self.expect(',')
            self.ty()
            return (op, dst, c, a, self.value(t))
        if op == 'phi':
            self.skip_attrs()
            t = self.ty()
            inc = {}
            while True:
                self.expect('[')
                v = self.value(t)
                self.expect(',')
                inc[self.next()] = v
                self.expect(']')
                if not self.accept(','):
                    break
            return (op, dst, t, inc)
        if op == 'call':
            self.skip_attrs()
            rt = self.ty()
            if self.peek() == '(':
                self.skip_parens()
            callee = self.value(PTR)
            self.expect('(')
            args = []
            while not self.accept(')'):
                t = self.ty()
                self.skip_attrs()
                args.append((t, self.value(t)))
                self.accept(',')
            return (op, dst, rt, callee, args)
        if op in ('extractvalue', 'insertvalue'):
            t = self.ty()
            v = self.value(t)
            rest = []
            while self.accept(','):
                if self.peek().lstrip('-').isdigit():
                    rest.append(int(self.next()))
                else:
                    et = self.ty()
                    rest.append(self.value(et))
            return (op, dst, t, v, rest)
        raise IRError('instruction %s' % line)
