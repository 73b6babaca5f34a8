"""Loads the klang sources of /repo for symbolic execution.

Source files are read from the working tree on every run, parsed, lightly
rewritten (see Transform: the rewriting only replaces builtin conversions by
helpers which also accept symbolic values) and executed with environment stubs.
"""
import ast
import builtins
import collections
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys
import types

import numpy as np
import z3

from symx import arrays, core, shims, state, strings
from symx.core import (SBool, SFrac, SInt, SNum, SReal, Unsupported, floor, is_sym, ite, mkbool,
                       smax, smin, trunc)

REPO = os.environ.get('KLANG_REPO', '/repo')
ENCODED = set()
BLOCKED = ('klang.audio._envelope', 'klang.audio._filters')


# ------------------------------------------------------------ helpers

def sx_int(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        x = args[0]
        if isinstance(x, (SNum, SBool)):
            return trunc(x)
        if hasattr(x, '__sx_int__'):
            return x.__sx_int__()
    return int(*args, **kwargs)


def sx_float(*args):
    if args:
        x = args[0]
        if isinstance(x, (SInt, SBool)):
            return SReal(core.zreal(x))
        if isinstance(x, SReal):
            return SReal(x.z)
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            return sx_float(x.ravel()[0])
    return float(*args)


def sx_number(kind, *args, **kwargs):
    if args and isinstance(kind, type) and issubclass(kind, np.generic) and \
            any(core.is_sym(a) or isinstance(a, arrays.SymArray) for a in args):
        return arrays.np_number(kind, *args)
    return kind(*args, **kwargs)


def sx_bool(*args):
    if args and isinstance(args[0], SBool):
        return args[0]
    if args and isinstance(args[0], SNum):
        return args[0] != 0
    return bool(*args)


def sx_str(*args, **kw):
    if len(args) == 1 and isinstance(args[0], LazyText):
        return args[0]
    if args and not isinstance(args[0], (str, bytes, bytearray)) and hasattr(args[0], 'decode') and \
            (len(args) > 1 or 'encoding' in kw):
        return args[0].decode()
    if len(args) == 1 and isinstance(args[0], strings.SStr):
        return args[0]
    if len(args) == 1 and type(args[0]) is SInt:
        return str(int(args[0]))
    return str(*args, **kw)


def sx_bytes(*args, **kw):
    if args and not isinstance(args[0], (str, bytes, bytearray)) and hasattr(args[0], 'encode') and \
            (len(args) > 1 or 'encoding' in kw):
        return args[0].encode()
    return bytes(*args, **kw)


def sx_in(a, b):
    if isinstance(b, range) and isinstance(a, (SInt, SBool, SReal)):
        if len(b) == 0:
            return False
        lo, hi = min(b[0], b[-1]), max(b[0], b[-1])
        if not bool(core.mkbool(z3.simplify(z3.And(core.zreal(a) >= lo, core.zreal(a) <= hi)))):
            return False
        return bool((a - b[0]) % abs(b.step) == 0)
    if isinstance(b, (list, tuple, collections.deque)):
        for x in b:
            if x is a or x == a:
                return True
        return False
    if (is_sym(a) or isinstance(a, strings.SStr)) and isinstance(b, (set, frozenset, dict, type({}.keys()))):
        for x in list(b):
            if x is a or x == a:
                return True
        return False
    if isinstance(b, dict) or isinstance(b, (set, frozenset)):
        # symbolic members were made concrete when they got hashed
        return a in b
    if isinstance(b, str) and not isinstance(a, str) and hasattr(a, '__sx_in__'):
        return a.__sx_in__(b)
    return a in b


def sx_notin(a, b):
    return not sx_in(a, b)


def _symany(x):
    if is_sym(x):
        return True
    if isinstance(x, tuple):
        return any(_symany(v) for v in x)
    if isinstance(x, dict):
        return any(_symany(v) for v in x.values())
    return False


class _Text:

    def __init__(self, v):
        self.v = v

    def __format__(self, spec):
        return repr(self.v)

    def __str__(self):
        return repr(self.v)

    __repr__ = __str__


class LazyText(str):

    """Text with symbolic numbers in it (messages mostly). They become concrete when somebody looks at it."""

    def __new__(cls, placeholder, thunk):
        ret = super().__new__(cls, placeholder)
        ret._thunk, ret._text = thunk, None
        return ret

    def force(self):
        if self._text is None:
            self._text = self._thunk()
        return self._text

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self
    __str__ = lambda self: self
    __repr__ = lambda self: str.__repr__(self)
    __format__ = lambda self, spec: format(str.__str__(self), spec)


def _forward(name):
    def method(self, *args, **kw):
        args = [a.force() if isinstance(a, LazyText) else a for a in args]
        return getattr(self.force(), name)(*args, **kw)
    return method


for _name in dir(str):
    if callable(getattr(str, _name)) and (not _name.startswith('__') or _name in (
            '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__len__', '__iter__',
            '__getitem__', '__contains__', '__add__', '__mul__', '__rmul__')):
        setattr(LazyText, _name, _forward(_name))
LazyText.__radd__ = lambda self, other: other + self.force()
LazyText.__bool__ = lambda self: bool(self.force())


def _conc(x):
    """Make the numbers of a text concrete."""
    if isinstance(x, SInt) and not isinstance(x, SReal):
        return int(x)
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, strings.SStr):
        return x.concrete()
    if isinstance(x, LazyText):
        return x.force()
    if type(x) is tuple:
        return tuple(_conc(v) for v in x)
    if type(x) is list:
        return [_conc(v) for v in x]
    if type(x) is dict:
        return {k: _conc(v) for k, v in x.items()}
    return x


def _lazy(x):
    return isinstance(x, (SInt, SBool, strings.SStr, LazyText)) and not isinstance(x, SReal) or \
        type(x) in (list, tuple) and any(map(_lazy, x)) or type(x) is dict and any(map(_lazy, x.values()))


def sx_mod(a, b):
    if isinstance(a, LazyText):
        a = a.force()
    if isinstance(a, str):
        ret = _mod(a, b)
        return LazyText(ret, lambda: _mod(a, _conc(b))) if _lazy(b) else ret
    return a % b


def sx_fstr(*parts):
    if all(isinstance(p, str) or (isinstance(p[0], (str, strings.SStr)) and p[1:] == (-1, ''))
           for p in parts) and any(isinstance(p, tuple) and isinstance(p[0], strings.SStr) for p in parts):
        ret = ''
        for p in parts:
            ret = ret + (p if isinstance(p, str) else p[0])
        return ret

    def build(conv):
        ret = []
        for p in parts:
            if isinstance(p, tuple):
                value, how, spec = p
                value, spec = conv(value), conv(spec)
                if how != -1:
                    value = {'r': repr, 's': str, 'a': ascii}[chr(how)](value)
                if _symany((value,)):
                    p = repr(value)
                else:
                    p = format(value, spec)
            ret.append(p)
        return ''.join(ret)

    ret = build(lambda x: x)
    lazy = any(isinstance(p, tuple) and (_lazy(p[0]) or _lazy(p[2])) for p in parts)
    return LazyText(ret, lambda: build(_conc)) if lazy else ret


def _mod(a, b):
    if isinstance(a, str):
        if _symany(b):
            import re
            fmt = re.sub(r'%(\([^)]*\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa]',
                         lambda m: '%' + (m.group(1) or '') + 's', a)
            if isinstance(b, dict):
                return fmt % {k: str(v) for k, v in b.items()}
            if not isinstance(b, tuple):
                b = (b,)
            b = tuple(str(v) for v in b)
            n = len(re.findall(r'(?<!%)(?:%%)*%s', fmt))
            return fmt % b
        if isinstance(b, tuple) and type(b) is not tuple:
            b = tuple(b)
    return a % b


def sx_isinstance(obj, cls):
    if isinstance(cls, tuple):
        return any(sx_isinstance(obj, c) for c in cls)
    if isinstance(obj, strings.SStr):
        return cls in (str, object) or getattr(cls, '__name__', '') in ('Sequence', 'Iterable', 'Hashable', 'Collection')
    if isinstance(obj, SInt):
        if cls is int or cls is bool:
            return cls is int
        if getattr(cls, '__module__', '') == 'numbers' or cls is object:
            return cls.__name__ in ('Number', 'Complex', 'Real', 'Rational', 'Integral', 'object')
        return False if isinstance(cls, type) and cls in (float, str, list, tuple, dict) else \
            isinstance(obj, cls)
    if isinstance(obj, SBool):
        return cls in (bool, int) or isinstance(obj, cls)
    if isinstance(obj, SReal) and not isinstance(obj, SFrac):
        if cls is float:
            return True
        if getattr(cls, '__module__', '') == 'numbers':
            return cls.__name__ in ('Number', 'Complex', 'Real')
    if cls is np.ndarray and is_sym(obj):
        return False
    if cls is _LIST and isinstance(obj, list):
        return True
    return isinstance(obj, cls)


_LIST = list


def sx_min(*args, key=None, **kw):
    return _ext(smin, builtins.min, args, key, kw)


def sx_max(*args, key=None, **kw):
    return _ext(smax, builtins.max, args, key, kw)


def _ext(sym, real, args, key, kw):
    if key is None and 'default' not in kw:
        seq = list(args[0]) if len(args) == 1 else list(args)
        if any(is_sym(v) for v in seq):
            ret = seq[0]
            for v in seq[1:]:
                ret = sym(ret, v)
            return ret
        return real(seq, **kw)
    if len(args) == 1:
        args = (list(args[0]),)
    return real(*args, key=key, **kw) if key is not None else real(*args, **kw)


def sx_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


def sx_pow(a, b, *m):
    return a ** b if (is_sym(a) or is_sym(b)) and not m else pow(a, b, *m)


def sx_print(*args, **kwargs):
    pass


class DetSet(set):

    """set with deterministic (insertion) iteration order."""

    def __init__(self, it=()):
        super().__init__()
        self._o = {}
        for v in it:
            self.add(v)

    def add(self, v):
        if v not in self._o:
            self._o[v] = None
            super().add(v)

    def remove(self, v):
        super().remove(v)
        del self._o[v]

    def discard(self, v):
        if v in self._o:
            self.remove(v)

    def pop(self):
        if not self._o:
            raise KeyError('pop from an empty set')
        v = next(iter(self._o))
        self.remove(v)
        return v

    def clear(self):
        super().clear()
        self._o = {}

    def update(self, *its):
        for it in its:
            for v in list(it):
                self.add(v)

    def __iter__(self):
        return iter(list(self._o))

    def copy(self):
        return DetSet(self)

    def union(self, *its):
        ret = DetSet(self)
        ret.update(*its)
        return ret

    def difference(self, *its):
        drop = set()
        for it in its:
            drop |= set(it)
        return DetSet(v for v in self._o if v not in drop)

    def intersection(self, *its):
        ret = list(self._o)
        for it in its:
            it = set(it)
            ret = [v for v in ret if v in it]
        return DetSet(ret)

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __and__(self, o):
        return self.intersection(o)

    def difference_update(self, *its):
        for it in its:
            for v in list(it):
                self.discard(v)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __deepcopy__(self, memo):
        import copy
        return DetSet(copy.deepcopy(v, memo) for v in self._o)

    def __reduce__(self):
        return (DetSet, (list(self._o),))


OVER = {
    'isinstance': sx_isinstance, 'min': sx_min, 'max': sx_max, 'divmod': sx_divmod,
    'pow': sx_pow, 'print': sx_print, 'ord': strings.ord_,
}

HELPERS = {
    '__sx_int__': sx_int, '__sx_float__': sx_float, '__sx_bool__': sx_bool, '__sx_str__': sx_str, '__sx_bytes__': sx_bytes,
    '__sx_in__': sx_in, '__sx_fstr__': sx_fstr, '__sx_notin__': sx_notin, '__sx_mod__': sx_mod,
    '__sx_set__': DetSet, '__sx_number__': sx_number,
}


# ------------------------------------------------------------ transformation

CONV = {'int': '__sx_int__', 'float': '__sx_float__', 'bool': '__sx_bool__',
        'set': '__sx_set__', 'str': '__sx_str__', 'bytes': '__sx_bytes__'}


NUMBERS = {'float16', 'float32', 'float64', 'float_', 'double', 'single', 'bool_', 'int8', 'int16', 'int32', 'int64',
           'int_', 'intc', 'uint8', 'uint16', 'uint32', 'uint64'}


class Transform(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    def name(self, s, node):
        return ast.copy_location(ast.Name(id=s, ctx=ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            if node.func.id in CONV:
                node.func = self.name(CONV[node.func.id], node.func)
            elif node.func.id in ('map', 'filter') and node.args and \
                    isinstance(node.args[0], ast.Name) and node.args[0].id in CONV:
                node.args[0] = self.name(CONV[node.args[0].id], node)
        elif isinstance(node.func, ast.Attribute) and node.func.attr in NUMBERS and node.args:
            # np.float64(x)
            node.args.insert(0, node.func)
            node.func = self.name('__sx_number__', node.func)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_notin__'
            return ast.copy_location(ast.Call(func=self.name(fn, node),
                                              args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self.name('__sx_mod__', node),
                                              args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                v = ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load())
            parts.append(v)
        ret = ast.copy_location(ast.Call(func=self.name('__sx_fstr__', node), args=parts, keywords=[]), node)
        return ast.fix_missing_locations(ret)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=self.name('__sx_set__', node),
            args=[ast.copy_location(ast.Tuple(elts=node.elts, ctx=ast.Load()), node)], keywords=[]), node)

    def _function(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        qual = self.modname + '.' + '.'.join(self.scope)
        self.scope.pop()
        mark = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name('__sx_enc__', ast.Load()), attr='add',
                                                    ctx=ast.Load()),
                                 args=[ast.Constant(qual)], keywords=[]))
        ast.copy_location(mark, node)
        ast.fix_missing_locations(mark)
        body = node.body
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
            isinstance(body[0].value.value, str) else 0
        node.body = body[:at] + [mark] + body[at:]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node


CODE = {}


def compile_file(path, modname):
    key = (path, modname)
    if key not in CODE:
        with open(path, encoding='utf8') as fp:
            source = fp.read()
        tree = ast.parse(source, path)
        tree = Transform(modname).visit(tree)
        ast.fix_missing_locations(tree)
        CODE[key] = compile(tree, path, 'exec', dont_inherit=True)
    return CODE[key]


REAL_IMPORT = builtins.__import__
EXTRA_MODULES = {}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.split('.')[0] not in ('klang',):
        mods = {**shims.MODULES, **EXTRA_MODULES}
        if name in mods:
            if fromlist or '.' not in name:
                return mods[name]
            return mods[name.split('.')[0]]
    return REAL_IMPORT(name, globals, locals, fromlist, level)


def make_builtins():
    ns = dict(vars(builtins))
    ns.update(OVER)
    ns.update(HELPERS)
    ns['__import__'] = sx_import
    ns['__sx_enc__'] = ENCODED
    return ns


BUILTINS = make_builtins()


class Loader(importlib.abc.Loader):

    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = BUILTINS
        exec(compile_file(self.path, self.name), module.__dict__)

    def get_data(self, path):
        with open(path, 'rb') as fp:
            return fp.read()


class Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'klang' and not fullname.startswith('klang.'):
            return None
        if fullname in BLOCKED:
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            file = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, file), origin=file,
                                                  is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            file = base + '.py'
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, file), origin=file)
        else:
            return None
        spec.has_location = True
        return spec


FINDER = Finder()


def install():
    sys.dont_write_bytecode = True
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.abspath(REPO)]


def precompile():
    """Compile all sources in the parent process (shared by forked workers)."""
    for root, dirs, files in os.walk(os.path.join(REPO, 'klang')):
        for f in files:
            if f.endswith('.py'):
                path = os.path.join(root, f)
                rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                try:
                    compile_file(path, rel)
                except SyntaxError:
                    pass
