"""Symbolic flavour of the harness context."""
import importlib

import z3

from symx import core, loader, shims, strings
from symx.arrays import SymArray, numpy_proxy, plain, symarray
from symx.core import SBool, SFrac, SInt, SNum, SReal, ite, mkbool, smax, smin
from symx.ctx import BaseCtx

Fraction = core.Fraction


class SymCtx(BaseCtx):

    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.np = numpy_proxy
        self.patched = []

    def mod(self, name):
        if name in loader.BLOCKED:
            from symx import llvm
            return llvm.module(name)
        return importlib.import_module(name)

    def leaks(self, fn):
        """Does fn() leave objects or memory behind (or an argument which is still referenced)?"""
        from symx import llvm
        if 'mod' not in llvm.LOADED:
            try:
                fn()            # loads the module
            except Exception:
                pass
        s = llvm.LOADED['mod']._in
        before = {id(m) for m in s.live()}
        try:
            fn()
        except Exception:
            pass
        return any(id(m) not in before for m in s.live())

    def drop(self, obj):
        """The last reference to an object of an extension type goes."""
        obj.close()

    def coefficient(self, c, ratio):
        """x > 0 with exp(-log(ratio) / x) == c, for 0 < c < 1."""
        from symx import transc
        x = self.eng.fresh_real('inverse')
        self.eng.assume_z(x.z > 0)
        self.eng.assume(transc.exp(-transc.log(ratio) / x) == c)
        return x

    def log_anchors(self, values):
        """Logarithms are known around these values."""
        self.eng.logAnchors = list(values)

    def _bounds(self, z_, lo, hi, lo_open=False, hi_open=False):
        cons = []
        if lo is not None:
            b = core.zreal(lo) if z_.sort() == z3.RealSort() else core.zint(lo)
            cons.append(z_ > b if lo_open else z_ >= b)
        if hi is not None:
            b = core.zreal(hi) if z_.sort() == z3.RealSort() else core.zint(hi)
            cons.append(z_ < b if hi_open else z_ <= b)
        if cons:
            self.eng.assume_z(z3.And(cons))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        z_ = z3.Real(name)
        self.eng.declare(name, 'real', z_)
        self._bounds(z_, lo, hi, lo_open, hi_open)
        return SReal(z_)

    def frac(self, name, lo=None, hi=None):
        z_ = z3.Real(name)
        self.eng.declare(name, 'real', z_)
        self._bounds(z_, lo, hi)
        return SFrac(z_)

    def int(self, name, lo, hi):
        z_ = z3.Int(name)
        self.eng.declare(name, 'int', z_)
        self._bounds(z_, lo, hi)
        return SInt(z_)

    def pick(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return self.eng.concretise(v.z)

    def text(self, name, n, alphabet=None):
        codes = []
        for i in range(n):
            c = self.int('%s%d' % (name, i), 32, 126)
            if alphabet is not None:
                self.eng.assume_z(z3.Or([c.z == ord(a) for a in alphabet]))
            codes.append(c)
        return strings.SStr(codes) if n else ''

    def bool(self, name):
        z_ = z3.Bool(name)
        self.eng.declare(name, 'bool', z_)
        return SBool(z_)

    def assume(self, cond):
        self.eng.assume(cond)

    def check(self, cond, label, info=None):
        if not isinstance(cond, SBool):
            cond = bool(cond)
        self.eng.prove(cond, label, info)

    def _eqs(self, a, b, label, tol):
        if isinstance(a, float) and isinstance(b, (float, int)) and not core.is_sym(b):
            if a != a or b != b:
                self.check(False, label, {'got': repr(a), 'want': repr(b)})
                return
            self.check(abs(a - b) <= tol * max(1., abs(a), abs(b)), label,
                       {'got': repr(a), 'want': repr(b)})
            return
        if core.is_sym(a) or core.is_sym(b):
            r = a == b
            if r is NotImplemented or not isinstance(r, (bool, SBool)):
                r = False
            if isinstance(r, SBool) and tol > 1e-9:
                r = abs(a - b) <= tol * smax(1., smax(abs(a), abs(b)))
            elif isinstance(r, SBool) and not _exact(a, b):
                # float constants inside (e.g. pi): compare up to tolerance
                r = abs(a - b) <= tol * smax(1., smax(abs(a), abs(b)))
            prefer = ()
            if isinstance(r, SBool) and isinstance(a, (SNum, int, float, Fraction)) \
                    and isinstance(b, (SNum, int, float, Fraction)):
                d = core.zreal(a) - core.zreal(b)
                prefer = (z3.Or(d > z3.Q(1, 8), d < z3.Q(-1, 8)), z3.Or(d > z3.Q(1, 10000), d < z3.Q(-1, 10000)))
            self.eng.prove(r, label, None, prefer)
            return
        self.check(a == b, label, {'got': repr(a), 'want': repr(b)})

    def le(self, a, b, label, tol=1e-9):
        r = a <= b
        if isinstance(r, SBool):
            if not self.eng.valid(r):
                r = a <= b + tol
        elif not r:
            r = a <= b + tol * max(1., abs(b))
        prefer = ()
        if isinstance(r, SBool):
            d = core.zreal(a) - core.zreal(b)
            prefer = (d > z3.Q(1, 8), d > z3.Q(1, 10000))
            self.eng.prove(r, label, None, prefer)
        else:
            self.check(r, label)

    def lt(self, a, b, label, tol=1e-9):
        self.check(a < b, label)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def And(self, *args):
        cons = []
        for a in args:
            if isinstance(a, SBool):
                cons.append(a.z)
            elif not a:
                return False
        return mkbool(z3.simplify(z3.And(cons))) if cons else True

    def Or(self, *args):
        cons = []
        for a in args:
            if isinstance(a, SBool):
                cons.append(a.z)
            elif a:
                return True
        return mkbool(z3.simplify(z3.Or(cons))) if cons else False

    def Not(self, a):
        return ~a if isinstance(a, SBool) else not a

    def floor(self, x):
        return core.floor(x)

    def min(self, *a):
        return loader.sx_min(*a)

    def max(self, *a):
        return loader.sx_max(*a)

    def observe(self, name, value):
        self.eng.observed.append((name, value))

    def patch(self, obj, name, value):
        had = name in vars(obj)
        self.patched.append((obj, name, had, vars(obj).get(name)))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, had, old in reversed(self.patched):
            try:
                if had:
                    setattr(obj, name, old)
                else:
                    delattr(obj, name)
            except (AttributeError, TypeError):
                pass

    def wav_path(self, name='out.wav'):
        return '/scratch/' + name

    def wav_make(self, name, rate, frames):
        path = self.wav_path(name)
        shims.WAV.append((path, rate, symarray([list(r) for r in frames]).astype('int16')))
        return path

    def wav_read(self, path):
        for p, rate, data in reversed(shims.WAV):
            if p == path:
                return rate, [[row[i] for i in range(len(row))] for row in data]
        self.check(False, 'file is written')


def _exact(a, b):
    """Equality is decided exactly first; when it is not identical the tolerance
    absorbs rounding of double constants (pi, 1/44100 ...)."""
    eng = core.CUR
    r = a == b
    return not isinstance(r, SBool) or eng.valid(r)


def eval_model(value, m):
    """Observed value under a model -> JSON value."""
    if isinstance(value, SymArray):
        return [eval_model(v, m) for v in _rows(value)]
    if hasattr(value, 'tolist'):
        return eval_model(value.tolist(), m)
    if isinstance(value, (list, tuple)):
        return [eval_model(v, m) for v in value]
    if isinstance(value, SBool):
        return bool(z3.is_true(m.eval(value.z, model_completion=True)))
    if isinstance(value, SNum):
        return float(core.real_value(m.eval(value.z, model_completion=True)))
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, (int, float, Fraction)):
        return float(value)
    return str(value)


def _rows(arr):
    return plain(arr).tolist()
