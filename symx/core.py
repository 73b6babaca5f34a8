"""Path-forking symbolic executor (the deciding engine).

The code under test is ordinary Python code which is *executed* with proxy values
(SInt / SReal / SBool) in place of some inputs.  Each proxy carries a z3 term.
Whenever the code needs a concrete truth value (``if``, ``while``, ``and``,
comparison inside a C routine such as heapq or bisect ...) the engine asks the
solver which outcomes are possible under the current path condition, records the
decision and follows one of them; the program is then re-executed from the start
for the remaining outcomes until the decision tree is exhausted.  Nothing is
sampled: a run which is reported as finished has covered every feasible path, and
every assertion was discharged for *all* values on that path.
"""
import fractions
import math
import numbers
import sys
import time

import z3

Fraction = fractions.Fraction


class Unsupported(BaseException):

    """The engine can not encode an operation (-> inconclusive, never success)."""


class PathAborted(BaseException):

    """Current path is infeasible / was cut by an assumption."""


def same_term(a, b):
    """Are both terms the same?  (simplify() orders arguments by age, so equal terms may look different)"""
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        return False
    if z3.is_true(z3.simplify(a == b)):
        return True
    solver = z3.Solver()
    solver.set('timeout', 3000)
    solver.add(a != b)
    return solver.check() == z3.unsat


class Nondeterminism(BaseException):

    """Re-execution diverged from the recorded decisions (hidden state)."""


class BudgetExceeded(BaseException):

    """Path / time budget exhausted (-> inconclusive)."""


class Violation(BaseException):

    """An assertion can be violated; carries model values."""

    def __init__(self, label, info, inputs, kind='assert'):
        super().__init__(label)
        self.label = label
        self.info = info
        self.inputs = inputs
        self.kind = kind


CUR = None
"""Engine of the current exploration (or None)."""


def engine():
    if CUR is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CUR


# ---------------------------------------------------------------- numbers

_IDEAL = {}


def ideal(x):
    """Rational meaning of a Python number.  A float that is the nearest double
    of a short fraction stands for that fraction (0.1 -> 1/10)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return Fraction(x.numerator, x.denominator)
    x = float(x)
    ret = _IDEAL.get(x)
    if ret is None:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite constant %r' % x)
        exact = Fraction(x)
        nice = exact.limit_denominator(10**6)
        if float(nice) != x:
            nice = _pi_multiple(x)
            if nice is None:
                nice = exact.limit_denominator(10**8)
                if float(nice) != x:
                    nice = exact
        ret = nice
        if len(_IDEAL) < 100000:
            _IDEAL[x] = ret
    return ret


PI = Fraction(math.pi).limit_denominator(10**8)


def _pi_multiple(x):
    """Products of concrete doubles with pi (TAU * DT) stay short multiples of one rational."""
    if x == 0 or not 1e-9 < abs(x) < 1e9:
        return None
    for p, q in ((PI, PI), (1 / PI, 1 / PI)):
        r = (Fraction(x) / p).limit_denominator(10**6)
        if r != 0 and abs(r * q - Fraction(x)) <= abs(Fraction(x)) * Fraction(5, 10**16):
            return r * q
    return None


def is_sym(x):
    return isinstance(x, (SNum, SBool))


def _is_inf(x):
    return isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')))


class SBool:

    __slots__ = ('z',)
    __array_priority__ = 1000.
    ndim = 0
    shape = ()

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return engine().branch(self.z)

    # logic without forking
    def __and__(self, other):
        o = as_zbool(other)
        return NotImplemented if o is None else mkbool(z3.And(self.z, o))

    __rand__ = __and__

    def __or__(self, other):
        o = as_zbool(other)
        return NotImplemented if o is None else mkbool(z3.Or(self.z, o))

    __ror__ = __or__

    def __xor__(self, other):
        o = as_zbool(other)
        return NotImplemented if o is None else mkbool(z3.Xor(self.z, o))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def num(self):
        return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, other):
        if isinstance(other, (bool, SBool)):
            return mkbool(self.z == as_zbool(other))
        return self.num() == other

    def __ne__(self, other):
        if isinstance(other, (bool, SBool)):
            return mkbool(z3.Xor(self.z, as_zbool(other)))
        return self.num() != other

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<SBool>'

    def astype(self, dtype, *a, **k):
        return cast_scalar(self, dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from symx import arrays
        return arrays.dispatch_ufunc(ufunc, method, inputs, kwargs)


def _bool_num(name):
    def op(self, *args):
        return getattr(self.num(), name)(*args)
    op.__name__ = name
    return op


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod '
           'pow rpow neg pos abs lt le gt ge float lshift rshift').split():
    setattr(SBool, '__%s__' % _n, _bool_num('__%s__' % _n))


def as_zbool(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(x))
    return None


def mkbool(z_):
    """Wrap z3 bool; collapse constants to Python bools."""
    if z3.is_true(z_):
        return True
    if z3.is_false(z_):
        return False
    return SBool(z_)


def zreal(x):
    """Real term for a number (or None)."""
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, SInt):
        return z3.ToReal(x.z)
    if isinstance(x, SBool):
        return z3.ToReal(x.num().z)
    if isinstance(x, numbers.Number) or hasattr(x, '__float__'):
        if isinstance(x, complex):
            return None
        f = ideal(x)
        return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
    return None


def _np_unwrap(x):
    """numpy scalars and 0-d arrays -> Python scalars."""
    if type(x).__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0:
        return x.item()
    return x


def cint(x):
    """Is x a concrete integer?"""
    return isinstance(x, int) or (hasattr(x, '__index__') and not is_sym(x)
                                  and not hasattr(x, 'shape'))


class SNum:

    __slots__ = ()
    __array_priority__ = 1000.
    ndim = 0
    shape = ()
    size = 1

    def __bool__(self):
        return bool(self != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<%s>' % type(self).__name__

    def __format__(self, spec):
        return repr(self)

    def __pos__(self):
        return self

    # numpy scalar protocol used by array code
    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, dtype, *a, **k):
        return cast_scalar(self, dtype)

    def clip(self, lower=None, upper=None, **kw):
        ret = self
        if lower is None:
            lower = kw.get('min')
        if upper is None:
            upper = kw.get('max')
        if lower is not None:
            ret = smax(ret, lower)
        if upper is not None:
            ret = smin(ret, upper)
        return ret

    def squeeze(self):
        return self

    def ravel(self):
        from symx import arrays
        return arrays.symarray([self])

    @property
    def T(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from symx import arrays
        return arrays.dispatch_ufunc(ufunc, method, inputs, kwargs)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def __pow__(self, n, mod=None):
        return sym_pow(self, n)

    def __rpow__(self, base):
        return sym_pow(base, self)

    def __divmod__(self, other):
        return self // other, self % other

    def __rdivmod__(self, other):
        return other // self, other % self


class SInt(SNum):

    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_

    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def __index__(self):
        return engine().concretise(self.z)

    def __int__(self):
        return engine().concretise(self.z)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __float__(self):
        return float(engine().concretise(self.z))

    def __hash__(self):
        return hash(engine().concretise(self.z))

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self).bit_length()

    def __neg__(self):
        return SInt(-self.z)

    def __abs__(self):
        return SInt(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return -self - 1

    def __truediv__(self, other):
        return SReal(z3.ToReal(self.z)) / other

    def __rtruediv__(self, other):
        return other / SReal(z3.ToReal(self.z))

    def __lshift__(self, n):
        return self * (2 ** int(n))

    def __rshift__(self, n):
        return self // (2 ** int(n))

    def __rlshift__(self, base):
        return base << int(self)

    def __rrshift__(self, base):
        return base >> int(self)

    def __and__(self, other):
        return bitop(self, other, 'and')

    __rand__ = __and__

    def __or__(self, other):
        return bitop(self, other, 'or')

    __ror__ = __or__

    def __xor__(self, other):
        return bitop(self, other, 'xor')

    __rxor__ = __xor__


class SReal(SNum):

    def __init__(self, z_):
        self.z = z_

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return engine().concretise(trunc(self).z)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return SInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SInt(-z3.ToInt(-self.z))

    def __float__(self):
        s = z3.simplify(self.z)
        if z3.is_rational_value(s):
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        raise Unsupported('float() of a symbolic real inside C code')

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))

    def __round__(self, n=None):
        # banker's rounding
        if n not in (None, 0):
            scale = 10 ** int(n)
            return round(self * scale) * 1. / scale
        fl = z3.ToInt(self.z)
        fr = self.z - z3.ToReal(fl)
        up = z3.Or(fr > z3.Q(1, 2), z3.And(fr == z3.Q(1, 2), fl % 2 == 1))
        ret = SInt(fl + z3.If(up, z3.IntVal(1), z3.IntVal(0)))
        return ret if n is None else ret * 1.

    def __neg__(self):
        return type(self)(-self.z)

    def __abs__(self):
        return type(self)(z3.If(self.z >= 0, self.z, -self.z))

    def __truediv__(self, other):
        return div(self, other)

    def __rtruediv__(self, other):
        return div(other, self)


numbers.Number.register(SNum)


numbers.Integral.register(SInt)


class SFrac(SReal, Fraction):

    """Symbolic exact rational: looks like a fractions.Fraction, carries a real
    term.  Arithmetic with rationals / ints stays a Fraction, with floats becomes
    a real (same typing rules as Fraction)."""

    def __new__(cls, z_):
        self = object.__new__(cls)
        self.z = z_
        return self

    def __init__(self, *args, **kwargs):
        pass

    __hash__ = SReal.__hash__
    __repr__ = SNum.__repr__
    __str__ = SNum.__repr__
    __bool__ = SNum.__bool__
    __copy__ = SNum.__copy__
    __deepcopy__ = SNum.__deepcopy__
    __index__ = SReal.__index__

    @property
    def numerator(self):
        raise Unsupported('numerator of a symbolic fraction')

    denominator = numerator
    _numerator = numerator
    _denominator = numerator


def trunc(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, SReal):
        return SInt(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
    return int(x)


def floor(x):
    if isinstance(x, SReal):
        return x.__floor__()
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, SInt):
        return x
    import math
    return math.floor(x)


def ceil(x):
    if isinstance(x, SReal):
        return x.__ceil__()
    if isinstance(x, (SBool, SInt)):
        return floor(x)
    import math
    return math.ceil(x)


def _bothint(a, b):
    return isinstance(a, (SInt, SBool)) and (isinstance(b, (SInt, SBool)) or cint(b))


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return x.num().z
    return z3.IntVal(int(x))


def _isarray(x):
    return hasattr(x, '__array_ufunc__') and getattr(x, 'ndim', 0) > 0 or \
        type(x).__name__ in ('ndarray', 'SymArray')


def _result(a, b, z_):
    if isinstance(a, SFrac) or isinstance(b, SFrac):
        if all(isinstance(v, (SFrac, Fraction, SInt, SBool)) or cint(v) for v in (a, b)):
            return SFrac(z_)
    return SReal(z_)


def _arith(name, fz):
    def op(self, other):
        if _isarray(other):
            return NotImplemented
        other = _np_unwrap(other)
        if _is_inf(other):
            return inf_arith(name, self, other)
        if _bothint(self, other):
            return SInt(fz(zint(self), zint(other)))
        b = zreal(other) if isinstance(other, (numbers.Number, SBool)) else None
        if b is None:
            return NotImplemented
        return _result(self, other, fz(zreal(self), b))

    def rop(self, other):
        if _isarray(other):
            return NotImplemented
        other = _np_unwrap(other)
        if _is_inf(other):
            return inf_arith('r' + name, self, other)
        if _bothint(self, other):
            return SInt(fz(zint(other), zint(self)))
        b = zreal(other) if isinstance(other, (numbers.Number, SBool)) else None
        if b is None:
            return NotImplemented
        return _result(self, other, fz(b, zreal(self)))

    return op, rop


def inf_arith(name, a, inf):
    """finite symbolic (op) +-inf."""
    if inf != inf:
        return inf
    if name in ('add', 'radd'):
        return inf
    if name == 'sub':
        return -inf
    if name == 'rsub':
        return inf
    if name in ('mul', 'rmul'):
        if a > 0:
            return inf
        if a < 0:
            return -inf
        return float('nan')
    raise Unsupported('%s with inf' % name)


def _cmp(name, fz, infpos, infneg):
    def op(self, other):
        if _isarray(other):
            return NotImplemented
        other = _np_unwrap(other)
        if _is_inf(other):
            if other != other:
                return name == 'ne'
            return infpos if other > 0 else infneg
        if _bothint(self, other):
            return mkbool(z3.simplify(fz(zint(self), zint(other))))
        if not isinstance(other, (numbers.Number, SBool)):
            if name in ('eq', 'ne') and not hasattr(other, '__array_ufunc__'):
                return name == 'ne'
            return NotImplemented
        b = zreal(other)
        if b is None:
            return NotImplemented
        return mkbool(z3.simplify(fz(zreal(self), b)))
    return op


for _name, _fz in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b),
                   ('mul', lambda a, b: a * b)):
    _o, _r = _arith(_name, _fz)
    for _c in (SInt, SReal, SFrac):
        setattr(_c, '__%s__' % _name, _o)
        setattr(_c, '__r%s__' % _name, _r)

for _name, _fz, _p, _m in (
        ('lt', lambda a, b: a < b, True, False), ('le', lambda a, b: a <= b, True, False),
        ('gt', lambda a, b: a > b, False, True), ('ge', lambda a, b: a >= b, False, True),
        ('eq', lambda a, b: a == b, False, False), ('ne', lambda a, b: a != b, True, True)):
    for _c in (SInt, SReal, SFrac):
        setattr(_c, '__%s__' % _name, _cmp(_name, _fz, _p, _m))



class SPair(SFrac):

    """Symbolic fraction which is not normalised: keeps its parts.  Equality of
    such a fraction compares the parts (as fractions.Fraction does)."""

    def __new__(cls, num, den):
        self = object.__new__(cls)
        self.z = zreal(num) / zreal(den)
        self.num, self.den = num, den
        return self

    numerator = property(lambda self: self.num)
    denominator = property(lambda self: self.den)
    _numerator, _denominator = numerator, denominator

    def __eq__(self, other):
        if isinstance(other, SFrac) and not isinstance(other, SPair):
            raise Unsupported('equality of an unnormalised fraction')
        if isinstance(other, Fraction) or cint(other) or isinstance(other, SInt):
            return (self.num == other.numerator) & (self.den == other.denominator)
        return SReal(self.z) == other

    def __ne__(self, other):
        return ~(self == other) if is_sym(self == other) else not self == other


SInt.__hash__ = lambda self: hash(engine().concretise(self.z))
SReal.__hash__ = SFrac.__hash__ = SPair.__hash__ = lambda self: _no_hash()


def _no_hash():
    raise Unsupported('hash of a symbolic real')


def div(a, b):
    """True division with Python semantics."""
    if _isarray(a) or _isarray(b):
        return NotImplemented
    a, b = _np_unwrap(a), _np_unwrap(b)
    if _is_inf(b):
        return 0. if b == b else b
    if _is_inf(a):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return a if b > 0 else -a
    if not isinstance(a, (numbers.Number, SBool)) or not isinstance(b, (numbers.Number, SBool)):
        return NotImplemented
    if is_sym(b):
        if b == 0:
            raise ZeroDivisionError('float division by zero')
    elif b == 0:
        raise ZeroDivisionError('float division by zero')
    else:
        f = 1 / ideal(b)
        return _result(a, b, zreal(a) * z3.Q(f.numerator, f.denominator))
    return _result(a, b, zreal(a) / zreal(b))


def floordiv(a, b):
    if _isarray(a) or _isarray(b):
        return NotImplemented
    a, b = _np_unwrap(a), _np_unwrap(b)
    if not isinstance(a, (numbers.Number, SBool)) or not isinstance(b, (numbers.Number, SBool)):
        return NotImplemented
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    ints = (isinstance(a, (SInt, SBool)) or cint(a)) and (isinstance(b, (SInt, SBool)) or cint(b))
    if ints:
        za, zb = zint(a), zint(b)
        if cint(b):
            return SInt(za / zb) if b > 0 else SInt((-za) / (-zb))
        if b > 0:                       # forks on the sign of a symbolic divisor
            return SInt(za / zb)
        return SInt((-za) / (-zb))
    q = z3.ToInt(zreal(a) / zreal(b)) if is_sym(b) else z3.ToInt(div(a, b).z)
    if isinstance(_result(a, b, None), SFrac):
        return SInt(q)
    return SReal(z3.ToReal(q))


def mod(a, b):
    if _isarray(a) or _isarray(b):
        return NotImplemented
    a, b = _np_unwrap(a), _np_unwrap(b)
    if not isinstance(a, (numbers.Number, SBool)) or not isinstance(b, (numbers.Number, SBool)):
        return NotImplemented
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    q = floordiv(a, b)
    return a - b * q


for _c in (SInt, SReal, SFrac):
    _c.__floordiv__ = lambda self, o: floordiv(self, o)
    _c.__rfloordiv__ = lambda self, o: floordiv(o, self)
    _c.__mod__ = lambda self, o: mod(self, o)
    _c.__rmod__ = lambda self, o: mod(o, self)
    _c.__truediv__ = lambda self, o: div(self, o)
    _c.__rtruediv__ = lambda self, o: div(o, self)
    _c.__divmod__ = SNum.__divmod__
    _c.__rdivmod__ = SNum.__rdivmod__
    _c.__pow__ = SNum.__pow__
    _c.__rpow__ = SNum.__rpow__
for _n in ('__neg__', '__abs__', '__trunc__', '__floor__', '__ceil__', '__round__', '__float__',
           '__int__'):
    if _n in SReal.__dict__:
        setattr(SFrac, _n, SReal.__dict__[_n])
SFrac.__pos__ = SNum.__pos__


def sym_pow(base, n):
    n = _np_unwrap(n)
    base = _np_unwrap(base)
    if _isarray(n) or _isarray(base):
        return NotImplemented
    if isinstance(n, SReal) and not is_sym(base):
        s = z3.simplify(z3.ToInt(n.z))
        if engine().valid(n == floor(n)):
            n = SInt(z3.ToInt(n.z))
    if isinstance(n, (SInt, SBool)):
        k = int(n)
        return sym_pow(base, k) if is_sym(base) else (
            base ** k if not (isinstance(base, int) and k < 0) else Fraction(base) ** k * 1.)
    if isinstance(n, SReal):
        from symx import transc
        return transc.power(base, n)
    if n == int(n):
        k = int(n)
        if k == 0:
            return 1 if isinstance(base, SInt) and isinstance(n, int) else 1.
        ret = base
        for _ in range(abs(k) - 1):
            ret = ret * base
        if k < 0:
            ret = 1. / ret
        return ret
    if n == .5:
        from symx import transc
        return transc.sqrt(base)
    from symx import transc
    return transc.power(base, n)


def bitop(a, b, op):
    """Bitwise operation on (possibly symbolic) integers."""
    if not (isinstance(b, (SInt, SBool)) or cint(b)):
        return NotImplemented
    eng = engine()
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if not is_sym(y) and y >= 0:
                y = int(y)
                if y == 0:
                    return 0
                # x & mask where mask is a run of bits
                ret = 0
                bit = 0
                while y >> bit:
                    if (y >> bit) & 1:
                        ret = ret + (2 ** bit) * ((x // (2 ** bit)) % 2)
                    bit += 1
                return ret
    width = 1
    while not eng.valid(z3.And(zint(a) < 2 ** (width - 1), zint(a) >= -2 ** (width - 1),
                               zint(b) < 2 ** (width - 1), zint(b) >= -2 ** (width - 1))):
        width += 1
        if width > 64:
            raise Unsupported('bit operation on unbounded integers')
    ret = 0
    for i in range(width):
        w = 2 ** i if i < width - 1 else -2 ** i
        x = (zint(a) / (2 ** i)) % 2 == 1
        y = (zint(b) / (2 ** i)) % 2 == 1
        f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
        ret = ret + SInt(z3.If(f(x, y), z3.IntVal(w), z3.IntVal(0)))
    return ret


def ite(cond, a, b):
    """If-then-else without forking."""
    if isinstance(cond, (bool,)) or not isinstance(cond, SBool):
        return a if cond else b
    if a is b:
        return a
    if _is_inf(a) or _is_inf(b):
        return a if cond else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(cond.z, as_zbool(a), as_zbool(b)))
    num = (numbers.Number, SBool)
    if isinstance(a, num) and isinstance(b, num):
        ints = all(isinstance(v, (SInt, SBool)) or cint(v) for v in (a, b))
        if ints:
            return SInt(z3.If(cond.z, zint(a), zint(b)))
        return _result(a, b, z3.If(cond.z, zreal(a), zreal(b)))
    return a if cond else b


def smin(a, b):
    if _is_inf(a) or _is_inf(b) or not (is_sym(a) or is_sym(b)):
        return b if b < a else a
    if not all(isinstance(v, (numbers.Number, SBool)) for v in (a, b)):
        return b if b < a else a
    return ite(b < a, b, a)


def smax(a, b):
    if _is_inf(a) or _is_inf(b) or not (is_sym(a) or is_sym(b)):
        return b if b > a else a
    if not all(isinstance(v, (numbers.Number, SBool)) for v in (a, b)):
        return b if b > a else a
    return ite(b > a, b, a)


def cast_scalar(x, dtype):
    import numpy as np
    dt = np.dtype(dtype) if dtype is not object else None
    x = _np_unwrap(x)
    if dt is None or dt == object:
        return x
    if dt.kind in 'f':
        if isinstance(x, (SInt, SBool)):
            return SReal(zreal(x))
        return x if is_sym(x) else float(x)
    if dt.kind in 'iu':
        if not is_sym(x):
            return int(np.array(x).astype(dt))
        v = trunc(x)
        bits = dt.itemsize * 8
        if bits >= 64:
            return v
        lo = -2 ** (bits - 1) if dt.kind == 'i' else 0
        span = 2 ** bits
        if engine().valid(z3.And(v.z >= lo, v.z < lo + span)):
            return v
        return (v - lo) % span + lo
    if dt.kind == 'b':
        return x != 0 if not isinstance(x, SBool) else x
    raise Unsupported('cast to %s' % dt)


# ---------------------------------------------------------------- engine


class Engine:

    """Explores all paths of one harness."""

    def __init__(self, maxPaths=200000, deadline=None, queryTimeout=20000, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', queryTimeout)
        self.queryTimeout = queryTimeout
        self.stack = []      # [(kind, z3 expr, payload)] pushed on the solver
        self.todo = []       # per decision: remaining alternatives
        self.pos = 0
        self.model = None
        self.maxPaths = maxPaths
        self.deadline = deadline
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.simplified = 0
        self.checked = 0
        self.solverTime = 0.
        self.unknowns = 0
        self.maxDepth = 0
        self.labels = {}
        self.inputs = {}
        self.fresh = 0
        self.trace = []
        self.observed = []
        self.labelsOfPath = []
        self.ufApps = []

    # -- solver access

    def _check(self, *assumptions):
        self.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solverTime += time.perf_counter() - t0
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded('time budget exhausted')
        return r

    def fresh_query(self, *extra):
        """Non-incremental query with alternative strategies."""
        for tactic in (None, 'qfnra-nlsat', 'smt'):
            self.queries += 1
            t0 = time.perf_counter()
            s = z3.Solver() if tactic is None else z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', tactic).solver() \
                if tactic == 'qfnra-nlsat' else z3.SimpleSolver()
            s.set('timeout', self.queryTimeout)
            s.add(*self.solver.assertions())
            s.add(*extra)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.solverTime += time.perf_counter() - t0
            if r == z3.sat:
                try:
                    return r, s.model()
                except z3.Z3Exception:
                    continue
            if r == z3.unsat:
                return r, None
        r = cvc5_query(self.solver.assertions(), extra, self.queryTimeout)
        self.queries += 1
        return r, None

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAborted('infeasible path')
            if r == z3.unknown:
                r, m = self.fresh_query()
                if r == z3.unsat:
                    raise PathAborted('infeasible path')
                self.model = m
                return m
            self.model = self.solver.model()
        return self.model

    def holds_in_model(self, z_):
        if self.model is None:
            return None
        v = self.model.eval(z_, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, kind, expr, payload):
        self.solver.push()
        self.solver.add(expr)
        self.stack.append((kind, expr, payload))
        self.pos += 1
        self.maxDepth = max(self.maxDepth, self.pos)

    def assume_z(self, expr):
        """Assumption (or definition of a fresh variable)."""
        if z3.is_true(expr):
            return
        if self.pos < len(self.stack):
            kind, old, _ = self.stack[self.pos]
            if kind != 'assume' or not same_term(old, expr):
                raise Nondeterminism('assumption')
            self.pos += 1
            return
        keep = self.holds_in_model(expr)
        self._push('assume', expr, None)
        if keep is not True:
            self.model = None

    def assume(self, cond):
        if isinstance(cond, SBool):
            self.assume_z(cond.z)
            if self.pos == len(self.stack) and self.model is None:
                self.get_model()       # aborts infeasible paths
        elif not cond:
            raise PathAborted('assumption')

    def feasible(self, z_):
        """True / False; unknown counts as feasible (over-approximation)."""
        if self.holds_in_model(z_):
            return True
        r = self._check(z_)
        if r == z3.unknown:
            r, m = self.fresh_query(z_)
            if r == z3.unknown:
                self.unknowns += 1
                return True
        return r == z3.sat

    def valid(self, cond):
        """Does cond hold on every value of this path?  (no fork)"""
        if isinstance(cond, bool):
            return cond
        z_ = cond.z if isinstance(cond, SBool) else cond
        z_ = z3.simplify(z_)
        if z3.is_true(z_):
            return True
        if z3.is_false(z_):
            return False
        if self.pos < len(self.stack):
            # deterministic on replay: memoised by position
            kind, old, payload = self.stack[self.pos]
            if kind != 'valid' or not same_term(old, z_):
                raise Nondeterminism('valid')
            self.pos += 1
            return payload
        if self.holds_in_model(z_) is False:
            ret = False
        else:
            r = self._check(z3.Not(z_))
            if r == z3.unknown:
                r, _ = self.fresh_query(z3.Not(z_))
            ret = r == z3.unsat
        self.stack.append(('valid', z_, ret))
        self.solver.push()
        self.pos += 1
        return ret

    def branch(self, z_):
        z_ = z3.simplify(z_)
        if z3.is_true(z_):
            return True
        if z3.is_false(z_):
            return False
        self.branches += 1
        if self.pos < len(self.stack):
            kind, old, payload = self.stack[self.pos]
            if kind != 'branch' or not same_term(old, z_ if payload[0] else z3.Not(z_)):
                raise Nondeterminism('branch')
            self.pos += 1
            return payload[0]
        if self.model is None:
            self.get_model()
        first = self.holds_in_model(z_)
        neg = z3.Not(z_)
        if first is None:
            first = self.feasible(z_)
            other = self.feasible(neg) if first else True
        else:
            other = self.feasible(neg if first else z_)
        expr = z_ if first else neg
        self._push('branch', expr, (first, other))
        if self.holds_in_model(expr) is not True:
            self.model = None
        return first

    def concretise(self, z_):
        """Concrete value of an integer term; forks over all its values."""
        z_ = z3.simplify(z_)
        if z3.is_int_value(z_):
            return z_.as_long()
        if self.pos < len(self.stack):
            kind, expr, payload = self.stack[self.pos]
            if kind != 'value' or not same_term(payload[0], z_):
                raise Nondeterminism('value')
            self.pos += 1
            return payload[1]
        m = self.get_model()
        v = m.eval(z_, model_completion=True) if m is not None else None
        if v is None or not z3.is_int_value(v):
            raise Unsupported('can not concretise')
        self.branches += 1
        value = v.as_long()
        self._push('value', z_ == value, (z_, value, [value]))
        return value

    # -- backtracking

    def _next_path(self):
        """Prepare the solver stack for the next path.  False if exhausted."""
        while self.stack:
            kind, expr, payload = self.stack.pop()
            self.solver.pop()
            if kind == 'branch' and payload[1]:
                neg = z3.Not(expr) if payload[0] else expr.arg(0)
                self.model = None
                self.solver.push()
                self.solver.add(neg)
                self.stack.append(('branch', neg, (not payload[0], False)))
                return True
            if kind == 'value':
                z_, value, seen = payload
                if len(seen) > 4096:
                    raise Unsupported('concretisation of an unbounded integer')
                excl = z3.And([z_ != v for v in seen])
                r = self._check(excl)
                if r == z3.unknown:
                    r, m = self.fresh_query(excl)
                else:
                    m = self.solver.model() if r == z3.sat else None
                if r == z3.unknown:
                    raise Unsupported('concretisation undecided')
                if r == z3.sat:
                    if m is None:
                        raise Unsupported('concretisation: no model')
                    value = m.eval(z_, model_completion=True).as_long()
                    self.model = None
                    self.solver.push()
                    self.solver.add(z_ == value)
                    self.stack.append(('value', z_ == value, (z_, value, seen + [value])))
                    return True
        return False

    def explore(self, run, onPath=None):
        """Run ``run()`` over all paths."""
        global CUR
        if CUR is not None:
            raise RuntimeError('nested exploration')
        CUR = self
        try:
            while True:
                if self.paths >= self.maxPaths:
                    raise BudgetExceeded('path budget exhausted (%d)' % self.paths)
                if self.deadline and time.time() > self.deadline:
                    raise BudgetExceeded('time budget exhausted')
                self.pos = 0
                self.fresh = 0
                self.inputs = {}
                self.observed = []
                self.labelsOfPath = []
                self.ufApps = []
                self.products = []
                try:
                    run()
                    if self.pos < len(self.stack):
                        raise Nondeterminism('short path')
                    self.paths += 1
                    if onPath:
                        onPath(self)
                except PathAborted:
                    self.aborted += 1
                if not self._next_path():
                    return
        finally:
            CUR = None

    # -- inputs

    def declare(self, name, kind, z_, default=None):
        if name in self.inputs:
            raise RuntimeError('duplicate input %r' % name)
        self.inputs[name] = (kind, z_)

    def fresh_name(self, prefix):
        self.fresh += 1
        return '%s!%d' % (prefix, self.fresh)

    def fresh_real(self, prefix='r'):
        return SReal(z3.Real(self.fresh_name(prefix)))

    def fresh_int(self, prefix='i'):
        return SInt(z3.Int(self.fresh_name(prefix)))

    # -- assertions

    def prove(self, cond, label, info=None, prefer=()):
        """cond has to hold for all values on this path.  prefer: stronger forms of
        the negation used to choose a counterexample with a clear margin."""
        self.labels[label] = self.labels.get(label, 0) + 1
        self.labelsOfPath.append(label)
        if not isinstance(cond, SBool):
            self.checked += 1
            if cond:
                self.simplified += 1
                return
            raise self.violation(z3.BoolVal(True), label, info)
        if self.pos < len(self.stack):
            # an ancestor path with the same prefix already discharged it
            return
        self.checked += 1
        z_ = z3.simplify(cond.z)
        if z3.is_true(z_):
            self.simplified += 1
            return
        neg = z3.Not(z_)
        if self.holds_in_model(z_) is not False:
            r = self._check(neg)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                zs = z3.simplify(z_, som=True)
                if z3.is_true(zs):
                    return
                r, m = self.fresh_query(neg)
                if r == z3.unsat:
                    return
                if r == z3.unknown:
                    raise Unsupported('undecided assertion %r' % label)
        raise self.violation(neg, label, info, prefer=prefer)

    def violation(self, neg, label, info, kind='assert', prefer=(), count=4):
        models = []
        for p in list(prefer) + [z3.BoolVal(True)]:
            m = self.nice_model(neg, p)
            if m is not None:
                models.append(self.input_values(m))
                break
        else:
            m = self.nice_model(neg)
            if m is None:
                raise Unsupported('violation without model: %r' % label)
            models.append(self.input_values(m))
        models += self.more_models(m, count - 1, neg)
        return Violation(label, info, models, kind)

    def more_models(self, m, count, *extra):
        """Further assignments of the current path, away from model m."""
        ret = []
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.solver.assertions())
        s.add(*extra)
        for _ in range(count):
            diff = []
            for name, (kind, z_) in self.inputs.items():
                v = m.eval(z_, model_completion=True)
                if kind == 'real':
                    if z3.is_algebraic_value(v):
                        continue
                    diff.append(z3.Or(z_ >= v + z3.Q(1, 4), z_ <= v - z3.Q(1, 4)))
                else:
                    diff.append(z_ != v)
            if not diff:
                break
            s.push()
            s.add(z3.Or(diff) if len(diff) < 3 else z3.AtLeast(*diff, (len(diff) + 1) // 2))
            self.queries += 1
            if s.check() != z3.sat:
                s.pop()
                s.add(z3.Or(diff))
                self.queries += 1
                if s.check() != z3.sat:
                    break
                m = s.model()
            else:
                m = s.model()
                s.pop()
                s.add(z3.Or(diff))
            ret.append(self.input_values(m))
        return ret

    def nice_model(self, *extra):
        """Model of the path (and extra), preferably with short dyadic values."""
        base = [e for e in extra]
        reals = [z_ for kind, z_ in self.inputs.values() if kind == 'real']
        for denom in (4, 64, 1024, None):
            cons = list(base)
            if denom is not None:
                cons += [z3.IsInt(z_ * denom) for z_ in reals]
            s = z3.Solver()
            s.set('timeout', 1500 if denom is not None else self.queryTimeout)
            s.add(*self.solver.assertions())
            s.add(*cons)
            self.queries += 1
            t0 = time.perf_counter()
            r = s.check()
            self.solverTime += time.perf_counter() - t0
            if r == z3.sat:
                return s.model()
            if r == z3.unsat and (denom is None or not reals):
                return None
        r, m = self.fresh_query(*base)
        return m if r == z3.sat else None

    def input_values(self, m):
        ret = {}
        for name, (kind, z_) in self.inputs.items():
            v = m.eval(z_, model_completion=True)
            if kind == 'bool':
                ret[name] = bool(z3.is_true(v))
            elif kind == 'int':
                ret[name] = v.as_long()
            else:
                ret[name] = '%s' % real_value(v)
        return ret


def real_value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(25)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def cvc5_query(assertions, extra, timeout):
    """Second opinion for queries z3 can not decide."""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        s.add(*extra)
        text = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'q')
        sm = parser.getSymbolManager()
        result = z3.unknown
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(slv, sm)).strip()
            if out == 'unsat':
                result = z3.unsat
        return result
    except Exception:
        return z3.unknown


from symx import fracshim as _fracshim
_fracshim.symbolic(Fraction, sys.modules[__name__])
