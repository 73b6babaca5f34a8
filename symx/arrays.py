"""Symbolic numpy arrays: object arrays with a logical dtype + numpy proxy."""
import functools
import operator
import types
from fractions import Fraction

import numpy as np
import z3

from symx import transc
from symx.core import (SBool, SInt, SNum, SReal, Unsupported, cast_scalar, ceil, cint, floor,
                       is_sym, ite, mkbool, smax, smin, trunc, engine, ideal)
import symx.core as core


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype_real == object if isinstance(x, SymArray) else x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def select(arr, idx):
    """Element at a symbolic index of a vector of concrete numbers."""
    vals = list(np.ndarray.view(arr, np.ndarray))
    if not all(type(v) in (int, float) or isinstance(v, np.floating) for v in vals):
        return None
    if any(v != v or v in (float('inf'), float('-inf')) for v in vals):
        return None
    n = len(vals)
    if idx < 0:
        idx = idx + n
        if idx < 0:
            raise IndexError('index is out of bounds for axis 0 with size %d' % n)
    elif idx >= n:
        raise IndexError('index is out of bounds for axis 0 with size %d' % n)
    ints = all(type(v) is int for v in vals)
    conv = core.zint if ints else core.zreal
    ret = conv(vals[-1])
    for i in range(n - 2, -1, -1):
        ret = z3.If(idx.z == i, conv(vals[i]), ret)
    return SInt(ret) if ints else SReal(ret)


class SymArray(np.ndarray):

    """ndarray of Python objects.  ``dtype`` reports the logical dtype."""

    def __array_finalize__(self, obj):
        self._sdtype = getattr(obj, '_sdtype', None)

    @property
    def dtype_real(self):
        return np.ndarray.dtype.__get__(self)

    @property
    def dtype(self):
        if self._sdtype is not None:
            return self._sdtype
        return infer_dtype(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        if name in OVERRIDES:
            return OVERRIDES[name](*args, **kwargs)
        args = unwrap(args)
        kwargs = unwrap(kwargs)
        return wrap(func(*args, **kwargs))

    def __getitem__(self, idx):
        if type(idx) is SInt and self.ndim == 1 and 1 < self.size <= 64:
            ret = select(self, idx)
            if ret is not None:
                return ret
        return scalar(np.ndarray.__getitem__(self, conc_index(idx)), self._sdtype)

    def __setitem__(self, idx, value):
        value = unwrap(value)
        if self._sdtype is not None:
            value = cast(value, self._sdtype)
        np.ndarray.__setitem__(self, conc_index(idx), value)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, dtype, *args, **kwargs):
        dt = np.dtype(dtype) if dtype is not object else None
        ret = plain(self).copy()
        flat = ret.ravel()
        out = np.empty(flat.shape, object)
        for i, v in enumerate(flat):
            out[i] = cast_scalar(v, dt) if dt is not None else v
        out = out.reshape(self.shape)
        return finish(out, dt)

    def tobytes(self, order='C'):
        if order not in ('C', None):
            raise Unsupported('tobytes order %r' % order)
        return RawBytes(list(plain(self).ravel()), self.dtype)

    @property
    def data(self):
        if not self.flags.c_contiguous:
            raise BufferError('array is not contiguous')
        return self.tobytes()

    def copy(self, order='C'):
        ret = plain(self).copy().view(SymArray)
        ret._sdtype = self._sdtype
        return ret

    def view(self, *args, **kwargs):
        if not args and not kwargs:
            return np.ndarray.view(self, SymArray)
        if args and isinstance(args[0], type) and issubclass(args[0], np.ndarray):
            return np.ndarray.view(self, *args)
        raise Unsupported('view with dtype')

    def tolist(self):
        return plain(self).tolist()

    def item(self, *args):
        return plain(self).item(*args)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduction(core_and, True, truth)(self, axis, out=out, keepdims=keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduction(core_or, False, truth)(self, axis, out=out, keepdims=keepdims, **k)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduction(operator.add, 0)(self, axis, dtype, out, keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduction(operator.mul, 1)(self, axis, dtype, out, keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _mean(self, axis, dtype, out, keepdims, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if dtype is not None or out is not None or k:
            raise Unsupported('options of var')
        dev = self - self.mean(axis=axis, keepdims=True)
        n = _count(self, axis)
        return (dev * dev).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, *args, **kwargs):
        return dispatch_ufunc(np.sqrt, '__call__', (self.var(*args, **kwargs),), {})

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduction(smax, None)(self, axis, out=out, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduction(smin, None)(self, axis, out=out, keepdims=keepdims, **k)

    def ptp(self, *a, **k):
        return self.max(*a, **k) - self.min(*a, **k)

    def argmax(self, axis=None, out=None, **k):
        return np_argext(operator.gt)(self, axis, out, **k)

    def argmin(self, axis=None, out=None, **k):
        return np_argext(operator.lt)(self, axis, out, **k)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0.

    def conj(self):
        return self.copy()

    conjugate = conj

    def take(self, indices, axis=None, out=None, mode='raise'):
        return np_take(self, indices, axis, out, mode)

    def nonzero(self):
        return plain_bool(self).nonzero()

    def clip(self, lower=None, upper=None, out=None, **k):
        return np_clip(self, lower, upper, out, **k)

    def round(self, decimals=0, out=None):
        return elementwise(lambda v: round(v, decimals), self)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis, dtype, out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return np_cumprod(self, axis, dtype, out)

    def dot(self, other):
        return wrap(np.dot(plain(self), unwrap(other)))

    def sort(self, axis=-1, *a, **k):
        plain(self)[...] = objarr(np_sort(self, axis))

    def searchsorted(self, v, side='left', sorter=None):
        return np_searchsorted(self, v, side)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(truth(plain(self).ravel()[0]))

    def __contains__(self, item):
        return bool((self == item).any())

    def __repr__(self):
        return 'SymArray(shape=%s)' % (self.shape,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling symbolic arrays')


def core_and(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a & b) if isinstance(a, SBool) else (b & a)
    return a and b


def core_or(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a | b) if isinstance(a, SBool) else (b | a)
    return a or b


def truth(v):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SNum):
        return v != 0
    return bool(v)


def infer_dtype(arr):
    kind = 'b'
    flat = plain(arr).ravel()
    if not flat.size:
        return np.dtype(float)
    for v in flat:
        if isinstance(v, (bool, SBool, np.bool_)):
            continue
        if isinstance(v, SInt) or cint(v):
            if kind == 'b':
                kind = 'i'
            continue
        if isinstance(v, (float, SReal, np.floating, core.Fraction)):
            kind = 'f'
            continue
        return np.dtype(object)
    return np.dtype({'b': bool, 'i': int, 'f': float}[kind])


def plain(x):
    return np.ndarray.view(x, np.ndarray) if isinstance(x, SymArray) else x


def unwrap(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, tuple):
        return tuple(unwrap(v) for v in x) if type(x) is tuple else x
    if isinstance(x, list):
        return [unwrap(v) for v in x]
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


def wrap(x):
    """object arrays -> SymArray; object scalars untouched."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if x.ndim == 0:
                return x.item()
            return x.view(SymArray)
        if x.dtype.kind == 'f':
            ret = x.astype(object).view(SymArray)
            return ret
        return x
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x) if type(x) is tuple else x
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def finish(out, dt=None):
    """Plain object array -> SymArray (or concrete int/bool array)."""
    if out.ndim == 0:
        return out.item()
    if not any(is_sym(v) for v in out.ravel()):
        if dt is None:
            dt = infer_dtype(out)
        if dt is not None and dt.kind in 'iub':
            return out.astype(dt)
    ret = out.view(SymArray)
    if dt is not None and dt.kind in 'iuf' and dt not in (np.dtype(float), np.dtype(int)):
        ret._sdtype = dt
    return ret


def scalar(x, sdtype=None):
    if isinstance(x, np.ndarray):
        if not isinstance(x, SymArray):
            x = wrap(x)
        if isinstance(x, SymArray) and sdtype is not None:
            x._sdtype = sdtype
    return x


def cast(value, dt):
    """Value stored in an array of a narrow logical dtype."""
    if isinstance(value, np.ndarray):
        if value.dtype == object:
            return np.vectorize(lambda v: cast_scalar(v, dt), otypes=[object])(value) \
                if value.size else value
        return value
    if isinstance(value, (list, tuple)):
        return [cast(v, dt) for v in value]
    return cast_scalar(value, dt)


def conc_index(idx):
    """Concretise symbolic parts of an index."""
    if isinstance(idx, tuple):
        return tuple(conc_index(i) for i in idx)
    if isinstance(idx, SymArray):
        dt = infer_dtype(idx)
        if dt.kind == 'b':
            return plain_bool(idx)
        return np.vectorize(int, otypes=[int])(plain(idx)) if idx.size else np.zeros(idx.shape, int)
    if isinstance(idx, SInt):
        return int(idx)
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, slice):
        return slice(*(int(v) if isinstance(v, (SInt, SBool)) else v
                       for v in (idx.start, idx.stop, idx.step)))
    if isinstance(idx, list) and has_sym(idx):
        return conc_index(symarray(idx))
    return idx


def plain_bool(arr):
    out = np.zeros(arr.shape, bool)
    p = plain(arr)
    for i in np.ndindex(*arr.shape):
        out[i] = bool(truth(p[i]))
    return out


def symarray(seq, dt=None):
    """Build SymArray from nested sequences."""
    obj = np.array(to_nested(seq), dtype=object)
    if dt is not None:
        if dt.kind not in 'fiub':
            raise Unsupported('array dtype %s' % dt)
        flat = [cast_scalar(v, dt) for v in obj.ravel()]
        out = np.empty(len(flat), object)
        out[:] = flat
        obj = out.reshape(obj.shape)
    ret = obj.view(SymArray)
    if dt is not None and dt.kind in 'iuf' and dt not in (np.dtype(float), np.dtype(int)):
        ret._sdtype = dt
    return ret


def to_nested(seq):
    if isinstance(seq, np.ndarray):
        return plain(seq).tolist()
    if isinstance(seq, (list, tuple)) or (hasattr(seq, '__len__') and hasattr(seq, '__getitem__')
                                          and not isinstance(seq, (str, bytes, dict))):
        return [to_nested(v) for v in seq]
    if isinstance(seq, range):
        return list(seq)
    return core._np_unwrap(seq)


def elementwise(fn, *arrs, out=None, dt=None):
    bs = np.broadcast_arrays(*[objarr(a) for a in arrs])
    shape = bs[0].shape
    ret = np.empty(shape, object)
    for i in np.ndindex(*shape):
        ret[i] = fn(*(b[i] for b in bs))
    if out is not None:
        store(out, ret)
        return out
    return finish(ret, dt)


def store(out, ret):
    if isinstance(out, SymArray):
        if out.shape != np.broadcast_shapes(out.shape, ret.shape):
            raise ValueError('non-broadcastable output operand')
        if not np.ndarray.flags.__get__(out).writeable:
            raise ValueError('output array is read-only')
        out[...] = ret
        return
    if not out.flags.writeable:
        raise ValueError('output array is read-only')
    if any(is_sym(v) for v in ret.ravel()):
        raise Unsupported('storing symbolic values in a concrete array (out=)')
    kind = infer_dtype(ret).kind
    if kind == 'f' and out.dtype.kind in 'iub':
        raise np.core._exceptions._UFuncOutputCastingError(np.add, 'same_kind', np.dtype(float), out.dtype, 0) \
            if False else TypeError('Cannot cast ufunc output from float64 to %s' % out.dtype)
    out[...] = ret


def objarr(a):
    if isinstance(a, SymArray):
        return plain(a)
    if isinstance(a, np.ndarray):
        return a.astype(object)
    if isinstance(a, (list, tuple, range)):
        return np.array(to_nested(list(a) if isinstance(a, range) else a), dtype=object)
    ret = np.empty((), object)
    ret[()] = core._np_unwrap(a)
    return ret


def _guard_div(fn):
    """numpy float division does not raise; a division by zero on symbolic data
    would give inf / nan which the encoding has no value for."""
    def op(a, b):
        try:
            return fn(a, b)
        except ZeroDivisionError:
            if isinstance(a, int) and isinstance(b, int) and fn is not operator.truediv:
                return 0
            if fn is operator.truediv and not is_sym(a):
                if a != 0:
                    return float('inf') if a > 0 else float('-inf')
                return float('nan')
            if fn is operator.mod:
                return float('nan')
            if a > 0:
                return float('inf')
            if a < 0:
                return float('-inf')
            return float('nan')
    return op


def np_sign(v):
    return ite(v > 0, 1, ite(v < 0, -1, 0)) * (1. if not isinstance(v, (SInt, int)) else 1)


def np_rint(v):
    return round(v) * 1.


def _heaviside(a, b):
    return ite(a < 0, 0., ite(a > 0, 1., b))


def fl(v):
    return cast_scalar(v, float)


UFUNCS = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
    'divide': _guard_div(operator.truediv), 'true_divide': _guard_div(operator.truediv),
    'floor_divide': _guard_div(operator.floordiv), 'remainder': _guard_div(operator.mod),
    'mod': _guard_div(operator.mod),
    'power': operator.pow, 'float_power': lambda a, b: fl(a) ** b,
    'negative': operator.neg, 'positive': lambda a: a,
    'absolute': abs, 'fabs': lambda a: abs(fl(a)),
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt,
    'greater_equal': operator.ge, 'equal': operator.eq, 'not_equal': operator.ne,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'sin': lambda a: transc.sin(a), 'cos': lambda a: transc.cos(a), 'tan': lambda a: transc.tan(a),
    'tanh': transc.tanh, 'exp': transc.exp, 'log': transc.log, 'log2': transc.log2,
    'log10': transc.log10, 'sqrt': transc.sqrt, 'square': lambda a: a * a,
    'reciprocal': lambda a: 1. / a, 'exp2': lambda a: core.sym_pow(2., a),
    'expm1': lambda a: transc.exp(a) - 1., 'log1p': lambda a: transc.log(1. + a),
    'floor': lambda a: fl(floor(a)), 'ceil': lambda a: fl(ceil(a)), 'trunc': lambda a: fl(trunc(a)),
    'rint': np_rint, 'sign': np_sign,
    'logical_and': lambda a, b: core_and(truth(a), truth(b)),
    'logical_or': lambda a, b: core_or(truth(a), truth(b)),
    'logical_xor': lambda a, b: ite(truth(a), UFUNCS['logical_not'](b), truth(b)),
    'logical_not': lambda a: (~truth(a)) if isinstance(truth(a), SBool) else (not truth(a)),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
    'bitwise_xor': lambda a, b: a ^ b, 'invert': lambda a: (not a) if isinstance(a, (bool, np.bool_)) else ~a,
    'left_shift': operator.lshift, 'right_shift': operator.rshift,
    'divmod': divmod, 'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(float(a))),
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(float(a))),
    'isinf': lambda a: False if is_sym(a) else bool(np.isinf(float(a))),
    'heaviside': _heaviside, 'fmod': lambda a, b: a - b * trunc(a / b),
    'signbit': lambda a: a < 0,
    'copysign': lambda a, b: ite(b < 0, -abs(a), abs(a)),
    'conjugate': lambda a: a, 'deg2rad': lambda a: a * (np.pi / 180.), 'radians': lambda a: a * (np.pi / 180.),
    'rad2deg': lambda a: a * (180. / np.pi), 'degrees': lambda a: a * (180. / np.pi),
    'hypot': lambda a, b: transc.sqrt(a * a + b * b),
}
UFUNCS['abs'] = abs


NARROW = {'add', 'subtract', 'multiply', 'negative', 'absolute', 'left_shift', 'right_shift', 'bitwise_and', 'bitwise_or',
          'bitwise_xor', 'floor_divide', 'remainder', 'maximum', 'minimum'}


def narrow_dtype(inputs):
    """dtype of the result when all arrays are of one narrow integer dtype."""
    dt = None
    for a in inputs:
        if isinstance(a, np.ndarray) and a.ndim > 0:
            d = a.dtype
            if d.kind not in 'iu' or d.itemsize >= 8 or dt not in (None, d):
                return None
            dt = d
        elif not isinstance(a, (int, SInt)) or isinstance(a, bool):
            return None
    return dt


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    if where is not True:
        if out is None or method != '__call__':
            raise Unsupported('ufunc where=')
        new = dispatch_ufunc(ufunc, method, inputs, dict(kwargs))
        out[...] = np_where(where, new, out)
        return out
    if name == 'matmul':
        return wrap(np.dot(*[objarr(i) for i in inputs]))
    fn = UFUNCS.get(name)
    if fn is None:
        raise Unsupported('ufunc %s' % name)
    if method == '__call__':
        if name == 'divmod':
            return (elementwise(_guard_div(operator.floordiv), *inputs),
                    elementwise(_guard_div(operator.mod), *inputs))
        arrs = [objarr(i) for i in inputs]
        if out is None and all(a.ndim == 0 for a in arrs):
            return fn(*(a[()] for a in arrs))
        ret = elementwise(fn, *inputs, out=out)
        if out is None and name in NARROW and isinstance(ret, np.ndarray):
            dt = narrow_dtype(inputs)
            if dt is not None:
                return wrap(ret).astype(dt)
        return ret
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        ret = reduce_fn(inputs[0], fn, axis,
                        {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}.get(name),
                        conv=truth if name.startswith('logical') else None,
                        keepdims=kwargs.get('keepdims', False))
        return ret
    if method == 'accumulate':
        return accumulate_fn(inputs[0], fn, kwargs.get('axis', 0))
    if method == 'outer':
        a, b = objarr(inputs[0]), objarr(inputs[1])
        return elementwise(fn, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        arr, idx, val = inputs
        idx = np.atleast_1d(conc_index(idx))
        vals = np.broadcast_to(objarr(val), idx.shape)
        for i, v in zip(idx, vals):
            arr[i] = fn(arr[i], v)
        return None
    raise Unsupported('ufunc method %s' % method)


def reduce_fn(arr, fn, axis, initial, conv=None, keepdims=False):
    arr = objarr(arr)
    if conv:
        arr2 = np.empty(arr.shape, object)
        for i in np.ndindex(*arr.shape):
            arr2[i] = conv(arr[i])
        arr = arr2

    def red(values):
        values = list(values)
        if not values:
            if initial is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return initial
        return functools.reduce(fn, values)

    if axis is None or (isinstance(axis, tuple) and len(axis) == arr.ndim) or arr.ndim == 0:
        ret = red(arr.ravel())
        if keepdims:
            o = np.empty((1,) * arr.ndim, object)
            o[...] = ret
            return finish(o)
        return ret
    if isinstance(axis, tuple):
        for a in sorted((x % arr.ndim for x in axis), reverse=True):
            arr = objarr(reduce_fn(arr, fn, a, initial, keepdims=keepdims))
        return finish(arr)
    moved = np.moveaxis(arr, axis, -1)
    ret = np.empty(moved.shape[:-1], object)
    for i in np.ndindex(*ret.shape):
        ret[i] = red(moved[i])
    if keepdims:
        ret = np.expand_dims(ret, axis)
    return finish(ret)


def accumulate_fn(arr, fn, axis=0):
    arr = objarr(arr)
    moved = np.moveaxis(arr, axis, -1)
    ret = np.empty(moved.shape, object)
    for i in np.ndindex(*moved.shape[:-1]):
        acc = None
        for j, v in enumerate(moved[i]):
            acc = v if j == 0 else fn(acc, v)
            ret[i + (j,)] = acc
    return finish(np.moveaxis(ret, -1, axis))


def argext(arr, cmp):
    flat = list(plain(arr).ravel())
    if infer_dtype(arr).kind == 'b':
        flat = [truth(v) for v in flat]
        if cmp is operator.gt:
            ret = len(flat) and 0
            out = 0
            for i in range(len(flat) - 1, -1, -1):
                out = ite(flat[i], i, out)
            return out
    best, idx = flat[0], 0
    for i, v in enumerate(flat[1:], 1):
        c = cmp(v, best)
        best, idx = ite(c, v, best), ite(c, i, idx)
    return idx


# ------------------------------------------------------------ numpy functions

def _finish_out(ret, dtype, out):
    if dtype is not None:
        ret = ret.astype(dtype) if isinstance(ret, np.ndarray) else cast_scalar(ret, np.dtype(dtype))
    return ret if out is None else store(out, ret)


def reduction(fn, initial, conv=None):
    """Numpy's reductions with all their arguments."""
    def red(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=np._NoValue):
        a = objarr(a)
        if dtype is not None and np.dtype(dtype).kind not in 'f':
            a = objarr(wrap(a).astype(dtype))
        start = start0
        if where is not np._NoValue:
            if start0 is None:
                raise Unsupported('where= of this reduction')
            a = objarr(elementwise(lambda w, v: ite(truth(w), conv(v) if conv else v, start0), where, a))
        ret = reduce_fn(a, fn, axis, start, conv=conv, keepdims=False if keepdims is np._NoValue else keepdims)
        if initial is not np._NoValue and initial is not None:
            if not a.size:
                raise Unsupported('initial value of an empty reduction')
            ret = fn(initial, ret) if not isinstance(ret, np.ndarray) else elementwise(fn, initial, ret)
        return _finish_out(ret, dtype if dtype is not None and np.dtype(dtype).kind == 'f' else None, out)
    start0 = initial
    return red


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        return functools.reduce(operator.mul, [a.shape[x] for x in axis], 1)
    return a.shape[axis]


def np_argext(cmp):
    def ext(a, axis=None, out=None, keepdims=np._NoValue):
        if out is not None or keepdims not in (np._NoValue, False):
            raise Unsupported('options of argmax / argmin')
        a = objarr(a)
        if a.size == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        if axis is None or a.ndim == 1:
            return argext(wrap(a), cmp)
        moved = np.moveaxis(a, axis, -1)
        ret = np.empty(moved.shape[:-1], object)
        for i in np.ndindex(*ret.shape):
            ret[i] = argext(finish(moved[i]), cmp)
        return finish(ret)
    return ext


def np_cumsum(a, axis=None, dtype=None, out=None):
    if axis is None:
        a = objarr(a).ravel()
        axis = 0
    return _finish_out(accumulate_fn(a, operator.add, axis), dtype, out)


def np_cumprod(a, axis=None, dtype=None, out=None):
    if axis is None:
        a = objarr(a).ravel()
        axis = 0
    return _finish_out(accumulate_fn(a, operator.mul, axis), dtype, out)


def np_take(a, indices, axis=None, out=None, mode='raise'):
    if out is not None:
        raise Unsupported('take with out=')
    a = wrap(objarr(a))
    if axis is None:
        a, axis = a.reshape(-1), 0
    n = a.shape[axis]
    conv = {'raise': lambda i: i, 'wrap': lambda i: i % n, 'clip': lambda i: smin(smax(i, 0), n - 1)}[mode]
    idx = conv(indices) if np.ndim(indices) == 0 else elementwise(conv, indices)
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


def np_select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist):
        raise ValueError('list of cases must be same length as list of conditions')
    ret = default
    for cond, choice in reversed(list(zip(condlist, choicelist))):
        ret = np_where(cond, choice, ret)
    return ret


def np_trapz(y, x=None, dx=1., axis=-1):
    y = np.moveaxis(objarr(y), axis, -1)
    d = dx if x is None else np.diff(objarr(x))
    return reduce_fn(objarr(wrap((y[..., 1:] + y[..., :-1]) * d)) * Fraction(1, 2), operator.add, -1, 0)


def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = objarr(f)
    if f.ndim != 1 or len(varargs) > 1 or edge_order != 1 or varargs and np.ndim(varargs[0]):
        raise Unsupported('options of gradient')
    if len(f) < 2:
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    h = varargs[0] if varargs else 1.
    ret = np.empty(len(f), object)
    ret[0], ret[-1] = (f[1] - f[0]) / h, (f[-1] - f[-2]) / h
    for i in range(1, len(f) - 1):
        ret[i] = (f[i + 1] - f[i - 1]) / (2. * h)
    return finish(ret)


def np_modf(x):
    def trunc(v):
        return ite(v < 0, -(floor(-v)), floor(v)) * 1.
    whole = elementwise(trunc, x) if np.ndim(x) else trunc(x)
    return x - whole, whole


def np_average(a, axis=None, weights=None, returned=False, keepdims=np._NoValue):
    if returned:
        raise Unsupported('average with returned')
    keep = {} if keepdims is np._NoValue else {'keepdims': keepdims}
    if weights is None:
        return _mean(a, axis, **keep)
    a, w = objarr(a), objarr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise TypeError('Shapes of weights and a differ')
        w = np.moveaxis(np.broadcast_to(w, np.moveaxis(a, axis, -1).shape), -1, axis)
    total = np_sum(w, axis, **keep)
    return np_sum(wrap(a * w), axis, **keep) / total


def np_isin(element, test_elements, assume_unique=False, invert=False, **k):
    tests = list(objarr(test_elements).ravel())

    def one(v):
        ret = functools.reduce(core_or, [truth(v == t) for t in tests], False)
        return ite(truth(ret), False, True) if invert else ret
    return one(element) if np.ndim(element) == 0 else elementwise(one, element)


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)

    def fn(v, lo, hi):
        if lo is not None:
            v = smax(v, lo)
        if hi is not None:
            v = smin(v, hi)
        return v
    lo = np.array(None, object) if a_min is None else a_min
    hi = np.array(None, object) if a_max is None else a_max
    if np.ndim(a) == 0 and np.ndim(lo) == 0 and np.ndim(hi) == 0:
        return fn(a, a_min, a_max)
    return elementwise(fn, a, lo, hi, out=out)


def np_where(cond, x=None, y=None):
    if x is None:
        return plain_bool(wrap(objarr(cond))).nonzero()
    return elementwise(lambda c, a, b: ite(truth(c), a, b), cond, x, y)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xp = list(objarr(xp))
    fp = list(objarr(fp))
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    if not xp:
        raise ValueError('array of sample points is empty')
    lo = fp[0] if left is None else left
    hi = fp[-1] if right is None else right

    def one(v):
        ret = hi
        # v > xp[-1] -> hi ; v == xp[-1] -> fp[-1]
        ret = ite(v <= xp[-1], fp[-1], hi)
        for i in range(len(xp) - 2, -1, -1):
            if not is_sym(xp[i]) and not is_sym(xp[i + 1]) and xp[i] == xp[i + 1]:
                continue
            if core._is_inf(xp[i + 1]) or core._is_inf(xp[i]):
                seg = fp[i] * 1.
            else:
                inside = v < xp[i + 1]
                if isinstance(inside, bool):
                    if not inside:
                        continue
                    seg = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i]) + fp[i]
                else:
                    if is_sym(xp[i]) or is_sym(xp[i + 1]):
                        if xp[i + 1] == xp[i]:
                            continue
                    seg = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i]) + fp[i]
            ret = ite(v < xp[i + 1], seg, ret)
        return ite(v < xp[0], lo, ret)
    if np.ndim(x) == 0:
        return one(x)
    return elementwise(one, x)


def np_searchsorted(a, v, side='left', sorter=None):
    a = list(objarr(a))

    def one(x):
        n = len(a)
        if not is_sym(x) and not any(is_sym(q) for q in a):
            return np.int64(np.searchsorted(np.array(a, float), float(x), side))
        # number of elements < x  (a sorted): binary decisions fork
        lo, hi = 0, n
        while lo < hi:
            mid = (lo + hi) // 2
            if (a[mid] < x) if side == 'left' else (a[mid] <= x):
                lo = mid + 1
            else:
                hi = mid
        return np.int64(lo)
    if np.ndim(v) == 0:
        return one(v)
    return elementwise(one, v)


def np_linalg_solve(a, b):
    a, b = objarr(a), objarr(b)
    n = a.shape[0]
    if not any(is_sym(v) for v in list(a.ravel()) + list(b.ravel())):
        return wrap(np.linalg.solve(a.astype(float), b.astype(float)))

    def det(m):
        if len(m) == 1:
            return m[0][0]
        return functools.reduce(operator.add, [
            (-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))])
    rows = [list(r) for r in a]
    d = det(rows)
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    if b.ndim != 1:
        raise Unsupported('solve rhs')
    ret = np.empty(n, object)
    for j in range(n):
        ret[j] = det([r[:j] + [b[i]] + r[j + 1:] for i, r in enumerate(rows)]) / d
    return finish(ret)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def np_array_equal(a, b):
    a, b = objarr(a), objarr(b)
    if a.shape != b.shape:
        return False
    return reduce_fn(elementwise(operator.eq, a, b), core_and, None, True, conv=truth)


def concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = [objarr(a) for a in arrs]
    return _finish_out(finish(np.concatenate(arrs, axis=axis)), dtype, out)


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if k:
        raise Unsupported('options of mean')
    a = wrap(objarr(a))
    if not isinstance(a, SymArray):
        return a
    n = _count(a, axis)
    keepdims = False if keepdims is np._NoValue else keepdims
    return _finish_out(reduce_fn(a, operator.add, axis, 0, keepdims=keepdims) / n, dtype, out)


np_sum = reduction(operator.add, 0)


def np_sort(a, axis=-1, **k):
    a = objarr(a)
    moved = np.moveaxis(a, axis, -1)
    ret = np.empty(moved.shape, object)
    for i in np.ndindex(*moved.shape[:-1]):
        row = sorted(moved[i])
        for j, v in enumerate(row):
            ret[i + (j,)] = v
    return finish(np.moveaxis(ret, -1, axis))


def np_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = objarr(a)
    parts = []
    if prepend is not np._NoValue:
        p = objarr(prepend)
        parts.append(p.reshape(1) if p.ndim == 0 else p)
    parts.append(a)
    if append is not np._NoValue:
        p = objarr(append)
        parts.append(p.reshape(1) if p.ndim == 0 else p)
    a = np.concatenate(parts, axis=axis)
    for _ in range(n):
        a = np.diff(a, axis=axis)
    return finish(a)


def np_unique(a, **k):
    if any(k.values()):
        raise Unsupported('unique options')
    vals = sorted(objarr(a).ravel())
    out = []
    for v in vals:
        if not out or out[-1] != v:
            out.append(v)
    ret = np.empty(len(out), object)
    ret[:] = out
    return finish(ret)


def np_dot(a, b):
    return wrap(np.dot(objarr(a), objarr(b)))


OVERRIDES = {
    'cumsum': np_cumsum, 'clip': np_clip, 'where': np_where, 'interp': np_interp,
    'searchsorted': np_searchsorted, 'solve': np_linalg_solve, 'isclose': np_allclose,
    'allclose': lambda *a, **k: reduce_fn(np_allclose(*a, **k), core_and, None, True, conv=truth),
    'array_equal': np_array_equal, 'concatenate': concatenate, 'mean': _mean, 'average': np_average,
    'sum': np_sum, 'sort': np_sort, 'diff': np_diff, 'unique': np_unique, 'dot': np_dot,
    'any': reduction(core_or, False, truth), 'all': reduction(core_and, True, truth),
    'max': reduction(smax, None), 'amax': reduction(smax, None),
    'min': reduction(smin, None), 'amin': reduction(smin, None),
    'prod': reduction(operator.mul, 1), 'take': np_take, 'select': np_select, 'gradient': np_gradient,
    'trapz': np_trapz, 'trapezoid': np_trapz, 'isin': np_isin, 'in1d': np_isin, 'modf': np_modf,
    'var': lambda a, *args, **k: wrap(objarr(a)).var(*args, **k),
    'std': lambda a, *args, **k: wrap(objarr(a)).std(*args, **k),
    'argmax': np_argext(operator.gt), 'argmin': np_argext(operator.lt),
    'real': lambda a: a, 'conj': lambda a: a, 'conjugate': lambda a: a,
    'round': lambda a, decimals=0, **k: elementwise(lambda v: round(v, decimals), a),
    'around': lambda a, decimals=0, **k: elementwise(lambda v: round(v, decimals), a),
    'nonzero': lambda a: plain_bool(wrap(objarr(a))).nonzero(),
    'ndim': lambda a: a.ndim, 'shape': lambda a: a.shape,
    'size': lambda a, axis=None: a.size if axis is None else a.shape[axis],
    'copyto': lambda dst, src, casting=None, where=True: dst.__setitem__(
        Ellipsis, src if where is True else np_where(where, src, dst)),
    'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True,
    'count_nonzero': lambda a, axis=None, **k: np_sum(
        elementwise(lambda v: ite(truth(v), 1, 0), a), axis, **k),
    'flatnonzero': lambda a: plain_bool(wrap(objarr(a))).ravel().nonzero()[0],
    'argwhere': lambda a: np.argwhere(plain_bool(wrap(objarr(a)))),
    'cumprod': np_cumprod,
    'nan_to_num': lambda a, **k: a,
}


ALIASES = {'trapz': 'trapezoid', 'in1d': 'isin', 'row_stack': 'vstack', 'float_': 'float64', 'int_': 'int64',
           'product': 'prod', 'cumproduct': 'cumprod', 'alltrue': 'all', 'sometrue': 'any', 'round_': 'round',
           'Inf': 'inf', 'NaN': 'nan', 'infty': 'inf'}


class NumpyProxy(types.ModuleType):

    """Stand-in for the numpy module inside the code under test: float arrays are
    object arrays so that they can hold symbolic values; everything else is real
    numpy."""

    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Sub(np.linalg, {'solve': np_linalg_solve})
        self.random = None      # set by shims
        self.__version__ = np.__version__

    def __getattr__(self, name):
        if name in ('int', 'float', 'bool', 'object'):
            return {'int': int, 'float': float, 'bool': bool, 'object': object}[name]
        real = getattr(np, ALIASES.get(name, name))
        if name in CONSTRUCTORS:
            return CONSTRUCTORS[name]
        if name in OVERRIDES:
            over = OVERRIDES[name]

            @functools.wraps(real)
            def fn(*args, **kwargs):
                if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
                    return over(*args, **kwargs)
                return wrap(real(*unwrap(args), **unwrap(kwargs)))
            return fn
        if isinstance(real, np.ufunc):
            return UfuncProxy(real)
        if isinstance(real, (types.FunctionType, types.BuiltinFunctionType)) or \
                type(real).__name__ == '_ArrayFunctionDispatcher':
            @functools.wraps(real)
            def fn2(*args, **kwargs):
                ret = real(*unwrap(args), **unwrap(kwargs))
                return wrap(ret)
            return fn2
        return real


class _Sub(types.ModuleType):

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._real, name)


class UfuncProxy:

    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__

    def __call__(self, *args, **kwargs):
        if any(has_sym(a) for a in args) or has_sym(kwargs.get('out')):
            return dispatch_ufunc(self._real, '__call__', args, dict(kwargs))
        return wrap(self._real(*unwrap(args), **kwargs))

    def reduce(self, a, **kwargs):
        return dispatch_ufunc(self._real, 'reduce', (a,), kwargs)

    def accumulate(self, a, axis=0, **kwargs):
        return dispatch_ufunc(self._real, 'accumulate', (a,), {'axis': axis})

    def outer(self, a, b, **kwargs):
        return dispatch_ufunc(self._real, 'outer', (a, b), kwargs)

    def at(self, *args):
        return dispatch_ufunc(self._real, 'at', args, {})

    def __getattr__(self, name):
        return getattr(self._real, name)


def _dt(dtype):
    if dtype is None:
        return np.dtype(float)
    if dtype is object:
        return np.dtype(object)
    return np.dtype(dtype)


def _shape(shape):
    if isinstance(shape, (SInt, SBool)):
        return int(shape)
    if isinstance(shape, (list, tuple)):
        return tuple(int(s) for s in shape)
    return shape


def _filled(shape, value, dtype):
    dt = _dt(dtype)
    shape = _shape(shape)
    ret = np.empty(shape, object)
    ret[...] = value
    if ret.ndim == 0:
        return value
    out = ret.view(SymArray)
    if dt.kind in 'iuf' and dt not in (np.dtype(float), np.dtype(int)):
        out._sdtype = dt
    return out


def _zeros(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    zero = {'f': 0., 'i': 0, 'u': 0, 'b': False}.get(dt.kind)
    if zero is None:
        return np.zeros(_shape(shape), dt)
    return _filled(shape, zero, dt)


def _ones(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    one = {'f': 1., 'i': 1, 'u': 1, 'b': True}.get(dt.kind)
    return _filled(shape, one, dt)


def _empty(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    ret = _zeros(shape, dtype)
    if isinstance(ret, SymArray) and core.CUR is not None and dt.kind == 'f':
        # uninitialised memory: arbitrary values
        p = plain(ret)
        for i in np.ndindex(*p.shape):
            p[i] = core.CUR.fresh_real('uninit')
    return ret


def _full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        if is_sym(fill_value) or isinstance(fill_value, float):
            dt = np.dtype(float) if not isinstance(fill_value, (SInt, SBool)) else np.dtype(int)
        else:
            dt = np.asarray(fill_value).dtype if not has_sym(fill_value) else np.dtype(float)
    else:
        dt = _dt(dtype)
    ret = _zeros(shape, dt)
    ret[...] = cast(unwrap(fill_value), dt) if dtype is not None else unwrap(fill_value)
    return ret


def _like(maker):
    def fn(a, dtype=None, *args, **kwargs):
        shape = kwargs.pop('shape', None)
        kwargs.pop('order', None)
        kwargs.pop('subok', None)
        a = _asarray(a)
        return maker(shape or a.shape, *args, dtype=dtype or a.dtype, **kwargs)
    return fn


def _array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(obj, SymArray):
        if dtype is None or np.dtype(dtype) == obj.dtype:
            ret = obj.copy() if copy else obj
        else:
            ret = obj.astype(dtype)
    elif isinstance(obj, np.ndarray):
        if dtype is not None:
            ret = np.array(obj, dtype=dtype, copy=True)
        else:
            ret = np.array(obj) if copy else obj
        ret = wrap(ret)
    elif has_sym(obj) or (isinstance(obj, (list, tuple)) and _floaty(obj)):
        if np.ndim(obj) == 0 if not isinstance(obj, (list, tuple)) else False:
            return cast_scalar(obj, dtype) if dtype is not None else obj
        ret = symarray(obj, _dt(dtype) if dtype is not None else None)
    else:
        if dtype is not None and not isinstance(obj, (list, tuple, range)) and np.ndim(obj) == 0:
            return np.array(obj, dtype=dtype)
        ret = wrap(np.array(unwrap(obj), dtype=dtype))
    while ndmin and ret.ndim < ndmin:
        ret = ret[np.newaxis]
    return ret


def _contiguous(arr):
    if np.ndim(arr) == 0:
        arr = arr.reshape(1)
    return arr if arr.flags.c_contiguous else arr.copy()


def _floaty(obj):
    return any(isinstance(v, float) or (isinstance(v, (list, tuple)) and _floaty(v))
               or isinstance(v, SymArray) for v in obj)


def _asarray(obj, dtype=None, order=None, **k):
    return _array(obj, dtype, copy=False)


def _arange(*args, **kwargs):
    dtype = kwargs.pop('dtype', None)
    args = [core._np_unwrap(a) for a in args]
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args[:3]
    stop = kwargs.get('stop', stop)
    start = kwargs.get('start', start)
    step = kwargs.get('step', step)
    if not any(is_sym(v) for v in (start, stop, step)):
        return wrap(np.arange(start, stop, step, dtype=dtype))
    n = int(smax(0, ceil((stop - start) / step)))
    ret = np.empty(n, object)
    for i in range(n):
        ret[i] = start + i * step
    out = finish(ret)
    return out.astype(dtype) if dtype is not None else out


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not has_sym(start) and not has_sym(stop):
        return wrap(np.linspace(start, stop, num, endpoint, retstep, dtype))
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div > 0 else 0.
    ret = np.empty(num, object)
    for i in range(num):
        ret[i] = start + i * step
    return finish(ret) if dtype is None else finish(ret).astype(dtype)


class RawBytes:

    """Memory of an array with symbolic values."""

    def __init__(self, values, dtype):
        self.values, self.dtype = values, dtype

    def __len__(self):
        return len(self.values) * self.dtype.itemsize


class RawFrames:

    """Raw 16 bit samples of a file."""

    def __init__(self, data):
        self.data = data


def _frombuffer(*args, **kwargs):
    if args and isinstance(args[0], RawBytes):
        dt = np.dtype(kwargs.get('dtype', args[1] if len(args) > 1 else float))
        if dt != args[0].dtype or len(args) > 2 or set(kwargs) - {'dtype'}:
            raise Unsupported('frombuffer as %s' % dt)
        ret = symarray(list(args[0].values))
        return ret.astype(dt) if dt != np.dtype(float) else ret
    if args and isinstance(args[0], RawFrames):
        dt = np.dtype(kwargs.get('dtype', args[1] if len(args) > 1 else float))
        if dt != np.dtype('<i2') or len(args) > 2 or set(kwargs) - {'dtype'}:
            raise Unsupported('frombuffer of frames as %s' % dt)
        return args[0].data.copy()
    return wrap(np.frombuffer(*args, **kwargs))


def _vectorize(fn, *args, **kwargs):
    return lambda *a: elementwise(fn, *a)


def _atleast(n):
    def fn(*arys):
        res = []
        for a in arys:
            a = _asarray(a)
            if not isinstance(a, np.ndarray):
                o = np.empty((), object)
                o[()] = a
                a = o
                a = np.ndarray.reshape(a, (1,))
                a = finish(a)
                a = a if isinstance(a, np.ndarray) else np.array([a])
            while a.ndim < n:
                a = a[np.newaxis]
            res.append(a)
        return res[0] if len(res) == 1 else res
    return fn


def _issubdtype(a, b):
    return np.issubdtype(a, b)


def _ndim(a):
    try:
        return a.ndim
    except AttributeError:
        if has_sym(a):
            return symarray(a).ndim
        return np.ndim(unwrap(a))


def _shape_of(a):
    try:
        return a.shape
    except AttributeError:
        if has_sym(a):
            return symarray(a).shape
        return np.shape(unwrap(a))


class _CClass:

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            return wrap(np.c_[key])
        return finish(np.column_stack([objarr(k).reshape(-1, 1) if objarr(k).ndim < 2 else objarr(k) for k in key]))


def _fromiter(it, dtype=float, count=-1, **k):
    values = list(it) if count < 0 else [v for _, v in zip(range(count), it)]
    if count > len(values):
        raise ValueError('iterator too short')
    if not has_sym(values):
        return wrap(np.fromiter(values, dtype))
    return _array(values, dtype)


def np_number(dtype, *args):
    """Casts of symbolic values: np.float64(x) ..."""
    dt = np.dtype(dtype)
    x = args[0]
    return x.astype(dt) if isinstance(x, np.ndarray) else _array(x, dt)


class _RClass:

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            return wrap(np.r_[key])
        parts = []
        for k in key:
            p = objarr(k)
            parts.append(p.reshape(1) if p.ndim == 0 else p)
        return finish(np.concatenate(parts))


CONSTRUCTORS = {
    'zeros': _zeros, 'ones': _ones, 'empty': _empty, 'full': _full,
    'zeros_like': _like(_zeros), 'ones_like': _like(_ones), 'empty_like': _like(_empty),
    'full_like': lambda a, fill_value, dtype=None, **k: _full(
        k.get('shape') or _asarray(a).shape, fill_value, dtype or _asarray(a).dtype),
    'array': _array, 'asarray': _asarray, 'asanyarray': _asarray,
    'ascontiguousarray': lambda a, dtype=None: _contiguous(_array(a, dtype, copy=False)),
    'asfortranarray': lambda a, dtype=None: _array(a, dtype, copy=False),
    'copy': lambda a, *args, **k: _array(a),
    'arange': _arange, 'linspace': _linspace, 'frombuffer': _frombuffer,
    'vectorize': _vectorize, 'atleast_1d': _atleast(1), 'atleast_2d': _atleast(2),
    'atleast_3d': _atleast(3), 'ndim': _ndim, 'shape': _shape_of, 'r_': _RClass(), 'c_': _CClass(),
    'fromiter': _fromiter,
    'abs': UfuncProxy(np.absolute), 'hanning': lambda n: wrap(np.hanning(n)),
    'isscalar': lambda x: True if is_sym(x) else np.isscalar(x),
    'iterable': np.iterable,
}

numpy_proxy = NumpyProxy()
