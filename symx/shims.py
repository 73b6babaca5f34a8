"""Environment stubs of the code under test.

Every stub either computes the documented result symbolically (math, lfilter,
interp1d, json) or returns an arbitrary value of its documented range (random,
clocks)."""
import builtins
import collections
import functools
import itertools
import math
import operator
import random as _random
import sys
import enum
import types

import numpy as np
import z3

from symx import arrays, strings, transc
from symx import core
from symx.core import (SBool, SFrac, SInt, SNum, SReal, Unsupported, ceil, floor, is_sym, ite,
                       mkbool, smax, smin, trunc, Fraction)
from symx.arrays import RawBytes, has_sym, numpy_proxy, objarr, finish, wrap


# ------------------------------------------------------------ math

class _Math(types.ModuleType):

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real

        def fn(*args):
            if any(is_sym(a) for a in args):
                raise Unsupported('math.%s' % name)
            return real(*args)
        fn.__name__ = name
        return fn


math_proxy = _Math('math')


def _m(name, sym):
    real = getattr(math, name)

    def fn(*args, **kwargs):
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            return sym(*args, **kwargs)
        return real(*args, **kwargs)
    fn.__name__ = name
    setattr(math_proxy, name, fn)


def _real(x):
    return core.cast_scalar(x, float)


_m('floor', floor)
_m('ceil', ceil)
_m('trunc', trunc)
_m('sqrt', lambda x: transc.sqrt(_real(x)))
_m('exp', lambda x: transc.exp(x))
_m('log', transc.log)
_m('log2', transc.log2)
_m('log10', transc.log10)
_m('sin', transc.sin)
_m('cos', transc.cos)
_m('tan', transc.tan)
_m('tanh', transc.tanh)
_m('fabs', lambda x: abs(_real(x)))
_m('pow', lambda a, b: _real(a) ** b)
_m('fmod', lambda a, b: a - b * trunc(a / b))
_m('modf', lambda a: (a - trunc(a), _real(trunc(a))))
_m('isclose', lambda a, b, rel_tol=1e-9, abs_tol=0.:
   abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), abs_tol))
_m('isnan', lambda a: False)
_m('isinf', lambda a: False)
_m('isfinite', lambda a: True)
_m('copysign', lambda a, b: ite(b < 0, -abs(a), abs(a)))
_m('hypot', lambda a, b: transc.sqrt(a * a + b * b))
_m('radians', lambda a: a * (math.pi / 180.))
_m('degrees', lambda a: a * (180. / math.pi))
def _isqrt(n):
    if n < 0:
        raise ValueError('isqrt() argument must be nonnegative')
    return _sym_isqrt(n)


def _sym_isqrt(n):
    # binary search: the branches are decided by the solver
    hi = 1
    while hi * hi <= n:
        hi *= 2
    lo = 0
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mid * mid <= n:
            lo = mid
        else:
            hi = mid
    return lo


_m('isqrt', lambda n: math.isqrt(n) if not core.is_sym(n) else _isqrt(n))
_m('ldexp', lambda x, i: x * 2. ** int(i))
_m('dist', lambda p, q: math_proxy.sqrt(sum((a - b) * (a - b) for a, b in zip(p, q))))
_m('gcd', lambda *a: math.gcd(*(int(v) for v in a)))
_m('lcm', lambda *a: math.lcm(*(int(v) for v in a)))


def _fsum(seq):
    return functools.reduce(operator.add, seq, 0.)


def _prod(seq, *, start=1):
    return functools.reduce(operator.mul, seq, start)


math_proxy.fsum = _fsum
math_proxy.prod = _prod

# ------------------------------------------------------------ random


def _nd_real(lo, hi, closed=False):
    eng = core.CUR
    v = eng.fresh_real('rnd')
    eng.assume_z(z3.And(v.z >= core.zreal(lo), (v.z <= core.zreal(hi)) if closed
                        else (v.z < core.zreal(hi))))
    return v


def _nd_int(lo, hi):
    eng = core.CUR
    v = eng.fresh_int('rnd')
    eng.assume_z(z3.And(v.z >= core.zint(lo), v.z <= core.zint(hi)))
    return v


class NpRandom(types.ModuleType):

    def random(self, size=None):
        if core.CUR is None:
            return wrap(np.random.random(size))
        if size is None:
            return _nd_real(0, 1)
        ret = np.empty(size, object)
        for i in np.ndindex(*ret.shape):
            ret[i] = _nd_real(0, 1)
        return finish(ret)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if core.CUR is None:
            return np.random.randint(low, high, size)
        if high is None:
            low, high = 0, low
        if size is None:
            return _nd_int(low, high - 1)
        ret = np.empty(size, object)
        for i in np.ndindex(*ret.shape):
            ret[i] = _nd_int(low, high - 1)
        return finish(ret)

    def permutation(self, x):
        seq = list(range(x)) if isinstance(x, int) else list(x)
        random_proxy.shuffle(seq)
        return np.array(seq)

    def shuffle(self, x):
        seq = list(x)
        random_proxy.shuffle(seq)
        for i, v in enumerate(seq):
            x[i] = v

    def choice(self, a, size=None):
        seq = list(range(a)) if isinstance(a, int) else list(a)
        if size is None:
            return random_proxy.choice(seq)
        return np.array([random_proxy.choice(seq) for _ in range(int(size))])

    def default_rng(self, seed=None):
        return self

    integers = randint

    def seed(self, *a):
        pass


class Random(types.ModuleType):

    """Arbitrary choices: every outcome is explored."""

    def seed(self, *a):
        pass

    def random(self):
        return _nd_real(0, 1) if core.CUR is not None else _random.random()

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        if b < a:
            raise ValueError('empty range for randint()')
        return _nd_int(a, b) if core.CUR is not None else _random.randint(a, b)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = (stop - start + step - 1) // step
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return start + step * self.randint(0, n - 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[int(self.randint(0, len(seq) - 1))]

    def choices(self, population, weights=None, *, k=1):
        return [self.choice(population) for _ in range(k)]

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = int(self.randint(0, i))
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k):
        pool = list(population)
        if k > len(pool):
            raise ValueError('Sample larger than population or is negative')
        self.shuffle(pool)
        return pool[:k]

    def gauss(self, *a):
        raise Unsupported('random.gauss')


random_proxy = Random('random')
numpy_proxy.random = NpRandom('numpy.random')

# ------------------------------------------------------------ scipy


def lfilter(b, a, x, axis=-1, zi=None):
    """Direct form II transposed, exactly as documented by scipy."""
    b = list(objarr(b).ravel())
    a = list(objarr(a).ravel())
    x = objarr(x)
    n = max(len(a), len(b))
    b = b + [0.] * (n - len(b))
    a = a + [0.] * (n - len(a))
    if not is_sym(a[0]) and a[0] == 0:
        raise ValueError('Filter coefficient a[0] == 0')
    b = [v / a[0] for v in b]
    a = [v / a[0] for v in a]
    xm = np.moveaxis(x, axis, -1)
    y = np.empty(xm.shape, object)
    if zi is not None:
        zi = objarr(zi)
        zshape = xm.shape[:-1] + (n - 1,)
        if x.ndim == 1 and zi.shape != (n - 1,):
            raise ValueError('Unexpected shape for zi: expected (%d,), found %s.' % (n - 1, zi.shape))
        if x.ndim > 1:
            zi = np.moveaxis(zi, axis, -1)
            if zi.shape != zshape:
                try:
                    zi = np.broadcast_to(zi, zshape)
                except ValueError:
                    raise ValueError('Unexpected shape for zi')
        zf = np.empty(zshape, object)
    if not xm.size and zi is not None:
        # scipy leaves the final state uninitialised
        y = finish(np.moveaxis(y, -1, axis))
        return y, (finish(objarr([core.CUR.fresh_real('uninitialised') for z in range(zf.size)])).reshape(zf.shape)
                   if core.CUR is not None else np.full(zf.shape, np.nan))
    for idx in np.ndindex(*xm.shape[:-1]):
        z = [0.] * (n - 1) if zi is None else list(zi[idx])
        for i, v in enumerate(xm[idx]):
            out = b[0] * v + (z[0] if z else 0.)
            for k in range(n - 1):
                nxt = z[k + 1] if k + 1 < n - 1 else 0.
                z[k] = b[k + 1] * v + nxt - a[k + 1] * out
            y[idx + (i,)] = out
        if zi is not None:
            zf[idx] = z
    y = finish(np.moveaxis(y, -1, axis))
    if zi is None:
        return y
    return y, finish(np.moveaxis(zf, -1, axis))


def lfiltic(b, a, y, x=None):
    b = list(objarr(b).ravel())
    a = list(objarr(a).ravel())
    N, M = len(a) - 1, len(b) - 1
    K = max(M, N)
    y = list(objarr(y).ravel())
    x = [] if x is None else list(objarr(x).ravel())
    y = y + [0.] * (N - len(y))
    x = x + [0.] * (M - len(x))
    zi = [0.] * K
    for m in range(M):
        for k in range(M - m):
            zi[m] = zi[m] + b[m + 1 + k] * x[k]
    for m in range(N):
        for k in range(N - m):
            zi[m] = zi[m] - a[m + 1 + k] * y[k]
    ret = np.empty(K, object)
    ret[:] = zi
    return finish(ret) if K else wrap(np.zeros(0))


class interp1d:

    """Piecewise linear interpolation; raises outside of the range."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None,
                 fill_value=np.nan, assume_sorted=False):
        self.x = list(objarr(x).ravel())
        self.y = list(objarr(y).ravel())
        if len(self.x) != len(self.y):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if kind not in ('linear', 'slinear', 1):
            raise Unsupported('interp1d kind %r' % (kind,))
        self.extrapolate = isinstance(fill_value, str)
        self.fill_value = fill_value
        self.bounds_error = bounds_error if bounds_error is not None else not self.extrapolate and (
            isinstance(fill_value, float) and fill_value != fill_value)
        if not assume_sorted:
            order = sorted(range(len(self.x)), key=functools.cmp_to_key(
                lambda i, j: -1 if self.x[i] < self.x[j] else (1 if self.x[j] < self.x[i] else 0)))
            self.x = [self.x[i] for i in order]
            self.y = [self.y[i] for i in order]

    def one(self, v):
        x, y = self.x, self.y
        if self.bounds_error:
            if v < x[0]:
                raise ValueError('A value in x_new is below the interpolation range.')
            if v > x[-1]:
                raise ValueError('A value in x_new is above the interpolation range.')
        elif not self.extrapolate:
            lo, hi = (self.fill_value if isinstance(self.fill_value, tuple)
                      else (self.fill_value, self.fill_value))
            if v < x[0]:
                return lo
            if v > x[-1]:
                return hi
        # bin search as scipy: searchsorted(x, v) clipped to [1, n-1]
        for i in range(1, len(x) - 1):
            if v <= x[i]:
                break
        else:
            i = len(x) - 1
        lo, hi = i - 1, i
        if x[hi] == x[lo]:
            raise Unsupported('interp1d over a zero width segment')
        return y[lo] + (v - x[lo]) / (x[hi] - x[lo]) * (y[hi] - y[lo])

    def __call__(self, v):
        ret = objarr(v)
        out = np.empty(ret.shape, object)
        for i in np.ndindex(*ret.shape):
            out[i] = self.one(ret[i])
        if out.ndim == 0:
            return out.item()
        return finish(out)


class _Mod(types.ModuleType):

    """Module with lazily delegated attributes."""

    def __init__(self, name, real=None, **over):
        super().__init__(name)
        self.__dict__['_realname'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        realname = self.__dict__.get('_realname')
        if realname is None or name.startswith('__'):
            raise AttributeError(name)
        import importlib
        real = importlib.import_module(realname)
        val = getattr(real, name)
        if isinstance(val, (types.FunctionType, types.BuiltinFunctionType)) or (
                callable(val) and not isinstance(val, type)):
            def fn(*args, **kwargs):
                for a in list(args) + list(kwargs.values()):
                    if has_sym(a) and (is_sym(a) or any(is_sym(v) for v in objarr(a).ravel())):
                        raise Unsupported('%s.%s on symbolic data' % (realname, name))
                return wrap(val(*[_tofloat(a) for a in args],
                                **{k: _tofloat(a) for k, a in kwargs.items()}))
            return fn
        return val


def _tofloat(a):
    if isinstance(a, arrays.SymArray):
        p = arrays.plain(a)
        return p.astype(arrays.infer_dtype(a))
    if isinstance(a, (list, tuple)):
        return type(a)(_tofloat(v) for v in a) if type(a) in (list, tuple) else a
    return a


signal = _Mod('scipy.signal', 'scipy.signal', lfilter=lfilter, lfiltic=lfiltic)


def chirp_phase(t, f0, t1, f1, method='linear', vertex_zero=True):
    """As scipy (linear method only)."""
    if method not in ('linear', 'lin', 'li'):
        raise Unsupported('chirp method %s' % method)
    beta = (f1 - f0) / t1
    return 2 * math.pi * (f0 * t + 0.5 * beta * t * t)


waveforms = _Mod('scipy.signal.waveforms', 'scipy.signal._waveforms', _chirp_phase=chirp_phase)
signal.waveforms = waveforms
interpolate = _Mod('scipy.interpolate', 'scipy.interpolate', interp1d=interp1d)


class _WavFile(types.ModuleType):

    written = []

    def write(self, filepath, rate, data):
        if hasattr(filepath, 'write'):
            raise Unsupported('wave write to file object')
        WAV.append((filepath, rate, data))

    def read(self, filepath):
        raise Unsupported('scipy.io.wavfile.read')


WAV = []


class WaveRead:

    """wave.open(path, 'rb') on recorded files."""

    def __init__(self, path):
        found = [(r, d) for p, r, d in WAV if p == path]
        if not found:
            raise FileNotFoundError(path)
        self.rate, self.data = found[-1]
        if self.data.ndim == 1:
            self.data = self.data.reshape((-1, 1))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def close(self):
        pass

    def getsampwidth(self):
        return 2

    def getframerate(self):
        return self.rate

    def getnframes(self):
        return self.data.shape[0]

    def getnchannels(self):
        return self.data.shape[1]

    def getparams(self):
        raise Unsupported('wave params')

    def readframes(self, n):
        if n != -1 and n < self.getnframes():
            raise Unsupported('partial read')
        return arrays.RawFrames(self.data.ravel())


class _Wave(types.ModuleType):

    Error = Exception

    def open(self, path, mode='rb'):
        if mode not in ('rb', 'r') or not isinstance(path, str):
            raise Unsupported('wave.open')
        return WaveRead(path)


wave = _Wave('wave')
wavfile = _WavFile('scipy.io.wavfile')
sio = _Mod('scipy.io', None, wavfile=wavfile)
scipy = _Mod('scipy', None, signal=signal, interpolate=interpolate, io=sio)

# ------------------------------------------------------------ functools

CACHES = []


def _key(v):
    if isinstance(v, (SNum, SBool)):
        return ('sym', z3.simplify(v.z).sexpr())
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    return (type(v).__name__, v) if isinstance(v, (bool,)) else v


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return lru_cache()(maxsize)

    def deco(fn):
        cache = {}
        CACHES.append(cache)

        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            for v in list(args) + list(kwargs.values()):
                if isinstance(v, np.ndarray):
                    raise TypeError("unhashable type: 'numpy.ndarray'")
            key = (tuple(_key(a) for a in args), tuple(sorted((k, _key(v)) for k, v in kwargs.items())))
            if key not in cache:
                cache[key] = fn(*args, **kwargs)
            return cache[key]
        wrapper.cache_clear = cache.clear
        wrapper.cache_info = lambda: None
        return wrapper
    return deco


functools_proxy = _Mod('functools')
functools_proxy.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith('__')})
functools_proxy.lru_cache = lru_cache
functools_proxy.cache = lru_cache()

# ------------------------------------------------------------ json


class JsonText:

    """Opaque JSON text: carries the structure json.dumps would write."""

    def __init__(self, tree):
        self.tree = tree

    def encode(self, *a):
        return JsonBytes(self)

    def strip(self, *a):
        return self

    def __len__(self):
        return 32

    def __getitem__(self, idx):
        if isinstance(idx, slice) and idx.stop is None and idx.step is None and idx.start in (None, 0, 32):
            return '' if idx.start == 32 else self
        raise Unsupported('slice of a JSON text')

    def __repr__(self):
        return '<json>'

    __str__ = __repr__


class B64Text:

    """Opaque base 64 text of symbolic memory."""

    def __init__(self, raw):
        self.raw = raw

    def decode(self, *a):
        return self

    encode = decode


def make_base64():
    import base64
    mod = _Mod('base64')
    mod.__dict__.update({k: v for k, v in vars(base64).items() if not k.startswith('__')})
    mod.b64encode = lambda s, *a, **kw: B64Text(s) if isinstance(s, RawBytes) else base64.b64encode(s, *a, **kw)
    mod.b64decode = lambda s, *a, **kw: s.raw if isinstance(s, B64Text) else base64.b64decode(s, *a, **kw)
    return mod


class JsonBytes:

    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text

    def __len__(self):
        return 32


def _tree(obj, default=None):
    import json
    if obj is None or isinstance(obj, (str, bool, SBool, SNum, B64Text)) or (
            isinstance(obj, (int, float)) and type(obj) in (int, float)):
        return obj
    if isinstance(obj, (int, float)):
        return obj + 0
    if isinstance(obj, dict):
        return {str(k): _tree(v, default) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_tree(v, default) for v in obj]
    if default is not None:
        return _tree(default(obj), default)
    raise TypeError('Object of type %s is not JSON serializable' % type(obj).__name__)


def _build(tree, hook):
    if isinstance(tree, dict):
        ret = {k: _build(v, hook) for k, v in tree.items()}
        return hook(ret) if hook else ret
    if isinstance(tree, list):
        return [_build(v, hook) for v in tree]
    return tree


def _symtree(obj):
    if is_sym(obj):
        return True
    if isinstance(obj, dict):
        return any(_symtree(v) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return any(_symtree(v) for v in obj)
    return has_sym(obj)


def make_json():
    import json
    mod = _Mod('json')
    mod.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith('__')})

    def dumps(obj, *, cls=None, default=None, **kw):
        if cls is not None:
            return cls(default=default, **kw).encode(obj) if default else cls(**kw).encode(obj)
        return JSONEncoder(default=default).encode(obj)

    def loads(s, *, cls=None, object_hook=None, **kw):
        if isinstance(s, JsonBytes):
            s = s.text
        if isinstance(s, JsonText):
            return _build(s.tree, object_hook)
        return json.loads(s, cls=cls, object_hook=object_hook, **kw)

    class JSONEncoder(json.JSONEncoder):

        def encode(self, o):
            fn = self.default if type(self).default is not json.JSONEncoder.default or \
                'default' in self.__dict__ else None
            return JsonText(_tree(o, fn))

        def iterencode(self, o, _one_shot=False):
            yield self.encode(o)

    class JSONDecoder(json.JSONDecoder):

        def raw_decode(self, s, idx=0):
            if isinstance(s, JsonText):
                return _build(s.tree, self.object_hook), 32
            return super().raw_decode(s, idx)

        def decode(self, s, *a):
            if isinstance(s, JsonText):
                return _build(s.tree, self.object_hook)
            return super().decode(s, *a)

    mod.dumps, mod.loads, mod.JSONEncoder, mod.JSONDecoder = dumps, loads, JSONEncoder, JSONDecoder
    return mod


# ------------------------------------------------------------ time / devices

class Time(types.ModuleType):

    """Clock stub: arbitrary non decreasing instants."""

    def __init__(self):
        super().__init__('time')
        self.last = None

    def _now(self):
        import time
        eng = core.CUR
        if eng is None:
            return time.perf_counter()
        v = eng.fresh_real('clock')
        eng.assume_z(v.z >= (0 if self.last is None or self.last[0] is not eng or
                             self.last[2] != eng.paths + eng.aborted else self.last[1].z))
        self.last = (eng, v, eng.paths + eng.aborted)
        return v

    def perf_counter(self):
        return self._now()

    time = monotonic = process_time = perf_counter

    def sleep(self, t):
        pass


time_proxy = Time()


class _Anything:

    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return _Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Anything()


class _Device(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Anything


pyaudio = _Device('pyaudio')
pyaudio.paFloat32 = 1
pyaudio.paContinue, pyaudio.paComplete, pyaudio.paAbort = 0, 1, 2
rtmidi = _Device('rtmidi')
from symx.standins import pynput
samplerate = _Device('samplerate')


class ConverterType(enum.Enum):
    sinc_best = 0
    sinc_medium = 1
    sinc_fastest = 2
    zero_order_hold = 3
    linear = 4


samplerate.converters = types.SimpleNamespace(ConverterType=ConverterType)
matplotlib = _Device('matplotlib')
requests = _Device('requests')
bs4 = _Device('bs4')

MODULES = {
    'numpy': numpy_proxy, 'numpy.random': numpy_proxy.random, 'math': math_proxy,
    'random': random_proxy, 'scipy': scipy, 'scipy.signal': signal,
    'scipy.signal.waveforms': waveforms, 'scipy.interpolate': interpolate, 'scipy.io': sio,
    'scipy.io.wavfile': wavfile, 'functools': functools_proxy, 'json': make_json(), 'base64': make_base64(),
    'wave': wave, 'time': time_proxy, 're': strings.make_re(), 'pyaudio': pyaudio, 'rtmidi': rtmidi, 'pynput': pynput,
    'pynput.keyboard': pynput.keyboard, 'samplerate': samplerate, 'matplotlib': matplotlib,
    'matplotlib.pyplot': _Device('matplotlib.pyplot'), 'requests': requests, 'bs4': bs4,
}
