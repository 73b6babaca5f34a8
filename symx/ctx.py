"""Context handed to the harnesses; symbolic and concrete flavour share the API."""
from fractions import Fraction


class CheckFailed(BaseException):

    def __init__(self, label, info=None):
        super().__init__(label)
        self.label, self.info = label, info


class AssumptionFailed(BaseException):
    pass


class BaseCtx:

    symbolic = False

    # -- conveniences built on the primitives

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def array(self, name, shape, lo=None, hi=None):
        """Float array of inputs."""
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 1:
            return self.np.array(self.reals(name, shape[0], lo, hi))
        return self.np.array([self.reals('%s%d_' % (name, i), shape[1], lo, hi)
                              for i in range(shape[0])])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.pick(name, 0, 1))

    def fails(self, excs, fn, *args, **kwargs):
        """Exception (of one of the given classes) raised by the call, or None."""
        try:
            fn(*args, **kwargs)
        except excs as err:
            return err
        return None

    def raises(self, excs, fn, label, *args, **kwargs):
        err = self.fails(excs, fn, *args, **kwargs)
        self.check(err is not None, label)
        return err

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def eq(self, a, b, label, tol=1e-9):
        """Deep equality (exact in the symbolic run)."""
        self._eq(a, b, label, tol)

    def _eq(self, a, b, label, tol):
        np = self.np
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            sa, sb = self.shape(a), self.shape(b)
            self.check(sa == sb, '%s (shape)' % label, {'got': str(sa), 'want': str(sb)})
            for x, y in zip(self.flat(a), self.flat(b)):
                self._eqs(x, y, label, tol)
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.check(len(a) == len(b), '%s (length)' % label, {'got': len(a), 'want': len(b)})
            for x, y in zip(a, b):
                self._eq(x, y, label, tol)
        else:
            self._eqs(a, b, label, tol)

    def shape(self, a):
        return tuple(a.shape) if hasattr(a, 'shape') else (len(a),) if isinstance(a, (list, tuple)) else ()

    def flat(self, a):
        if hasattr(a, 'ravel'):
            a = a.ravel()
            return [a[i] for i in range(len(a))]
        return list(a) if isinstance(a, (list, tuple)) else [a]


class ConcCtx(BaseCtx):

    """Replays one assignment on the real code."""

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.patched = []
        self.scratch = None
        import numpy
        self.np = numpy

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def leaks(self, fn):
        """Does fn() leave memory behind?  Judged from the bytes allocated after many calls."""
        import ctypes
        import gc
        import os
        try:
            allocated = getattr(ctypes.CDLL(None), '__sanitizer_get_current_allocated_bytes')
        except AttributeError:
            return False
        allocated.restype = ctypes.c_size_t

        def many(n):
            for _ in range(n):
                try:
                    fn()
                except Exception:
                    pass
            for _ in range(4):
                gc.collect()
            return allocated()
        saved = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        try:
            many(2000)
            n = [many(1000) for _ in range(5)]
        finally:
            os.dup2(saved, 2)
            os.close(saved)
            os.close(null)
        # every single phase grows
        return all(b - a >= 1000 * 24 for a, b in zip(n, n[1:]))

    def drop(self, obj):
        pass

    def log_anchors(self, values):
        pass

    def coefficient(self, c, ratio):
        import math
        return -math.log(ratio) / math.log(c)

    def _get(self, name):
        if name not in self.values:
            raise AssumptionFailed('no value for %s' % name)
        return self.values[name]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = float(Fraction(self._get(name)))
        if (lo is not None and (v < lo or (lo_open and v <= lo))) or \
                (hi is not None and (v > hi or (hi_open and v >= hi))):
            raise AssumptionFailed(name)
        return v

    def frac(self, name, lo=None, hi=None):
        return Fraction(self._get(name))

    def int(self, name, lo, hi):
        return int(self._get(name))

    pick = int

    def bool(self, name):
        return bool(self._get(name))

    def text(self, name, n, alphabet=None):
        return ''.join(chr(self.int('%s%d' % (name, i), 32, 126)) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label, info=None):
        if not cond:
            raise CheckFailed(label, info)

    def _eqs(self, a, b, label, tol):
        num = (int, float, Fraction)
        if isinstance(a, self.np.generic):
            a = a.item()
        if isinstance(b, self.np.generic):
            b = b.item()
        if isinstance(a, num) and isinstance(b, num):
            if a != a or b != b:
                raise CheckFailed(label, {'got': repr(a), 'want': repr(b)})
            scale = max(1., abs(a), abs(b))
            if not abs(a - b) <= tol * scale:
                raise CheckFailed(label, {'got': repr(a), 'want': repr(b)})
        elif not a == b:
            raise CheckFailed(label, {'got': repr(a), 'want': repr(b)})

    def le(self, a, b, label, tol=1e-9):
        if not a <= b + tol * max(1., abs(b)):
            raise CheckFailed(label, {'got': repr(a), 'bound': repr(b)})

    lt = le

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *args):
        return all(bool(a) for a in args)

    def Or(self, *args):
        return any(bool(a) for a in args)

    def Not(self, a):
        return not a

    def floor(self, x):
        import math
        return math.floor(x)

    def min(self, *a):
        return min(*a)

    def max(self, *a):
        return max(*a)

    def observe(self, name, value):
        self.observed.append((name, _plain(value)))

    def patch(self, obj, name, value):
        had = name in vars(obj) if not isinstance(obj, dict) else False
        self.patched.append((obj, name, had, getattr(obj, name, None)))
        setattr(obj, name, value)

    def wav_path(self, name='out.wav'):
        """Path for a WAV file in a scratch directory."""
        import os
        import tempfile
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='symx')
        return os.path.join(self.scratch, name)

    def wav_make(self, name, rate, frames):
        """16 bit WAV file with the given integer frames (rows)."""
        import wave
        path = self.wav_path(name)
        with wave.open(path, 'wb') as fp:
            fp.setnchannels(len(frames[0]))
            fp.setsampwidth(2)
            fp.setframerate(rate)
            fp.writeframes(self.np.array(frames, dtype='<i2').tobytes())
        return path

    def wav_read(self, path):
        """(rate, integer frames) of a WAV file."""
        import wave
        with wave.open(path, 'rb') as fp:
            raw = self.np.frombuffer(fp.readframes(-1), dtype='<i2').reshape((-1, fp.getnchannels()))
            if fp.getsampwidth() != 2:
                raise CheckFailed('16 bit file')
            return fp.getframerate(), [[int(v) for v in row] for row in raw]

    def undo(self):
        if self.scratch is not None:
            import shutil
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None
        for obj, name, had, old in reversed(self.patched):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass


def _plain(v):
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    return str(v)
