"""Install the fractions module of the Python version klang runs on (3.9)."""
import importlib.util
import os
import sys

PATHS = ('/usr/lib/pypy3.9/fractions.py',)


def install():
    if getattr(sys.modules.get('fractions'), '__sx__', False):
        return
    path = next((p for p in PATHS if os.path.exists(p)), None)
    if path is None:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fractions39.py')
    spec = importlib.util.spec_from_file_location('fractions', path)
    mod = importlib.util.module_from_spec(spec)
    mod.__sx__ = True
    sys.modules['fractions'] = mod
    spec.loader.exec_module(mod)


def symbolic(Fraction, core):
    """Fractions of symbolic integers: unnormalised ones keep their parts,
    normalised ones become symbolic rationals (their value is all that counts)."""
    real = Fraction.__new__

    def new(cls, numerator=0, denominator=None, *, _normalize=True):
        if core.is_sym(numerator) or core.is_sym(denominator):
            if denominator is None:
                if isinstance(numerator, core.SInt):
                    denominator, _normalize = 1, False
                elif cls is Fraction:
                    return core.SFrac(core.zreal(numerator))
                else:
                    raise core.Unsupported('fraction type of a symbolic number')
            if denominator == 0:
                raise ZeroDivisionError('Fraction(%s, 0)' % numerator)
            if _normalize or isinstance(numerator, core.SReal) or isinstance(denominator, core.SReal):
                if cls is not Fraction:
                    raise core.Unsupported('fraction type of a symbolic number')
                return core.SFrac(core.zreal(numerator) / core.zreal(denominator))
            if cls is not Fraction:
                raise core.Unsupported('fraction type of a symbolic number')
            return core.SPair(numerator.numerator * denominator.denominator,
                              denominator.numerator * numerator.denominator)
        return real(cls, numerator, denominator, _normalize=_normalize)

    Fraction.__new__ = staticmethod(new)
