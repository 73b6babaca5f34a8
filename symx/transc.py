"""Transcendental functions as uninterpreted functions plus sound axioms.

Every axiom that is asserted is true of the real function, so everything proved is
true of the real function; a counterexample may be spurious and has to reproduce
on the real code before it is reported.
"""
import math

import z3

from symx.core import (SInt, SReal, SNum, SBool, Unsupported, PI, engine, ideal, is_sym, zreal,
                       floor)

_UF = {}


def uf(name):
    if name not in _UF:
        _UF[name] = z3.Function('fn_' + name, z3.RealSort(), z3.RealSort())
    return _UF[name]


def _q(x):
    f = ideal(x)
    return z3.Q(f.numerator, f.denominator)


def _rat(x):
    """Enclosure of a double result by +-1e-12 relative slack."""
    from fractions import Fraction
    f = Fraction(x)
    slack = abs(f) / 10**12 + Fraction(1, 10**15)
    lo, hi = f - slack, f + slack
    return z3.Q(lo.numerator, lo.denominator), z3.Q(hi.numerator, hi.denominator)


def _apps(name):
    return [(a, r) for n, a, r in engine().ufApps if n == name]


def _apply(name, x):
    """New application y = f(x), returns (y, old applications)."""
    eng = engine()
    old = _apps(name)
    for a, r in old:
        if a.eq(x):
            return r, None
    y = uf(name)(x)
    eng.ufApps.append((name, x, y))
    return y, old


def exp(x):
    if not is_sym(x):
        return math.exp(x)
    zx = z3.simplify(zreal(x))
    if z3.is_rational_value(zx):
        return math.exp(float(zx.as_fraction()))
    y, old = _apply('exp', zx)
    if old is not None:
        eng = engine()
        eng.assume_z(z3.And(y > 0, y >= 1 + zx,
                            (zx == 0) == (y == 1), (zx > 0) == (y > 1)))
        for a, r in old:
            eng.assume_z(z3.And((zx < a) == (y < r), (zx == a) == (y == r)))
            # functional equation for applications that differ by another argument
    return SReal(y)


def log(x, base=None):
    if not is_sym(x):
        r = math.log(x)
    else:
        if x <= 0:
            raise ValueError('math domain error')
        zx = z3.simplify(zreal(x))
        if z3.is_rational_value(zx):
            r = math.log(float(zx.as_fraction()))
        else:
            y, old = _apply('log', zx)
            if old is not None:
                eng = engine()
                eng.assume_z(z3.And(y <= zx - 1, (zx == 1) == (y == 0), (zx > 1) == (y > 0)))
                # concave: below its tangents, above its chords
                anchors = sorted(set(eng.__dict__.get('logAnchors', ())))
                for i, c in enumerate(anchors):
                    lo, hi = _rat(math.log(c))
                    eng.assume_z(z3.And(y <= hi + (zx - _q(c)) / _q(c), z3.Implies(zx >= _q(c), y >= lo)))
                    if i:
                        b, low = _q(anchors[i - 1]), _rat(math.log(anchors[i - 1]))[0]
                        eng.assume_z(z3.Implies(z3.And(zx >= b, zx <= _q(c)),
                                                y >= low + (lo - low) * (zx - b) / (_q(c) - b)))
                for a, q in old:
                    eng.assume_z(z3.And((zx < a) == (y < q), (zx == a) == (y == q)))
            r = SReal(y)
    if base is not None:
        r = r / (log(base) if is_sym(base) else math.log(base))
    return r


def log2(x):
    if not is_sym(x):
        return math.log2(x)
    if x <= 0:
        raise ValueError('math domain error')
    zx = z3.simplify(zreal(x))
    eng = engine()
    for name, a, r in eng.ufApps:
        if name == 'pow2.0' and r.eq(zx):
            return SReal(a)
    y, old = _apply('log2', zx)
    if old is not None:
        eng.assume_z(z3.And((zx == 1) == (y == 0), (zx > 1) == (y > 0), (zx == 2) == (y == 1), (zx > 2) == (y > 1)))
        for a, r in old:
            eng.assume_z(z3.And((zx < a) == (y < r), (zx == a) == (y == r), (zx == 2 * a) == (y == r + 1),
                                (a == 2 * zx) == (r == y + 1)))
        for name, a, r in eng.ufApps:
            if name == 'pow2.0':
                eng.assume_z(z3.And((r < zx) == (a < y), (r == zx) == (a == y)))
    return SReal(y)


def log10(x):
    return log(x) / math.log(10) if is_sym(x) else math.log10(x)


def sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    if x < 0:
        raise ValueError('math domain error')
    raw = zreal(x)
    zx = z3.simplify(raw)
    y, old = _apply('sqrt', zx)
    if old is not None:
        _product_lemmas(raw)
        engine().assume_z(z3.And(y >= 0, y * y == zx, (zx == 0) == (y == 0),
                                 (zx <= 1) == (y <= 1)))
        for a, r in old:
            engine().assume_z(z3.And((zx < a) == (y < r), (zx == a) == (y == r)))
    return SReal(y)


def _factors(z_):
    if z3.is_mul(z_):
        ret = []
        for c in z_.children():
            ret.extend(_factors(c))
        return ret
    return [z_]


def _product_lemmas(raw):
    """0 <= u <= v and 0 <= s <= t imply u s <= v t (a help for the solver, true of all reals)."""
    eng = engine()
    new = _factors(raw)
    const = [f for f in new if z3.is_rational_value(f)]
    new = [f for f in new if not z3.is_rational_value(f)]
    if len(new) != 2:
        return
    k = z3.simplify(z3.Product(const)) if const else z3.RealVal(1)
    if not (z3.is_rational_value(k) and k.as_fraction() > 0):
        return
    seen = eng.__dict__.setdefault('products', [])
    u, s = new
    kz = z3.simplify(raw)
    for (v, t), q, oz in seen:
        if q != k.as_fraction():
            continue
        for a, b in ((v, t), (t, v)):
            eng.assume_z(z3.And(
                z3.Implies(z3.And(u >= 0, s >= 0, u <= a, s <= b), kz <= oz),
                z3.Implies(z3.And(a >= 0, b >= 0, a <= u, b <= s), oz <= kz)))
    seen.append(((u, s), k.as_fraction(), kz))


def power(base, n):
    """base ** n for real n."""
    if not is_sym(base) and not is_sym(n):
        return base ** n
    if not is_sym(base):
        # monotone exponential
        if base <= 0:
            raise Unsupported('power with non positive base')
        zn = z3.simplify(zreal(n))
        name = 'pow%r' % float(base)
        eng = engine()
        if base == 2:
            for other, a, r in eng.ufApps:
                if other == 'log2' and r.eq(zn):
                    return SReal(a)
        y, old = _apply(name, zn)
        if old is not None:
            if base == 2:
                for other, a, r in eng.ufApps:
                    if other == 'log2':
                        eng.assume_z(z3.And((zn < r) == (y < a), (zn == r) == (y == a)))
            up = base > 1
            eng.assume_z(z3.And(y > 0, (zn == 0) == (y == 1),
                                ((zn > 0) if up else (zn < 0)) == (y > 1)))
            for a, r in old:
                eng.assume_z(z3.And(((zn < a) if up else (zn > a)) == (y < r),
                                    (zn == a) == (y == r)))
                for k in (-2, -1, 1, 2):
                    lo, hi = _rat(float(base) ** k)
                    eng.assume_z(z3.Implies(zn == a + k, z3.And(y >= lo * r, y <= hi * r)))
            for k in (-2, -1, 1, 2):
                lo, hi = _rat(float(base) ** k)
                eng.assume_z(z3.Implies(zn == k, z3.And(y >= lo, y <= hi)))
        return SReal(y)
    if not is_sym(n):
        # x ** c for constant non-integer c
        if base < 0:
            raise ValueError('negative number cannot be raised to a fractional power')
        if base == 0:
            if n < 0:
                raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            return 0.
        zb = z3.simplify(zreal(base))
        name = 'xpow%r' % float(n)
        y, old = _apply(name, zb)
        if old is not None:
            eng = engine()
            up = n > 0
            eng.assume_z(z3.And(y > 0, (zb == 1) == (y == 1),
                                ((zb > 1) if up else (zb < 1)) == (y > 1)))
            if up:
                dev = _q(abs(n - 1))
                eng.assume_z(z3.Implies(zb <= 1, z3.And(
                    (y <= zb) if n >= 1 else (y >= zb), y - zb <= dev, zb - y <= dev)))
            for a, r in old:
                eng.assume_z(z3.And(((zb < a) if up else (zb > a)) == (y < r),
                                    (zb == a) == (y == r)))
        return SReal(y)
    raise Unsupported('symbolic ** symbolic')


def _trig(x):
    """sin and cos of a symbolic angle (as a pair of reals).

    pi is idealised: doubles which are short multiples of math.pi stand for multiples
    of one rational (core.PI), and the axioms are those of sin / cos with that rational
    as the half turn."""
    eng = engine()
    zx = z3.simplify(zreal(x))
    s, old = _apply('sin', zx)
    c, _ = _apply('cos', zx)
    if old is not None:
        half, quarter = _q(PI), _q(PI / 2)
        eng.assume_z(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
        eng.assume_z(z3.And(
            z3.Implies(zx == 0, z3.And(s == 0, c == 1)),
            z3.Implies(zx == quarter, z3.And(s == 1, c == 0)),
            z3.Implies(zx == half, z3.And(s == 0, c == -1)),
            z3.Implies(z3.And(zx > 0, zx < quarter), z3.And(s > 0, c > 0, s < zx, s < 1, c < 1)),
            z3.Implies(z3.And(zx > quarter, zx < half), z3.And(s > 0, c < 0)),
            z3.Implies(z3.And(zx > half, zx < 2 * half), s < 0),
            z3.Implies(zx == quarter / 2, s == c),
        ))
        for a, r in old:
            rc = uf('cos')(a)
            eng.assume_z(z3.And(
                z3.Implies(zx == a, z3.And(s == r, c == rc)),
                z3.Implies(zx == -a, z3.And(s == -r, c == rc)),
                z3.Implies(zx + a == quarter, z3.And(s == rc, c == r)),
                z3.Implies(z3.And(zx >= a, zx <= quarter, a >= 0), z3.And(s >= r, c <= rc)),
                z3.Implies(z3.And(zx <= a, a <= quarter, zx >= 0), z3.And(s <= r, c >= rc)),
            ))
    return SReal(s), SReal(c)


def sin(x):
    if not is_sym(x):
        return math.sin(x)
    return _trig(x)[0]


def cos(x):
    if not is_sym(x):
        return math.cos(x)
    return _trig(x)[1]


def tan(x):
    s, c = _trig(x)
    return s / c


def tanh(x):
    if not is_sym(x):
        return math.tanh(x)
    zx = z3.simplify(zreal(x))
    y, old = _apply('tanh', zx)
    if old is not None:
        eng = engine()
        eng.assume_z(z3.And(y > -1, y < 1, (zx == 0) == (y == 0), (zx > 0) == (y > 0),
                            z3.Implies(zx > 0, y <= zx), z3.Implies(zx < 0, y >= zx)))
        for a, r in old:
            eng.assume_z(z3.And((zx < a) == (y < r), (zx == a) == (y == r),
                                z3.Implies(zx == -a, y == -r)))
    return SReal(y)
