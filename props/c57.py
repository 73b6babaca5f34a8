"""C57: mathematical helpers."""
from fractions import Fraction

from symx.spec import harness, grid

MODULES = ['klang.math']
BOUNDS = 'all reals (wrap: +-1000); integers -64..300 (symbolic); value lists of 4'
OUTSIDE = 'rounding of floating point, NaN and infinities'


@harness('C57')
def wrap(ctx):
    m, pi = ctx.mod('klang.math'), ctx.mod('math').pi
    x = ctx.real('x', -1000, 1000)
    w = m.wrap(x)
    ctx.le(-pi, w, 'not below minus pi')
    ctx.lt(w, pi, 'below pi')
    turns = (x - w) / (2. * pi)
    ctx.check(abs(turns - ctx.floor(turns + .5)) <= 1e-6, 'whole turns away')
    ctx.check(ctx.implies(ctx.And(x > -pi, x < pi), abs(w - x) <= 1e-9), 'identity inside')


@harness('C57')
def wrap_ends(ctx):
    """Both ends are the same direction, written as the lower one."""
    m, pi = ctx.mod('klang.math'), ctx.mod('math').pi
    x = pi * (2 * ctx.pick('upper', 0, 1) - 1)
    ctx.check(abs(m.wrap(x) + pi) <= 1e-9, 'ends map to minus pi')
    ctx.check(abs(m.wrap(ctx.np.array([x]))[0] + pi) <= 1e-9, 'ends map to minus pi, arrays')


@harness('C57', quick=grid(kind=['real', 'int']))
def clip(ctx, kind):
    m = ctx.mod('klang.math')
    new = ctx.real if kind == 'real' else lambda n: ctx.int(n, -50, 50)
    x, lo, hi = new('x'), new('lo'), new('hi')
    ctx.assume(lo <= hi)
    y = m.clip(x, lo, hi)
    ctx.check(ctx.And(y >= lo, y <= hi), 'within the bounds')
    ctx.check(ctx.implies(ctx.And(x >= lo, x <= hi), y == x), 'identity inside')
    ctx.check(ctx.implies(x < lo, y == lo), 'lower bound')
    ctx.check(ctx.implies(x > hi, y == hi), 'upper bound')
    ctx.check(m.clip(x, lower=lo, upper=hi) == y, 'by keyword')


@harness('C57', quick=grid(kind=['scalar', 'array']))
def blend(ctx, kind):
    m = ctx.mod('klang.math')
    a, b = (ctx.array('a', 3), ctx.array('b', 3)) if kind == 'array' else (ctx.real('a'), ctx.real('b'))
    x = ctx.real('x', -1, 2)
    y = m.blend(a, b, x)
    for u, v, w in zip(ctx.flat(a), ctx.flat(b), ctx.flat(y)):
        ctx.eq(w, u + x * (v - u), 'linear between both')
    ctx.eq(m.blend(a, b, 0.), a, 'first end')
    ctx.eq(m.blend(a, b, 1.), b, 'second end')
    if kind == 'scalar':
        ctx.eq(m.blend(b, a, 1. - x), y, 'mirrored')


@harness('C57')
def mapping(ctx):
    m = ctx.mod('klang.math')
    x0, x1, y0, y1 = ctx.reals('v', 4, -100, 100)
    ctx.assume(ctx.Or(x1 - x0 > .01, x0 - x1 > .01))
    a, b = m.linear_mapping((x0, x1), (y0, y1))
    ctx.eq(a * x0 + b, y0, 'start of the range', tol=1e-6)
    ctx.eq(a * x1 + b, y1, 'end of the range', tol=1e-6)


@harness('C57')
def normalize(ctx):
    m = ctx.mod('klang.math')
    x = ctx.array('x', 4, -1000, 1000)
    x0 = x.copy()
    if ctx.fails((ValueError,), m.normalize_values, x) is not None:
        ctx.check(ctx.And(*[v == 0. for v in ctx.flat(x0)]), 'only silence can not be normalised')
        return
    peak = ctx.max(*[abs(v) for v in ctx.flat(x0)])
    ctx.check(peak > 0., 'silence can not be normalised')
    y = m.normalize_values(x)
    for u, v in zip(ctx.flat(x0), ctx.flat(y)):
        ctx.eq(v * peak, u, 'scaled by the greatest magnitude')
    ctx.eq(x, x0, 'argument is not modified')


@harness('C57')
def integers(ctx):
    m = ctx.mod('klang.math')
    n = ctx.int('n', -64, 300)
    ctx.check(m.is_power_of_two(n) == ctx.Or(*[n == 2 ** k for k in range(9)]), 'power of two')
    d = ctx.int('d', 1, 40)
    q = ctx.int('q', -20, 20)
    r = ctx.int('r', 0, 39)
    ctx.assume(r < d)
    ctx.check(m.is_divisible(q * d + r, d) == (r == 0), 'no remainder')


@harness('C57')
def dyadic(ctx):
    m = ctx.mod('klang.math')
    den = ctx.pick('den', 1, 48)
    num = ctx.pick('num', -3, 9)
    f = Fraction(num, den)
    ctx.check(m.is_dyadic(f) == (f.denominator in [2 ** k for k in range(7)]), 'denominator is a power of two')


@harness('C57', quick=grid(a=[1, 4, -6, 12]), thorough=grid(a=[5, 7, -8, 9, 10, -12]))
def lcm(ctx, a):
    m = ctx.mod('klang.math')
    b = ctx.int('b', -24, 24)
    ctx.assume(ctx.Or(b < 0, b > 0))
    c = m.lcm(a, b)
    ctx.check(type(c).__name__ in ('int', 'SInt'), 'an integer')
    ctx.check(ctx.And(c % a == 0, c % b == 0, c > 0), 'common multiple')
    k = ctx.int('k', 1, 300)
    ctx.check(ctx.implies(ctx.And(k % a == 0, k % b == 0), c <= k), 'the least one')


@harness('C57')
def sign(ctx):
    m = ctx.mod('klang.math')
    x = ctx.real('x')
    ctx.check(m.sign(x) == ctx.ite(x < 0, -1., 1.), 'sign')
