"""C64: layouts and labels of plots."""
import re
from fractions import Fraction

from symx.spec import harness, grid

MODULES = ['klang.plotting', 'klang.music.pitch', 'klang.music.scales']
BOUNDS = ('up to 420 (thorough 1600) subplots; ticks at every fraction with denominator up to 10 and numerator -25 to 25 of four '
          'bases, and up to 3 ticks per axis; every pitch of the circle of fifths')
OUTSIDE = 'drawing itself (matplotlib: stand-in for the axes)'


@harness('C64', quick=grid(lo=[1, 141, 281]), thorough=grid(lo=[421 + 140 * k for k in range(9)]))
def shape(ctx, lo):
    m = ctx.mod('klang.plotting')
    n = ctx.pick('n', lo, lo + 139)
    rows, cols = [int(k) for k in m.nice_plotting_shape(n)]
    ctx.check(rows >= 1 and cols >= 1 and rows * cols >= n, 'room for every subplot', {'n': n})
    ctx.check(rows * (cols - 1) < n and (rows - 1) * cols < n, 'no empty row or column', {'n': n})
    ctx.check(abs(rows - cols) <= 2, 'about a square', {'n': n})


def value(label, symbol):
    """Number a label denotes, in units of the base (None if there is no such number)."""
    text = label.strip('$').replace(' ', '').replace(symbol, 'S')
    found = re.fullmatch(r'(-?)\\frac\{(-?\d*)(S?)\}\{(\d+)\}(S?)', text)
    if found:
        sign, num, up, den, right = found.groups()
        if bool(up) == bool(right):
            return None
        num = {'': 1, '-': -1}[num] if num in ('', '-') else int(num)
        return Fraction(num, int(den)) * (-1 if sign else 1)
    found = re.fullmatch(r'(-?\d*)S', text)
    if found:
        num = found.group(1)
        return Fraction({'': 1, '-': -1}[num] if num in ('', '-') else int(num))
    return Fraction(0) if text in ('0', '0S') else None


BASES = [6.283185307179586, 1., .25, 12.]


@harness('C64', quick=grid(base=range(4), den=range(1, 11)))
def ticks(ctx, base, den):
    m = ctx.mod('klang.plotting')
    num = ctx.pick('num', -25, 25)
    got = m.fraction_ticks([num / den * BASES[base]], BASES[base], 'x')
    ctx.check(len(got) == 1 and value(got[0], 'x') == Fraction(num, den), 'the label denotes the tick', {'num': num, 'label': str(got)})


class Axes:

    """Records what is set."""

    def __init__(self, ticks=()):
        self.ticks = list(ticks)
        self.labels = None

    def get_xticks(self):
        return self.ticks

    def set_xticks(self, ticks):
        self.ticks = list(ticks)

    def set_xticklabels(self, labels):
        self.labels = list(labels)

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


@harness('C64', quick=grid(n=[0, 1, 2, 3]))
def radians(ctx, n):
    m = ctx.mod('klang.plotting')
    ctx.int('unused', 0, 1)
    want = [Fraction(ctx.pick('num%d' % k, -4, 4), ctx.pick('den%d' % k, 1, 2) * 2) for k in range(n)] if n < 3 else [
        Fraction(ctx.pick('num%d' % k, -3, 3), 4) for k in range(n)]
    ax = Axes(float(f) * BASES[0] for f in want)
    m.set_radian_xticks(ax)
    ctx.check([value(s, r'\tau') for s in ax.labels] == want, 'one label per tick, as fraction of a turn', {'labels': str(ax.labels)})


@harness('C64', quick=[{}])
def circle(ctx):
    """Each label is a fifth from its neighbour, a twelfth of a turn away."""
    m = ctx.mod('klang.plotting')
    names = list(ctx.mod('klang.music.pitch').PITCH_NAMES)
    ax = Axes()
    m.format_circle_of_fifth_polar_plot(ax)
    k = ctx.pick('k', 0, 11)
    angles = [float(a) for a in ax.ticks]
    ctx.check(len(angles) == 12 and len(ax.labels) == 12, 'twelve pitches')
    ctx.eq((angles[k] - k * BASES[0] / 12 + 1.) % BASES[0], 1., 'equal parts of the turn', tol=1e-8)
    ctx.check(str(ax.labels[k]) == names[7 * k % 12], 'fifths next to each other', {'k': k})
