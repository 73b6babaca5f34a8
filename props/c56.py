"""C56: progress bar."""
from symx.spec import harness, grid

MODULES = ['klang.progress_bar']
BOUNDS = 'lengths 1..12, widths 0..8, all steps 0..length+1 (symbolic), all non decreasing clocks'
OUTSIDE = 'the estimated time itself is only required to be shown'


def ticks_of(ctx, text, width, prefix):
    a, b = text.index('['), text.index(']')
    ctx.check(b - a - 1 == width, 'fixed width')
    body = text[a + 1:b]
    n = len(body.rstrip(' '))
    ctx.check(body == '*' * n + ' ' * (width - n), 'filled from the left')
    ctx.check(text[:a].strip() == prefix, 'prefix in front')
    ctx.check(text.endswith(' sec'), 'remaining time at the end')
    return n


@harness('C56', quick=grid(width=[0, 1, 4, 7]), thorough=grid(width=[2, 3, 20]))
def bar(ctx, width):
    m = ctx.mod('klang.progress_bar')
    length = ctx.pick('length', 1, 12)
    prefix = ctx.choice('prefix', ['', 'go'])
    p = m.ProgressBar(length, width, prefix)
    i, j = ctx.int('i', 0, 14), ctx.int('j', 0, 14)
    ctx.assume(ctx.And(i <= j, j <= length + 1))
    a, b = ticks_of(ctx, p.render(i), width, prefix), ticks_of(ctx, p.render(j), width, prefix)
    ctx.check(a <= b, 'never decreases')
    if width:
        ctx.check((a == width) == (i >= length - 1), 'full exactly from the last step on')
        ctx.check(ctx.implies(i <= 0, length == 1 or a == 0), 'starts empty')
    ctx.check(p.is_at_end(i) == (i >= length - 1), 'end is the last step')


class Stream:

    def __init__(self):
        self.text = []

    def write(self, text):
        self.text.append(text)

    def flush(self):
        self.text.append(None)


@harness('C56', quick=[{}])
def iterate(ctx):
    m = ctx.mod('klang.progress_bar')
    length = ctx.pick('length', 0, 5)
    stream = Stream()
    ctx.patch(m.ProgressBar, 'stream', stream)
    got = []
    for i in m.ProgressBar.range(length, 3, prefix='x'):
        got.append(i)
        ctx.check(len([t for t in stream.text if t and ']' in t]) == len(got), 'shown before each step')
    ctx.check(got == list(range(length)), 'every step once')
    ctx.check(stream.text.count('\n') == (1 if length else 0), 'line ends after the last step')
    if length:
        last = [t for t in stream.text if t is not None]
        ctx.check(last[-1] == '\n', 'line ends after the last step')
        ctx.check('[***]' in ''.join(last).split('\r')[-1], 'full at the end')
