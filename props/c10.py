"""C10: ring buffer = delay line."""
from symx.spec import harness, grid

MODULES = ['klang.ring_buffer']
BOUNDS = ('buffer sizes 1..4, lengths 1..5 (also shorter than a buffer), capacities up to length+3, every '
          'internal position (reached by a symbolic prefix of up to 2*length appends), 2-3 further operations '
          'out of append / extend / peek / peek_extend / length change, all values symbolic reals')
OUTSIDE = ('blocks longer than the buffer length (more values than the delay line holds), multi channel data '
           'beyond 2 channels')


def apply(ctx, ring, line, size, step, wide):
    """One arbitrary operation on the ring buffer and on the reference line."""
    nmax = min(size, len(line))
    op = ctx.choice('op%d' % step, ['append', 'extend', 'peek', 'peek_extend'])
    if op == 'append':
        v = ctx.real('a%d' % step)
        ring.append(v)
        line = line[1:] + [v]
    elif op == 'peek':
        n = ctx.pick('n%d' % step, 1, nmax)
        ctx.eq(ring.peek(n), ctx.np.array(line[:n]), 'peek shows the values due next')
    else:
        n = ctx.pick('n%d' % step, 1, nmax)
        vals = ctx.reals('e%d_' % step, n)
        if op == 'extend':
            ring.extend(ctx.np.array(vals))
        else:
            out = ring.peek_extend(ctx.np.array(vals))
            ctx.eq(out, ctx.np.array(line[:n]), 'peek_extend returns the values due')
        line = line[n:] + vals
    return line


@harness('C10',
         quick=grid(length=[1, 2, 3, 4, 5], size=[2, 4], extra=[0, 2], steps=[2]) + grid(
             length=[3], size=[3], extra=[0], steps=[3]),
         thorough=grid(length=[1, 2, 3, 4, 5, 6], size=[1, 3], extra=[0, 1, 3], steps=[2]) + grid(
             length=[2, 4, 5], size=[3], extra=[0], steps=[3]))
def delay_line(ctx, length, size, extra, steps):
    RingBuffer = ctx.mod('klang.ring_buffer').RingBuffer
    ring = RingBuffer(length, capacity=length + extra if extra else None, bufferSize=size)
    line = [0.] * length
    k = ctx.pick('k', 0, 2 * length - 1)
    for i in range(k):
        v = ctx.real('p%d' % i)
        ring.append(v)
        line = line[1:] + [v]
    for s in range(steps):
        line = apply(ctx, ring, line, size, s, False)
    n = min(size, length)
    got = ring.peek(n)
    ctx.observe('peek', got)
    ctx.eq(got, ctx.np.array(line[:n]), 'peek shows the values due next')
    ctx.eq(ring.length, length, 'length is kept')
    # drain through append: every stored value comes out once and in order
    for i in range(length):
        ctx.eq(ring.peek(1)[0], line[0], 'values leave in order')
        ring.append(0.)
        line = line[1:] + [0.]


@harness('C10', quick=grid(length=[2, 4], size=[2, 3]), thorough=grid(length=[3, 5, 6], size=[1, 2, 4]))
def extend_is_repeated_append(ctx, length, size):
    RingBuffer = ctx.mod('klang.ring_buffer').RingBuffer
    a, b = RingBuffer(length, bufferSize=size), RingBuffer(length, bufferSize=size)
    k = ctx.pick('k', 0, length - 1)
    n = ctx.pick('n', 1, min(size, length))
    for i in range(k):
        v = ctx.real('p%d' % i)
        a.append(v)
        b.append(v)
    vals = ctx.reals('v', n)
    a.extend(ctx.np.array(vals))
    for v in vals:
        b.append(v)
    m = min(size, length)
    for i in range(length):
        ctx.eq(a.peek(m), b.peek(m), 'extend equals repeated append')
        a.append(0.)
        b.append(0.)


@harness('C10', quick=grid(length=[2, 4], size=[2, 3], new=[1, 2, 3, 5]),
         thorough=grid(length=[1, 3, 5], size=[1, 2, 4], new=[1, 2, 3, 4, 6]))
def new_length(ctx, length, size, new):
    """After a length change (within capacity) and one refill the buffer delays by the new length."""
    RingBuffer = ctx.mod('klang.ring_buffer').RingBuffer
    capacity = 5
    ring = RingBuffer(length, capacity=capacity, bufferSize=size)
    for i in range(ctx.pick('k', 0, length - 1)):
        ring.append(ctx.real('p%d' % i))
    if new > capacity:
        ctx.raises(ValueError, lambda: setattr(ring, 'length', new), 'length above capacity is refused')
        ctx.eq(ring.length, length, 'refused length leaves the old one')
        return
    ring.length = new
    ctx.eq(ring.length, new, 'new length is reported')
    line = []
    for i in range(new):
        v = ctx.real('q%d' % i)
        line.append(v)
        ring.append(v)
    n = min(size, new)
    ctx.eq(ring.peek(n), ctx.np.array(line[:n]), 'delays by the new length')
    vals = ctx.reals('r', n)
    ctx.eq(ring.peek_extend(ctx.np.array(vals)), ctx.np.array(line[:n]), 'delays by the new length')
    line = line[n:] + vals
    for v in line:
        ctx.eq(ring.peek(1)[0], v, 'delays by the new length (drained)')
        ring.append(0.)


@harness('C10', quick=grid(length=[3], size=[2]), thorough=grid(length=[2, 4], size=[2, 3]))
def stereo_and_limits(ctx, length, size):
    RingBuffer = ctx.mod('klang.ring_buffer').RingBuffer
    ring = RingBuffer(length, bufferSize=size, nChannels=2)
    line = [[0., 0.]] * length
    for i in range(ctx.pick('k', 0, length)):
        v = ctx.reals('p%d_' % i, 2)
        ring.append(ctx.np.array(v))
        line = line[1:] + [v]
    n = ctx.pick('n', 1, min(size, length))
    vals = [ctx.reals('e%d_' % i, 2) for i in range(n)]
    out = ring.peek_extend(ctx.np.array(vals))
    ctx.eq(out, ctx.np.array(line[:n]), 'stereo delay line')
    line = line[n:] + vals
    ctx.eq(ring.peek(n), ctx.np.array(line[:n]), 'stereo delay line (after)')
    ctx.raises(ValueError, ring.extend, 'too many samples are refused', ctx.np.zeros((size + 1, 2)))
