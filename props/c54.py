"""C54: network objects."""
from symx.spec import harness, grid

MODULES = ['klang.network', 'klang.messages']
BOUNDS = ('arrays up to shape (2, 3) with symbolic values, contiguous, transposed, strided and reversed; 13 further element types / byte orders with 3 values each (solver enumerated); datagrams of every length up to the buffer size; notes with symbolic pitch, velocity and frequency; plain '
          'JSON values; every sequence of 3 datagrams out of 8 valid and 16 malformed kinds (malformed notes: symbolic pitch and velocity)')
OUTSIDE = ('the operating system (a recording stand-in for the sockets); datagrams longer than the receive buffer; the digits json writes for floats (exact '
           'round trip of Python floats assumed); an empty datagram ends the round, the rest arrives with the next update')


class Socket:

    def __init__(self, net, family, type_):
        self.net, self.family, self.type, self.blocking, self.bound = net, family, type_, True, None

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, value):
        self.blocking = value != 0

    def bind(self, address):
        self.bound = address

    def recv(self, size, *flags):
        if not self.net.waiting:
            if self.blocking:
                raise AssertionError('the receiver would block the engine')
            raise BlockingIOError()
        data = self.net.waiting.pop(0)
        return data[:size] if isinstance(data, bytes) else data

    def recvfrom(self, size, *flags):
        return self.recv(size), None

    def sendto(self, data, address):
        self.net.waiting.append(data)
        self.net.addresses.append(address)
        return len(data)

    def fileno(self):
        return 3

    def close(self):
        pass


class Net:

    """Stand-in for the socket module."""

    AF_INET, AF_UNIX, SOCK_DGRAM = 2, 1, 2

    def __init__(self):
        self.waiting, self.addresses = [], []

    def socket(self, family=2, type=1, *args, **kw):
        return Socket(self, family, type)


def network(ctx):
    import logging
    ctx.patch(logging.getLogger('JsonCourier'), 'disabled', True)
    ctx.patch(logging.getLogger('klang.network'), 'disabled', True)
    m = ctx.mod('klang.network')
    net = Net()
    ctx.patch(m, 'socket', net)
    return m, net


ADDRESS = ('127.0.0.1', 9999)
SHAPES = [(3,), (2, 3), (), (0,), (1, 1)]


@harness('C54', quick=grid(shape=list(range(len(SHAPES))), layout=['plain', 'transposed', 'strided', 'reversed']), timeout=60)
def arrays(ctx, shape, layout):
    """Arrays arrive with their values, types and shapes."""
    m, net = network(ctx)
    shape = SHAPES[shape]
    if shape == ():
        x = ctx.np.array([ctx.real('x', -10., 10.)]).reshape(())
    elif 0 in shape:
        x = ctx.np.zeros(shape)
    else:
        x = ctx.array('x', shape, -10., 10.)
    if layout == 'transposed':
        x = x.T
    elif layout == 'strided' and shape:
        x = x[::2]
    elif layout == 'reversed' and shape:
        x = x[::-1]
    tx, rx = m.NetworkOut(ADDRESS), m.NetworkIn(ADDRESS)
    tx.input.set_value(x)
    tx.update()
    ctx.check(net.addresses == [ADDRESS], 'one datagram for each update')
    rx.update()
    y = rx.output.value
    ctx.check(isinstance(y, ctx.np.ndarray), 'arrays stay arrays')
    ctx.check(str(y.dtype) == str(x.dtype), 'types stay')
    ctx.eq(y, x, 'values and shape arrive')


TYPES = ['<i4', '>i4', '|i1', '|u1', '<u2', '>i8', '<f8', '>f8', '<f4', '>f4', '|b1', '<U2', '|S2']
EXTREMES = {'i': [-1, 'min', 'max'], 'u': [1, 258, 'max'], 'f': [-1.5, 1e-300, float('inf')], 'b': [True, False, True],
            'U': ['a', '\xe4\u20ac', ''], 'S': [b'a', b'\xff\x01', b'']}


@harness('C54', quick=grid(shape=[(2,), (2, 1)]), timeout=60)
def types(ctx, shape):
    """Arrays of other types and byte orders arrive unchanged."""
    m, net = network(ctx)
    np, shape = ctx.np, tuple(shape)
    dtype = ctx.choice('dtype', TYPES)
    kind = dtype[1]
    values = []
    for k in range(2):
        v = EXTREMES[kind][ctx.pick('value%d' % k, 0, 2)]
        if v in ('min', 'max') and kind in 'iu':
            v = int(getattr(np.iinfo(dtype), v))
        elif kind == 'u':
            v = v % 256 if dtype == '|u1' else v
        elif dtype[1:] == 'f4' and v == 1e-300:
            v = .25
        values.append(v)
    x = np.array(values, dtype).reshape(shape)
    tx, rx = m.NetworkOut(ADDRESS), m.NetworkIn(ADDRESS)
    tx.input.set_value(x)
    tx.update()
    rx.update()
    y = rx.output.value
    ctx.check(isinstance(y, np.ndarray) and y.shape == shape, 'shapes stay')
    ctx.check(y.dtype.kind == kind and y.dtype.itemsize == x.dtype.itemsize, 'types stay')
    ctx.check(y.tolist() == x.tolist(), 'values arrive')


@harness('C54', quick=[{}])
def chunks(ctx):
    """Datagrams of any length which fits the buffer are handed on."""
    m, net = network(ctx)
    size = ctx.pick('size', 1, 4)
    data = []
    for k in range(3):
        n = ctx.pick('n%d' % k, 1, 4)
        ctx.assume(n <= size)
        data.append(bytes([65 + k]) * n)
    net.waiting.extend(data)
    sock = m.create_socket_from_address(ADDRESS)
    ctx.check(list(m.receive_all_from(sock, size)) == data, 'every datagram once, in order')
    ctx.check(list(m.receive_all_from(sock, size)) == [], 'nothing is repeated')


@harness('C54', quick=[{}])
def integers(ctx):
    m, net = network(ctx)
    x = ctx.np.array([ctx.int('x%d' % i, -100, 100) for i in range(3)])
    ctx.eq(m.array_from_dict(m.array_to_dict(x)), x, 'values and shape arrive')


@harness('C54', quick=[{}])
def notes(ctx):
    m, net = network(ctx)
    messages = ctx.mod('klang.connections')
    Note = ctx.mod('klang.messages').Note
    tx, rx = m.NetworkMessageOut(ADDRESS), m.NetworkMessageIn(ADDRESS)
    sink = messages.MessageInput()
    rx.output.connect(sink)
    sent = []
    for k in range(2):
        sent.append(Note(ctx.int('p%d' % k, 0, 127), ctx.real('v%d' % k, 0., 1.), ctx.real('f%d' % k, 0., 20000.)))
        tx.input.push(sent[-1])
    tx.update()
    ctx.check(len(net.waiting) == 2, 'one datagram for each message')
    rx.update()
    got = list(sink.receive())
    ctx.check(len(got) == 2, 'every message arrives once')
    for g, s in zip(got, sent):
        ctx.check(isinstance(g, Note), 'notes stay notes')
        ctx.eq([g.pitch, g.velocity, g.frequency], [s.pitch, s.velocity, s.frequency], 'notes arrive as they are')
    tx.update()
    rx.update()
    ctx.check(not net.addresses[2:] and not list(sink.receive()), 'nothing is repeated')


RAW = [b'\xff\xfe', b'{"a":', b'nonsense', b'{"type":"Note"}', b'{"type":"Note","pitch":"x"}', b'{"type":"Note","pitch":null}',
       b'{"type":"ndarray"}', b'{"type":"ndarray","dtype":"zz","shape":[1],"data":""}',
       b'{"type":"ndarray","dtype":"float64","shape":[1],"data":"A"}', b'{"type":"ndarray","dtype":"float64","shape":[2],"data":""}',
       b'{"type":"ndarray","dtype":"float64","shape":["a"],"data":"AAAAAAAAAAA="}', b'{"type":"ndarray","dtype":[],"shape":1,"data":3}',
       b'{"type":"Note","pitch":60,"loudness":1}', b'[' * 1000, b'\x00']
PLAIN = [7, 'text', None, True, [1, 2.5], {'a': {'b': 1}}, 1022 * 'x', '\xe4 \u20ac']


def datagram(ctx, m, net, k, kind):
    """Queues one datagram, returns the objects it holds."""
    Note = ctx.mod('klang.messages').Note
    sender = m.JsonCourier(ADDRESS)
    if kind == 'number':
        obj = ctx.real('x%d' % k, -10., 10.)
        sender.send_object(obj)
        return [obj]
    if kind == 'note':
        obj = Note(ctx.int('p%d' % k, 0, 127), ctx.real('v%d' % k, 0., 1.), 440.)
        sender.send_object(obj)
        return [obj]
    if kind == 'array':
        obj = ctx.array('a%d_' % k, 2, -1., 1.)
        sender.send_object(obj)
        return [obj]
    if kind == 'plain':
        obj = PLAIN[ctx.pick('plain%d' % k, 0, len(PLAIN) - 1)]
        sender.send_object(obj)
        return [obj]
    if kind == 'several':
        net.waiting.append(b'[1]{"a":2}')
        return [[1], {'a': 2}]
    if kind == 'rubbish':
        net.waiting.append(b'[1]}rubbish')
        return [[1]]
    if kind == 'empty':
        net.waiting.append(b'')
        return []
    if kind == 'invalid':
        pitch, velocity = ctx.int('p%d' % k, -50, 200), ctx.real('v%d' % k, -2., 2.)
        sender.send_object({'type': 'Note', 'pitch': pitch, 'velocity': velocity, 'frequency': 100.})
        if ctx.And(pitch >= 0, pitch < 128, velocity >= 0, velocity <= 1):
            return [Note(pitch, velocity, 100.)]
        return []
    net.waiting.append(RAW[ctx.pick('raw%d' % k, 0, len(RAW) - 1)])
    return []


KINDS = ['number', 'note', 'array', 'plain', 'several', 'rubbish', 'invalid', 'raw', 'empty']


@harness('C54', quick=grid(first=KINDS[:-1], n=[3]), timeout=60)
def histories(ctx, first, n):
    """Malformed datagrams are skipped, the others delivered once and in order."""
    m, net = network(ctx)
    rx = m.NetworkMessageIn(ADDRESS)
    value = m.NetworkIn(ADDRESS)
    ctx.check(rx.courier.sock.bound == ADDRESS and rx.courier.sock.blocking is False, 'the receiver is bound and never blocks')
    sink = ctx.mod('klang.connections').MessageInput()
    rx.output.connect(sink)
    want = []
    empty = False
    for k in range(n):
        kind = first if k == 0 else ctx.choice('kind%d' % k, KINDS[-4:] if k == 1 else ['number', 'note', 'raw'])
        empty = empty or kind == 'empty'
        want.extend(datagram(ctx, m, net, k, kind))
    copy = list(net.waiting)
    rx.update()
    if empty:
        rx.update()
    same(ctx, list(sink.receive()), want)
    rx.update()
    ctx.check(list(sink.receive()) == [], 'nothing is repeated')
    # value receivers keep the newest one
    net.waiting.extend(copy)
    value.output.set_value('before')
    value.update()
    if empty:
        value.update()
    same(ctx, [value.output.value], want[-1:] or ['before'])


def same(ctx, got, want):
    ctx.check(len(got) == len(want), 'every valid object once', {'got': str(len(got)), 'want': str(len(want))})
    for g, w in zip(got, want):
        if hasattr(w, 'pitch'):
            ctx.check(hasattr(g, 'pitch'), 'notes stay notes')
            ctx.eq([g.pitch, g.velocity, g.frequency], [w.pitch, w.velocity, w.frequency], 'notes arrive as they are')
        elif isinstance(w, ctx.np.ndarray):
            ctx.eq(g, w, 'arrays arrive as they are')
        elif isinstance(w, (str, bool, list, dict, type(None))):
            ctx.check(g == w and type(g) is type(w), 'plain values arrive as they are')
        else:
            ctx.eq(g, w, 'numbers arrive as they are')


@harness('C54', quick=[{}])
def addresses(ctx):
    m, net = network(ctx)
    address, family = ctx.choice('address', [(('localhost', 80), 2), ('/tmp/x.sock', 1), (None, None), (3, None)])
    if family is None:
        ctx.raises(ValueError, lambda: m.create_socket_from_address(address), 'unknown addresses are refused')
    else:
        sock = m.create_socket_from_address(address)
        ctx.check(sock.family == family and sock.type == 2 and not sock.blocking, 'socket family follows the address')
