"""C37: arpeggio."""
from symx.spec import harness, grid

MODULES = ['klang.arpeggiator', 'klang.messages']
BOUNDS = 'up to 11 (thorough 20) equally spaced notes with one removed at any position; orders up/down/upDown/downUp/alternating/random, up to 4 (thorough 5) notes with symbolic distinct pitches, add / remove / next histories of 3 (thorough 4) steps'
OUTSIDE = 'longer histories; which permutation the random order draws'
ORDERS = ['up', 'down', 'upDown', 'downUp', 'alternating', 'random']


def cycle(order, notes):
    """One round through sorted notes."""
    up, down = list(notes), list(notes)[::-1]
    if len(notes) == 1:
        return up
    if order == 'up':
        return up
    if order == 'down':
        return down
    if order == 'upDown':
        return up + down[1:-1]
    if order == 'downUp':
        return down + up[1:-1]
    out = []
    while up:
        out.append(up.pop(0))
        if up:
            out.append(up.pop())
    return out


def notes(ctx, n):
    Note = ctx.mod('klang.messages').Note
    ns = []
    for i in range(n):
        p = ctx.int('p%d' % i, 0, 127)
        for o in ns:
            ctx.assume(p != o.pitch)
        ns.append(Note(p, ctx.real('v%d' % i, .1, 1.), 100. + i))
    return ns


def ordered(ns):
    out = []
    for n in ns:
        k = 0
        while k < len(out) and out[k].pitch < n.pitch:
            k += 1
        out.insert(k, n)
    return out


def same(ctx, a, b):
    return ctx.And(a.pitch == b.pitch, a.velocity == b.velocity, a.frequency == b.frequency)


@harness('C37', quick=grid(order=ORDERS[:5], n=[1, 2, 3, 4]) + grid(order=['random'], n=[1, 2, 3]),
         thorough=grid(order=ORDERS[:5], n=[5]) + grid(order=['random'], n=[4]), timeout=60)
def rounds(ctx, order, n):
    """Held notes are repeated in the chosen order."""
    A = ctx.mod('klang.arpeggiator').Arpeggio
    ns = notes(ctx, n)
    if ctx.flag('initial'):
        arp = A(order, ns)
    else:
        arp = A(order)
        for x in ns:
            arp.add_note(x)
    srt = ordered(ns)
    ctx.check(len(arp) == n, 'holds every note once')
    for i in range(n):
        ctx.check(same(ctx, arp[i], srt[i]), 'held notes ascend')
        ctx.check(ns[i] in arp, 'membership')
    if order == 'random':
        one = [next(arp) for _ in range(n)]
        ctx.check(sorted(x.frequency for x in one) == sorted(x.frequency for x in ns), 'a round visits every held note')
        want = one
    else:
        want = cycle(order, srt)
    got = [next(arp) for _ in range(2 * len(want) + 1)]
    for k, g in enumerate(got):
        ctx.check(same(ctx, g, want[k % len(want)]), 'notes repeat in the chosen order')


@harness('C37', quick=grid(order=ORDERS[:5], steps=[3]) + grid(order=['random'], steps=[2]),
         thorough=grid(order=ORDERS[:5], steps=[4]) + grid(order=['random'], steps=[3]), timeout=60)
def histories(ctx, order, steps):
    A = ctx.mod('klang.arpeggiator').Arpeggio
    Note = ctx.mod('klang.messages').Note
    pool = [Note(ctx.int('p%d' % i, 40 * i, 40 * i + 39), ctx.real('v%d' % i, .1, 1.), 100. + i) for i in range(3)]
    absent = ctx.pick('absent', 0, 2)
    first = [x for i, x in enumerate(pool) if i != absent]
    held = ordered(first)
    arp = A(order, first)
    skipped = ctx.pick('skip', 0, 2)
    for _ in range(skipped):
        next(arp)
    for s in range(steps):
        op = ctx.choice('op%d' % s, ['next', 'toggle'])
        if op == 'toggle':
            x = pool[ctx.pick('k%d' % s, 0, 2)]
            if x in held:
                held.remove(x)
                arp.remove_note(x.silence() if ctx.flag('off%d' % s) else x)
                ctx.check(x not in arp, 'removed notes are gone')
                ctx.check(ctx.fails((ValueError,), lambda: arp.remove_note(x)) is not None, 'removing an absent note raises')
            else:
                held = ordered(held + [x])
                arp.add_note(x)
                arp.add_note(x)
        elif held:
            g = next(arp)
            ctx.check(any(g.frequency == h.frequency for h in held), 'every step yields a held note')
        else:
            ctx.check(ctx.fails((StopIteration,), lambda: next(arp)) is not None, 'nothing to play')
        ctx.check([x.frequency for x in arp] == [x.frequency for x in held], 'exactly the held notes, ascending')
    if held and order != 'random':
        # From here on the rounds are complete, wherever the position is
        want = cycle(order, held)
        got = [next(arp) for _ in range(2 * len(want))]
        starts = [k for k in range(len(want))
                  if all(g.frequency == want[(k + i) % len(want)].frequency for i, g in enumerate(got))]
        ctx.check(starts, 'rounds go on in the chosen order')
    elif held:
        one = [next(arp).frequency for _ in range(len(held))]
        ctx.check(sorted(one) == sorted(x.frequency for x in held), 'rounds visit every held note')


@harness('C37', quick=[{}])
def unknown(ctx):
    A = ctx.mod('klang.arpeggiator').Arpeggio
    ctx.check(ctx.fails((ValueError,), lambda: A('sideways')) is not None, 'unknown orders are refused')


@harness('C37', quick=grid(order=ORDERS[:5], n=[5, 8, 11]), thorough=grid(order=ORDERS[:5], n=[6, 7, 20]), timeout=60)
def larger(ctx, order, n):
    """Many held notes: rounds before and after a change."""
    A = ctx.mod('klang.arpeggiator').Arpeggio
    Note = ctx.mod('klang.messages').Note
    base = ctx.int('base', 0, 60)
    held = [Note(base + 2 * k, 1., 100. + k) for k in range(n)]
    arp = A(order, [held[k * 7 % n] for k in range(n)] if n % 7 else held[::-1])
    ctx.check([x.frequency for x in arp] == [x.frequency for x in held], 'exactly the held notes, ascending')
    for _ in range(ctx.pick('skip', 0, n)):
        next(arp)
    k = ctx.pick('removed', 0, n - 1)
    arp.remove_note(held.pop(k))
    want = [x.frequency for x in cycle(order, held)]
    got = [next(arp).frequency for _ in range(2 * len(want))]
    starts = [i for i in range(len(want)) if all(g == want[(i + j) % len(want)] for j, g in enumerate(got))]
    ctx.check(starts, 'rounds go on in the chosen order')
