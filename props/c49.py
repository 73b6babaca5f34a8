"""C49: primes."""
from symx.spec import harness, grid

MODULES = ['klang.primes']
BOUNDS = 'numbers -5..400 (symbolic), caches emptied to the first primes so that they grow; sieve limits up to 60'
OUTSIDE = 'larger numbers; the shipped prime cache is the sieve at its full limit'

SMALL = [p for p in range(2, 1000) if all(p % d for d in range(2, int(p ** .5) + 1))]


def prime(ctx, n):
    return ctx.Or(*[n == p for p in SMALL])


@harness('C49', quick=grid(hi=[60, 150], lo=[-5]), thorough=grid(hi=[400], lo=[150]))
def test(ctx, lo, hi):
    m = ctx.mod('klang.primes')
    n = ctx.int('n', lo, hi)
    ctx.check(m.is_prime(n) == prime(ctx, n), 'number divisible only by one and itself')


@harness('C49', quick=[{}])
def next_prime(ctx):
    """Small cache: it has to grow on demand."""
    m = ctx.mod('klang.primes')
    cache = ctx.choice('cache', [1, 4])
    ctx.patch(m, 'PRIMES', SMALL[:cache])
    start = ctx.int('start', -3, 60)
    got = m.find_next_prime(start)
    ctx.check(prime(ctx, got), 'a prime')
    ctx.check(got >= start, 'not below the number')
    for p in SMALL[:18]:
        ctx.check(ctx.implies(p >= start, got <= p), 'the smallest one')
    second = ctx.choice('second', [0, 3, 24, 30])
    want = next(p for p in SMALL if p >= second)
    ctx.check(m.find_next_prime(second) == want, 'independent of earlier requests')


@harness('C49', quick=[{}])
def consecutive(ctx):
    m = ctx.mod('klang.primes')
    if ctx.flag('small cache'):
        ctx.patch(m, 'PRIMES', SMALL[:ctx.pick('cache', 1, 4)])
    n = ctx.pick('n', 0, 5)
    start = ctx.pick('start', -1, 40)
    got = m.find_next_primes(n, start)
    ctx.check(list(got) == [p for p in SMALL if p >= start][:n], 'consecutive primes from the start')
    if start == 1:
        ctx.check(list(m.find_next_primes(n)) == list(got), 'from the beginning by default')


@harness('C49', quick=[{}])
def sieve(ctx):
    m = ctx.mod('klang.primes')
    limit = ctx.pick('limit', 2, 60)
    ctx.check(list(m.sieve_of_sundaram(limit)) == [p for p in SMALL if p <= limit], 'all primes up to the limit')


@harness('C49', quick=grid(n=[1, 2, 3, 4]), thorough=grid(n=[6]))
def search(ctx, n):
    """Binary search in any sorted array."""
    m = ctx.mod('klang.primes')
    array = ctx.ints('a', n, -20, 20)
    for a, b in zip(array, array[1:]):
        ctx.assume(a < b)
    v = ctx.int('v', -25, 25)
    if v > array[-1]:
        ctx.raises(ValueError, m.binary_search_with_upper, 'nothing to find', array, v)
        return
    got = m.binary_search_with_upper(array, v)
    ctx.check(ctx.Or(*[got == a for a in array]), 'an element')
    ctx.check(got >= v, 'not below the value')
    for a in array:
        ctx.check(ctx.implies(a >= v, got <= a), 'the smallest one')
