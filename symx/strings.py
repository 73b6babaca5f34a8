"""Symbolic texts (fixed length, symbolic characters) and regular expressions on them."""
import re
import types

import z3

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:
    import sre_parse
    import sre_constants as sre

from symx import core
from symx.core import SBool, SInt, Unsupported, is_sym, mkbool


def code(c):
    return c if isinstance(c, (int, SInt)) else ord(c)


def ceq(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(z3.simplify(core.zint(a) == core.zint(b)))
    return a == b


def between(c, lo, hi):
    if not is_sym(c):
        return lo <= c <= hi
    return mkbool(z3.simplify(z3.And(c.z >= lo, c.z <= hi)))


def any_of(conds):
    zs = []
    for c in conds:
        if c is True:
            return True
        if c is not False:
            zs.append(c.z)
    return mkbool(z3.simplify(z3.Or(zs))) if zs else False


def all_of(conds):
    zs = []
    for c in conds:
        if c is False:
            return False
        if c is not True:
            zs.append(c.z)
    return mkbool(z3.simplify(z3.And(zs))) if zs else True


def negate(c):
    return ~c if is_sym(c) else not c


def lower(c):
    return between(c, 97, 122)


def upper(c):
    return between(c, 65, 90)


def digit(c):
    return between(c, 48, 57)


def alpha(c):
    return any_of([lower(c), upper(c)])


def space(c):
    return any_of([ceq(c, 32), between(c, 9, 13), between(c, 28, 31)])


def to_lower(c):
    return core.ite(upper(c), c + 32, c) if is_sym(c) else ord(chr(c).lower())


def to_upper(c):
    return core.ite(lower(c), c - 32, c) if is_sym(c) else ord(chr(c).upper())


class SStr:

    """ASCII text with symbolic characters."""

    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = [code(c) for c in chars]

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for c in self.c:
            yield make([c])

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return make(self.c[idx])
        return make([self.c[idx]])

    def __bool__(self):
        return len(self.c) > 0

    def __eq__(self, other):
        if not isinstance(other, (str, SStr)):
            return False
        o = chars(other)
        if len(o) != len(self.c):
            return False
        return all_of(ceq(a, b) for a, b in zip(self.c, o))

    def __ne__(self, other):
        return negate(self == other)

    def _cmp(self, other, last):
        o = chars(other)
        for a, b in zip(self.c, o):
            if not ceq(a, b):
                return a < b
        return len(self.c) < len(o) or (last and len(self.c) == len(o))

    def __lt__(self, other):
        return self._cmp(other, False)

    def __le__(self, other):
        return self._cmp(other, True)

    def __gt__(self, other):
        return negate(self._cmp(other, True))

    def __ge__(self, other):
        return negate(self._cmp(other, False))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return ''.join(chr(int(c)) for c in self.c)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<text>'

    def __format__(self, spec):
        return '<text>'

    def __add__(self, other):
        return make(self.c + chars(other))

    def __radd__(self, other):
        return make(chars(other) + self.c)

    def __mul__(self, n):
        return make(self.c * int(n))

    __rmul__ = __mul__

    def __contains__(self, other):
        return bool(self.find(other) >= 0)

    def __sx_in__(self, text):
        """self in text."""
        return make(chars(text)).find(self) >= 0 if len(self.c) else True

    def __sx_int__(self):
        c = self.strip().c
        negative = False
        if c and ceq(c[0], 45):
            negative, c = True, c[1:]
        elif c and ceq(c[0], 43):
            c = c[1:]
        if not c:
            raise ValueError('invalid literal for int() with base 10')
        ret = 0
        last = False
        for i, v in enumerate(c):
            if last and i < len(c) - 1 and ceq(v, 95):
                last = False
                continue
            if not digit(v):
                raise ValueError('invalid literal for int() with base 10')
            last = True
            ret = ret * 10 + (v - 48)
        if not last:
            raise ValueError('invalid literal for int() with base 10')
        return -ret if negative else ret

    # -- methods

    def find(self, sub, start=0):
        sub = chars(sub)
        for i in range(start, len(self.c) - len(sub) + 1):
            if all_of(ceq(a, b) for a, b in zip(self.c[i:], sub)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n, i = 0, self.find(sub)
        while i >= 0:
            n, i = n + 1, self.find(sub, i + max(1, len(sub)))
        return n

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return any(bool(self.startswith(p)) for p in pre)
        return make(self.c[:len(pre)]) == pre if len(pre) <= len(self.c) else False

    def endswith(self, post):
        if isinstance(post, tuple):
            return any(bool(self.endswith(p)) for p in post)
        return make(self.c[len(self.c) - len(post):]) == post if len(post) <= len(self.c) else False

    def lower(self):
        return make([to_lower(c) for c in self.c])

    casefold = lower

    def upper(self):
        return make([to_upper(c) for c in self.c])

    def title(self):
        ret, prev = [], False
        for c in self.c:
            low, up = to_lower(c), to_upper(c)
            ret.append(low if prev is True else up if prev is False else core.ite(prev, low, up))
            prev = alpha(c)
        return make(ret)

    def capitalize(self):
        return make([to_upper(c) for c in self.c[:1]] + [to_lower(c) for c in self.c[1:]])

    def _strips(self, which):
        if which is None:
            return space
        which = chars(which)
        return lambda c: any_of(ceq(c, w) for w in which)

    def lstrip(self, which=None):
        test, i = self._strips(which), 0
        while i < len(self.c) and test(self.c[i]):
            i += 1
        return make(self.c[i:])

    def rstrip(self, which=None):
        test, i = self._strips(which), len(self.c)
        while i > 0 and test(self.c[i - 1]):
            i -= 1
        return make(self.c[:i])

    def strip(self, which=None):
        return make(chars(self.lstrip(which))).rstrip(which)

    def replace(self, old, new):
        old, new, ret, i = chars(old), chars(new), [], 0
        if not old:
            raise Unsupported('replacing an empty text')
        while i < len(self.c):
            if len(self.c) - i >= len(old) and all_of(ceq(a, b) for a, b in zip(self.c[i:], old)):
                ret += new
                i += len(old)
            else:
                ret.append(self.c[i])
                i += 1
        return make(ret)

    def split(self, sep=None, maxsplit=-1):
        test = space if sep is None else None
        if sep is not None and len(sep) != 1:
            raise Unsupported('splitting by %r' % (sep,))
        ret, cur = [], []
        for c in self.c:
            if (test(c) if test else ceq(c, code(sep))) and (maxsplit < 0 or len(ret) < maxsplit):
                ret.append(cur)
                cur = []
            else:
                cur.append(c)
        ret.append(cur)
        return [make(v) for v in ret if v or sep is not None]

    def isdigit(self):
        return bool(self.c) and all_of(digit(c) for c in self.c)

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return bool(self.c) and all_of(alpha(c) for c in self.c)

    def isalnum(self):
        return bool(self.c) and all_of(any_of([alpha(c), digit(c)]) for c in self.c)

    def isspace(self):
        return bool(self.c) and all_of(space(c) for c in self.c)

    def join(self, seq):
        ret = []
        for i, s in enumerate(seq):
            ret += (self.c if i else []) + chars(s)
        return make(ret)

    def encode(self, *a):
        raise Unsupported('encoding a symbolic text')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def chars(s):
    if isinstance(s, SStr):
        return list(s.c)
    if isinstance(s, str):
        return [ord(c) for c in s]
    raise TypeError('must be str, not %s' % type(s).__name__)


class Text(SStr):

    __slots__ = ()


def make(cs):
    if not any(is_sym(c) for c in cs):
        if not any(isinstance(c, int) for c in cs) and cs:
            raise Unsupported('character')
        return ''.join(map(chr, cs))
    return SStr(cs)


def ord_(c):
    if isinstance(c, SStr):
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        return c.c[0]
    return ord(c)


# ------------------------------------------------------------ regular expressions

CATEGORIES = {
    'category_digit': digit, 'category_not_digit': lambda c: negate(digit(c)),
    'category_space': space, 'category_not_space': lambda c: negate(space(c)),
    'category_word': lambda c: any_of([alpha(c), digit(c), ceq(c, 95)]),
    'category_not_word': lambda c: negate(any_of([alpha(c), digit(c), ceq(c, 95)])),
}


class SMatch:

    def __init__(self, text, start, end, spans, pattern):
        self.string, self._start, self._end, self.spans, self.re = text, start, end, spans, pattern

    def _one(self, g):
        if g == 0:
            return make(self.string.c[self._start:self._end])
        if isinstance(g, str):
            g = self.re.real.groupindex[g]
        if not 0 < g <= self.re.real.groups:
            raise IndexError('no such group')
        span = self.spans.get(g)
        return None if span is None else make(self.string.c[span[0]:span[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        return self._one(gs[0]) if len(gs) == 1 else tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        ret = [self._one(g) for g in range(1, self.re.real.groups + 1)]
        return tuple(default if v is None else v for v in ret)

    def groupdict(self, default=None):
        ret = {k: self._one(g) for k, g in self.re.real.groupindex.items()}
        return {k: default if v is None else v for k, v in ret.items()}

    def start(self, g=0):
        return self._start if g == 0 else self.spans.get(g, (-1, -1))[0]

    def end(self, g=0):
        return self._end if g == 0 else self.spans.get(g, (-1, -1))[1]

    def span(self, g=0):
        return self.start(g), self.end(g)


class SPattern:

    def __init__(self, pattern, flags=0):
        self.real = re.compile(pattern, flags)
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.real.flags
        self.pattern = pattern
        self.ignorecase = bool(self.flags & re.IGNORECASE)

    groups = property(lambda self: self.real.groups)
    groupindex = property(lambda self: self.real.groupindex)

    def match(self, text, *a):
        if not isinstance(text, SStr):
            return self.real.match(text, *a)
        return self._run(text, 0, False)

    def fullmatch(self, text, *a):
        if not isinstance(text, SStr):
            return self.real.fullmatch(text, *a)
        return self._run(text, 0, True)

    def search(self, text, *a):
        if not isinstance(text, SStr):
            return self.real.search(text, *a)
        for i in range(len(text) + 1):
            m = self._run(text, i, False)
            if m is not None:
                return m
        return None

    def _only_concrete(name):
        def fn(self, *args, **kwargs):
            if any(isinstance(a, SStr) for a in args):
                raise Unsupported('re.%s' % name)
            return getattr(self.real, name)(*args, **kwargs)
        return fn

    sub, split, findall = _only_concrete('sub'), _only_concrete('split'), _only_concrete('findall')
    finditer, subn = _only_concrete('finditer'), _only_concrete('subn')

    def _run(self, text, start, full):
        n = len(text.c)

        def done(pos, spans):
            return None if full and pos != n else (pos, spans)
        ret = self._seq(list(self.tree), 0, text.c, start, {}, done)
        return None if ret is None else SMatch(text, start, ret[0], ret[1], self)

    def _char(self, op, arg, c):
        if op is sre.LITERAL or op is sre.NOT_LITERAL:
            r = ceq(c, arg)
            if self.ignorecase:
                r = any_of([ceq(to_lower(c), ord(chr(arg).lower()))])
            return negate(r) if op is sre.NOT_LITERAL else r
        if op is sre.ANY:
            return True if self.flags & re.DOTALL else negate(ceq(c, 10))
        if op is sre.CATEGORY:
            return CATEGORIES[str(arg).lower()](c)
        if op is sre.RANGE:
            if self.ignorecase:
                return any_of([between(to_lower(c), *arg), between(to_upper(c), *arg)])
            return between(c, arg[0], arg[1])
        if op is sre.IN:
            neg = arg and arg[0][0] is sre.NEGATE
            r = any_of([self._char(o, a, c) for o, a in arg if o is not sre.NEGATE])
            return negate(r) if neg else r
        raise Unsupported('regular expression %s' % op)

    def _seq(self, nodes, i, text, pos, spans, k):
        if i == len(nodes):
            return k(pos, spans)
        op, arg = nodes[i]

        def rest(p, s):
            return self._seq(nodes, i + 1, text, p, s, k)
        if op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN, sre.CATEGORY):
            if pos >= len(text) or not self._char(op, arg, text[pos]):
                return None
            return rest(pos + 1, spans)
        if op is sre.SUBPATTERN:
            group, _, _, sub = arg

            def close(p, s):
                return rest(p, s if group is None else {**s, group: (pos, p)})
            return self._seq(list(sub), 0, text, pos, spans, close)
        if op is sre.BRANCH:
            for alt in arg[1]:
                r = self._seq(list(alt), 0, text, pos, spans, rest)
                if r is not None:
                    return r
            return None
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = arg
            sub = list(sub)
            greedy = op is sre.MAX_REPEAT

            def again(count, p, s, last):
                def more():
                    if hi is not sre.MAXREPEAT and count >= hi or (count >= lo and p == last):
                        return None
                    return self._seq(sub, 0, text, p, s, lambda p2, s2: again(count + 1, p2, s2, p))
                if count < lo:
                    return more()
                first, second = (more, lambda: rest(p, s)) if greedy else (lambda: rest(p, s), more)
                r = first()
                return second() if r is None else r
            return again(0, pos, spans, -1)
        if op is sre.AT:
            at = str(arg).lower()
            if at in ('at_beginning', 'at_beginning_string') and not self.flags & re.MULTILINE:
                return rest(pos, spans) if pos == 0 else None
            if at == 'at_end_string':
                return rest(pos, spans) if pos == len(text) else None
            if at == 'at_end' and not self.flags & re.MULTILINE:
                if pos == len(text) or (pos == len(text) - 1 and ceq(text[pos], 10)):
                    return rest(pos, spans)
                return None
            raise Unsupported('regular expression %s' % at)
        if op is sre.GROUPREF:
            a, b = spans.get(arg, (None, None))
            if a is None:
                return None
            m = b - a
            if pos + m <= len(text) and all_of(ceq(x, y) for x, y in zip(text[a:b], text[pos:pos + m])):
                return rest(pos + m, spans)
            return None
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            direction, sub = arg
            if direction < 0:
                raise Unsupported('regular expression look behind')
            r = self._seq(list(sub), 0, text, pos, spans, lambda p, s: (p, s))
            return rest(pos, spans) if (r is not None) == (op is sre.ASSERT) else None
        raise Unsupported('regular expression %s' % op)


def make_re():
    mod = types.ModuleType('re')
    mod.__dict__.update({k: v for k, v in vars(re).items() if not k.startswith('__')})

    def compile_(pattern, flags=0):
        if isinstance(pattern, SPattern):
            return pattern
        if not isinstance(pattern, str):
            return re.compile(pattern, flags)
        return SPattern(pattern, flags)

    mod.compile = compile_
    for name in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer', 'subn'):
        def fn(pattern, *args, name=name, **kwargs):
            flags = kwargs.pop('flags', 0)
            return getattr(compile_(pattern, flags), name)(*args, **kwargs)
        setattr(mod, name, fn)
    mod.Pattern, mod.Match = SPattern, SMatch
    return mod
