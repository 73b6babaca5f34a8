"""Harness registry (shared by both interpreters)."""
HARNESSES = []


class Harness:

    def __init__(self, fn, pid, quick, thorough, buffer, timeout, ext):
        self.fn, self.pid, self.name = fn, pid, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.buffer, self.timeout, self.ext = buffer, timeout, ext

    def configs(self, tier):
        if tier == 'quick':
            return self.quick
        return self.quick + [c for c in self.thorough if c not in self.quick]


def harness(pid, quick=None, thorough=None, buffer=4, timeout=20, ext=False):
    """Register a harness.  quick / thorough: lists of keyword dicts."""
    def deco(fn):
        HARNESSES.append(Harness(fn, pid, quick or [{}], thorough or [], buffer, timeout, ext))
        return fn
    return deco


def grid(**axes):
    """Cartesian product of configuration values."""
    ret = [{}]
    for key, values in axes.items():
        ret = [dict(c, **{key: v}) for c in ret for v in values]
    return ret
