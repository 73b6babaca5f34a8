"""Snapshot / restore of module and class level state (run isolation).
Runs on both interpreters."""
import collections
import sys
import types

CONTAINERS = (dict, list, set, collections.deque)


def _contents(obj, memo):
    if id(obj) in memo:
        return
    if isinstance(obj, dict):
        memo[id(obj)] = (obj, dict(obj))
        children = list(obj.values())
    else:
        memo[id(obj)] = (obj, list(obj))
        children = list(obj)
    if len(children) <= 256:
        for child in children:
            if type(child) in CONTAINERS:
                _contents(child, memo)


class Snapshot:

    def __init__(self, prefix='klang'):
        self.spaces = []
        self.memo = {}
        seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == prefix or name.startswith(prefix + '.')):
                continue
            self.spaces.append((mod, dict(vars(mod))))
            for key, val in list(vars(mod).items()):
                if key.startswith('__'):
                    continue
                if type(val) in CONTAINERS:
                    _contents(val, self.memo)
                if isinstance(val, type) and (getattr(val, '__module__', '') or '').startswith(prefix) \
                        and val not in seen:
                    seen.add(val)
                    space = {k: v for k, v in vars(val).items()
                             if k not in ('__dict__', '__weakref__', '__doc__')}
                    self.spaces.append((val, space))
                    for v in space.values():
                        if type(v) in CONTAINERS:
                            _contents(v, self.memo)

    def restore(self):
        for owner, space in self.spaces:
            cur = vars(owner)
            for key in list(cur):
                if key not in space and not key.startswith('__'):
                    if not isinstance(owner, type) and isinstance(cur[key], types.ModuleType):
                        continue
                    try:
                        delattr(owner, key)
                    except AttributeError:
                        pass
            for key, val in space.items():
                if key not in cur or cur[key] is not val:
                    try:
                        setattr(owner, key, val)
                    except (AttributeError, TypeError):
                        pass
        for obj, content in self.memo.values():
            if isinstance(obj, dict):
                if obj != content or list(obj) != list(content) if _plain(content) else True:
                    obj.clear()
                    obj.update(content)
            elif isinstance(obj, set):
                obj.clear()
                obj.update(content)
            else:
                del_all(obj)
                obj.extend(content)


def _plain(content):
    return all(type(v) in (int, str, float, bool, type(None)) for v in content.values())


def del_all(obj):
    if isinstance(obj, list):
        del obj[:]
    else:
        obj.clear()
