"""Stand-ins for modules which need a display (used by both flavours)."""
import types


class Listener:

    """Keyboard listener which is driven by the harness."""

    def __init__(self, on_press=None, on_release=None, suppress=False, **kwargs):
        self.on_press, self.on_release, self.suppress = on_press, on_release, suppress
        self.running = False

    def start(self):
        self.running = True

    def stop(self):
        self.running = False

    def isAlive(self):
        return self.running

    is_alive = isAlive


class KeyCode:

    def __init__(self, vk=None, char=None, is_dead=False, **kw):
        self.vk, self.char = vk, char

    @classmethod
    def from_char(cls, char, **kw):
        return cls(char=char)

    def __eq__(self, other):
        return isinstance(other, KeyCode) and self.char == other.char

    def __hash__(self):
        return hash(self.char)


class Key:

    """Special key: has no character."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Key) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


pynput = types.ModuleType('pynput')
pynput.keyboard = types.ModuleType('pynput.keyboard')
pynput.keyboard.Listener = Listener
pynput.keyboard.KeyCode = KeyCode
pynput.keyboard.Key = Key
