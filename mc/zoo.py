"""importable classes used as inputs of the checks"""
import enum, collections, functools, dataclasses, typing
import numpy as np


# -- subclasses of the built-in types --------------------------------------
class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyComplex(complex):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class MyDict(dict):
    pass


class MyOD(collections.OrderedDict):
    pass


class SubList(MyList):
    """second level"""


class SubDict(MyDict):
    pass


class SubStr(MyStr):
    pass


class MixDict(dict):
    def extra(self):
        return 1


class Mixin(object):
    pass


class MixList(Mixin, list):
    pass


Point = collections.namedtuple('Point', 'x y')
One = collections.namedtuple('One', 'v')
Empty = collections.namedtuple('Empty', '')


class TPoint(typing.NamedTuple):
    x: int
    y: str = 'd'


class SubPoint(Point):
    __slots__ = ()

    def norm(self):
        return 0


# -- enumerations ----------------------------------------------------------
class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class Num(enum.IntEnum):
    A = 1
    B = 2


class Flag(enum.Flag):
    X = 1
    Y = 2


# -- ordinary classes --------------------------------------------------------
class Eq(object):
    def __eq__(self, other):
        return type(self) is type(other) and self._state() == other._state()

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def _state(self):
        return {k: (v if not isinstance(v, np.ndarray) else v.tolist()) for k, v in self.__dict__.items()}

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self._state())


class Plain(Eq):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class HPlain(Plain):
    def __hash__(self):
        return hash(tuple(sorted((k, repr(v)) for k, v in self.__dict__.items())))


class NeedArgs(Eq):
    def __init__(self, a, b):
        self.a, self.b = a, b


class Slots(object):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, other):
        return type(self) is type(other) and (self.a, self.b) == (other.a, other.b)

    __hash__ = None


class State(Eq):
    def __init__(self, v):
        self.v = v
        self.cache = 'c%r' % (v,)

    def __getstate__(self):
        return {'v': self.v}

    def __setstate__(self, s):
        self.v = s['v']
        self.cache = 'c%r' % (self.v,)


class Reduce(Eq):
    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return (Reduce, (self.v,))


class ReduceEx(Eq):
    def __init__(self, v):
        self.v = v

    def __reduce_ex__(self, proto):
        return (_mk_reduce_ex, (self.v,))


def _mk_reduce_ex(v):
    return ReduceEx(v)


class NewArgs(Eq):
    def __new__(cls, a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)


class WithGetattr(Eq):
    def __init__(self):
        self.q = 1

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return 'dyn'


class Callable_(Eq):
    def __call__(self):
        return 1


class WithLen(Eq):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Meta(type):
    pass


class WithMeta(Eq, metaclass=Meta):
    def __init__(self, a=1):
        self.a = a


class Outer(object):
    class Inner(Eq):
        def __init__(self, a=1):
            self.a = a


@dataclasses.dataclass
class Data(object):
    a: int = 0
    b: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True)
class FrozenData(object):
    a: int = 0


class Err(Exception):
    def __eq__(self, other):
        return type(self) is type(other) and self.args == other.args

    __hash__ = None


def func(x):
    return x


class Key(object):
    """hashable by value"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return type(other) is Key and other.v == self.v

    def __hash__(self):
        return hash(('Key', self.v))

    def __repr__(self):
        return 'Key(%r)' % (self.v,)


class OtherKey(Key):
    def __eq__(self, other):
        return type(other) is OtherKey and other.v == self.v

    __hash__ = Key.__hash__


def fake(name, base):
    """class which is called like a builtin one"""
    ns = {'__module__': __name__, '__qualname__': 'Fake' + name.capitalize().replace('type', '')}
    if base is Key:
        ns.update(__eq__=lambda a, b: type(a) is type(b) and a.v == b.v, __hash__=Key.__hash__, __repr__=lambda a: 'None')
    return type(name, (base,), ns)


FakeInt, FakeFloat, FakeBool, FakeStr, FakeBytes, FakeTuple, FakeNone = [fake(n, b) for n, b in (('int', int), ('float', float), ('bool', int), ('str', str), ('bytes', bytes), ('tuple', tuple), ('NoneType', Key))]


class KeyRepr(Key):
    """prints like something else"""

    def __repr__(self):
        return repr(self.v)

    def __eq__(self, other):
        return type(other) is KeyRepr and other.v == self.v

    __hash__ = Key.__hash__
    __str__ = __repr__


class KwDict(dict):
    """parameters of the constructor are not items"""

    def __init__(self, data=(), name=None, **kw):
        dict.__init__(self, data)
        self.name = name
        self.kw = kw


class KwList(list):
    def __init__(self, data=(), name=None):
        list.__init__(self, data)
        self.name = name


class KwTuple(tuple):
    def __new__(cls, data=(), name=None):
        return tuple.__new__(cls, data)


class KwSet(set):
    def __init__(self, data=(), name=None):
        set.__init__(self, data)
        self.name = name


# module which was not created by the import system and thus has no spec
import sys as _sys, types as _types
specless = _sys.modules.setdefault('mc_specless_mod', _types.ModuleType('mc_specless_mod'))
exec('''
class D(dict):
    pass
class L(list):
    pass
class P:
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v
    def __hash__(self):
        return 5
''', specless.__dict__)
