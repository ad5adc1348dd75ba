"""Classes used by the bounded cross-checks (importable by name)."""
import collections
import dataclasses
import enum
import typing

CALLS = []          # constructor calls seen


class Plain:
    def __init__(self, *a, **k):
        CALLS.append(("Plain.__init__", a, k))


class Other(Plain):
    kind = "class attribute"


class Node:
    """Has class level defaults, a property and a private attribute."""
    default = [1]

    def __init__(self, required):
        CALLS.append(("Node.__init__", required))
        self.__secret = required

    @property
    def prop(self):
        return 1


class Outer:
    class Inner:
        class Innermost:
            pass

    class InnerSlots:
        __slots__ = ("a",)


class Slots:
    __slots__ = ("a", "b", "c")

    def __init__(self, *a):
        CALLS.append(("Slots.__init__", a))


class SlotStr:
    __slots__ = "only"


class SlotsChild(Slots):
    __slots__ = ("d", "e")


class SlotsGrand(SlotsChild):
    __slots__ = ()


class SlotsPrivate:
    __slots__ = ("a", "__hidden")

    def put(self, v):
        self.__hidden = v
        return self


class SlotsExclude:
    __slots__ = ("a", "b", "c")
    _jsonpickle_exclude = ("b",)


class SlotsList:
    __slots__ = ["x", "y"]


class Excl:
    _jsonpickle_exclude = ["secret", "cache"]


class ExclSet:
    _jsonpickle_exclude = {"a"}


class ExclChild(Excl):
    pass


@dataclasses.dataclass
class DC:
    a: typing.Any
    b: typing.Any = 3
    c: list = dataclasses.field(default_factory=list)

    def __post_init__(self):
        CALLS.append(("DC", self.a))


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: typing.Any
    b: typing.Any = None


@dataclasses.dataclass(frozen=True)
class FrozenChild(Frozen):
    c: typing.Any = ()




@dataclasses.dataclass(slots=True)
class DCS:
    a: typing.Any
    b: typing.Any = 1


class Key:
    """Hashable by value."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is type(self) and self.v == o.v

    def __hash__(self):
        return hash(("Key", self.v if isinstance(self.v, (int, str)) else 0))

    def __repr__(self):
        return f"Key({self.v!r})"


class IdKey:
    """Hashable by identity."""


class NoEq:
    """Comparing it with anything else fails."""

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class Falsy:
    def __bool__(self):
        return False


class Empty:
    def __len__(self):
        return 0


class CallableObj:
    def __call__(self):
        return 1


class WithGetattr:
    """Answers every attribute."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return None


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Generic(typing.Generic[typing.TypeVar("T")]):
    pass


class Color(enum.Enum):
    RED = 1
    GREEN = "g"
    BLUE = (1, 2)


class IColor(enum.IntEnum):
    ONE = 1
    TWO = 2


class Fl(enum.Flag):
    A = 1
    B = 2


class MyError(Exception):
    pass


PLAIN = [Plain, Other, Outer.Inner, Outer.Inner.Innermost, WithMeta, Generic, Falsy, Empty, CallableObj]

NAMES = ["a", "b", "c", "x", "name", "value", "_private", "_Node__secret", "a1", "camelCase", "data", "items_",
         "next", "self_", "é", "id", "type", "keys", "values", "update", "append", "tags", "py", "json"]


# --- containers -----------------------------------------------------------
class MyDict(dict):
    pass


class MyDictInit(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.made = True


class MyList(list):
    pass


class MySet(set):
    pass


class MyTuple(tuple):
    pass


class MyOrdered(collections.OrderedDict):
    pass


class MyDefault(collections.defaultdict):
    pass


class MyDeque(collections.deque):
    pass


class MyUserDict(collections.UserDict):
    pass


class MyUserList(collections.UserList):
    pass


NT0 = collections.namedtuple("NT0", [])
NT1 = collections.namedtuple("NT1", ["a"])
NT3 = collections.namedtuple("NT3", ["x", "y", "z"])


class NTTyped(typing.NamedTuple):
    a: typing.Any
    b: typing.Any = 2


class NTChild(NT3):
    pass


class MyFrozenSet(frozenset):
    pass


class SlotDict(dict):
    __slots__ = ("extra",)


def function(x=1):
    return x


def other_function():
    return 2


def factory_list():
    return [7]
