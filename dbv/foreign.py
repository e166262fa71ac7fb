"""Python values of types foreign to most declarations."""

import collections
import dataclasses
import datetime
import decimal
import enum
import pathlib
import uuid


class StrSub(str):
    pass


class IntSub(int):
    pass


class Odd:
    def __repr__(self):
        return "Odd()"


class Color(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


class Flags(enum.Flag):
    A = 1
    B = 2


@dataclasses.dataclass
class Foreign:
    a: int = 1


Point = collections.namedtuple("Point", "x y")

POOL = [
    lambda: None, lambda: True, lambda: False, lambda: 0, lambda: 1, lambda: -5, lambda: 10**30, lambda: 10**400, lambda: 1.0, lambda: 1.5, lambda: float("nan"),
    lambda: float("inf"), lambda: "", lambda: "a", lambda: "1", lambda: "true", lambda: "2020-01-01", lambda: "QUJD", lambda: "P1D", lambda: b"", lambda: b"abc",
    lambda: bytearray(b"abc"), lambda: memoryview(b"abc"), lambda: [], lambda: [1], lambda: ["a"], lambda: [None], lambda: {}, lambda: {"a": 1}, lambda: {1: 2},
    lambda: (), lambda: (1,), lambda: (1, "a"), lambda: set(), lambda: {1}, lambda: frozenset(["a"]), lambda: collections.deque([1]), lambda: collections.OrderedDict(a=1),
    lambda: range(2), lambda: object(), lambda: Odd(), lambda: Odd, lambda: int, lambda: 1j, lambda: ..., lambda: NotImplemented, lambda: len, lambda: (x for x in "ab"),
    lambda: decimal.Decimal("1.5"), lambda: datetime.date(2020, 1, 2), lambda: datetime.time(1, 2), lambda: datetime.datetime(2020, 1, 2), lambda: datetime.timedelta(1),
    lambda: uuid.UUID(int=1), lambda: pathlib.PurePosixPath("a"), lambda: pathlib.PureWindowsPath("a"), lambda: pathlib.Path("a"), lambda: StrSub("a"), lambda: IntSub(1),
    lambda: Color.RED, lambda: Num.ONE, lambda: Flags.A, lambda: Flags.A | Flags.B, lambda: Foreign(), lambda: Foreign, lambda: Point(1, 2), lambda: "\ud800",
    lambda: collections.ChainMap({"a": 1}), lambda: {}.keys(), lambda: {"a": 1}.values(), lambda: iter([1]), lambda: enum.auto(), lambda: "x" * 3000,
]


def foreign(r):
    return r.choice(POOL)()
