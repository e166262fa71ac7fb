"""Untagged unions: the union's outcome against the outcomes of its members alone, in declared order."""

import dataclasses
import datetime
import decimal
import enum
import itertools
import pathlib
import typing as t
import uuid

from databind.core import Strict, Union
from databind.json import dump, load

from dbv import foreign, gen
from dbv.common import *

ID = "C14"
CASES = {"quick": 5000, "thorough": 220000}
RULE = "an untagged union in some order and place, and a value or payload; non-trivial if more than one member accepts it or none does"
MINIMA = {"several members accept": 4000, "only a later member accepts": 6000, "no member accepts": 4000, "None offered": 3000, "serialize": 15000, "deserialize": 15000,
          "order changed the result": 100, "a member that nothing converts": 300}


class Color(enum.Enum):
    RED = 1
    a = 2


class Num(enum.IntEnum):
    ONE = 1
    SEVEN = 7


@dataclasses.dataclass
class A:
    a: int


@dataclasses.dataclass
class A2:
    a: int
    b: int = 5


@dataclasses.dataclass
class A3:
    a: t.Optional[str] = None
    b: t.Any = None


@dataclasses.dataclass
class Sub(A):
    c: int = 0


class TD(t.TypedDict):
    a: int


class NT(t.NamedTuple):
    a: int
    b: int = 9


@Union(style="flat")
class Base:
    pass


@Union.register(Base, "x")
@dataclasses.dataclass
class X(Base):
    a: int = 3


class Opaque:
    """Nothing converts it."""


class UList(t.List[int]):
    pass


MEMBERS = [int, float, str, bool, bytes, decimal.Decimal, uuid.UUID, pathlib.PurePosixPath, datetime.date, datetime.datetime, datetime.time, Color, Num,
           A, A2, A3, Sub, TD, NT, Base, X, UList, t.List[int], t.List[str], t.Dict[str, int], t.Mapping[str, str], t.Set[int], t.Deque[int]]
PAYLOADS = [0, 1, 7, -2, 1.0, 1.5, 10**30, True, False, "", "1", "1.5", "true", "no", "RED", "a", "QUJD", "QQ==", "2020-01-02", "2020-01-02T03:04:05", "03:04:05", "a/b",
            "12345678-1234-5678-1234-567812345678", {}, {"a": 1}, {"a": 1, "b": 2}, {"a": "s"}, {"a": "s", "b": None}, {"a": 1, "c": 2}, {"type": "x"}, {"type": "x", "a": 1},
            {"a": 1.5}, {"zz": 1}, [], [1], ["a"], [1, "a"], [[1]], [1.5], {"a": [1]}]
VALUES = [0, 1, 7, 1.0, 1.5, True, False, "", "1", "RED", b"", b"abc", decimal.Decimal("1.5"), uuid.UUID(int=5), pathlib.PurePosixPath("a"), datetime.date(2020, 1, 2),
          datetime.datetime(2020, 1, 2, 3), datetime.time(3, 4), Color.RED, Color.a, Num.ONE, A(1), A2(1, 2), A3("s", 1), Sub(1, 2), {"a": 1}, {"a": "s"}, {}, NT(1, 2), X(4),
          UList([1]), [1], ["a"], [], {1}, set(), (1, 2), A("wrong"), [1, "a"], NT("x")]


GROUPS = [
    ([int, float, Num, decimal.Decimal, bool, str], [0, 1, 7, 1.0, -2, 1.5, "1", "1.5", "true", True], [1, 7, 1.0, 1.5, True, Num.ONE, "1"]),
    ([A, A2, A3, TD, NT, t.Dict[str, int], t.Mapping[str, str], Base, X], [{"a": 1}, {"a": 1, "b": 2}, {"a": "s"}, {}, {"a": 1.0}, {"a": "s", "b": "t"}, {"type": "x"}],
     [A(1), A2(1, 2), A3("s"), {"a": 1}, {"a": "s"}, {}, NT(1), X(2), Sub(1, 2)]),
    ([str, pathlib.PurePosixPath, Color, bytes, datetime.date, datetime.datetime, decimal.Decimal], ["a", "RED", "QQ==", "2020-01-02", "1", "", "1.5", "2020-01-02T03:04:05"],
     ["a", b"x", Color.a, datetime.datetime(2020, 1, 2, 3), datetime.date(2020, 1, 2), pathlib.PurePosixPath("a")]),
    ([t.List[int], t.List[str], UList, t.Set[int], t.Deque[int], t.List[float]], [[], [1], [1.0], [1.5], ["a"], [1, 1]], [[], [1], {1}, UList([1]), ["a"], [1.0]]),
]


@dataclasses.dataclass
class D1:
    a: t.List[t.List[int]]


@dataclasses.dataclass
class D2:
    a: t.List[t.List[str]]


@dataclasses.dataclass
class D3:
    a: t.List[t.Optional[t.List[t.Optional[bool]]]]


@dataclasses.dataclass
class D4:
    a: t.List[t.Dict[str, A]]
    b: t.Any = None


@dataclasses.dataclass
class D5:
    a: t.List[t.Dict[str, A3]]


class D6(t.TypedDict):
    a: t.List[t.List[t.Any]]


class D7(t.NamedTuple):
    a: t.List[t.List[t.Union[int, str]]]


# Those that disagree far below the place of the union.
GROUPS.append(([D1, D2, D3, D4, D5, D6, D7],
               [{"a": x} for x in ([[1]], [["x"]], [[1, "x"]], [["x", 1]], [[]], [], [[True]], [[None]], [None], [{"k": {"a": 1}}], [{"k": {"a": "s"}}], [{"k": {}}], [{"k": {"a": None}}], [{"k": {"a": 1}}, {"k": {"a": "s"}}],
                                   [[1], [2], ["x"]], [[{"a": 1}]], [[[1]]], [1], "x")],
               [D1([[1]]), D2([["x"]]), D1([["x"]]), D2([[1]]), D3([[True]]), D3([None]), D4([{"k": A(1)}]), D5([{"k": A3("s")}]), D4([{"k": A3("s")}]), {"a": [[1]]}, {"a": [1]}, D7([[1, "x"]]), D7([[1.5]])]))
GROUPS.append(([t.List[t.List[int]], t.Dict[str, D1], t.Tuple[D1, ...], t.Set[t.Tuple[t.Tuple[int, ...], ...]], t.Mapping[str, D2], t.Deque[t.List[t.List[str]]]],
               [[[1]], [["x"]], [[["x"]]], [[[1]]], [], {}, {"k": {"a": [[1]]}}, {"k": {"a": [["x"]]}}, {"k": {"a": [[1.5]]}}, [{"a": [[1]]}], [{"a": [["x"]]}], [[[None]]]],
               [[[1]], {"k": D1([[1]])}, {"k": D2([["x"]])}, {"k": D2([[1]])}, (D1([[1]]),), (D1([["x"]]),), {((1,),)}, {(("x",),)}, [["x"]]]))


def name(h):
    return getattr(t.get_origin(h) or h, "__name__", None)


def run(case):
    r = case.rng
    pool, pays, vals = (list(MEMBERS), PAYLOADS, VALUES) if r.random() < 0.35 else r.choice(GROUPS)
    pool = list(pool)
    r.shuffle(pool)
    members = []
    limit = r.choice([2, 2, 3, 3, 4, 6])
    for m in pool:
        if all(name(x) != name(m) for x in members):
            members.append(m)
        if len(members) >= limit:
            break
    if len(members) < 2:
        members.append(int if int not in members else str)
    place = r.choice(["root", "root", "list", "dict", "field", "tuple"])
    if place != "root" or r.random() < 0.1:
        # typing's caches take unions that differ in order for the same one, unless a member is new.
        members.insert(r.randrange(len(members) + 1), dataclasses.make_dataclass("Fresh", [("fresh", int)]))
    if r.random() < 0.12:
        members.insert(r.randrange(len(members) + 1), r.choice([Opaque, Opaque, type]))
        case.count("a member that nothing converts")
    spelled = r.choice(["union", "union", "pipe", "annotated"])
    optional = r.random() < 0.4
    if spelled == "annotated":
        U0 = t.Annotated[t.Union[tuple(members)], Union({f"m{i}": m for i, m in enumerate(members)}, style=Union.BEST_MATCH)]
        U = t.Optional[U0] if optional else U0
    else:
        parts = list(members)
        if optional:
            parts.insert(r.randrange(len(parts) + 1), None)
        if spelled == "union":
            U = t.Union[tuple(parts)]
        else:
            U = parts[0]
            for p in parts[1:]:
                try:
                    U = U | p
                except TypeError:
                    U = t.Union[U, p]
    if r.random() < 0.2 and spelled != "annotated":
        U = t.Annotated[U, "doc"]

    if place == "root":
        T, put, get = U, (lambda x: x), (lambda x: x)
        seen = U
    elif place == "list":
        T, put, get = t.List[U], (lambda x: [x]), (lambda x: x[0])
        seen = t.get_args(T)[0]
    elif place == "dict":
        T, put, get = t.Dict[str, U], (lambda x: {"k": x}), (lambda x: x["k"])
        seen = t.get_args(T)[1]
    elif place == "tuple":
        T, put, get = t.Tuple[U, int], (lambda x: [x, 1]), (lambda x: x[0])
        seen = t.get_args(T)[0]
    else:
        T = dataclasses.make_dataclass("W", [("w", U)])
        put, get = (lambda x: {"w": x}), (lambda x: x.w)
        seen = U
    putv = {"tuple": lambda x: (x, 1), "field": lambda x: T(x)}.get(place, put)
    getv = {"field": lambda x: x["w"]}.get(place, get)
    # The order typing really kept (its caches know unions as sets).
    if spelled == "annotated":
        order = members
    else:
        while t.get_origin(seen) is t.Annotated:
            seen = t.get_args(seen)[0]
        order = [x for x in t.get_args(seen) if x is not type(None)]
    kw = {}
    if r.random() < 0.4:
        kw["settings"] = [Strict(False)]
    case.note(union=str(U), order=str(order), place=place, settings=kw)
    todo = [("deserialize", p) for p in r.sample(pays, 6)] + [("serialize", v) for v in r.sample(vals, 5)] + [("deserialize", None), ("serialize", None)]
    todo.append(("serialize", foreign.foreign(r)))
    todo.append(("deserialize", junk(r, 2)))
    for direction, x in todo:
        fn = load if direction == "deserialize" else dump
        want = None
        accepted = []
        if x is None:
            case.count("None offered")
            want = Outcome("ok", None) if optional else None
        else:
            for m in order:
                o = observe(fn, x, m, **kw)
                if o.ok:
                    accepted.append(o)
                    want = want or o
                    if len(accepted) > 1:
                        break
        case.note(direction=direction, value=short(x), member_results=[repr(o) for o in accepted])
        o = observe(fn, (put if direction == "deserialize" else putv)(x), T, **kw)
        n_first = len(accepted)
        case.ev((str(U), place, direction, short(x), bool(kw)), trivial=n_first == 1 and x is not None, sample=lambda: {"union": str(order), "place": place, direction: short(x, 60), "outcome": repr(o)[:100]})
        case.count(direction)
        if x is not None:
            case.count("several members accept" if n_first > 1 else "no member accepts" if not n_first else "only a later member accepts" if not observe(fn, x, order[0], **kw).ok else "only the first member accepts")
            if n_first > 1 and not deep_eq(accepted[0].value, accepted[1].value):
                case.count("order changed the result")
        if want is None:
            if not o.refused:
                case.bad("a union accepted what no member accepts, or did not refuse it with a conversion error", got=repr(o))
            continue
        if not o.ok:
            case.bad("a union refused what a member accepts", got=repr(o), expected=repr(want))
        got = (get if direction == "deserialize" else getv)(o.value)
        if not deep_eq(got, want.value):
            case.bad("the union's result is not that of the first member that accepts", got=got, expected=want.value)
