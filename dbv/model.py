"""Reference model: for every kind of type a value generator, the documented wire form and a reference decoder.

Written from the documentation and the meaning of the types; shares no code with the library.  ``enc``/``dec`` raise
Reject where the library must refuse with a conversion error, Unspecified where the documentation says nothing.
"""

import base64
import collections
import collections.abc
import copy
import dataclasses
import datetime
import decimal
import enum
import math
import pathlib
import re
import random
import sys
import types
import typing as t
import uuid

from dbv.util import Reject, Unspecified, deep_eq, junk

HEADER = """\
import collections, collections.abc, copy, dataclasses, datetime, decimal, enum, pathlib, typing, uuid
import typing as t
import typing_extensions as te
from databind.core import (Alias, DateFormat, DeserializeAs, ExtraKeys, Flattened, Precision, Priority, Remainder,
    Required, SerializeDefaults, Strict, Union)
from databind.core import dataclasses as xdc
from databind.json import JsonConverter
from nr.date import duration
"""

_modcount = 0


class Env:
    """Settings in force for the whole call, and the meaning of type parameters."""

    __slots__ = ("glob", "tp")

    def __init__(self, glob: t.Optional[t.Dict[str, t.Any]] = None, tp: t.Optional[t.Dict[str, t.Any]] = None) -> None:
        self.glob = glob or {}
        self.tp = tp or {}

    def get(self, kind: str, ann: t.Mapping[str, t.Any], default: t.Any, cls: t.Any = None) -> t.Any:
        if kind in ann:
            return ann[kind]
        if cls is not None:
            return cls
        return self.glob.get(kind, default)


NOANN: t.Dict[str, t.Any] = {}


class Builder:
    """Collects the source of one synthetic module and hands out type nodes living in it."""

    def __init__(self, rng: random.Random, future: t.Optional[bool] = None, label: str = "") -> None:
        global _modcount
        _modcount += 1
        self.rng = rng
        self.name = f"dbvu_{label}{_modcount}"
        self.future = rng.random() < 0.3 if future is None else future
        self.chunks: t.List[str] = []
        self.ns: t.Dict[str, t.Any] = {}
        self.defaults: t.List[t.Any] = []
        self.late_defaults: t.List[t.Tuple[int, t.Callable[[], t.Any]]] = []
        self.n = 0
        self.built = False

    def uid(self) -> int:
        self.n += 1
        return self.n

    def add(self, src: str) -> None:
        self.chunks.append(src)

    def source(self) -> str:
        head = ("from __future__ import annotations\n" if self.future else "") + HEADER
        return head + "\n" + "\n\n".join(self.chunks) + "\n"

    def build(self, *exprs: str) -> t.List[t.Any]:
        src = self.source()
        mod = types.ModuleType(self.name)
        mod.__dict__["_D"] = self.defaults
        made = self.made = []

        def mk(i):
            if self.watch_factories:
                made.append(i)
            return copy.deepcopy(self.defaults[i])

        mod.__dict__["_mk"] = mk
        self.ns = mod.__dict__
        sys.modules[self.name] = mod
        exec(compile(src, f"<{self.name}>", "exec"), mod.__dict__)
        self.built = True
        for i, make in self.late_defaults:
            self.defaults[i] = make()
        return [self.ev(e) for e in exprs]

    def ev(self, expr: str) -> t.Any:
        return eval(compile(expr, f"<{self.name}>", "eval"), self.ns)

    def close(self) -> None:
        sys.modules.pop(self.name, None)

    watch_factories = False  # Whether the slots of called default factories are put into self.made.

    def default_slot(self, make: t.Callable[[], t.Any], late: bool) -> int:
        self.defaults.append(None if late else make())
        i = len(self.defaults) - 1
        if late:
            self.late_defaults.append((i, make))
        return i


class Sabotage:
    """While active, the *target*-th value generated is replaced by what *make* returns for its node."""

    active: "t.Optional[Sabotage]" = None

    def __init__(self, target: int, make: t.Callable[["Node"], t.Any]) -> None:
        self.target, self.make, self.count = target, make, 0
        self.node: t.Optional[Node] = None

    def __enter__(self) -> "Sabotage":
        Sabotage.active = self
        return self

    def __exit__(self, *a: t.Any) -> None:
        Sabotage.active = None


class Node:
    expr: str

    def __init_subclass__(cls, **kw: t.Any) -> None:
        super().__init_subclass__(**kw)
        if "gen" in vars(cls):
            orig = vars(cls)["gen"]

            def gen(self, r, env, d=3):
                sab = Sabotage.active
                if sab is not None:
                    sab.count += 1
                    if sab.count == sab.target:
                        sab.node = self
                        return sab.make(self)
                return orig(self, r, env, d)

            cls.gen = gen

    tname: t.Optional[str] = None  # name of the class if usable in a plain union
    hashable = False
    key = False  # usable as key of a JSON object
    immutable = True
    exact = True  # json round trip safe

    def gen(self, r: random.Random, env: Env, d: int = 3) -> t.Any:
        raise NotImplementedError

    def enc(self, v: t.Any, env: Env, ann: t.Mapping[str, t.Any] = NOANN) -> t.Any:
        raise NotImplementedError

    def dec(self, p: t.Any, env: Env, ann: t.Mapping[str, t.Any] = NOANN) -> t.Any:
        raise NotImplementedError

    def __repr__(self) -> str:
        return f"<{self.expr}>"


# Leaves -----------------------------------------------------------------------------------------------------------

STRS = ["", "a", "abc", "0", "1.5", "yes", "no", "null", "type", "\u00e9\u4e2d\U0001f600", "a b\n\t", '"\\', "2020-01-01", "x" * 40]


def rstr(r: random.Random) -> str:
    if r.random() < 0.5:
        return r.choice(STRS)
    if r.random() < 0.05:
        return "".join(r.choice("ab \u00e9\u4e2d\U0001f600\n\r\t\x00\x7f\x85\u2028\ufeff\"\\/'<&%{}") for _ in range(r.choice([3, 60, 300])))
    return "".join(r.choice("abcXYZ0189 _-.\u00e9") for _ in range(r.randrange(9)))


class Any_(Node):
    expr = "t.Any"
    immutable = False

    def gen(self, r, env, d=3):
        v = junk(r, 2)
        return 1 if v is None else v

    def enc(self, v, env, ann=NOANN):
        return v

    def dec(self, p, env, ann=NOANN):
        return p


class Object_(Any_):
    expr = "object"


class Int(Node):
    expr, tname, hashable = "int", "int", True

    def gen(self, r, env, d=3):
        return r.choice([0, 1, -1, 7, 2**31, -(2**63), 10**25, 2**53 + 1, r.randrange(-1000, 1000), r.randrange(-1000, 1000), r.getrandbits(r.randrange(1, 300))])

    def enc(self, v, env, ann=NOANN):
        if type(v) is int:
            return v
        if type(v) is float and math.isfinite(v) and v == math.floor(v):
            return int(v)
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is int:
            return p
        if type(p) is float and math.isfinite(p) and p == math.floor(p):
            return int(p)
        if type(p) is str and not env.get("strict", ann, True):
            if re.fullmatch(r"-?[0-9]{1,400}", p):
                return int(p)
            if not re.search(r"\d", p):
                raise Reject
            if re.fullmatch(r"-?\d+\.\d+", p):
                raise Reject
            raise Unspecified
        raise Reject


class Float(Node):
    expr, tname, hashable = "float", "float", True

    def gen(self, r, env, d=3):
        return r.choice([0.0, -0.0, 1.5, -2.25, 1e300, 1e-300, float("inf"), float("-inf"), float("nan"), 3.0, r.uniform(-1e6, 1e6)])

    def enc(self, v, env, ann=NOANN):
        if type(v) is float:
            return v
        if type(v) is int:
            try:
                return float(v)
            except OverflowError:
                raise Reject
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is float:
            return p
        if type(p) is int:
            try:
                return float(p)
            except OverflowError:
                raise Reject
        if type(p) is str and not env.get("strict", ann, True):
            if re.fullmatch(r"-?[0-9]+(\.[0-9]+)?(e-?[0-9]{1,3})?|-?inf|nan", p):
                return float(p)
            if not re.search(r"\d|inf|nan", p, re.I):
                raise Reject
            raise Unspecified
        raise Reject


class Str(Node):
    expr, tname, hashable, key = "str", "str", True, True

    def gen(self, r, env, d=3):
        return rstr(r)

    def enc(self, v, env, ann=NOANN):
        if type(v) is str:
            return v
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is str:
            return p
        if type(p) in (int, float, bool) and not env.get("strict", ann, True):
            try:
                return str(p)
            except ValueError:
                raise Reject
        raise Reject


class Bool(Node):
    expr, tname, hashable = "bool", "bool", True
    TRUE = ("yes", "true", "on", "enabled")
    FALSE = ("no", "false", "off", "disabled")

    def gen(self, r, env, d=3):
        return r.random() < 0.5

    def enc(self, v, env, ann=NOANN):
        if type(v) is bool:
            return v
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is bool:
            return p
        if type(p) is str and not env.get("strict", ann, True):
            if p.lower() in self.TRUE:
                return True
            if p.lower() in self.FALSE:
                return False
            raise Reject
        raise Reject


class Bytes(Node):
    expr, tname, hashable, key = "bytes", "bytes", True, True

    def gen(self, r, env, d=3):
        return bytes(r.randrange(256) for _ in range(r.choice([57, 58, 76, 77, 300]) if r.random() < 0.1 else r.randrange(9)))

    def enc(self, v, env, ann=NOANN):
        if type(v) is bytes:
            return base64.b64encode(v).decode("ascii")
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is bytes:
            raise Unspecified
        if type(p) is not str:
            raise Reject
        if any(c.isspace() for c in p):
            raise Unspecified
        if not re.fullmatch(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", p):
            if re.fullmatch(r"(?:[A-Za-z0-9+/]{4})*={1,2}", p):
                raise Unspecified  # superfluous padding
            raise Reject
        out = base64.b64decode(p)
        if base64.b64encode(out).decode() != p:
            raise Unspecified  # padding bits that are not zero
        return out


class DecimalN(Node):
    expr, tname, hashable, key = "decimal.Decimal", "Decimal", True, True

    def gen(self, r, env, d=3):
        return r.choice(
            [decimal.Decimal(x) for x in ("0", "-0", "1.10", "1E+5", "-1.5E-10", "NaN", "Infinity", "-Infinity", "0E-20", "12345678901234567890.123456789")]
            + [decimal.Decimal(r.randrange(-(10**9), 10**9)).scaleb(-r.randrange(12))]
        )

    def gen_finite(self, r):
        return decimal.Decimal(r.randrange(-(10**12), 10**12)).scaleb(-r.randrange(-3, 12))

    def enc(self, v, env, ann=NOANN):
        if isinstance(v, decimal.Decimal):
            return str(v)
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is str:
            if re.search(r"\s|_|[^\x00-\x7f]", p):
                raise Unspecified
            if re.fullmatch(r"[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]{1,6})?|[-+]?(inf|infinity)|[-+]?s?nan[0-9]*", p, re.I):
                return decimal.Decimal(p)
            raise Reject
        if type(p) in (int, float) and not env.get("strict", ann, True):
            return decimal.Decimal(p)
        if type(p) is bool and not env.get("strict", ann, True):
            raise Unspecified
        raise Reject


class UUIDN(Node):
    expr, tname, hashable, key = "uuid.UUID", "UUID", True, True

    def gen(self, r, env, d=3):
        return uuid.UUID(int=r.getrandbits(128))

    def enc(self, v, env, ann=NOANN):
        if isinstance(v, uuid.UUID):
            return str(v)
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is not str:
            raise Reject
        try:
            return uuid.UUID(p)
        except ValueError:
            raise Reject


class PathN(Node):
    hashable = key = True

    def __init__(self, cls: str) -> None:
        self.expr = f"pathlib.{cls}"
        self.tname = cls
        self.cls = getattr(pathlib, cls)

    def gen(self, r, env, d=3):
        return self.cls(r.choice([".", "a", "a/b", "/", "/x/y.txt", "..", "a b/\u00e9", "C:/x", "c\\d", "~", " a", "a ", "a. ", "\ta\n", "a\u00a0", " ", "\u2028", "-x", "A/a", "a//b/./c", "a/..", "//h/s", "x" * 300]))

    def enc(self, v, env, ann=NOANN):
        if isinstance(v, self.cls):
            return str(v)
        raise Reject

    def dec(self, p, env, ann=NOANN):
        if type(p) is not str:
            raise Reject
        return self.cls(p)


class DurationN(Node):
    expr, tname = "duration", "duration"
    immutable = False
    key = False

    def gen(self, r, env, d=3):
        from nr.date import duration

        return duration(**{k: r.choice([0, 0, 1, 5, 400]) for k in ("years", "months", "weeks", "days", "hours", "minutes", "seconds")})

    def enc(self, v, env, ann=NOANN):
        from nr.date import duration

        if not isinstance(v, duration):
            raise Reject
        if v.microseconds or any(type(x) is not int for x in (v.seconds, v.minutes, v.hours)):
            raise Unspecified
        a = "".join(f"{n}{c}" for n, c in ((v.years, "Y"), (v.months, "M"), (v.weeks, "W"), (v.days, "D")) if n)
        b = "".join(f"{n}{c}" for n, c in ((v.hours, "H"), (v.minutes, "M"), (v.seconds, "S")) if n)
        if not a and not b:
            raise Unspecified  # any zero duration text is fine
        return "P" + a + ("T" + b if b else "")

    def dec(self, p, env, ann=NOANN):
        from nr.date import duration

        if isinstance(p, collections.abc.Mapping):
            raise Unspecified  # a duration is a dataclass, too
        if type(p) is not str:
            raise Reject
        m = re.fullmatch(
            r"P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)W)?(?:([0-9]+)D)?(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)S)?)?", p
        )
        if m and p not in ("P",) and not p.endswith("T"):
            n = [int(x or 0) for x in m.groups()]
            return duration(years=n[0], months=n[1], weeks=n[2], days=n[3], hours=n[4], minutes=n[5], seconds=n[6])
        if not p.startswith("P"):
            raise Reject
        raise Unspecified


TZS = [None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)),
       datetime.timezone(-datetime.timedelta(hours=3)), datetime.timezone(datetime.timedelta(minutes=-45)),
       datetime.timezone(datetime.timedelta(0), "named")]
USEC = [0, 0, 1, 10, 123000, 100000, 999999, 500]


def iso_frac(us: int) -> str:
    return f"{us:06d}".rstrip("0") or "0"


def iso_tz(v: t.Any) -> str:
    off = v.utcoffset()
    if off is None:
        return ""
    secs = int(off.total_seconds())
    if v.tzinfo == datetime.timezone.utc:
        return "Z"
    if secs % 60:
        raise Unspecified
    sign = "-" if secs < 0 else "+"
    secs = abs(secs)
    return f"{sign}{secs // 3600:02d}:{secs // 60 % 60:02d}"


ISO_TIME = r"(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?"
ISO_DATE = r"(\d{4})-(\d\d)-(\d\d)"
ISO_TZ = r"(Z|[-+]\d\d:\d\d)?"


def parse_tz(s: t.Optional[str]) -> t.Any:
    if not s:
        return None
    if s == "Z":
        return datetime.timezone.utc
    mins = int(s[1:3]) * 60 + int(s[4:6])
    if mins >= 24 * 60:
        raise Reject
    return datetime.timezone(datetime.timedelta(minutes=-mins if s[0] == "-" else mins))


class DateN(Node):
    expr, tname, hashable, key = "datetime.date", "date", True, True

    def gen(self, r, env, d=3):
        return datetime.date(r.choice([1, 99, 999, 1970, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29))

    def enc(self, v, env, ann=NOANN):
        if isinstance(v, datetime.datetime):
            raise Unspecified
        if not isinstance(v, datetime.date):
            raise Reject
        return f"{v.year:04d}-{v.month:02d}-{v.day:02d}"

    def dec(self, p, env, ann=NOANN):
        if isinstance(p, datetime.date):
            raise Unspecified
        if type(p) is not str:
            raise Reject
        m = re.fullmatch(ISO_DATE, p, re.A)
        if m:
            try:
                return datetime.date(*map(int, m.groups()))
            except ValueError:
                raise Reject
        if not re.match(r"\d{4}", p) or re.search(r"[A-Za-z:]", p):
            raise Reject
        raise Unspecified


class TimeN(Node):
    expr, tname, hashable, key = "datetime.time", "time", True, True

    def gen(self, r, env, d=3):
        # Aware times are a known finding (nr.date drops the offset).
        return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), r.choice(USEC))

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, datetime.time):
            raise Reject
        return f"{v.hour:02d}:{v.minute:02d}:{v.second:02d}.{iso_frac(v.microsecond)}" + iso_tz(v)

    def dec(self, p, env, ann=NOANN):
        if isinstance(p, datetime.time):
            raise Unspecified
        if type(p) is not str:
            raise Reject
        m = re.fullmatch(ISO_TIME, p, re.A)
        if m:
            try:
                return datetime.time(int(m[1]), int(m[2]), int(m[3]), int((m[4] or "0").ljust(6, "0")))
            except ValueError:
                raise Reject
        if not re.match(r"\d\d", p) or re.search(r"[A-YT]", p, re.I):
            raise Reject
        raise Unspecified


class DatetimeN(Node):
    expr, tname, hashable, key = "datetime.datetime", "datetime", True, True

    def gen(self, r, env, d=3):
        return datetime.datetime(
            r.choice([1, 99, 999, 1970, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24),
            r.randrange(60), r.randrange(60), r.choice(USEC), tzinfo=r.choice(TZS)
        )

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, datetime.datetime):
            raise Reject
        return (
            f"{v.year:04d}-{v.month:02d}-{v.day:02d}T{v.hour:02d}:{v.minute:02d}:{v.second:02d}.{iso_frac(v.microsecond)}"
            + iso_tz(v)
        )

    def dec(self, p, env, ann=NOANN):
        if isinstance(p, datetime.datetime):
            raise Unspecified
        if type(p) is not str:
            raise Reject
        m = re.fullmatch(ISO_DATE + "T" + ISO_TIME + ISO_TZ, p, re.A)
        if m:
            try:
                return datetime.datetime(
                    int(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), int(m[6]), int((m[7] or "0").ljust(6, "0")),
                    tzinfo=parse_tz(m[8])
                )
            except ValueError:
                raise Reject
        if not re.match(r"\d{4}", p) or "T" not in p:
            raise Reject
        raise Unspecified


class LiteralN(Node):
    hashable = False

    def __init__(self, values: t.Sequence[t.Any]) -> None:
        self.values = list(values)
        self.expr = f"t.Literal[{', '.join(map(repr, values))}]"
        self.key = all(type(v) is str for v in values)
        self.hashable = True

    def gen(self, r, env, d=3):
        return r.choice(self.values)

    def _check(self, v):
        for x in self.values:
            if type(x) is type(v) and x == v:
                return v
        for x in self.values:
            try:
                # (1, 1.0 and True are different literals; whether an instance of a subclass is the listed value is not said.)
                if x == v and type(v) not in (bool, int, float):
                    raise Unspecified
            except Unspecified:
                raise
            except Exception:
                pass
        raise Reject

    def enc(self, v, env, ann=NOANN):
        return self._check(v)

    def dec(self, p, env, ann=NOANN):
        return self._check(p)


class EnumN(Node):
    """kind: enum | int | flag; aliases: member name -> list of aliases (plain enums only)."""

    hashable = True

    def __init__(self, b: Builder, kind: str = "enum", n: t.Optional[int] = None, aliased: bool = True, mixin: str = "") -> None:
        r = b.rng
        i = b.uid()
        self.b = b
        self.kind = kind
        self.tname = self.expr = f"E{i}"
        n = n or r.randrange(1, 5)
        names = r.sample(["CAT", "DOG", "LION", "cat", "Ant", "A", "B", "name_", "value_", "X1"], n)
        self.members: t.Dict[str, t.Any] = {}
        self.aliases: t.Dict[str, t.List[str]] = {}
        lines = []
        for k, name in enumerate(names):
            if kind == "int":
                val = r.choice([k, k * 7 + 3, -k - 1, 2**40 + k])
                while val in self.members.values():
                    val += 11
                self.members[name] = val
                lines.append(f"    {name} = {val}")
            elif kind == "flag":
                self.members[name] = 1 << k
                lines.append(f"    {name} = {1 << k}")
            else:
                val = f"v{k}" if mixin == "str" else k + 10 if mixin == "int" else r.choice([f"{k}", k, k + 0.5, (k, "t")])
                self.members[name] = val
                if aliased and r.random() < 0.4:
                    al = [f"al-{i}-{k}-{j}" for j in range(r.randrange(1, 3))]
                    self.aliases[name] = al
                    lines.append(f"    {name}: t.Annotated[t.Any, Alias({', '.join(map(repr, al))})] = {val!r}")
                else:
                    lines.append(f"    {name} = {val!r}")
        base = {"enum": "enum.Enum", "int": "enum.IntEnum", "flag": r.choice(["enum.Flag", "enum.IntFlag"])}[kind]
        if mixin:
            base = f"{mixin}, enum.Enum"
        b.add(f"class {self.expr}({base}):\n" + "\n".join(lines))
        self.key = kind != "int"

    @property
    def cls(self):
        return self.b.ns[self.expr]

    def gen(self, r, env, d=3):
        return self.cls[r.choice(list(self.members))]

    def enc(self, v, env, ann=NOANN):
        if type(v) is not self.cls:
            raise Reject
        if self.kind == "int":
            return v.value
        if v.name not in self.members:
            raise Reject
        return self.aliases.get(v.name, [v.name])[0]

    def dec(self, p, env, ann=NOANN):
        if self.kind == "int":
            if isinstance(p, enum.Enum):
                raise Unspecified
            if type(p) is not int:
                raise Reject
            for n, v in self.members.items():
                if v == p:
                    return self.cls[n]
            raise Reject
        if type(p) is not str:
            raise Reject
        for n, al in self.aliases.items():
            if p in al:
                return self.cls[n]
        if p in self.members:
            return self.cls[p]
        raise Reject


# Composites -------------------------------------------------------------------------------------------------------


class Ann(Node):
    """An annotation around a type: settings (known to the model) and unrelated metadata."""

    def __init__(self, inner: Node, anns: t.Optional[t.Dict[str, t.Any]] = None, meta: t.Sequence[str] = ()) -> None:
        self.inner = inner
        self.anns = anns or {}
        self.meta = list(meta)
        parts = [ann_src(k, v) for k, v in self.anns.items()]
        at = random.Random(f"{parts} {inner.expr}").choice([len(parts), len(parts), 0])
        parts[at:at] = self.meta
        self.expr = f"t.Annotated[{inner.expr}, {', '.join(parts)}]"
        self.hashable = inner.hashable
        self.key = inner.key
        self.immutable = inner.immutable

    def gen(self, r, env, d=3):
        return self.inner.gen(r, env, d)

    def enc(self, v, env, ann=NOANN):
        return self.inner.enc(v, env, {**ann, **self.anns})

    def dec(self, p, env, ann=NOANN):
        return self.inner.dec(p, env, {**ann, **self.anns})


def ann_src(kind: str, value: t.Any) -> str:
    if kind == "strict":
        return f"Strict({value})"
    if kind == "extra":
        return f"ExtraKeys({value})"
    if kind == "serdef":
        return f"SerializeDefaults({value})"
    raise AssertionError(kind)


def settings_for(glob: t.Mapping[str, t.Any]) -> t.List[t.Any]:
    """The list of settings objects for a call that corresponds to Env.glob."""
    from databind.core import ExtraKeys, SerializeDefaults, Strict

    m = {"strict": Strict, "extra": ExtraKeys, "serdef": SerializeDefaults}
    return [m[k](v) for k, v in glob.items()]


class Opt(Node):
    def __init__(self, inner: Node, spelling: int = 0) -> None:
        self.inner = inner
        self.expr = f"t.Optional[{inner.expr}]" if spelling == 0 else f"t.Union[None, {inner.expr}]"
        self.hashable = inner.hashable
        self.immutable = inner.immutable

    def gen(self, r, env, d=3):
        return None if d < 0 or r.random() < 0.3 else self.inner.gen(r, env, d)

    def enc(self, v, env, ann=NOANN):
        return None if v is None else self.inner.enc(v, env, ann)

    def dec(self, p, env, ann=NOANN):
        return None if p is None else self.inner.dec(p, env, ann)


class UnionN(Node):
    """Plain union of class-like types, first match wins."""

    def __init__(self, members: t.Sequence[Node], pipe: bool = False) -> None:
        members = list(members)
        # Unions that only differ in order are equal for typing's caches, so each set of members has one order.
        members.sort(key=lambda m: m.expr)
        random.Random("|".join(m.expr for m in members)).shuffle(members)
        self.members = members
        self.expr = (
            "(" + " | ".join(m.expr for m in members) + ")"
            if pipe
            else f"t.Union[{', '.join(m.expr for m in members)}]"
        )
        self.hashable = all(m.hashable for m in members)
        self.key = all(m.key for m in members)
        self.immutable = all(m.immutable for m in members)

    def gen(self, r, env, d=3):
        return r.choice(self.members).gen(r, env, d)

    def enc(self, v, env, ann=NOANN):
        for m in self.members:
            try:
                return m.enc(v, env)
            except Reject:
                pass
        raise Reject

    def dec(self, p, env, ann=NOANN):
        for m in self.members:
            try:
                return m.dec(p, env)
            except Reject:
                pass
        raise Reject


def filled(made, items):
    try:
        return made(items)
    except TypeError:
        return made([])  # A set cannot have these.


class Coll(Node):
    """kind -> (type expression, python type constructed when reading, type required when writing)"""

    KINDS: t.Dict[str, t.Tuple[str, t.Any, t.Any]] = {
        "List": ("t.List[{}]", list, list),
        "list": ("list[{}]", list, list),
        "Set": ("t.Set[{}]", set, set),
        "FrozenSet": ("t.FrozenSet[{}]", frozenset, frozenset),
        "Deque": ("t.Deque[{}]", collections.deque, collections.deque),
        "VarTuple": ("t.Tuple[{}, ...]", tuple, tuple),
        "vartuple": ("tuple[{}, ...]", tuple, tuple),
        "Sequence": ("t.Sequence[{}]", list, collections.abc.Sequence),
        "MutableSequence": ("t.MutableSequence[{}]", list, collections.abc.MutableSequence),
        "Collection": ("t.Collection[{}]", list, collections.abc.Collection),
        "AbstractSet": ("t.AbstractSet[{}]", set, collections.abc.Set),
        "MutableSet": ("t.MutableSet[{}]", set, collections.abc.MutableSet),
    }
    NAMES = {"List": "list", "list": "list", "Set": "set", "FrozenSet": "frozenset", "Deque": "deque",
             "Sequence": "Sequence", "MutableSequence": "MutableSequence", "Collection": "Collection",
             "AbstractSet": "Set", "MutableSet": "MutableSet"}
    immutable = False

    def __init__(self, kind: str, item: Node) -> None:
        self.kind = kind
        self.item = item
        e, self.made, self.req = self.KINDS[kind]
        self.expr = e.format(item.expr)
        self.tname = self.NAMES.get(kind)
        self.hashable = self.made in (frozenset, tuple) and item.hashable

    def gen(self, r, env, d=3):
        n = r.choice([0, 1, 2, 3]) if d > 0 else r.choice([0, 1]) if d == 0 else 0
        if d > 0 and self.item.tname in ("int", "str", "float", "bool") and r.random() < 0.04:
            n = r.choice([10, 11, 33, 130] * 3 + [1100])
        return filled(self.made, [self.item.gen(r, env, d - 1) for _ in range(n)])

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, self.req) or isinstance(v, (str, bytes, bytearray, memoryview, collections.abc.Mapping)):
            raise Reject
        return [self.item.enc(x, env) for x in v]

    def dec(self, p, env, ann=NOANN):
        if type(p) is not list:
            if isinstance(p, (tuple, set, frozenset, collections.deque)):
                raise Unspecified
            raise Reject
        items = [self.item.dec(x, env) for x in p]
        try:
            return self.made(items)
        except TypeError:
            raise Reject  # unhashable elements


class UserColl(Node):
    """A subclass of list/set/... declared by the user."""

    immutable = False

    def __init__(self, b: Builder, base: str, item: Node) -> None:
        self.b, self.item = b, item
        self.expr = self.tname = f"Coll{b.uid()}"
        self.base = {"t.List": list, "t.Set": set, "t.Deque": collections.deque, "t.FrozenSet": frozenset}[base]
        b.add(f"class {self.expr}({base}[{item.expr}]):\n    pass")
        self.hashable = base == "t.FrozenSet"

    @property
    def cls(self):
        return self.b.ns[self.expr]

    def gen(self, r, env, d=3):
        return filled(self.cls, [self.item.gen(r, env, d - 1) for _ in range(r.randrange(3))])

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, self.cls):
            raise Reject
        return [self.item.enc(x, env) for x in v]

    def dec(self, p, env, ann=NOANN):
        if type(p) is not list:
            raise Reject
        try:
            return self.cls([self.item.dec(x, env) for x in p])
        except TypeError:
            raise Reject


class Tup(Node):
    def __init__(self, items: t.Sequence[Node], new: bool = False) -> None:
        self.items = list(items)
        inner = ", ".join(i.expr for i in items) if items else "()"
        self.expr = f"{'tuple' if new else 't.Tuple'}[{inner}]"
        self.hashable = all(i.hashable for i in items)
        self.immutable = all(i.immutable for i in items)

    def gen(self, r, env, d=3):
        return tuple(i.gen(r, env, d - 1) for i in self.items)

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, tuple) or len(v) != len(self.items):
            raise Reject
        return [i.enc(x, env) for i, x in zip(self.items, v)]

    def dec(self, p, env, ann=NOANN):
        if type(p) is not list or len(p) != len(self.items):
            raise Reject
        return tuple(i.dec(x, env) for i, x in zip(self.items, p))


class Map(Node):
    KINDS: t.Dict[str, t.Tuple[str, t.Any, str]] = {
        "Dict": ("t.Dict[{}, {}]", dict, "dict"),
        "dict": ("dict[{}, {}]", dict, "dict"),
        "Mapping": ("t.Mapping[{}, {}]", dict, "Mapping"),
        "MutableMapping": ("t.MutableMapping[{}, {}]", dict, "MutableMapping"),
        "OrderedDict": ("t.OrderedDict[{}, {}]", collections.OrderedDict, "OrderedDict"),
    }
    immutable = False

    def __init__(self, kind: str, k: Node, v: Node, b: t.Optional[Builder] = None) -> None:
        self.k, self.v = k, v
        self.b = b
        if kind == "user":
            assert b is not None
            self.expr = self.tname = f"Map{b.uid()}"
            b.add(f"class {self.expr}(t.Dict[{k.expr}, {v.expr}]):\n    pass")
            self._made = None
        else:
            e, self._made, self.tname = self.KINDS[kind]
            self.expr = e.format(k.expr, v.expr)

    @property
    def made(self):
        return self._made or self.b.ns[self.expr]

    def gen(self, r, env, d=3):
        n = r.choice([0, 1, 2, 3]) if d > 0 else r.choice([0, 1]) if d == 0 else 0
        out: t.Dict[t.Any, t.Any] = {}
        seen = set()
        for _ in range(n):
            k = self.k.gen(r, env, d - 1)
            try:
                w = self.k.enc(k, env)
                if w in seen or k in out or isinstance(k, decimal.Decimal) and not k.is_finite():
                    continue
            except (TypeError, decimal.InvalidOperation):
                continue
            seen.add(w)
            out[k] = self.v.gen(r, env, d - 1)
        return self.made(out)

    def enc(self, v, env, ann=NOANN):
        if not isinstance(v, collections.abc.Mapping):
            raise Reject
        out = {}
        for k, x in v.items():
            w = self.k.enc(k, env)
            x = self.v.enc(x, env)
            try:
                if w in out:
                    raise Reject  # An entry would be lost.
            except TypeError:
                raise Unspecified
            out[w] = x
        return out

    def dec(self, p, env, ann=NOANN):
        if type(p) is not dict:
            raise Reject
        out = {}
        for k, x in p.items():
            x = self.v.dec(x, env)
            k = self.k.dec(k, env)
            try:
                if k in out:
                    raise Reject  # An entry would be lost.
                if k != k:
                    raise Unspecified
            except (TypeError, decimal.InvalidOperation):
                raise Unspecified
            out[k] = x
        return self.made(out)


NODEF = object()


class FieldSpec:
    def __init__(
        self,
        name: str,
        node: Node,
        aliases: t.Sequence[str] = (),
        default: t.Any = NODEF,  # ("value", slot) or ("factory", slot)
        required: t.Optional[bool] = None,
        flat: bool = False,
        remainder: bool = False,
        anns: t.Optional[t.Dict[str, t.Any]] = None,
        meta: t.Sequence[str] = (),
        quote: bool = False,
        notreq: bool = False,  # TypedDict: from the non-total part
        alias_src: t.Optional[str] = None,
    ) -> None:
        self.name, self.node, self.aliases, self.default = name, node, list(aliases), default
        self.required, self.flat, self.remainder = required, flat, remainder
        self.anns = anns or {}
        self.meta = list(meta)
        self.quote = quote
        self.notreq = notreq

    def hint(self) -> str:
        parts = []
        if self.aliases:
            parts.append(f"Alias({', '.join(map(repr, self.aliases))})")
        if self.flat:
            parts.append("Flattened()")
        if self.remainder:
            parts.append("Remainder()")
        if self.required is not None:
            parts.append(f"Required({self.required})")
        parts += [ann_src(k, v) for k, v in self.anns.items()]
        parts += self.meta
        e = self.node.expr
        if parts:
            e = f"t.Annotated[{e}, {', '.join(parts)}]"
        return repr(e) if self.quote else e

    @property
    def key(self) -> str:
        return self.aliases[0] if self.aliases else self.name

    @property
    def keys(self) -> t.List[str]:
        return self.aliases or [self.name]

    def is_optional(self) -> bool:
        n: t.Any = self.node
        while isinstance(n, Ann):
            n = n.inner
        return isinstance(n, Opt)

    def is_required(self) -> bool:
        if self.notreq:
            return False
        if self.required is not None:
            return self.required
        if self.default is not NODEF or self.is_optional() or self.notreq:
            return False
        return True


class Struct(Node):
    """kind: dc (dataclass), xdc (the library's extension), td (TypedDict), nt (NamedTuple)."""

    immutable = False

    def __init__(
        self,
        b: Builder,
        fields: t.Sequence[FieldSpec],
        kind: str = "dc",
        name: t.Optional[str] = None,
        base: "t.Optional[Struct]" = None,
        base_args: t.Sequence[Node] = (),
        params: t.Sequence[str] = (),
        extra: t.Optional[bool] = None,  # class decorator
        options: str = "",
        frozen: bool = False,
        decorators: t.Sequence[str] = (),
        bases: t.Sequence[str] = (),
        functional: bool = False,
    ) -> None:
        self.b, self.kind, self.base, self.base_args, self.params = b, kind, base, list(base_args), list(params)
        self.own = list(fields)
        self.extra = extra
        self.name = self.expr = self.tname = name or f"S{b.uid()}"
        self.frozen = frozen
        self.hashable = False
        b.add(self.source(options, decorators, bases, functional))

    def source(self, options: str, decorators: t.Sequence[str], bases: t.Sequence[str], functional: bool) -> str:
        bs = list(bases)
        if self.base is not None:
            bs.append(self.base.name + (f"[{', '.join(a.expr for a in self.base_args)}]" if self.base_args else ""))
        if self.params:
            bs.append(f"t.Generic[{', '.join(self.params)}]")
        lines: t.List[str] = []
        if self.kind in ("dc", "xdc"):
            opts = [o for o in options.split(",") if o]
            if self.frozen:
                opts.append("frozen=True")
            mod = "dataclasses" if self.kind == "dc" else "xdc"
            pre = list(decorators)
            if self.extra is not None:
                pre.append(f"@ExtraKeys({self.extra})")
            lines += pre
            lines.append(f"@{mod}.dataclass({', '.join(opts)})" if opts else f"@{mod}.dataclass")
            lines.append(f"class {self.name}({', '.join(bs)}):" if bs else f"class {self.name}:")
            order = self.own if self.kind == "xdc" or "kw_only=True" in options else sorted(self.own, key=lambda f: f.default is not NODEF)
            self.own = list(order)
            for f in order:
                lines.append(f"    {f.name}: {f.hint()}{self._default_src(f)}")
            if not order:
                lines.append("    pass")
        elif self.kind == "nt":
            lines.append(f"class {self.name}(t.NamedTuple):")
            self.own.sort(key=lambda f: f.default is not NODEF)
            for f in self.own:
                lines.append(f"    {f.name}: {f.hint()}{self._default_src(f)}")
            if not self.own:
                lines.append("    pass")
        elif self.kind == "td":
            req = [f for f in self.own if not f.notreq]
            opt = [f for f in self.own if f.notreq]
            if functional or any(not f.name.isidentifier() for f in self.own):
                def lit(fs):
                    return "{" + ", ".join(f"{f.name!r}: {f.hint()}" for f in fs) + "}"

                if opt and req:
                    # The functional syntax cannot inherit; one totality only.
                    raise AssertionError("functional TypedDicts have one totality")
                lines.append(f"{self.name} = t.TypedDict({self.name!r}, {lit(self.own)}, total={not opt})")
            elif req and opt:
                first, second, tot = (req, opt, False) if self.b.rng.random() < 0.5 else (opt, req, True)
                lines.append(f"class {self.name}Base(t.TypedDict, total={not tot}):")
                lines += [f"    {f.name}: {f.hint()}" for f in first]
                lines.append("")
                lines.append(f"class {self.name}({self.name}Base, total={tot}):")
                lines += [f"    {f.name}: {f.hint()}" for f in second]
            else:
                lines.append(f"class {self.name}(t.TypedDict, total={not opt}):")
                lines += [f"    {f.name}: {f.hint()}{self._default_src(f)}" for f in self.own] or ["    pass"]
        return "\n".join(lines)

    @staticmethod
    def _default_src(f: FieldSpec) -> str:
        if f.default is NODEF:
            return ""
        kind, slot = f.default
        if kind == "value":
            return f" = _D[{slot}]"
        return f" = dataclasses.field(default_factory=lambda: _mk({slot}))"

    @property
    def cls(self) -> t.Any:
        return self.b.ns[self.name]

    def all_fields(self, env: Env) -> t.List[t.Tuple[FieldSpec, Env]]:
        out = [(f, env) for f in self.own]
        have = {f.name for f in self.own}
        if self.base is not None:
            benv = Env(env.glob, {p: (a, env) for p, a in zip(self.base.params, self.base_args)})
            out = [(f, e) for f, e in self.base.all_fields(benv) if f.name not in have] + out
        return out

    def default_of(self, f: FieldSpec) -> t.Any:
        if f.default is NODEF:
            return None
        v = self.b.defaults[f.default[1]]
        return copy.deepcopy(v) if f.default[0] == "factory" else v

    def has_default(self, f: FieldSpec) -> bool:
        if f.default is not NODEF:
            return True
        if self.kind == "nt":
            return False
        if f.required is not None:
            return not f.required
        return f.is_optional()

    def required(self, f: FieldSpec) -> bool:
        if self.kind == "nt":
            return f.default is NODEF
        return f.is_required()

    def gen(self, r, env, d=3):
        kw = {}
        for f, fe in self.all_fields(env):
            # An absent key with a default or an optional type is filled in when reading.
            if self.kind == "td" and f.notreq and not f.remainder and f.default is NODEF and not f.is_optional() and r.random() < 0.4:
                continue
            if f.default is not NODEF and r.random() < 0.4:
                kw[f.name] = self.default_of(f)
            elif f.remainder:
                kw[f.name] = self.gen_remainder(r, f, fe, env)
            else:
                kw[f.name] = f.node.gen(r, fe, d - 1)
        return self.cls(**kw)

    def gen_remainder(self, r, f, fe, env):
        v = f.node.gen(r, fe, 1)
        bad = self.wire_keys(env)
        return type(v)({k: x for k, x in v.items() if k not in bad})

    def wire_keys(self, env: Env) -> t.Set[str]:
        out: t.Set[str] = set()
        for f, fe in self.all_fields(env):
            if f.remainder:
                continue
            if f.flat:
                n, ne = strip(f.node, fe)
                out |= n.wire_keys(ne)
            else:
                out |= set(f.keys)
        return out

    def isinst(self, v: t.Any) -> bool:
        if self.kind == "td":
            return isinstance(v, collections.abc.Mapping)
        return isinstance(v, self.cls)

    def enc(self, v, env, ann=NOANN):
        if not self.isinst(v):
            raise Reject
        full = env.get("serdef", ann, True)
        out: t.Dict[str, t.Any] = {}
        rem = None

        def put(k, w):
            if k in out:
                raise Reject
            out[k] = w

        for f, fe in self.all_fields(env):
            if self.kind == "td":
                if f.name not in v:
                    if self.required(f):
                        raise Reject
                    continue
                x = v[f.name]
            else:
                x = getattr(v, f.name)
            w = f.node.enc(x, fe, f.anns)
            if f.flat:
                for k in w:
                    put(k, w[k])
                continue
            if not full and self.has_default(f) and not (x != self.default_of(f)):
                continue
            if f.remainder:
                if not isinstance(w, dict):
                    raise Reject
                rem = w
            else:
                put(f.key, w)
        if rem is not None:
            for k in rem:
                put(k, rem[k])
        if self.kind == "td" and isinstance(v, dict) and set(v) - {f.name for f, _ in self.all_fields(env)}:
            raise Unspecified  # unknown keys of a TypedDict value
        return out

    def claim(self, p: t.Mapping[str, t.Any], env: Env, claimed: t.Set[str]) -> None:
        for f, fe in self.all_fields(env):
            if f.remainder:
                continue
            if f.flat:
                n, ne = strip(f.node, fe)
                n.claim(p, ne, claimed)
            else:
                for k in f.keys:
                    if k in p:
                        claimed.add(k)
                        break

    def has_remainder(self, env: Env) -> bool:
        for f, fe in self.all_fields(env):
            if f.remainder:
                return True
            if f.flat:
                n, ne = strip(f.node, fe)
                if n.has_remainder(ne):
                    return True
        return False

    def make(self, p: t.Mapping[str, t.Any], env: Env, rest: t.Dict[str, t.Any]) -> t.Any:
        kw = {}
        for f, fe in self.all_fields(env):
            if f.remainder:
                kw[f.name] = f.node.dec(rest, fe, f.anns)
            elif f.flat:
                n, ne = strip(f.node, fe)
                kw[f.name] = n.make(p, ne, rest)
            else:
                for k in f.keys:
                    if k in p:
                        kw[f.name] = f.node.dec(p[k], fe, f.anns)
                        break
                else:
                    if self.required(f):
                        raise Reject
                    if self.has_default(f):
                        kw[f.name] = self.default_of(f)
        return self.cls(**kw)

    def dec(self, p, env, ann=NOANN):
        if not isinstance(p, dict):
            raise Reject
        claimed: t.Set[str] = set()
        self.claim(p, env, claimed)
        rest = {k: v for k, v in p.items() if k not in claimed}
        if rest and not self.has_remainder(env):
            if not env.get("extra", ann, False, self.extra):
                raise Reject
        return self.make(p, env, rest)


class Param(Node):
    def __init__(self, name: str) -> None:
        self.name = self.expr = name

    def gen(self, r, env, d=3):
        n, e = env.tp[self.name]
        return n.gen(r, e, d)

    def enc(self, v, env, ann=NOANN):
        n, e = env.tp[self.name]
        return n.enc(v, e, ann)

    def dec(self, p, env, ann=NOANN):
        n, e = env.tp[self.name]
        return n.dec(p, e, ann)


class Gen_(Node):
    """A generic structure with arguments."""

    immutable = False

    def __init__(self, struct: Struct, args: t.Sequence[Node]) -> None:
        self.struct, self.args = struct, list(args)
        self.expr = f"{struct.name}[{', '.join(a.expr for a in args)}]"
        self.tname = struct.name

    def env(self, env: Env) -> Env:
        return Env(env.glob, {p: (a, env) for p, a in zip(self.struct.params, self.args)})

    def gen(self, r, env, d=3):
        return self.struct.gen(r, self.env(env), d)

    def enc(self, v, env, ann=NOANN):
        return self.struct.enc(v, self.env(env), ann)

    def dec(self, p, env, ann=NOANN):
        return self.struct.dec(p, self.env(env), ann)


def strip(n: t.Any, env: Env) -> t.Tuple[Struct, Env]:
    """The structure behind annotations, type parameters and generic aliases."""
    while True:
        if isinstance(n, Ann):
            n = n.inner
        elif isinstance(n, Param):
            n, env = env.tp[n.name]
        elif isinstance(n, Gen_):
            env = n.env(env)
            n = n.struct
        else:
            return n, env


class Rec(Node):
    """A reference to a structure that is still being defined (by its name, as a forward reference)."""

    immutable = False

    def __init__(self, name: str) -> None:
        self.name = name
        self.expr = name
        self.struct: t.Optional[Struct] = None

    def gen(self, r, env, d=3):
        assert self.struct
        return self.struct.gen(r, env, d)

    def enc(self, v, env, ann=NOANN):
        return self.struct.enc(v, env, ann)

    def dec(self, p, env, ann=NOANN):
        return self.struct.dec(p, env, ann)


class Tagged(Node):
    """A tagged union: members tag -> node; carrier 'annotated' or 'class' (decorated base class)."""

    immutable = False

    def __init__(
        self,
        b: Builder,
        members: t.Dict[str, Node],
        style: str,
        disc: str = "type",
        nest: t.Optional[str] = None,
        carrier: str = "annotated",
        basename: t.Optional[str] = None,
        lazy: t.Collection[str] = (),
        explicit_default: bool = True,
        over: t.Optional[str] = None,
    ) -> None:
        self.b, self.members, self.style, self.disc, self.nest, self.carrier = b, members, style, disc, nest, carrier
        if carrier == "annotated":
            ms = ", ".join(f"{k!r}: " + (f"(lambda: {n.expr})" if k in lazy else n.expr) for k, n in members.items())
            un = ", ".join(dict.fromkeys(n.expr for n in members.values()))
            un = over or f"t.Union[{un}]"
            name = f"U{b.uid()}"
            args = [f"{{{ms}}}", f"style={style!r}"]
            if disc != "type":
                args.append(f"discriminator_key={disc!r}")
            if nest is not None:
                args.append(f"nesting_key={nest!r}")
            b.add(f"{name} = t.Annotated[{un}, Union({', '.join(args)})]")
            self.expr = name
        else:
            assert basename
            self.expr = basename
            self.tname = basename

    def type_of(self, node: Node) -> t.Any:
        n: t.Any = node
        while isinstance(n, Ann):
            n = n.inner
        if isinstance(n, Struct):
            return n.cls
        if isinstance(n, Gen_):
            return n.struct.cls
        if isinstance(n, Coll):
            return n.made
        return self.b.ev(n.expr)

    def gen(self, r, env, d=3):
        return r.choice(list(self.members.values())).gen(r, env, d - 1)

    def enc(self, v, env, ann=NOANN):
        for tag, n in self.members.items():
            if self.type_of(n) is type(v):
                break
        else:
            raise Reject
        if self.style == "nested" and (tag if self.nest is None else self.nest) == self.disc:
            raise Reject
        w = n.enc(v, env)
        if self.style == "nested":
            return {self.disc: tag, (tag if self.nest is None else self.nest): w}
        if self.style == "keyed":
            return {tag: w}
        if self.style == "flat":
            if not isinstance(w, dict):
                raise Reject
            if self.disc in w:
                if w[self.disc] != tag:
                    raise Reject
                raise Unspecified
            return {**w, self.disc: tag}
        raise AssertionError(self.style)

    def dec(self, p, env, ann=NOANN):
        if not isinstance(p, dict):
            raise Reject
        if self.style == "keyed":
            if len(p) != 1:
                raise Reject
            ((tag, w),) = p.items()
            if type(tag) is not str or tag not in self.members:
                raise Reject
            return self.members[tag].dec(w, env)
        if self.disc not in p:
            raise Reject
        tag = p[self.disc]
        if type(tag) is not str or tag not in self.members:
            raise Reject
        n = self.members[tag]
        if self.style == "flat":
            return n.dec({k: v for k, v in p.items() if k != self.disc}, env)
        key = tag if self.nest is None else self.nest
        if key not in p or key == self.disc:
            raise Reject
        out = n.dec(p[key], env)
        if len(p) > 2:
            raise Unspecified  # nothing is documented about further keys
        return out


class DesAs(Node):
    """Annotated[Base, DeserializeAs(Sub)]"""

    immutable = False

    def __init__(self, base: Struct, sub: Struct) -> None:
        self.base, self.sub = base, sub
        self.expr = f"t.Annotated[{base.expr}, DeserializeAs({sub.expr})]"

    def gen(self, r, env, d=3):
        return self.sub.gen(r, env, d)

    def enc(self, v, env, ann=NOANN):
        return self.sub.enc(v, env, ann)

    def dec(self, p, env, ann=NOANN):
        if self.sub.extra is not None or self.base.extra is not None:
            raise Unspecified
        return self.sub.dec(p, env, ann)
