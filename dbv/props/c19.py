"""Converters attached to classes and annotations: which ones are consulted with what, at every place of a payload, and the result."""

import collections
import dataclasses
import datetime
import enum
import fractions
import gc
import ipaddress
import pathlib
import typing as t
import uuid

from databind.core import Alias, Context, ConversionError, Converter, Direction, Strict
from databind.json import get_object_mapper
from databind.json.converters import StringifyConverter
from databind.json.settings import JsonConverter

from dbv.common import *

ID = "C19"
CASES = {"quick": 30000, "thorough": 1500000}
RULE = "one conversion of a structure holding a type with attached converter; non-trivial if the converter was consulted"
MINIMA = {"attached to the class": 2500, "attached to the annotation": 2500, "both": 800, "declined, built-in used": 800, "failed, built-in used": 500, "nothing converts": 800,
          "classmethods": 3000, "serialized type refused": 250, "subclass declared": 500, "subclass value": 300, "stringify round trip": 1500, "stringify subclass": 400,
          "additional annotation": 2500, "mapping key": 200, "parser refuses": 100, "one mapper: annotation": 2000, "one mapper: class": 2000, "one mapper: call": 2000, "supplier asked again": 200}


class Kind:
    """A kind of class with a number as its only content."""

    def __init__(self, r, world):
        self.name = r.choice(["plain", "plain", "dataclass", "dataclass", "enum", "namedtuple", "typeddict", "strsub", "generic"])
        log = world
        if self.name == "plain":
            class Box:
                def __init__(self, n):
                    self.n = n

                def __eq__(self, o):
                    return type(o) is type(self) and o.n == self.n

                def __hash__(self):
                    return self.n
        elif self.name == "dataclass":
            @dataclasses.dataclass(frozen=True)
            class Box:
                n: int
        elif self.name == "enum":
            class Box(enum.Enum):
                m0, m1, m2, m3 = range(4)
        elif self.name == "namedtuple":
            class Box(t.NamedTuple):
                n: int
        elif self.name == "typeddict":
            class Box(t.TypedDict):
                n: int
        elif self.name == "generic":
            T = t.TypeVar("T")

            @dataclasses.dataclass(frozen=True)
            class Box(t.Generic[T]):
                n: int
        else:
            class Box(str):
                pass
        self.cls = Box
        self.hint = Box[str] if self.name == "generic" and r.random() < 0.7 else Box

    def make(self, n):
        return {"enum": lambda: self.cls(n), "typeddict": lambda: {"n": n}, "strsub": lambda: self.cls(f"s{n}")}.get(self.name, lambda: self.cls(n))()

    def number(self, v):
        """The number in a value or payload of any form."""
        if isinstance(v, enum.Enum):
            return v.value
        if isinstance(v, list):
            return v[1]
        if isinstance(v, dict):
            return v["n"]
        if isinstance(v, str):
            return int(v[1:])
        return v.n

    def builtin(self, n):
        return {"dataclass": {"n": n}, "generic": {"n": n}, "namedtuple": {"n": n}, "typeddict": {"n": n}, "enum": f"m{n}"}.get(self.name)


class Scripted(Converter):
    def __init__(self, no, kind, modes, log):
        self.no, self.kind, self.modes, self.log = no, kind, modes, log

    def convert(self, ctx):
        n = self.kind.number(ctx.value)
        self.log.append((self.no, ctx.direction.name, n))
        mode = self.modes[n]
        if mode == "decline":
            raise NotImplementedError
        if mode == "fail":
            raise ConversionError(self, ctx, "scripted")
        return [self.no, n] if ctx.direction.is_serialize() else self.kind.make(n)


def setting_for(r, conv):
    how = r.choice(["instance", "supplier", "class"])
    if how == "instance":
        return JsonConverter(conv)
    if how == "supplier":
        return JsonConverter(lambda: conv)

    class Supplied(Converter):  # A converter class is its own supplier.
        def convert(self, ctx):
            return conv.convert(ctx)

    return JsonConverter(Supplied)


def place(r, case, hint):
    """Random places around the type: (hint, function from leaves to the structure as value, as payload, number of leaves)."""
    k = r.choice(["", "", "list", "tuple", "dict", "opt", "field", "td", "nt", "union", "deque", "deep", "key"])
    if k == "list":
        return t.List[hint], lambda xs: list(xs), lambda xs: list(xs), 3
    if k == "deque":
        return t.Deque[hint], lambda xs: collections.deque(xs), lambda xs: list(xs), 2
    if k == "tuple":
        return t.Tuple[hint, int, hint], lambda xs: (xs[0], 5, xs[1]), lambda xs: [xs[0], 5, xs[1]], 2
    if k == "dict":
        return t.Dict[str, hint], lambda xs: dict(zip("ab", xs)), lambda xs: dict(zip("ab", xs)), 2
    if k == "opt":
        return t.Optional[hint], lambda xs: xs[0], lambda xs: xs[0], 1
    if k == "union":
        return t.Union[hint, t.List[t.Set[None]]], lambda xs: xs[0], lambda xs: xs[0], 1
    if k == "field":
        H = dataclasses.make_dataclass("H", [("a", int), ("f", hint), ("g", t.Annotated[hint, Alias("gg")])])
        return H, lambda xs: H(1, xs[0], xs[1]), lambda xs: {"a": 1, "f": xs[0], "gg": xs[1]}, 2
    if k == "td":
        H = t.TypedDict("H", {"f": hint, "b": int})
        return H, lambda xs: {"f": xs[0], "b": 2}, lambda xs: {"f": xs[0], "b": 2}, 1
    if k == "nt":
        H = t.NamedTuple("H", [("f", hint), ("b", int)])
        return H, lambda xs: H(xs[0], 2), lambda xs: {"f": xs[0], "b": 2}, 1
    if k == "deep":
        H = dataclasses.make_dataclass("H", [("f", t.List[t.Optional[hint]])])
        return t.Dict[str, H], lambda xs: {"x": H([xs[0], None]), "y": H([xs[1]])}, lambda xs: {"x": {"f": [xs[0], None]}, "y": {"f": [xs[1]]}}, 2
    if k == "key":
        return t.List[t.Dict[str, hint]], lambda xs: [{"k": xs[0]}, {"k": xs[1]}], lambda xs: [{"k": xs[0]}, {"k": xs[1]}], 2
    return hint, lambda xs: xs[0], lambda xs: xs[0], 1


def judge(case, o, ok, result, log, want_log, what, union=False, **note):
    if want_log is not None and log != want_log:
        case.bad(f"{what}: not exactly the expected converters or methods were called, in order", expected_calls=want_log, calls=log, got=repr(o), **note)
    if ok:
        if not o.ok:
            case.bad(f"{what}: a conversion that an attached converter or the built-in one performs failed", got=repr(o), expected=short(result), **note)
        if not (type(o.value) is type(result) and o.value == result):
            case.bad(f"{what}: the result is not that of the expected converter", got=repr(o), expected=short(result), **note)
    elif not o.refused:
        case.bad(f"{what}: nothing converts this, but no conversion error was raised", got=repr(o), **note)


def run(case):
    k = case.rng.random()
    if k < 0.02:
        one_mapper(case)
    elif k < 0.45:
        scripted(case)
    elif k < 0.8:
        classmethods(case)
    else:
        strings(case)


class Numbered(Converter):
    def __init__(self, no):
        self.no = no

    def convert(self, ctx):
        return [self.no, ctx.value]


def one_mapper(case):
    """One mapper sees many types and annotations that come and go; memory is used again for the next ones."""
    r = case.rng
    mapper = get_object_mapper()
    keep = []
    for i in range(40):
        how = r.choice(["annotation", "class", "call", "two places"])
        s, box = setting_for_no(r, i)
        x = r.randrange(100)
        direction = r.choice(list(Direction))
        if how == "class":
            T, settings, want = s(type("Box", (), {})), None, [i, x]
        elif how == "annotation":
            T, settings, want = t.Annotated[int, s], None, [i, x]
        elif how == "call":
            T, settings, want = int, [s], [i, x]
        else:
            other, _ = setting_for_no(r, -i)
            T, settings, x, want = t.Tuple[t.Annotated[int, s], t.Annotated[int, other]], None, (x, x), [[i, x], [-i, x]]
        case.note(step=i, where=how, direction=direction.name, value=x)
        o = observe(mapper.convert, direction, x if not isinstance(x, tuple) or direction.is_serialize() else list(x), T, None, settings)
        case.ev(("one mapper", how, direction.name, i, repr(x)))
        case.count("one mapper: " + how)
        if isinstance(x, tuple):
            want = [[i, x[0]], [-i, x[1]]]
        if not o.ok or [*o.value] != want:
            case.bad("a type is not converted by the converter attached to it where the mapper has seen others before", expected=want, got=repr(o))
        if r.random() < 0.15:
            keep.append((T, s, how, box))
        if keep and r.random() < 0.15:
            # One of those seen before, whose supplier may have another converter by now.
            T, s, how, box = r.choice(keep)
            if box is not None and how in ("annotation", "class"):
                box[0], want = (Numbered(i * 1000), [i * 1000, 7]) if r.random() < 0.7 else (box[0], [box[0].no, 7])
                o = observe(mapper.convert, direction, 7, T)
                case.count("supplier asked again")
                if not o.ok or [*o.value] != want:
                    case.bad("the converter is not the one that its supplier has now", where=how, expected=want, got=repr(o))
        del T, s, settings, o
        if r.random() < 0.2:
            for cache in t._cleanups:
                cache()
            gc.collect(0)


def setting_for_no(r, no):
    conv = Numbered(no)
    if r.random() < 0.5:
        return JsonConverter(conv), None
    box = [conv]
    return JsonConverter(lambda: box[0]), box


def scripted(case):
    r = case.rng
    log = []
    kind = Kind(r, log)
    both = r.random() < 0.25
    at_class = both or r.random() < 0.5
    at_ann = both or not at_class
    modes = {n: r.choice(["ok", "ok", "decline", "fail"]) for n in range(4)}
    if both:
        modes = dict.fromkeys(range(4), "ok")  # Which one is next when the annotation's declines is not specified.
    conv = Scripted("ann" if at_ann else "cls", kind, modes, log)
    if at_class:
        s = setting_for(r, Scripted("cls", kind, {n: r.choice(["ok", "decline", "fail"]) for n in range(4)}, log) if both else conv)
        s(kind.cls)
    hint = kind.hint
    anns = []
    if at_ann:
        anns.append(setting_for(r, conv))
    for x in r.sample(["doc", 5, Strict(False), object()], r.choice([0, 0, 1, 2])):
        anns.insert(r.randrange(len(anns) + 1), x)
        case.count("additional annotation")
    if anns:
        hint = t.Annotated[(hint, *anns)] if r.random() < 0.7 or len(anns) < 2 else t.Annotated[(t.Annotated[(hint, *anns[:1])], *anns[1:])]
    T, val, pay, n = place(r, case, hint)
    numbers = [r.randrange(4) for _ in range(n)]
    case.count("both" if both else "attached to the class" if at_class else "attached to the annotation")
    case.note(kind=kind.name, type=str(T), modes=modes, where=conv.no)
    mapper = get_object_mapper()
    for direction in Direction:
        del log[:]
        want_log, outs, ok = [], [], True
        ins = []
        for i in numbers:
            forms = [["x", i]] + ([kind.builtin(i)] * 2 if kind.builtin(i) is not None else [])
            x = kind.make(i) if direction.is_serialize() else r.choice(forms)
            ins.append(x)
            if not ok:
                continue
            want_log.append((conv.no, direction.name, i))
            if modes[i] == "ok":
                outs.append([conv.no, i] if direction.is_serialize() else kind.make(i))
            elif direction.is_serialize() and kind.builtin(i) is not None:
                outs.append(kind.builtin(i))
                case.count("declined, built-in used" if modes[i] == "decline" else "failed, built-in used")
            elif direction.is_deserialize() and x == kind.builtin(i):
                outs.append(kind.make(i))
                case.count("declined, built-in used" if modes[i] == "decline" else "failed, built-in used")
            else:
                ok = False
                case.count("nothing converts")
        src = (val if direction.is_serialize() else pay)(ins)
        case.ev((case.index, direction.name), sample=lambda: {"type": str(T), "calls": want_log, "ok": ok})
        o = observe(mapper.convert, direction, src, T)
        judge(case, o, ok, (pay if direction.is_serialize() else val)(outs) if ok else None, log, want_log, direction.name.lower(), numbers=numbers, source=src)


def classmethods(case):
    r = case.rng
    log = []
    style = r.choice(["static", "class", "instance"])
    dc = r.random() < 0.4

    def methods(tag):
        def rec(name, x):
            log.append((tag, name, x if not hasattr(x, "n") else ("value", type(x).__name__, x.n)))

        ns = {}
        if style == "instance":
            def to_wire(self):
                rec("to_wire", self)
                return f"{tag}:{self.n}"
        else:
            def to_wire(x):
                rec("to_wire", x)
                return f"{tag}:{x.n}"
        ns["to_wire"] = to_wire if style == "instance" else staticmethod(to_wire)
        if style == "class":
            def of(cls, p):
                rec("of " + cls.__name__, p)
                return cls(7)
            ns["of"] = classmethod(of)
        else:
            def of(p):
                rec("of", p)
                return classes[tag](7)
            ns["of"] = staticmethod(of)
        ns["other"] = staticmethod(lambda p: log.append((tag, "other", p)))
        return ns

    classes = {}

    def init(self, n):
        self.n = n

    def eq(self, o):
        return type(o) is type(self) and o.n == self.n

    A = type("A", (), {**methods("A"), "__annotations__": {"n": int}, **({} if dc else {"__init__": init, "__eq__": eq, "__hash__": lambda self: self.n}), "__module__": __name__})
    if dc:
        A = dataclasses.dataclass(A)
    overrides = r.random() < 0.6
    B = type("B", (A,), {**(methods("B") if overrides else {}), "__module__": __name__})
    classes.update(A=A, B=B)
    ser = r.choice(["to_wire", "to_wire", "to_wire", None])
    des = r.choice(["of", "of", "of", None]) if ser else "of"
    st = r.choice([None, str, int, (str, int), (list,), dict])
    args = () if st is None else (st,)
    s = JsonConverter.using_classmethods(*args, serialize=ser, deserialize=des)
    declared = r.choice([A, A, B])
    tag = "B" if declared is B and overrides else "A"
    if declared is B:
        case.count("subclass declared")
    hint = declared
    anns = [r.choice(["doc", Strict(False)])] if r.random() < 0.4 else []
    if anns:
        case.count("additional annotation")
    if r.random() < 0.5:
        s(declared)
        case.count("attached to the class")
    else:
        anns.insert(r.randrange(len(anns) + 1), s)
        case.count("attached to the annotation")
    if anns:
        hint = t.Annotated[(hint, *anns)]
        if len(anns) == 2 and r.random() < 0.3:
            hint = t.Annotated[(t.Annotated[(declared, anns[0])], anns[1])]
    T, val, pay, n = place(r, case, hint)
    mapper = get_object_mapper()
    case.note(type=str(T), declared=declared.__name__, serialize=ser, deserialize=des, serialized_type=st, style=style, dataclass=dc, overrides=overrides)
    case.count("classmethods")
    # Serialization
    del log[:]
    want_log, outs, ins, ok = [], [], [], True
    for _ in range(n):
        sub = r.random() < 0.3
        x = (B if sub else declared)(r.randrange(9))
        foreign = r.random() < 0.15
        if foreign:
            x = A(3) if declared is B and r.random() < 0.5 else 3.25
        elif sub and declared is A:
            case.count("subclass value")
        ins.append(x)
        if not ok:
            continue
        if foreign:
            ok = False
        elif ser is not None:
            want_log.append((tag, "to_wire", ("value", type(x).__name__, x.n)))
            outs.append(f"{tag}:{x.n}")
        elif dc and (type(x) is declared):
            outs.append({"n": x.n})
        elif dc:
            raise Skip("what the built-in conversion does with instances of subclasses is another property's matter")
        else:
            ok = False
    src = val(ins)
    case.ev((case.index, "s"), trivial=not want_log, sample=lambda: {"type": str(T), "calls": want_log})
    o = observe(mapper.serialize, src, T)
    judge(case, o, ok, pay(outs) if ok else None, log, want_log, "serialize", value=[getattr(x, "n", x) for x in ins], classes=[type(x).__name__ for x in ins])
    # Deserialization
    del log[:]
    want_log, outs, ins, ok = [], [], [], True
    for _ in range(n):
        x = r.choice(["w", 4, ["w"], {"n": 5}, 1.5, True, None, "", 0, [], {}, False, b"w", object(), -0.0])
        if x is None and "Optional" in str(T) + str(getattr(T, "__annotations__", "")) + str([getattr(a, "__annotations__", "") for a in t.get_args(T)]) or x == [] and "Union" in str(T):
            x = 4  # (Those are not the converter's to decide.)
        ins.append(x)
        if not ok:
            continue
        if des is not None and (st is None or isinstance(x, st)):
            want_log.append((tag, "of " + declared.__name__ if style == "class" else "of", x))
            outs.append(declared(7) if style == "class" else classes[tag](7))
        elif dc and x == {"n": 5}:
            if des is not None:
                case.count("failed, built-in used")
            outs.append(declared(5))
        else:
            if des is not None:
                case.count("serialized type refused")
            ok = False
    src = pay(ins)
    case.ev((case.index, "d"), trivial=not want_log)
    o = observe(mapper.deserialize, src, T)
    judge(case, o, ok, val(outs) if ok else None, log, want_log, "deserialize", payload=src)


class Version:
    def __init__(self, text):
        if not isinstance(text, str):
            raise TypeError("text")
        self.parts = tuple(int(x) for x in text.split(".")) if text.strip() else tuple(" " * len(text))

    def __str__(self):
        return "".join(self.parts) if self.parts[:1] in [(), (" ",)] else ".".join(map(str, self.parts))

    def __eq__(self, o):
        return type(o) is type(self) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class SubVersion(Version):
    pass


class Odd(ValueError):
    pass


def picky(s):
    """A parser that refuses texts in several ways."""
    if s[:1] == "!":
        raise {"T": TypeError("type"), "V": ValueError("value"), "K": Odd(), "U": UnicodeDecodeError("ascii", b"", 0, 1, "x")}[s[1]]
    return Version(s)


class Temp:
    def __init__(self, deg):
        self.deg = deg

    def __eq__(self, o):
        return type(o) is type(self) and o.deg == self.deg

    def __hash__(self):
        return self.deg

    def __str__(self):
        return "not the wire form"

    @classmethod
    def parse(cls, s):
        if not s.endswith("C"):
            raise ValueError(f"not a temperature: {s}")
        return cls(int(s[:-1]))


class Warm(Temp):
    def __str__(self):
        return "warm"


def temp_format(x):
    return f"{x.deg}C"


class SubFraction(fractions.Fraction):
    pass


def strings(case):
    r = case.rng
    calls = []
    name = r.choice(["version", "subversion", "temp", "fraction", "ip", "ip6", "warm", "complex", "subclass of ip", "builtin uuid", "builtin path", "logged", "picky"])
    cls, declared, parser, formatter = {
        "version": (Version, Version, None, None), "subversion": (Version, SubVersion, None, None), "temp": (Temp, Temp, Temp.parse, temp_format),
        "warm": (Temp, Temp, Warm.parse, temp_format), "fraction": (fractions.Fraction, fractions.Fraction, None, None), "ip": (ipaddress.IPv4Address, ipaddress.IPv4Address, None, None),
        "ip6": (ipaddress.IPv6Address, ipaddress.IPv6Address, ipaddress.IPv6Address, lambda x: x.exploded), "complex": (complex, complex, None, None),
        "subclass of ip": (ipaddress._BaseAddress, ipaddress.IPv4Address, None, None), "builtin uuid": (uuid.UUID, uuid.UUID, None, None),
        "builtin path": (pathlib.PurePath, r.choice([pathlib.PurePosixPath, pathlib.PureWindowsPath, pathlib.Path, pathlib.PosixPath, pathlib.PurePath]), None, None),
        "logged": (Version, Version, lambda s: (calls.append(("parse", s)), Version(s))[1], lambda v: (calls.append(("format", v)), str(v))[1]),
        "picky": (Version, Version, picky, None),
    }[name]
    if declared is not cls:
        case.count("stringify subclass")
    make = {"version": lambda: Version(".".join(str(r.randrange(30)) for _ in range(r.randrange(1, 4))) if r.random() < 0.85 else r.choice(["", "", " ", "  "])), "temp": lambda: Temp(r.randrange(-300, 300)),
            "fraction": lambda: fractions.Fraction(r.randrange(-99, 99), r.randrange(1, 50)), "ip": lambda: ipaddress.IPv4Address(r.getrandbits(32)),
            "ip6": lambda: ipaddress.IPv6Address(r.getrandbits(128)), "complex": lambda: complex(r.randrange(-9, 9), r.choice([0.5, -1.25, 3.0])),
            "builtin uuid": lambda: uuid.UUID(int=r.getrandbits(128)), "builtin path": lambda: declared(r.choice(["a", "/a/b", "c:/x/y", "..", "a b", "\u00e9"]))}
    make["warm"] = lambda: Warm(make["temp"]().deg)
    make["logged"] = make["picky"] = make["version"]
    make["subversion"] = lambda: SubVersion(str(make["version"]()))
    make["subclass of ip"] = make["ip"]
    mapper = get_object_mapper()
    hint = declared
    where = "built in"
    if not name.startswith("builtin"):
        kw = {}
        if parser:
            kw["parser"] = parser
        if formatter:
            kw["formatter"] = formatter
        conv = StringifyConverter(cls, **kw, **({"name": "n"} if r.random() < 0.3 else {}))
        where = r.choice(["first", "last", "annotation"])
        if where == "annotation":
            hint = t.Annotated[declared, JsonConverter(conv)]
        else:
            mapper.module.register(conv, first=where == "first")
    if r.random() < 0.4:
        hint = t.Annotated[hint, "doc"]
        case.count("additional annotation")
    key = r.random() < 0.2
    if key:
        T, val, pay, n = t.Dict[hint, int], lambda xs: {xs[0]: 1}, lambda xs: {xs[0]: 1}, 1
        case.count("mapping key")
    else:
        T, val, pay, n = place(r, case, hint)
    vals = [make[name]() for _ in range(n)]
    fmt = formatter or str
    wire = [fmt(v) for v in vals]
    del calls[:]
    case.note(name=name, type=str(T), where=where, values=[str(v) for v in vals])
    case.ev((name, where, str(vals), str(T)), sample=lambda: {"type": str(T), "wire": wire})
    case.count("stringify round trip")
    o = observe(mapper.serialize, val(vals), T)
    judge(case, o, True, pay(wire), None, None, "serialize")
    if name == "logged" and calls != [("format", v) for v in vals]:
        case.bad("the formatter was not called exactly once per value", calls=calls, values=vals)
    del calls[:]
    o = observe(mapper.deserialize, pay(wire), T)
    judge(case, o, True, val(vals), None, None, "deserialize")
    if name == "logged" and calls != [("parse", s) for s in wire]:
        case.bad("the parser was not called exactly once per text", calls=calls, texts=wire)
    # Refusals
    if not key:
        i = r.randrange(n)
        bad = r.choice([5, None if not str(T).startswith("typing.Optional") else 5, ["x"], 1.5] + (["nonsense!"] + [""] * ("ersion" not in name and name not in ("logged", "picky")) if name not in ("builtin path",) else []))
        if name == "picky":
            bad = "!" + r.choice("TVKU")
            case.count("parser refuses")
        ps = list(wire)
        ps[i] = bad
        if not (bad is None and ("Optional" in str(T) or "H" in str(T))):
            o = observe(mapper.deserialize, pay(ps), T)
            if not o.refused:
                case.bad("a payload the parser refuses, or that is no text, was not refused with a conversion error", payload=pay(ps), got=repr(o))
        vs = list(vals)
        vs[i] = r.choice([5, "text", object(), wire[i]])
        o = observe(mapper.serialize, val(vs), T)
        if not o.refused:
            case.bad("a value of another type was not refused with a conversion error", value=vs[i], got=repr(o))
