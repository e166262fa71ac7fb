"""Enums of all kinds and literals: what is written, what is read, and that nothing else is."""

import __future__
import collections
import dataclasses
import enum
import types
import typing as t
import unicodedata

from databind.core import Alias, Priority, Strict
from databind.json import dump, get_object_mapper, load

from dbv.common import *

ID = "C28"
CASES = {"quick": 3000, "thorough": 150000}
RULE = "an enum or literal at a place and a value or payload; trivial if it is the only member of its kind"
MINIMA = {"member written": 4000, "member read": 6000, "read by alias": 1500, "read by name although aliased": 1000, "payload refused": 15000, "combination refused": 600, "member of another enum refused": 3000,
          "integer enum": 200, "postponed": 500, "literal passed": 6000, "literal refused": 10000, "equal value of another type refused": 2000, "several aliases settings": 200, "aliases of a second name": 60, "alias of a combination": 60, "alias that is the name of another member": 30}

N = [0]


class E:
    """An enum: its class, its members in order, with the texts of each."""


def make_enum(case, names=None):
    r = case.rng
    N[0] += 1
    e = E()
    e.kind = r.choice(["Enum", "Enum", "Enum", "IntEnum", "IntEnum", "Flag", "IntFlag", "str, enum.Enum", "int, enum.Enum", "StrEnum", "float, enum.Enum"])
    names = names or r.sample(["CAT", "DOG", "LION", "cat", "Ant", "A", "B", "name_", "X1", "Größe", "on", "true", "_under", "a1", "None_", "mro_"], r.randrange(1, 7))
    e.aliases = {n: [] for n in names}
    e.further = {}
    e.taken = {}  # Names of members that have other texts, which are aliases of another member.
    e.same = {}  # Names that Python takes for other members'.
    lines, used = [], []
    e.postponed = r.random() < 0.25
    canonical = []
    for k, n in enumerate(names):
        val = {"IntEnum": lambda: r.choice([k, 7 * k + 3, -k - 1, 2**40 + k, k == 0 and 1 or k]), "Flag": lambda: 1 << k, "IntFlag": lambda: 1 << k, "str, enum.Enum": lambda: r.choice([f"v{k}", names[k - 1]]), "StrEnum": lambda: r.choice([f"v{k}", n]),
               "int, enum.Enum": lambda: r.choice([k, k + 10]), "float, enum.Enum": lambda: k + 0.5}.get(e.kind, lambda: r.choice([k, f"{k}", (k, "t"), None, True, 1.5, n.lower(), names[0], []]))()
        dup = next((c for c, v in used if v == val), None)
        if r.random() < 0.1 and canonical:
            dup = r.choice(canonical)
            val = dict(used)[dup]
        text = f"{n} = {val!r}"
        if dup is None:
            used.append((n, val))
            canonical.append(n)
            if r.random() < 0.4:
                al = [r.choice([f"al-{k}", f"Alias {k}", f"{k}", f"ä{k}", f"x.{k}", f"_{k}_"]) + f"#{j}" for j in range(r.choice([1, 1, 2, 3]))]
                if r.random() < 0.15:
                    al.insert(r.randrange(len(al) + 1), n)  # Its own name.
                free = [m for m in canonical[:-1] if e.aliases[m] and m not in e.aliases[m] and m not in e.taken]
                if free and r.random() < 0.25:
                    m = r.choice(free)
                    e.taken[m] = n
                    al.insert(r.randrange(len(al) + 1), m)
                    case.count("alias that is the name of another member")
                e.aliases[n] = al
                anns = [f"Alias({', '.join(map(repr, al))})"]
                if r.random() < 0.15:
                    # One that has no say.
                    case.count("several aliases settings")
                    if r.random() < 0.5 or e.postponed:  # (A priority is not known there; see known_findings.txt on C20.)
                        anns.append(f"Alias('weak-{k}')")
                    else:
                        anns.insert(0, f"Alias('low-{k}', priority=Priority.LOW)")
                if r.random() < 0.3:
                    anns.insert(r.randrange(len(anns) + 1), "'note'")
                ann = f"t.Annotated[{r.choice(['int', 't.Any', 'str'])}, {', '.join(anns)}]"
                if r.random() < 0.2:
                    ann = f"t.Annotated[{ann}, 'outer']"
                text = f"{n}: {ann} = {val!r}"
            elif r.random() < 0.2:
                text = f"{n}: {r.choice(['int', 't.Any', 't.Annotated[int, 3]'])} = {val!r}"
        else:
            e.same[n] = dup
            if r.random() < 0.3:
                # Further names of the member that Python knows under the first one.
                al = [f"second-{k}"] + [n] * (r.random() < 0.2)
                e.further[al[0]] = dup
                text = f"{n}: t.Annotated[int, Alias({', '.join(map(repr, al))})] = {val!r}"
                case.count("aliases of a second name")
        lines.append("    " + text)
    e.names = canonical
    e.combos = []
    if e.kind in ("Flag", "IntFlag") and len(canonical) > 1 and r.random() < 0.3:
        al = ["both of them"] * (r.random() < 0.5)
        lines.append(f"    BOTH{': t.Annotated[int, Alias(' + repr(al[0]) + ')]' if al else ''} = {canonical[0]} | {canonical[1]}")
        e.both = True
        if al:
            e.further[al[0]] = "BOTH"
            case.count("alias of a combination")
    else:
        e.both = False
    if e.kind in ("Flag", "IntFlag") and r.random() < 0.2:
        al = ["nothing at all"] * (r.random() < 0.6)
        lines.insert(r.randrange(len(lines) + 1), f"    ZERO{': t.Annotated[int, Alias(' + repr(al[0]) + ')]' if al else ''} = 0")
        e.zero = (al + ["ZERO"])[0]
        if al:
            e.further[al[0]] = "ZERO"
            case.count("alias of a combination")
    else:
        e.zero = None
    extra = r.random()
    if extra < 0.2:
        lines.append("    def method(self): return 1")
    elif extra < 0.3:
        lines.append("    CONST = enum.nonmember(5)")
    elif extra < 0.4:
        lines.append("    def __str__(self): return 'odd'")
    elif extra < 0.45 and "[]" not in "".join(lines):
        lines += ["    def __eq__(self, other): return True", "    def __hash__(self): return 1"]
    base = e.kind if "," in e.kind else f"enum.{e.kind}"
    if e.postponed:
        case.count("postponed")
    mod = types.ModuleType(f"dbvc28_{N[0]}")
    import sys

    sys.modules[mod.__name__] = mod
    case.cleanup.append(lambda: sys.modules.pop(mod.__name__, None))
    mod.__dict__.update(enum=enum, t=t, Alias=Alias, Priority=Priority)
    e.source = f"class {r.choice(['Pet', 'Animal'])}({base}):\n" + "\n".join(lines)
    try:
        exec(compile(e.source, "<dbv c28>", "exec", flags=__future__.annotations.compiler_flag if e.postponed else 0, dont_inherit=True), mod.__dict__)
    except (TypeError, ValueError) as exc:
        raise Skip(f"not an enum: {exc}")
    e.cls = [c for k, c in mod.__dict__.items() if k in ("Pet", "Animal")][0]
    for n in canonical:
        if e.cls[n].name != n:
            raise Skip("Python sees another member under the name")
    e.members = [e.cls[n] for n in canonical]
    return e


def written(e, n):
    m = e.cls[n]
    if e.kind == "IntEnum":
        return m._value_
    return e.aliases[n][0] if e.aliases[n] else n


PLACES = [
    ("{}", lambda T: T, lambda x: x, lambda w: w), ("List[{}]", lambda T: t.List[T], lambda x: [x], lambda w: [w]), ("Dict[str, {}]", lambda T: t.Dict[str, T], lambda x: {"k": x}, lambda w: {"k": w}),
    ("Tuple[{}, int]", lambda T: t.Tuple[T, int], lambda x: (x, 3), lambda w: [w, 3]), ("Annotated[{}, 1]", lambda T: t.Annotated[T, 1], lambda x: x, lambda w: w),
    ("Annotated[{}, Alias('zzz')]", lambda T: t.Annotated[T, Alias("zzz")], lambda x: x, lambda w: w), ("Optional[{}]", lambda T: t.Optional[T], lambda x: x, lambda w: w),
]


def place(case):
    r = case.rng
    name, T, v, p = r.choice(PLACES)
    if r.random() < 0.2 and "Alias" not in name:
        T0, v0, p0 = T, v, p
        holder = {}

        def T(X):
            holder["c"] = dataclasses.make_dataclass("Rec", [("x", T0(X))])
            return holder["c"]

        return f"Rec(x: {name})", T, (lambda x: holder["c"](v0(x))), (lambda w: {"x": p0(w)})
    return name, T, v, p


def same(a, b):
    """Identical, or equal containers around the identical member."""
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and type(a) is type(b):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if dataclasses.is_dataclass(a):
        return type(a) is type(b) and same(a.x, b.x)
    if isinstance(a, enum.Enum):
        return a is b
    return type(a) is type(b) and a == b


def run(case):
    if case.rng.random() < 0.4:
        literal(case)
    else:
        enums(case)


def enums(case):
    r = case.rng
    e = make_enum(case)
    other = make_enum(case, list(e.names))
    name, wrap, val, pay = place(case)
    T = wrap(e.cls)
    lenient_ = r.random() < 0.15
    settings = [Strict(False)] if lenient_ else []
    case.note(source=e.source, postponed=e.postponed, place=name, strict=not lenient_)
    trivial = len(e.names) == 1
    integer = e.kind == "IntEnum"
    if integer:
        case.count("integer enum")
    de = lambda p: observe(load, pay(p), T, None, list(settings))
    se = lambda v: observe(dump, val(v), T, None, list(settings))
    for n in e.names:
        m = e.cls[n]
        o = se(m)
        w = written(e, n)
        case.count("member written")
        case.ev((e.source, name, "w", n), trivial=trivial, sample=lambda: {"enum": e.source[:200], "member": n, "output": repr(o)[:80]})
        if not o.ok or not same(o.value, pay(w)) or integer and isinstance(w, enum.Enum):
            case.bad("a member is not written as its first alias or name, or its integer", member=n, got=repr(o), expected=w)
        texts = [w] if integer else e.aliases[n] + [n] * (n not in e.taken)
        for x in texts:
            o = de(x)
            case.count("member read")
            case.ev((e.source, name, "r", x), trivial=trivial, sample=lambda: {"enum": e.source[:200], "payload": x, "got": repr(o)[:80]})
            if not integer and e.aliases[n]:
                case.count("read by name although aliased" if x == n else "read by alias")
            if not o.ok or not same(o.value, val(m)):
                case.bad("a member is not read from one of its aliases or its name" if not integer else "a member is not read from its integer", member=n, payload=x, got=repr(o))
    for n, c in e.same.items():
        if not integer:
            o = de(n)
            case.count("second name of a member")
            if not o.ok or not same(o.value, val(e.cls[c])):
                case.bad("a member is not read from its second name", member=c, payload=n, got=repr(o))
    if not integer:
        for x, n in e.further.items():
            o = de(x)
            case.ev((e.source, name, "f", x), trivial=trivial)
            if not o.ok or not same(o.value, val(e.cls[n])):
                case.bad("a member is not read from an alias", member=n, payload=x, got=repr(o))
    if e.zero:
        o = se(e.cls["ZERO"])
        if not o.ok or not same(o.value, pay(e.zero)):
            case.bad("a member is not written as its first alias or name, or its integer", member="ZERO", got=repr(o), expected=e.zero)
        o = de("ZERO")
        if not o.ok or not same(o.value, val(e.cls["ZERO"])):
            case.bad("a member is not read from its name", member="ZERO", got=repr(o))
    # Anything else.
    known = {e.cls[n]._value_ for n in e.names} if integer else {x for n in e.names for x in e.aliases[n] + [n]} | set(e.same) | set(e.further)
    cand = []
    if integer:
        cand += [x + d for x in known for d in (-1, 1)] + [float(x) for x in list(known)[:2] if abs(x) < 2**50] + [str(x) for x in list(known)[:2]] + [10**30] + e.names[:2] + [True, False]
    else:
        for x in list(known)[:4]:
            cand += [x.lower(), x.upper(), x.swapcase(), x + " ", " " + x, x[:-1], x + "x", f"Pet.{x}", f"{e.cls.__name__}.{x}", f"{e.cls.__module__}.{e.cls.__name__}.{x}", f"<{e.cls.__name__}.{x}: 1>", f"{e.cls.__name__}[{x!r}]", f"{x!r}", x.capitalize(), [x], {x: 1}, x.encode()]
        cand += [e.cls[n]._value_ for n in e.names] + ["weak-0", "low-0", "weak-1", "low-1", "mro", "__members__", "__class__", "name", "value", "_value_", "method", "CONST", "", "_member_map_"]
        if e.kind in ("Flag", "IntFlag") and len(e.names) > 1:
            cand += ["|".join(e.names[:2]), e.names[0] + "|" + e.names[0], 3, 0]
    cand += [None, {}, [], 1.5, 0, 1]
    for p in r.sample(cand, min(len(cand), 18)):
        if isinstance(p, (str, int)) and type(p) in (str, int) and p in known and type(p) in {type(k) for k in known} or isinstance(p, enum.Enum):
            continue
        if p is None and name.count("Optional") or type(p) is str and p in ("BOTH", "ZERO"):
            continue
        if isinstance(p, tuple):
            continue
        o = de(p)
        case.count("payload refused")
        case.ev((e.source, name, "x", repr(p)), trivial=trivial, sample=lambda: {"enum": e.source[:200], "payload": repr(p), "got": repr(o)[:80]})
        if not o.refused:
            case.bad("a payload that names no member was not rejected with a conversion error", payload=p, got=repr(o))
    # Values that are no members.
    vals = list(other.members) + [e.names[0], e.cls[e.names[0]]._value_, 0, 1, "x", object(), e.cls, [e.members[0]], None]
    for v in vals:
        if v is None and name.count("Optional"):
            continue
        o = se(v)
        case.ev((e.source, name, "xv", repr(v)), trivial=trivial)
        if isinstance(v, enum.Enum):
            case.count("member of another enum refused")
        if not o.refused:
            case.bad("a value that is no member was not rejected with a conversion error", value=repr(v), got=repr(o))
    if e.kind in ("Flag", "IntFlag"):
        combos = [e.cls(0)] if not e.zero else []
        if len(e.members) > 1:
            a, b = r.sample(e.members, 2)
            combos += [a | b, ~a]
        if e.kind == "IntFlag":
            combos += [e.cls(1 << 30), e.cls(-1)]
        for v in combos:
            if any(v is m for m in e.members):
                continue
            if e.both and v is e.cls["BOTH"]:
                continue  # A combination with a name of its own.
            o = se(v)
            case.count("combination refused")
            if not o.refused:
                case.bad("a combination of flags was not rejected with a conversion error", value=repr(v), got=repr(o))
    if e.both:
        o = se(e.cls["BOTH"])
        if o.ok:
            b = observe(load, o.value, T, None, list(settings))
            if not b.ok or not same(b.value, val(e.cls["BOTH"])):
                case.bad("a combination with a name is written, but not read back", got=repr(b), written=o.value)


class Color(enum.Enum):
    RED = "red"
    BLUE = 1


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Text(str):
    pass


POOL = ["a", "b", "A", "", "1", "on", "true", "None", "ä", "a b", 1, 0, -1, 2, 10**20, 3, True, False, None, Color.RED, Color.BLUE, Num.ONE, b"a", b"b ", b"\x00A", "1.0", "x", "y", 7,
        "transcription", "Transcription", "a rather long text of several words", "A Rather Long Text Of Several Words", "straße", "STRASSE", "caf\u00e9", "cafe\u0301", "x" * 300]


def literal(case):
    r = case.rng
    vals = r.sample(POOL, r.choice([1, 1, 2, 3, 4, 6]))
    # typing takes Literal[1] and Literal[True] apart, but an IntEnum member is just another 1 where it is looked up by value.
    k = r.random()
    if k < 0.7 or len(vals) < 2:
        L = t.Literal[tuple(vals)]
    else:
        L = t.Literal[(t.Literal[tuple(vals[:1])], *vals[1:])]
    name, wrap, val, pay = place(case)
    T = wrap(L)
    lenient_ = r.random() < 0.2
    mapper = get_object_mapper()
    settings = [Strict(False)] if lenient_ else []
    case.note(literal=str(vals), place=name, strict=not lenient_)
    listed = lambda v: any(type(x) is type(v) and x == v for x in vals)
    optional = "Optional" in name
    trivial = len(vals) == 1
    cand = list(vals) * 2 + r.sample(POOL, 6) + [None, [], {}, ["a"], {"a": 1}, 1.0, 0.0, 2.0, float("nan"), True, False, 1, 0]
    cand += [f(x) for x in vals if type(x) is str for f in (r.sample([str.upper, str.lower, str.title, str.casefold, str.swapcase, lambda s: unicodedata.normalize("NFD", s), lambda s: unicodedata.normalize("NFC", s), lambda s: s[:-1],
                                                                     lambda s: "x" + s, lambda s: s + "\n", lambda s: s * 2, lambda s: repr(s), lambda s: "'" + s + "'"], 5))]
    cand += [x + " " for x in vals if type(x) is str] + [x.upper() for x in vals if type(x) is str] + [float(x) for x in vals if type(x) is int and abs(x) < 2**50] + [str(x) for x in vals] + [x + 1 for x in vals if type(x) is int]
    cand += [f(x) for x in vals if type(x) is bytes for f in (bytes.upper, lambda s: s + b" ", lambda s: b" " + s, lambda s: s.strip(), lambda s: s[:-1], lambda s: s * 2, bytes.decode, bytearray)]
    for v in cand:
        for fn, arg, want in ((load, pay, val), (dump, val, pay)):
            o = observe(fn, arg(v), T, None, list(settings))
            case.ev((str(vals), name, lenient_, fn.__name__, type(v).__name__, repr(v)), trivial=trivial, sample=lambda: {"literal": str(vals), "value": repr(v), "direction": fn.__name__, "got": repr(o)[:80]})
            if listed(v) or v is None and optional:
                case.count("literal passed")
                if not o.ok or not same(o.value, want(v)):
                    case.bad("a listed value did not pass unchanged", value=repr(v), direction=fn.__name__, got=repr(o))
            elif isinstance(v, enum.Enum) and any(x == v for x in vals):
                continue
            else:
                if any(x == v for x in vals):
                    case.count("equal value of another type refused")
                case.count("literal refused")
                if not o.refused:
                    case.bad("a value that is not listed was not rejected with a conversion error", value=repr(v), direction=fn.__name__, got=repr(o))
