"""Plain conversions: every pair of source and target under every way of setting the strictness."""

import base64
import dataclasses
import fractions
import math
import typing as t

from databind.core import Converter, ObjectMapper, Settings, Strict
from databind.json import JsonModule, dump, load
from databind.json.converters import PlainDatatypeConverter

from dbv.common import *
from dbv.foreign import Num, IntSub, Odd, StrSub

ID = "C07"
CASES = {"quick": 3000, "thorough": 150000}
RULE = "a source value, a target type, a direction, a place and a way of setting the strictness"
LEAVES = {"bool": M.Bool(), "int": M.Int(), "float": M.Float(), "str": M.Str(), "bytes": M.Bytes()}
TYPES = {"bool": bool, "int": int, "float": float, "str": str, "bytes": bytes}
SOURCES = ["none", "call", "annotation", "annotation over call", "mapper", "type", "option", "option off, call on", "provider", "annotation over option", "high priority call over annotation"]
PLACES = ["root", "element", "field", "value", "optional", "tuple"]
MINIMA = {"pairs": 20000, "non-strict accepted what strict refuses": 300}
ASSUMPTIONS = ["texts with signs, spaces, underscores or other scripts' digits: only the meaning of the accepted ones is checked"]


def src_value(r):
    k = r.choice(["bool", "int", "int", "float", "float", "text", "text", "text", "word", "b64", "bytes", "other"])
    if k == "bool":
        return r.random() < 0.5
    if k == "int":
        return r.choice([0, 1, -1, 2, r.randrange(-10**6, 10**6), 2**53 + 1, -(2**63), 10**25, 10**400, r.getrandbits(r.randrange(1, 90))])
    if k == "float":
        return r.choice([0.0, -0.0, 1.0, -1.0, 2.0**60, 1e308, 0.5, 1.5, -2.5, 1e-320, float("inf"), float("-inf"), float("nan"), r.uniform(-100, 100),
                         float(r.randrange(-1000, 1000)), 1 + 2**-52, 2.0**53, r.randrange(1, 10**9) + 2.0**-20])
    if k == "text":
        return r.choice([str(r.randrange(-10**9, 10**9)), "0", "1", "-1", "007", "1.0", "1.5", "-2.25", "1e3", "1e-3", "1.0e2", "inf", "nan", "-inf", "abc", "", " ", " 5", "5 ", "1_0",
                         "+3", "0x10", "\u0663", "None", "null", "1,5", "1.2.3", "--1", "True5", r.choice(["1", "15", "1.5", "2.0", "-3", "1e2", "0", ".5", "5."]) + r.choice("fFdDlLjJuU%kKnme$s"), "9" * 50, "9" * 400, str(r.uniform(-10, 10))])
    if k == "word":
        w = r.choice(["yes", "no", "true", "false", "on", "off", "enabled", "disabled", "y", "n", "t", "f", "1", "0", "maybe", "", "yess", "truefalse", "offf", "enable", "ok", "okay", "disable", "active", "inactive", "none", "null", "allow", "deny", "set", "unset", "+", "-", "tru", "fals", "nope", "yep", "ja", "oui", "nan", "2", "00", "01", "1.0", "0.0", "ye"])
        return r.choice([w, w.upper(), w.title(), w.swapcase(), w, w.upper(), w.title(), r.choice([w + " ", " " + w, w + "\n", w + "\0", "\"" + w + "\"", w + ".", w + w])])
    if k == "b64":
        s = base64.b64encode(bytes(r.randrange(256) for _ in range(r.randrange(8)))).decode()
        return r.choice([s, s, s, s[:-1], s + "=", s + "!", s.replace("A", "-"), "*" + s, s[:2] + "$" + s[2:]])
    if k == "bytes":
        return bytes(r.randrange(256) for _ in range(r.randrange(6)))
    return r.choice([None, [], [1], {}, {"a": 1}, (), b"", bytearray(b"a"), Odd(), IntSub(3), StrSub("a"), Num.ONE, 1j, object, range(3)])




def run(case):
    r = case.rng
    for _ in range(16):
        one(case, r)


def one(case, r):
    name = r.choice(list(LEAVES))
    leaf, T = LEAVES[name], TYPES[name]
    v = src_value(r)
    direction = "load" if r.random() < 0.75 else "dump"
    how = r.choice(SOURCES)
    a, b = r.random() < 0.5, r.random() < 0.5
    place = r.choice(PLACES)
    mapper = ObjectMapper()
    settings = None
    strict = True
    hint = T
    mod = JsonModule()
    if how == "call":
        settings, strict = [Strict(a)], a
    elif how == "annotation":
        hint, strict = t.Annotated[T, Strict(a)], a
    elif how == "annotation over call":
        hint, settings, strict = t.Annotated[T, "doc", Strict(a)], [Strict(b)], a
    elif how == "high priority call over annotation":
        from databind.core import Priority

        hint, settings, strict = t.Annotated[T, Strict(a)], [Strict(b, Priority.HIGH)], b
    elif how == "mapper":
        mapper.settings.add_global(Strict(a))
        strict = a
    elif how == "type":
        mapper.settings.add_local(T, Strict(a))
        mapper.settings.add_global(Strict(b))
        strict = a
    elif how == "provider":
        mapper.settings.add_provider(lambda ctx: [Strict(a)])
        strict = a
    elif how in ("option", "option off, call on", "annotation over option"):
        mapper.module.register(PlainDatatypeConverter(strict_by_default=a))
        strict = a
        if how != "option":
            strict = b
            if how == "annotation over option":
                hint = t.Annotated[T, Strict(b)]
            else:
                settings = [Strict(b)]
    mapper.module.register(mod)
    if place == "root":
        wrap, X, get = (lambda x: x), hint, (lambda o: o)
    elif place == "element":
        wrap, X, get = (lambda x: [x]), t.List[hint], (lambda o: o[0])
    elif place == "value":
        wrap, X, get = (lambda x: {"k": x}), t.Dict[str, hint], (lambda o: o["k"])
    elif place == "optional":
        if v is None:
            return
        wrap, X, get = (lambda x: x), t.Optional[hint], (lambda o: o)
    elif place == "tuple":
        wrap, X, get = ((lambda x: [x]) if direction == "load" else (lambda x: (x,))), t.Tuple[hint], (lambda o: o[0])
    else:
        S = dataclasses.make_dataclass("S", [("f", hint)])
        if direction == "load":
            wrap, get = (lambda x: {"f": x}), (lambda o: o.f)
        else:
            wrap, get = (lambda x: S(x)), (lambda o: o["f"])
        X = S
    env = M.Env({"strict": strict})
    fn = mapper.deserialize if direction == "load" else mapper.serialize
    if how == "none" and r.random() < 0.5:
        fn = load if direction == "load" else dump
    case.note(source=v, target=name, direction=direction, strictness=how, strict=strict, place=place)
    want = expect(leaf.dec if direction == "load" else leaf.enc, v, env)
    o = observe(fn, wrap(v), X, None, settings)
    case.ev((name, direction, how, strict, place, type(v).__name__, canon(v)), sample=lambda: {"source": short(v, 60), "target": name, "strict": strict, "via": how, "outcome": repr(o)[:100]})
    case.count("pairs")
    if o.ok:
        o.value = get(o.value)
    if direction == "load" and name == "str" and type(v) in (bool, float) and not strict and want[0] == "ok":
        # Any text that means the value is fine.
        if not o.ok or type(o.value) is not str:
            case.bad("a value was not accepted for text although strictness is off", got=repr(o))
        if type(v) is bool and o.value.lower() != str(v).lower() or type(v) is float and not (float(o.value) == v or v != v and o.value.lower() == "nan"):
            case.bad("the text does not mean the value", got=repr(o))
        want = ("ok", o.value)
    if want[0] == "unspecified":
        case.count("unspecified")
        if o.kind == "leaked":
            case.bad("another exception than a conversion error", got=repr(o))
        if o.ok:
            meaning(case, v, name, o)
        return
    if want[0] == "ok" and not strict and expect(leaf.dec, v, M.Env())[0] == "reject" and direction == "load":
        case.count("non-strict accepted what strict refuses")
    (check_load if direction == "load" else check_dump)(case, o, want, f"{type(v).__name__} -> {name}")


def meaning(case, v, name, o):
    if type(o.value) is not TYPES[name]:
        case.bad("the result is not of the target type", got=repr(o))
    if name in ("int", "float") and type(v) is str:
        try:
            if name == "int":
                same = fractions.Fraction(v.strip()) == o.value
            else:
                same = float(v) == o.value or math.isnan(o.value) and "nan" in v.lower()
        except (ValueError, OverflowError):
            same = False
        if not same:
            case.bad("the number does not mean what the text says", got=repr(o))
    if name == "bytes" and type(v) is str:
        s = "".join(v.split())
        if base64.b64encode(o.value).decode().rstrip("=")[: len(s.rstrip("=")) - 1] != s.rstrip("=")[:-1]:
            case.bad("the bytes are not those of the text", got=repr(o))
    if name == "bytes" and type(v) is bytes and v != o.value:
        case.bad("the bytes changed", got=repr(o))
