"""One conversion through every entry point there is; all must do the same."""

import json
import re
import typing as t

from databind.core import Context, Direction, ExtraKeys, Location, ObjectMapper, Priority, SerializeDefaults, Settings, Strict
from databind.json import JsonModule, dump, dumps, get_object_mapper, load, loads
from typeapi import TypeHint

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign
from dbv.util import ctx_path

ID = "C36"
CASES = {"quick": 1500, "thorough": 60000}
RULE = "one conversion through one entry point next to the plain one; trivial if the payload is empty"
MINIMA = {"entry point": 40000, "accepted": 2000, "refused": 1500, "text accepted": 2000, "text refused": 800, "text is no JSON": 500, "result is not JSON": 300, "indent": 1200, "sorted": 900, "sorting changes the text": 150, "filename": 2500, "settings": 2000,
          "settings matter": 30, "type hint": 5000, "strange JSON text": 500, "text of bytes": 200, "file name in the error": 1000}
ADDR = re.compile(r"0x[0-9a-fA-F]+")


def told(exc):
    return ADDR.sub("0x", str(exc))


def same(a, b, whole=False):
    """What differs between two outcomes, if anything."""
    if a.kind != b.kind:
        return "the kind of outcome"
    if a.ok:
        return None if deep_eq(a.value, b.value, ordered=True) else "the result"
    if type(a.exc) is not type(b.exc):
        return "the type of the error"
    if not a.refused:
        return None if told(a.exc) == told(b.exc) else "the text of the error"
    if ctx_path(a.exc) != ctx_path(b.exc):
        return "the place in the error"
    x, y = list(a.exc.context.iter_hierarchy_up()), list(b.exc.context.iter_hierarchy_up())
    if [c.location for c in x] != [c.location for c in y]:
        return "the source place in the error"
    if [c.direction for c in x] != [c.direction for c in y]:
        return "the direction in the error"
    if ADDR.sub("0x", repr([c.datatype for c in x])) != ADDR.sub("0x", repr([c.datatype for c in y])):
        return "the types in the error"
    # (The whole text takes long.)
    if a.exc.message != b.exc.message and ADDR.sub("0x", a.exc.message) != ADDR.sub("0x", b.exc.message) or whole and told(a.exc) != told(b.exc):
        return "the text of the error"
    return None


class OwnMapper(ObjectMapper):
    pass


def mapper(r, settings):
    k = r.randrange(3)
    if k == 0:
        return get_object_mapper(settings)
    m = (ObjectMapper if k == 1 else OwnMapper)(settings)
    m.module.register(JsonModule())
    return m


def entries(case, direction, x, T, filename, settings, reused):
    """(description, outcome) of the ways to say the same."""
    r = case.rng
    H = TypeHint(T)
    helper = load if direction.is_deserialize() else dump
    name = "deserialize" if direction.is_deserialize() else "serialize"
    give = lambda: list(settings) if settings is not None else None
    loc = Location(filename, None, None)
    yield "helper with keywords", observe(lambda: helper(value=x, type_=T, filename=filename, settings=give()))
    yield "helper with a type hint object", observe(helper, x, H, filename, give())
    case.count("type hint")
    if settings is None:
        yield "helper with an empty list of settings", observe(helper, x, T, filename, [])
    if filename is None:
        yield "helper without filename", observe(lambda: helper(x, T, settings=give()))
        if settings is None:
            yield "helper with value and type only", observe(helper, x, T)
    yield f"mapper.{name}", observe(getattr(mapper(r, None), name), x, T, filename, give())
    yield f"mapper.{name} with a type hint object", observe(getattr(mapper(r, None), name), x, H, filename, give())
    yield f"mapper.{name} with keywords", observe(lambda: getattr(mapper(r, None), name)(value=x, datatype=T, filename=filename, settings=give()))
    yield f"reused mapper.{name}", observe(getattr(reused, name), x, T, filename, give())
    yield "mapper.convert", observe(mapper(r, None).convert, direction, x, T, loc, give())
    yield "reused mapper.convert with a type hint object", observe(reused.convert, direction, x, H, loc, give())
    yield "mapper.convert with keywords", observe(lambda: mapper(r, None).convert(direction=direction, value=x, datatype=T, location=loc, settings=give()))
    if filename is None:
        yield "mapper.convert without location", observe(lambda: mapper(r, None).convert(direction, x, T, settings=give()))
    # Settings in other places.
    yield "mapper with the settings", observe(getattr(mapper(r, Settings(None, give())), name), x, T, filename)
    yield "mapper with the settings as parent", observe(getattr(mapper(r, Settings(Settings(None, give()))), name), x, T, filename)
    yield "mapper.convert with a settings provider", observe(mapper(r, None).convert, direction, x, T, loc, Settings(None, give()))
    m = mapper(r, None)
    for s in settings or ():
        m.settings.add_global(s)
    yield "mapper with the settings added", observe(getattr(m, name), x, T, filename)
    yield "copied mapper", observe(getattr(m.copy(), name), x, T, filename)
    # A context made by hand.
    m = mapper(r, Settings(None, give()))
    yield "context made by hand", observe(lambda: Context(None, direction, x, H, m.settings, Context.ROOT, loc, m.module.convert).convert())


TEXTS = ["", " ", "{", "[1,]", '{"a":1,"a":2}', "nul", "'a'", "\ufeff1", "1 2", '"\\ud800"', "NaN", "-Infinity", "1e400", "01", "[" * 50 + "]" * 50, '{"a":{"b":[1,{"c":null}]}}', "true", "-0", '"\\u0000"', "[[[]]]", "1E5", " 5 ", "\n[1]\n", '"\t"', "{}", "[]", "null", "1" * 30, '{"":1}']


def run(case):
    r = case.rng
    u, nodes, types = gen.make(case, gen.Profile(), r.choice([1, 2]))
    reused = get_object_mapper()
    for node, T in zip(nodes, types):
        for _ in range(3):
            filename = r.choice([None, None, "a.json", "", "dir/b c"])
            glob = r.choice(gen.GLOBS)
            env = M.Env(glob)
            settings = M.settings_for(glob) or None
            if settings is None and r.random() < 0.3:
                settings = [r.choice([Strict(False), Strict(True), ExtraKeys(True), SerializeDefaults(False), Strict(False, priority=Priority.HIGH)]) for _ in range(r.choice([1, 2]))]
            direction = r.choice(list(Direction))
            if direction.is_deserialize():
                _, x = payload(case, node, env, ("valid", "valid", "mutated", "mutated", "junk"))
            else:
                try:
                    with M.Sabotage(r.choice([1, 2, 3, 99, 99, 99]), lambda n: foreign(r)):
                        x = node.gen(r, env)
                except Exception:
                    case.count("skipped: value cannot be built")
                    continue
            helper, text = (load, loads) if direction.is_deserialize() else (dump, dumps)
            case.note(direction=direction.name, input=x, filename=filename, settings=repr(settings))
            o = observe(helper, x, T, filename, settings)
            case.count("accepted" if o.ok else "refused" if o.refused else "leaked")
            if filename is not None:
                case.count("filename")
            if o.refused:
                if any(c.location.filename != filename for c in o.exc.context.iter_hierarchy_up()):
                    case.bad("the error does not have the filename of the conversion", got=repr([c.location for c in o.exc.context.iter_hierarchy_up()]))
                case.count("file name in the error")
            if settings:
                case.count("settings")
                if same(observe(helper, x, T, filename), o):
                    case.count("settings matter")
            for what, got in entries(case, direction, x, T, filename, settings, reused):
                case.count("entry point")
                case.ev((u.b.source(), case.index, what, canon(x), repr(settings), filename), trivial=x in ({}, []), sample=lambda: {"type": node.expr[:150], "entry point": what, "input": short(x, 100), "outcome": repr(got)[:100]})
                diff = same(o, got, r.random() < 0.1)
                if diff:
                    case.bad(f"{what}: {diff} is another", plain=repr(o), got=repr(got), plain_text=None if o.ok else told(o.exc), text=None if got.ok else told(got.exc))
            if direction.is_deserialize():
                read(case, u, x, T, filename, settings, o)
            else:
                write(case, u, x, T, filename, settings, o)
        read_any(case, u, T, node)
        write_any(case, u)


def read(case, u, x, T, filename, settings, o):
    r = case.rng
    try:
        text = json.dumps(x, indent=r.choice([None, None, 2]), ensure_ascii=r.random() < 0.5)
    except (TypeError, ValueError):
        case.count("skipped: payload has no text")
        return
    compare_read(case, u, text, T, filename, settings)


def compare_read(case, u, text, T, filename, settings):
    r = case.rng
    if r.random() < 0.1:
        try:
            text = text.encode(r.choice(["utf-8", "utf-8", "utf-16", "utf-32", "utf-8-sig"]))
            case.count("text of bytes")
            if r.random() < 0.3:
                text = bytearray(text)
        except UnicodeEncodeError:
            pass
    case.note(text=text, direction="loads")
    got = observe(r.choice([lambda: loads(text, T, filename, settings), lambda: loads(value=text, type_=TypeHint(T), settings=settings, filename=filename)]))
    p = observe(json.loads, text)
    if p.ok:
        want = observe(load, p.value, T, filename, settings)
    else:
        case.count("text is no JSON")
        want = p
    case.count("text accepted" if want.ok else "text refused")
    case.ev((u.b.source(), "loads", text if isinstance(text, str) else bytes(text), repr(settings), filename), sample=lambda: {"text": short(text, 100), "outcome": repr(got)[:100]})
    diff = same(want, got, r.random() < 0.3)
    if diff:
        case.bad(f"loads: {diff} is not that of load and the JSON codec", expected=repr(want), got=repr(got))


def read_any(case, u, T, node):
    r = case.rng
    case.count("strange JSON text")
    text = r.choice(TEXTS)
    if r.random() < 0.4:
        try:
            text = json.dumps(payload(case, node, M.Env(r.choice(gen.GLOBS)), ("valid", "mutated", "junk"))[1])
            k = r.randrange(len(text) + 1)
            text = r.choice([text[:k], text[:k] + r.choice("{}[],:\"x0 ") + text[k:], text + text, text.replace('"', "'"), text[:k] + text[k + 1 :]])
        except (Skip, TypeError, ValueError):
            pass
    compare_read(case, u, text, T, r.choice([None, "f"]), r.choice([None, [Strict(False)]]))


def odd(r, d=2):
    """A value for the JSON codec to choke on, perhaps."""
    k = r.random()
    if d <= 0 or k < 0.4:
        return r.choice([1, "x", None, True, 1.5, float("nan"), float("inf"), object, {1}, b"x", "\ud800", "\u00e9", 10**30, 1 + 2j])
    if k < 0.6:
        return [odd(r, d - 1) for _ in range(r.randrange(4))]
    out = {r.choice(["z", "b", "a", "c", "Z"]) + str(r.randrange(9)) if r.random() < 0.95 else r.choice([1, None, True, 2.5, (1, 2)]): odd(r, d - 1) for _ in range(r.randrange(5))}
    if r.random() < 0.05:
        out["me"] = out
    return out


def write_any(case, u):
    r = case.rng
    x, T = r.choice([lambda: (odd(r), t.Any), lambda: ({k: odd(r) for k in r.sample(["b", "a", "", "c"], 3)}, t.Dict[str, t.Any]), lambda: ([odd(r) for _ in range(3)], t.List[t.Any]), lambda: ({k: odd(r, 1) for k in r.sample([2, 1, "a", None, "b", 1.5], 2)}, t.Dict[t.Any, t.Any])])()
    filename, settings = r.choice([None, "f"]), r.choice([None, [], [Strict(False)]])
    case.note(input=short(x), type=repr(T))
    write(case, u, x, T, filename, settings, observe(dump, x, T, filename, settings))


def write(case, u, x, T, filename, settings, o):
    r = case.rng
    indent = r.choice([None, None, 0, 1, 2, 4, "", "\t", "--"])
    sort_keys = r.random() < 0.5
    case.note(direction="dumps", indent=indent, sort_keys=sort_keys)
    want = o
    if o.ok:
        want = observe(json.dumps, o.value, indent=indent, sort_keys=sort_keys)
        if not want.ok:
            case.count("result is not JSON")
        elif sort_keys and want.value != json.dumps(o.value, indent=indent):
            case.count("sorting changes the text")
    ways = [("dumps with keywords", lambda: dumps(value=x, type_=T, filename=filename, settings=settings, indent=indent, sort_keys=sort_keys)),
            ("dumps", lambda: dumps(x, T, filename, settings, indent, sort_keys)), ("dumps with a type hint object", lambda: dumps(x, TypeHint(T), filename, settings, indent, sort_keys))]
    if not sort_keys:
        ways.append(("dumps without sorting", lambda: dumps(x, T, filename, settings, indent=indent)))
        if indent is None:
            ways.append(("dumps without more", lambda: dumps(x, T, filename, settings)))
    case.count("text accepted" if want.ok else "text refused")
    case.count("indent" if indent is not None else "compact")
    case.count("sorted" if sort_keys else "unsorted")
    for what, f in ways:
        got = observe(f)
        case.ev((u.b.source(), what, canon(x), repr(settings), filename, indent, sort_keys), sample=lambda: {"text": short(got.value, 100), "outcome": repr(got)[:100]})
        diff = same(want, got, r.random() < 0.3)
        if diff or want.ok and got.value != want.value:
            case.bad(f"{what}: {diff} is not that of dump and the JSON codec", expected=repr(want), got=repr(got))
