"""Dispatch: scripted converters in random module trees; the log of consultations and the outcome against the rule."""

import typing as t

from databind.core import (Context, ConversionError, Converter, Direction, Location, Module, NoMatchingConverter, ObjectMapper)
from databind.json import get_object_mapper
from typeapi import TypeHint

from dbv.common import *

ID = "C18"
CASES = {"quick": 60000, "thorough": 3000000}
RULE = "one dispatched conversion over scripted converters; non-trivial if at least two converters are consulted"
MINIMA = {"success after failures": 5000, "single failure": 3000, "several failures": 3000, "no failure reported": 1000, "other exception": 2500, "nested module": 8000,
          "registered later": 3000, "nested conversion": 4000, "built-in decided": 1500, "built-in declined": 1000, "module computed its converters": 1500}


class Boom(Exception):
    pass


class NotHere(NotImplementedError):
    pass


class OddError(ConversionError):
    pass


class Base(BaseException):
    pass


OTHERS = [ValueError, TypeError, KeyError, AssertionError, AttributeError, RuntimeError, RecursionError, StopIteration, Boom, Base, LookupError, OSError]


class Scripted(Converter):
    def __init__(self, no, world):
        self.no, self.world, self.plan = no, world, {}

    def __repr__(self):
        return f"Scripted({self.no})"

    def convert(self, ctx):
        self.world.log.append((self.no, ctx.key))
        act, arg = self.plan[ctx.value if isinstance(ctx.value, str) else "v0"]
        return self.world.act(self, ctx, act, arg)


class Split(Scripted):
    """Overrides the two directed methods instead of convert()."""

    convert = Converter.convert

    def serialize(self, ctx):
        return Scripted.convert(self, ctx)

    def deserialize(self, ctx):
        return Scripted.convert(self, ctx)


class OneWay(Converter):
    """Implements one direction only."""

    def __init__(self, no, world, direction):
        self.no, self.world, self.direction, self.plan = no, world, direction, {}
        setattr(self, direction.name.lower(), lambda ctx: Scripted.convert(self, ctx))

    def __repr__(self):
        return f"OneWay({self.no})"


class Computed(Module):
    """Like JsonConverterSupport: decides per context which converters it has."""

    def __init__(self, name, world, extra):
        super().__init__(name)
        self.world, self.extra = world, extra

    def get_converters(self, ctx):
        self.world.computed += 1
        if ctx.value == "v0":
            yield self.extra
        yield from super().get_converters(ctx)


class World:
    def __init__(self):
        self.log, self.raised, self.computed = [], {}, 0

    def act(self, conv, ctx, act, arg):
        if act == "return":
            return arg
        if act == "spawn":
            value, key = arg
            return ["from", conv.no, ctx.spawn(value, int, key).convert()]
        if act == "decline":
            raise arg()
        if act == "fail":
            e = arg(conv, ctx)
        else:
            e = arg("scripted")
        self.raised[id(e)] = e
        e.maker = conv.no
        raise e


VALUES = ["v0", "v1", "v2", "v3"]


def build(case, world):
    r = case.rng
    convs, mods = [], []

    def conv():
        k = r.random()
        n = len(convs)
        c = OneWay(n, world, r.choice(list(Direction))) if k < 0.12 else Split(n, world) if k < 0.3 else Scripted(n, world)
        convs.append(c)
        return c

    def mod(depth):
        if r.random() < 0.25:
            m = Computed(f"m{len(mods)}", world, conv())
        else:
            m = Module(f"m{len(mods)}")
        model = []
        mods.append((m, model))
        for _ in range(r.randrange(4)):
            add(m, model, depth)
        return m, model

    def add(m, model, depth):
        if depth > 0 and r.random() < 0.3:
            # A module may be filled before or after it is registered, and be registered more than once.
            known = [x for x in mods if not reaches(x[1], model)]
            sub, smodel = r.choice(known) if known and r.random() < 0.2 else mod(depth - 1)
            if reaches(smodel, model):
                return
            item = (sub, smodel)
            case.count("nested module")
        else:
            c = r.choice(convs) if convs and r.random() < 0.1 else conv()
            item = c
        first = r.random() < 0.35
        m.register(item[0] if isinstance(item, tuple) else item, **({"first": True} if first else r.choice([{}, {"first": False}])))
        if first:
            model.insert(0, item)
        else:
            model.append(item)

    def reaches(a, b):
        return a is b or any(isinstance(x, tuple) and reaches(x[1], b) for x in a)

    return convs, mods, mod, add


def order(item, value):
    m, model = item
    out = [m.extra] if isinstance(m, Computed) and value == "v0" else []
    for x in model:
        out += order(x, value) if isinstance(x, tuple) else [x]
    return out


class Raised(Exception):
    """Model outcome: an exception leaves the dispatch."""

    def __init__(self, what):
        self.what = what


def expected(world, root, value, key, direction, log):
    """('ok', value) | ('fail', descriptor) | ('other', class, maker)"""
    fails = []
    for c in order(root, value):
        if isinstance(c, OneWay) and c.direction is not direction:
            continue
        log.append((c.no, key))
        act, arg = c.plan[value]
        if act == "return":
            return ("ok", arg)
        if act == "decline":
            continue
        if act == "fail":
            fails.append(("made", c.no))
            continue
        if act == "raise":
            return ("other", arg, c.no)
        st = expected(world, root, arg[0], arg[1], direction, log)
        if st[0] == "ok":
            return ("ok", ["from", c.no, st[1]])
        if st[0] == "other":
            return st
        fails.append(("inner", c.no, st[1]))
    if len(fails) == 1:
        return ("fail", fails[0] if fails[0][0] == "made" else fails[0][2])
    return ("fail", ("all", value, fails))


def matches(exc, d):
    """Whether the exception is the one described."""
    if d[0] == "made":
        return getattr(exc, "maker", None) == d[1]
    if type(exc) is not NoMatchingConverter or hasattr(exc, "maker") or len(exc.errors) != len(d[2]):
        return False
    if exc.context.value != d[1]:
        return False
    for (c, e), f in zip(exc.errors, d[2]):
        if getattr(c, "no", None) != f[1]:
            return False
        if not matches(e, f if f[0] == "made" else f[2]):
            return False
    return True


def run(case):
    r = case.rng
    if r.random() < 0.15:
        return with_builtins(case)
    world = World()
    convs, mods, mod, add = build(case, world)
    mapper = ObjectMapper()
    root = (mapper.module, [])
    mods.append(root)
    for _ in range(r.randrange(1, 6)):
        add(*root, 3)

    mood = r.choice(["mixed", "declining", "failing", "failing", "throwing"])
    sentinel = r.choice([None, 0, "", [], {}, False, object(), "value"])

    def plan(c):
        for i, v in enumerate(VALUES):
            acts = {"mixed": ["return", "decline", "fail", "raise", "spawn"], "declining": ["decline"] * 6 + ["fail", "spawn", "return"],
                    "failing": ["fail"] * 5 + ["decline", "decline", "return", "spawn"], "throwing": ["decline", "decline", "fail", "raise", "spawn"]}[mood]
            act = r.choice(acts)
            if act == "spawn" and i + 1 >= len(VALUES):
                act = "fail"
            if act == "return":
                arg = sentinel if r.random() < 0.5 else ("value of", c.no, v)
            elif act == "decline":
                arg = r.choice([NotImplementedError, NotImplementedError, NotHere])
            elif act == "fail":
                kind = r.choice(["own", "expected", "none", "sub", "other ctx"])
                arg = {"own": lambda conv, ctx: ConversionError(conv, ctx, f"failure {conv.no}"), "expected": lambda conv, ctx: ConversionError.expected(conv, ctx, int),
                       "none": lambda conv, ctx: NoMatchingConverter(conv, ctx, []), "sub": lambda conv, ctx: OddError(conv, ctx, f"odd {conv.no}"),
                       "other ctx": lambda conv, ctx: ConversionError(conv, ctx.spawn(1, int, "elsewhere"), f"failure {conv.no} elsewhere")}[kind]
            elif act == "raise":
                arg = r.choice(OTHERS)
            else:
                arg = (r.choice(VALUES[i + 1 :]), r.choice(["a", 0, 7, None]))
            c.plan[v] = (act, arg)

    planned = set()
    for rnd in range(r.choice([1, 1, 2, 3])):
        if rnd:
            # Registrations take effect at once, also those in a module that was registered long ago.
            m, model = r.choice(mods)
            add(m, model, 2)
            case.count("registered later")
        for c in convs:
            if c.no not in planned:
                plan(c)
                planned.add(c.no)
        value = r.choice(VALUES)
        direction = r.choice(list(Direction))
        del world.log[:]
        log = []
        want = expected(world, root, value, Context.ROOT, direction, log)
        if len(log) > 3000:
            raise Skip("too long")
        way = r.choice(["mapper", "directed", "module"])
        try:
            if way == "mapper":
                got = ("ok", mapper.convert(direction, value, int))
            elif way == "directed":
                got = ("ok", getattr(mapper, direction.name.lower())(value, int))
            else:
                ctx = Context(None, direction, value, TypeHint(int), mapper.settings, Context.ROOT, Location.EMPTY, mapper.module.convert)
                got = ("ok", mapper.module.convert(ctx))
        except BaseException as exc:  # noqa
            if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            got = ("raised", exc)
        note = dict(order=[c.no for c in order(root, value)], value=value, plans={c.no: c.plan[value][0] for c in order(root, value)}, expected=str(want)[:1500])
        case.ev((case.index, rnd), trivial=len(log) < 2, sample=lambda: {"consulted": [n for n, _ in log][:20], "outcome": want[0]})
        if world.computed:
            case.count("module computed its converters")
        if any(k is not Context.ROOT for _, k in log):
            case.count("nested conversion")
        if world.log != log:
            case.bad("other converters were consulted, or in another order, than the rule says", expected_log=log[:60], log=world.log[:60], got=str(got)[:500], **note)
        if want[0] == "ok":
            if len(log) > 1:
                case.count("success after failures")
            same = got[0] == "ok" and (got[1] is want[1] or isinstance(want[1], (list, tuple)) and got[1] == want[1])
            if not same:
                case.bad("the result is not that of the first converter that returns", got=str(got)[:500], **note)
        elif want[0] == "other":
            case.count("other exception")
            e = got[1]
            if got[0] == "ok" or type(e) is not want[1] or getattr(e, "maker", None) != want[2] or e.args != ("scripted",):
                # A generator turns StopIteration into RuntimeError, which is no concern of the converter protocol.
                case.bad("an exception of a converter that is no conversion error did not propagate unchanged", got=str(got)[:500], **note)
        else:
            if got[0] == "ok" or not isinstance(got[1], ConversionError):
                case.bad("a conversion no converter performs did not end in a conversion error", got=repr(got)[:500], **note)
            d = want[1]
            case.count("single failure" if d[0] == "made" else "several failures" if d[2] else "no failure reported")
            if not matches(got[1], d):
                case.bad("the error is not the single reported one, or does not list all reported ones in order", got=repr(got[1]) + " " + str(getattr(got[1], "errors", None))[:800], **note)
            text = str(got[1])
            if d[0] == "all":
                pos = -1
                for f in d[2]:
                    c = convs[f[1]]
                    pos = text.find(f"\n  {c!r}: ", pos + 1)
                    if pos < 0:
                        case.bad("the text of the error does not list the failures of the converters in order", text=text[:3000], **note)


class Late(Converter):
    def __init__(self, tag, log, mode):
        self.tag, self.log, self.mode = tag, log, mode

    def convert(self, ctx):
        self.log.append((self.tag, ctx.value if isinstance(ctx.value, (str, int)) else None))
        if self.mode == "return":
            return ("by", self.tag)
        if self.mode == "fail":
            raise ConversionError(self, ctx, f"failure of {self.tag}")
        raise NotImplementedError


def with_builtins(case):
    """Registered before and after the JSON module."""
    r = case.rng
    log = []
    mapper = get_object_mapper()
    before = [Late(f"b{i}", log, r.choice(["decline", "decline", "decline", "fail", "return"])) for i in range(r.randrange(3))]
    after = [Late(f"a{i}", log, r.choice(["return", "return", "decline", "fail"])) for i in range(r.randrange(3))]
    for c in after:
        mapper.module.register(c)
    for c in reversed(before):
        mapper.module.register(c, first=True)
    T, value, ok, fails = r.choice([(int, 5, True, 0), (int, "x", False, 1), (str, "x", True, 0), (str, 5, False, 1), (object, 7, None, 0), (Exception, 5, False, 0), (bytearray, 5, False, 0),
                                    (bool, True, True, 0), (float, "a", False, 1)])
    if T is object:
        T, ok, fails = complex, False, 0
    direction = r.choice(list(Direction))
    o = observe(mapper.convert, direction, value, T)
    want, res, errs = [], None, 0
    for c in before + [None] + after:
        if c is None:
            if ok:
                res = ("ok", value)
                break
            errs += fails
            continue
        want.append((c.tag, value))
        if c.mode == "return":
            res = ("ok", ("by", c.tag))
            break
        errs += c.mode == "fail"
    case.ev((case.index,), trivial=len(want) < 2)
    case.count("built-in decided" if res == ("ok", value) else "built-in declined")
    note = dict(type=T, value=value, before=[c.mode for c in before], after=[c.mode for c in after], got=repr(o))
    if log != want:
        case.bad("the converters around the built-in ones were not consulted as the rule says", expected_log=want, log=log, **note)
    if res is None:
        if not o.refused or (errs == 1) != (type(o.exc) is ConversionError) or errs != 1 and len(o.exc.errors) != errs:
            case.bad("a conversion no converter performs did not end in the error reported", failures=errs, errors=str(getattr(o.exc, "errors", None)), **note)
    elif not o.ok or o.value != res[1]:
        case.bad("the result is not that of the first converter that returns", expected=res[1], **note)
