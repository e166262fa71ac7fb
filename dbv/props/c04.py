"""Hostile payloads and values: nothing but conversion errors comes out, and those can be rendered."""

import collections
import datetime
import decimal
import fractions
import math
import typing as t

from databind.core import ConversionError, Converter, Direction
from databind.json import dump, get_object_mapper, load
from databind.json.converters import StringifyConverter
from databind.json.settings import JsonConverter

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C04"
CASES = {"quick": 6000, "thorough": 240000}
RULE = "a generated type and a hostile payload or value; non-trivial if the conversion was refused"
MINIMA = {"refused": 10000, "refused with a message of the user": 800}

NASTY = ["\ud800", "\x00", "9" * 400, "1e999", "-", "0x10", "1_0", "\u0661", "nan", "NaN", "inf", "P", "PT", "P1", "2020-13-45", "24:61:61",
         "2020-01-01T99:99:99Z", "=", "A", "AAA", "====", "a" * 2000, ".", "..", "a.b", "builtins.int", "databind.core", "sNaN", "1E+99999999", "{", "\U0010ffff",
         10**400, -(10**400), 1e308, float("nan"), float("inf"), -0.0, [], {}, [[]], [{}], {"": ""}, {"type": 1}, {"type": None}, {"type": []}, {"type": {}},
         {"type": "type"}, {None: 1}, {1: 2}, {(): ()}, {"type": "a", "a": None}, [None] * 40, True, None, (), (1, 2), set(), frozenset([1]),
         b"\xff", bytearray(b"x"), collections.OrderedDict(a=1), collections.deque([1]), range(3), 1j, datetime.date(2020, 1, 1), object()]

KEYS = ["", "\ud800", "sNaN", "nan", "-", "type", "9" * 400, "2020-99-99", None, 1, 1.5, True, (), b"x"]


def hostile(case, p):
    r = case.rng
    from dbv.util import get_at, paths, put_at

    for _ in range(r.choice([1, 1, 2])):
        try:
            path = r.choice(paths(p))
            if r.random() < 0.15 and path and isinstance(path[-1], str):
                old = get_at(p, path[:-1])
                p = put_at(p, path[:-1], {(r.choice(KEYS) if k == path[-1] else k): x for k, x in old.items()})
            else:
                p = put_at(p, path, r.choice(NASTY))
        except (TypeError, KeyError):
            pass
    return p


MESSAGES = ["", " ", "\n", "\nx", "  x ", "x\n", "\t", "x\n\nTrace:\n  $", "\u2028x", "{}", "{x}", "%s", "%", "\x00", "\ud800", "\\", "x\r\ny", "\n\nThe following errors have been reported by converters:",
            "a" * 5000, "\x1b[0m", "'", "\ufeffx"]


REFUSE = object()


class Refusing(Converter):
    """Refuses with a message of the user's."""

    def __init__(self, error):
        self.error = error

    def convert(self, ctx):
        if ctx.value is REFUSE:
            raise self.error(self, ctx)
        raise NotImplementedError


def messages(case):
    """The text of an error tells its message as it was given."""
    r = case.rng
    message = r.choice(MESSAGES) + (r.choice(MESSAGES) if r.random() < 0.3 else "")

    def fail(*a):
        raise r.choice([ValueError, TypeError, KeyError])(message)

    def nested(conv, ctx):
        return ConversionError(conv, ctx, message, [(conv, ConversionError(conv, ctx, r.choice(MESSAGES))), (conv, ValueError(r.choice(MESSAGES))), (conv, KeyError())])

    mapper = get_object_mapper()
    how = r.choice(["raised", "nested", "parser", "class method"])
    T = str
    if how == "parser":
        mapper.module.register(StringifyConverter(fractions.Fraction, parser=fail, formatter=fail), first=True)
        T = fractions.Fraction
    elif how == "class method":
        C = type("C", (), {"of": staticmethod(fail), "to": fail})
        T = t.Annotated[C, JsonConverter.using_classmethods(serialize="to", deserialize="of")]
    else:
        for _ in range(r.choice([1, 1, 2])):
            mapper.module.register(Refusing(nested if how == "nested" else lambda conv, ctx: ConversionError(conv, ctx, message)), first=True)
    case.note(message=message, how=how)
    for direction in Direction:
        x = REFUSE
        if how in ("parser", "class method") and direction.is_serialize():
            x = fractions.Fraction(1, 2) if how == "parser" else C()
        shape, hint = r.choice([(lambda v: v, T), (lambda v: [v], t.List[T]), (lambda v: {"k": v}, t.Dict[str, T]), (lambda v: v, t.Union[T, int]), (lambda v: v, t.Optional[T])])
        o = observe(mapper.convert, direction, shape(x), hint)
        case.ev(("message", message, how, direction.name, str(hint)[:40]), sample=lambda: {"message": message[:60], "how": how})
        if how in ("raised", "nested") and not o.refused:
            case.bad("a refusal by a converter of the user is not a conversion error", got=repr(o))
        if o.refused:
            case.count("refused with a message of the user")
            render(case, o.exc)
            every = [o.exc]
            for e in every:
                every += [x for _, x in getattr(e, "errors", ())]
            if how == "raised" and not any(getattr(e, "message", None) == message for e in every):
                case.bad("the message of the refusal is not in the error", got=[getattr(e, "message", e) for e in every])


def run(case):
    r = case.rng
    if r.random() < 0.15:
        return messages(case)
    u, (n,), (T,) = gen.make(case, gen.Profile(disjoint=False))
    src = case.notes["module"]
    for _ in range(6):
        env = M.Env(r.choice(gen.GLOBS))
        try:
            kind, p = payload(case, n, env, ("mutated", "mutated", "junk", "valid"))
        except Skip:
            continue
        if r.random() < 0.7:
            p = hostile(case, p)
        case.note(payload=p, settings=env.glob, type=n.expr, direction="deserialize")
        look(case, observe(load, p, T, **opts(env)), (n.expr, src, "L", canon(p), env.glob), p)
        k = r.random()
        try:
            if k < 0.5:
                with M.Sabotage(r.randrange(1, 6), lambda node: foreign(r)):
                    v = n.gen(r, env)
            else:
                v = foreign(r) if k < 0.8 else p
        except Exception:
            case.count("skipped: value cannot be built")
            continue
        case.note(value=v, direction="serialize")
        look(case, observe(dump, v, T, **opts(env)), (n.expr, src, "D", canon(v), env.glob), v)


def look(case, o, key, x):
    case.ev(key, trivial=o.ok, sample=lambda: {"type": key[0], "input": short(x, 120), "outcome": repr(o)[:160]})
    case.count(o.kind)
    if o.kind == "leaked":
        import traceback

        case.bad("an exception other than a conversion error escaped", got=repr(o), traceback="".join(traceback.format_exception(o.exc))[-2500:])
    if o.refused:
        render(case, o.exc)


def render(case, exc, depth=0):
    try:
        text = str(exc)
    except BaseException as e:
        case.bad("the error could not be turned into text", error=repr(e))
    if type(text) is not str or not text.startswith(exc.message):
        case.bad("the text of the error does not start with its message", text=text, message=exc.message)
    if depth < 2:
        for _, sub in exc.errors:
            if hasattr(sub, "message"):
                render(case, sub, depth + 1)
