"""Round trips of generated values of generated types."""

import datetime
import json

from databind.json import dump, dumps, load, loads

from dbv import gen
from dbv.common import *

ID = "C01"
CASES = {"quick": 6000, "thorough": 220000}
RULE = "a generated type, a generated value of it and a choice of settings; non-trivial if the value was serialized and read back"
ASSUMPTIONS = ["values whose entries collide by construction are skipped", "non-strict reading is combined with plain unions only where the members' texts stay apart"]
MINIMA = {"values": 5000}


def run(case):
    u, (n,), (T,) = gen.make(case)
    src = case.notes["module"]
    case.count("root type: " + type(n).__name__)
    for _ in range(5):
        env = M.Env(case.rng.choice(gen.GLOBS))
        if lenient(src, env) and "Union[" in src + n.expr:
            continue
        v = n.gen(case.rng, env)
        if expect(n.enc, v, env)[0] != "ok":
            case.count("skipped: value without a payload")
            continue
        if canon(v).count("nan") > 1 and "Set" in src + n.expr:
            case.count("skipped: set with several NaNs")
            continue
        case.note(value=v, settings=env.glob, type=n.expr)
        case.count("values")
        o = observe(dump, v, T, **opts(env))
        if not o.ok:
            case.bad("a value of the type could not be serialized", got=repr(o))
        back = observe(load, o.value, T, **opts(env))
        case.ev((n.expr, src, canon(v), env.glob), sample=lambda: {"type": n.expr, "value": short(v, 120), "wire": short(o.value, 120)})
        compare(case, back, v, o.value, omits(src, env), "load(dump(value))")
        text = observe(dumps, v, T, **opts(env))
        if not text.ok:
            case.bad("a value of the type could not be serialized to text", got=repr(text))
        compare(case, observe(loads, text.value, T, **opts(env)), v, text.value, omits(src, env), "loads(dumps(value))")


def compare(case, back, v, wire, lax, what):
    if not back.ok:
        case.bad(f"{what}: the serialized form was not accepted", wire=wire, got=repr(back))
    if not deep_eq(back.value, v, lax=lax) and not (lax and back.value == v):
        case.bad(f"{what} differs from the value", wire=wire, got=back.value)


def _time_offset():
    v = datetime.time(1, 2, 3, tzinfo=datetime.timezone.utc)
    got = load(dump(v, datetime.time), datetime.time)
    return None if got == v else f"{v!r} came back as {got!r}"


def _fraction():
    from nr.date import duration

    for v in (duration(seconds=1, microseconds=500000), duration(seconds=0, microseconds=1)):
        o = observe(lambda: load(dump(v, duration), duration))
        if not o.ok or o.value != v:
            return f"{v!r} came back as {o!r}"
    return None


def _offset_seconds():
    v = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(seconds=3661)))
    o = observe(lambda: load(dump(v, datetime.datetime), datetime.datetime))
    return None if o.ok and o.value == v and o.value.utcoffset() == v.utcoffset() else f"{v!r} came back as {o!r}"


FINDINGS = {"aware-time-loses-offset": _time_offset, "fractional-duration-drifts": _fraction, "offset-with-seconds-unreadable": _offset_seconds}
