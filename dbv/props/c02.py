"""The serialized form against an independent encoder of the documented format."""

from databind.json import dump

from dbv import gen
from dbv.common import *

ID = "C02"
CASES = {"quick": 6000, "thorough": 260000}
RULE = "a generated type, a generated value of it and a choice of settings; non-trivial if the reference encoder has a payload for it"
MINIMA = {"values": 10000}


def run(case):
    u, (n,), (T,) = gen.make(case)
    src = case.notes["module"]
    case.count("root type: " + type(n).__name__)
    free = "t.Any" in src + n.expr or "object" in src + n.expr
    for _ in range(6):
        env = M.Env(case.rng.choice(gen.GLOBS))
        v = n.gen(case.rng, env)
        want = expect(n.enc, v, env)
        if want[0] != "ok":
            case.count("values without a documented form")
            continue
        case.note(value=v, settings=env.glob, type=n.expr)
        case.count("values")
        o = observe(dump, v, T, **opts(env))
        case.ev((n.expr, src, canon(v), env.glob), sample=lambda: {"type": n.expr, "value": short(v, 120), "wire": short(o.value, 120)})
        check_dump(case, o, want)
        bad = None if free else jsonable(o.value)
        if bad:
            case.bad("the payload contains something that is not JSON", problem=bad, got=o.value)
