"""Values with one foreign sub-value: serialization must refuse them unless they conform after all."""

import collections
import dataclasses
import datetime
import enum
import types

from databind.json import dump

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C05"
CASES = {"quick": 6000, "thorough": 260000}
RULE = "a generated type and a generated value with a foreign sub-value at one place; non-trivial if the reference says the value does not conform"
MINIMA = {"refused": 10000, "conforming": 300, "lookalike of a structure": 500, "lookalike of a collection": 500, "lookalike of a scalar": 500}


def lookalike(case, node, env):
    """What differs from a value of the type only in its class."""
    r = case.rng
    v = node.gen(r, env, 2)
    if isinstance(node, (M.Struct, M.Gen_)):
        fields = dict(v) if isinstance(v, dict) else v._asdict() if hasattr(v, "_asdict") else dict(vars(v))
        k = r.randrange(6)
        names = [n for n in fields if n.isidentifier() and not n.startswith("_")]
        name = getattr(node, "name", None) or "Other"
        if len(names) < len(fields):
            k = 5
        case.count("lookalike of a structure")
        if k == 0:
            return dataclasses.make_dataclass(name, names)(**fields)
        if k in (1, 2):
            return collections.namedtuple(name, names)(**fields)
        if k == 3:
            return types.SimpleNamespace(**fields)
        if k == 4:
            return r.choice([list, tuple])(fields.values())
        return r.choice([dict, types.MappingProxyType, lambda x: list(x.items())])(fields)
    if isinstance(v, enum.Enum):
        case.count("lookalike of an enum member")
        return r.choice([v.name, v.value, enum.Enum(type(v).__name__, {v.name or "X": v.value})(v.value)])
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        case.count("lookalike of a collection")
        return r.choice([list, tuple, set, frozenset, collections.deque, iter, lambda x: dict.fromkeys(x), lambda x: dict(enumerate(x)), collections.UserList])(v)
    if isinstance(v, dict):
        return r.choice([lambda x: list(x.items()), list, types.MappingProxyType, collections.UserDict, lambda x: x.items()])(v)
    if isinstance(v, datetime.datetime):
        return r.choice([v.date(), v.time(), v.isoformat()])
    if isinstance(v, datetime.date):
        return r.choice([datetime.datetime(v.year, v.month, v.day), v.isoformat()])
    case.count("lookalike of a scalar")
    return r.choice([str, repr, lambda x: [x], lambda x: {"value": x}, lambda x: type("Sub", (type(x),), {})(x)])(v)


def run(case):
    r = case.rng
    u, (n,), (T,) = gen.make(case, gen.Profile(disjoint=r.random() < 0.5))
    src = case.notes["module"]
    for _ in range(8):
        env = M.Env(r.choice(gen.GLOBS))
        sab = M.Sabotage(r.choice([1, 2, 2, 3, 4, 5, 6, 8]), lambda node: lookalike(case, node, env) if r.random() < 0.3 else foreign(r))
        try:
            with sab:
                v = n.gen(r, env)
        except Exception:
            case.count("skipped: value cannot be built")
            continue
        if sab.node is None:
            continue
        want = expect(n.enc, v, env)
        if want[0] == "unspecified":
            case.count("unspecified")
            continue
        case.note(value=v, settings=env.glob, type=n.expr, sabotaged=repr(sab.node))
        o = observe(dump, v, T, **opts(env))
        case.ev((n.expr, src, canon(v), env.glob), trivial=want[0] == "ok", sample=lambda: {"type": n.expr, "value": short(v, 160), "outcome": repr(o)[:160]})
        case.count("refused" if want[0] == "reject" else "conforming")
        case.count("foreign value in place of " + type(sab.node).__name__)
        check_dump(case, o, want)
