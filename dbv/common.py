"""Small helpers shared by the checks."""

import json
import typing as t

from dbv import gen
from dbv import model as M
from dbv.core import Case, Skip
from dbv.util import Outcome, Reject, Unspecified, canon, deep_eq, junk, mutate_json, observe, short


def opts(env: M.Env) -> t.Dict[str, t.Any]:
    s = M.settings_for(env.glob)
    return {"settings": s} if s else {}


def expect(fn: t.Callable[..., t.Any], *args: t.Any) -> t.Tuple[str, t.Any]:
    """('ok', value) | ('reject', None) | ('unspecified', None) according to the reference model."""
    try:
        return "ok", fn(*args)
    except Reject:
        return "reject", None
    except Unspecified:
        return "unspecified", None
    except RecursionError:
        return "unspecified", None


def payload(case: Case, node: M.Node, env: M.Env, kinds: t.Sequence[str] = ("valid", "mutated", "mutated", "mutated", "junk")) -> t.Tuple[str, t.Any]:
    """A payload for *node*: valid, valid with some changes, or arbitrary."""
    r = case.rng
    kind = r.choice(list(kinds))
    if kind == "junk":
        return kind, junk(r, 3)
    st, p = expect(node.enc, node.gen(r, env), env)
    if st != "ok":
        raise Skip("generated value has no payload")
    if kind == "mutated":
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = mutate_json(p, r)
    return kind, p


def check_load(case: Case, o: Outcome, want: t.Tuple[str, t.Any], what: str = "load", lax: bool = False) -> None:
    """The outcome of a deserialization against the reference's."""
    st, v = want
    if st == "ok" and not o.ok:
        case.bad(f"{what}: a payload that denotes a value was not accepted", expected=short(v, 2000), got=repr(o))
    if st == "reject" and not o.refused:
        case.bad(f"{what}: a payload that does not denote a value was not refused with a conversion error", got=repr(o))
    if st == "ok" and not deep_eq(o.value, v, lax=lax):
        case.bad(f"{what}: the wrong value was returned", expected=short(v, 2000), got=short(o.value, 2000))


def check_dump(case: Case, o: Outcome, want: t.Tuple[str, t.Any], what: str = "dump") -> None:
    st, w = want
    if st == "ok" and not o.ok:
        case.bad(f"{what}: a value of the type was not serialized", expected=short(w, 2000), got=repr(o))
    if st == "reject" and not o.refused:
        case.bad(f"{what}: a value that is not of the type was not refused with a conversion error", got=repr(o))
    if st == "ok" and not deep_eq(o.value, w):
        case.bad(f"{what}: the wrong payload was produced", expected=short(w, 2000), got=short(o.value, 2000))


def lenient(src: str, env: M.Env) -> bool:
    return env.glob.get("strict") is False or "Strict(False)" in src


def omits(src: str, env: M.Env) -> bool:
    return env.glob.get("serdef") is False or "SerializeDefaults(False)" in src


def jsonable(x: t.Any) -> t.Optional[str]:
    """Why *x* is not made only of JSON's own types."""
    if x is None or type(x) in (bool, int, float, str):
        return None
    if type(x) is list:
        return next((m for m in map(jsonable, x) if m), None)
    if type(x) is dict:
        for k, v in x.items():
            if type(k) is not str:
                return f"key {k!r} of type {type(k).__name__}"
            m = jsonable(v)
            if m:
                return m
        return None
    return f"{x!r} of type {type(x).__name__}"
