"""Typed equality, canonical text of values, outcomes of calls into the library, hostile JSON."""

import collections
import dataclasses
import datetime
import decimal
import enum
import hashlib
import math
import typing as t


class Reject(Exception):
    """The reference model says: this must be refused with a conversion error."""


class Unspecified(Exception):
    """The reference model has no opinion about this input; the case is skipped and counted."""


def deep_eq(a: t.Any, b: t.Any, ordered: bool = False, lax: bool = False) -> bool:
    """Equality with identical concrete types at every level. *ordered*: dictionaries must have equal key order, too.
    *lax*: numbers that compare equal (such as 1.0 and 1.00 as decimals) are not told apart."""
    if type(a) is not type(b):
        return lax and type(a) in (int, float, bool) and type(b) in (int, float, bool) and a == b
    if a is b and not isinstance(a, (float, list, dict)):
        return True
    if isinstance(a, enum.Enum):
        return a is b or (isinstance(a, enum.Flag) and a == b)
    if isinstance(a, bool) or a is None or isinstance(a, (int, str, bytes)):
        return a == b
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and (lax or math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, decimal.Decimal):
        return a.as_tuple() == b.as_tuple() or lax and a == b
    if isinstance(a, datetime.datetime):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if isinstance(a, datetime.time):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        if ordered and list(a) != list(b):
            return False
        bk = {k: k for k in b}
        for k, v in a.items():
            if k not in bk or not deep_eq(k, bk[k], ordered, lax) or not deep_eq(v, b[k], ordered, lax):
                return False
        return True
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(deep_eq(x, y, ordered, lax) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if deep_eq(x, y, ordered, lax):
                    del rest[i]
                    break
            else:
                return False
        return True
    if dataclasses.is_dataclass(a):
        return all(
            deep_eq(getattr(a, f.name, _MISSING), getattr(b, f.name, _MISSING), ordered, lax) for f in dataclasses.fields(a)
        )
    if isinstance(a, collections.abc.Mapping):
        return deep_eq(dict(a), dict(b), ordered, lax)
    return bool(a == b)


_MISSING = object()


def canon(x: t.Any, depth: int = 0) -> str:
    """A text that determines the value and its types (sets sorted), independent of hash seed and memory addresses."""
    if depth > 60:
        return "..."
    d = depth + 1
    if isinstance(x, enum.Enum):
        return f"{type(x).__name__}.{x.name}"
    if x is None or isinstance(x, bool):
        return repr(x)
    if isinstance(x, (int, float, str, bytes)):
        return f"{type(x).__name__}:{x!r}" if type(x) not in (int, float, str) else repr(x)
    if isinstance(x, dict):
        inner = ",".join(f"{canon(k, d)}:{canon(v, d)}" for k, v in x.items())
        return (type(x).__name__ if type(x) is not dict else "") + "{" + inner + "}"
    if isinstance(x, (list, tuple, collections.deque)):
        inner = ",".join(canon(v, d) for v in x)
        if type(x) is list:
            return f"[{inner}]"
        return f"{type(x).__name__}({inner})"
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + "{" + ",".join(sorted(canon(v, d) for v in x)) + "}"
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (
            type(x).__name__
            + "("
            + ",".join(f"{f.name}={canon(getattr(x, f.name, None), d)}" for f in dataclasses.fields(x))
            + ")"
        )
    if isinstance(x, type):
        return f"<type {x.__name__}>"
    r = repr(x)
    if " at 0x" in r:
        r = f"<{type(x).__name__}>"
    return f"{type(x).__name__}:{r}"


def digest(*xs: t.Any) -> str:
    return hashlib.sha1("|".join(x if isinstance(x, str) else canon(x) for x in xs).encode("utf8", "replace")).hexdigest()


def short(x: t.Any, n: int = 300) -> str:
    try:
        s = canon(x)
    except Exception as exc:
        s = f"<unprintable {type(x).__name__}: {exc!r}>"
    s = s.encode("utf8", "backslashreplace").decode("utf8")
    return s if len(s) <= n else s[: n - 3] + "..."


class Outcome:
    """What one call into the library did: returned, refused (ConversionError) or leaked another exception."""

    __slots__ = ("kind", "value", "exc")

    def __init__(self, kind: str, value: t.Any = None, exc: t.Optional[BaseException] = None) -> None:
        self.kind = kind
        self.value = value
        self.exc = exc

    @property
    def ok(self) -> bool:
        return self.kind == "ok"

    @property
    def refused(self) -> bool:
        return self.kind == "refused"

    def __repr__(self) -> str:
        if self.ok:
            return f"returned {short(self.value)}"
        if self.refused:
            return f"refused ({type(self.exc).__name__}: {short(getattr(self.exc, 'message', ''), 160)})"
        return f"raised {type(self.exc).__name__}: {short(str(self.exc), 160)}"

    def canon(self) -> str:
        if self.ok:
            return "ok " + canon(self.value)
        return f"{self.kind} {type(self.exc).__name__}"


def observe(fn: t.Callable[..., t.Any], *args: t.Any, **kwargs: t.Any) -> Outcome:
    from databind.core import ConversionError

    try:
        return Outcome("ok", fn(*args, **kwargs))
    except ConversionError as exc:
        return Outcome("refused", exc=exc)
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # noqa
        return Outcome("leaked", exc=exc)


def ctx_path(exc: t.Any) -> t.List[t.Any]:
    """Keys from the root to the context of a conversion error, without root and transparent steps."""
    from databind.core import Context

    keys = [c.key for c in exc.context.iter_hierarchy_up()]
    keys.reverse()
    return [k for k in keys if k is not None and k is not Context.ROOT]


# Hostile JSON ---------------------------------------------------------------------------------------------------

WORDS = ["", "a", "b", "x", "type", "name", "value", "key", "1", "0", "1.5", "true", "false", "no", "yes", "on", "off",
         "null", "None", "nan", "inf", "-", "2020-01-01", "12:30:00", "2020-01-01T12:30:00Z", "P1D", "QUJD", "QQ==",
         "A", "CAT", "\u00e9\u4e2d", "\U0001f600", "a b", "\n", "'", '"', "..", "/", "__class__", "items", "self"]
INTS = [0, 1, -1, 2, 3, 7, 10, 255, 2**31, -(2**31) - 1, 2**53, 2**64, 10**30]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 1e-9, 1e300, 2.0**53, float("inf"), float("-inf"), float("nan"), 3.0]


def junk(rng: t.Any, depth: int = 3) -> t.Any:
    """A random JSON value."""
    k = rng.random()
    if depth <= 0 or k < 0.6:
        c = rng.randrange(7)
        if c == 0:
            return None
        if c == 1:
            return rng.random() < 0.5
        if c == 2:
            return rng.choice(INTS)
        if c == 3:
            return rng.choice(FLOATS)
        return rng.choice(WORDS)
    if k < 0.8:
        return [junk(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(WORDS): junk(rng, depth - 1) for _ in range(rng.randrange(4))}


def paths(p: t.Any, pre: t.Tuple[t.Any, ...] = ()) -> t.List[t.Tuple[t.Any, ...]]:
    out = [pre]
    if isinstance(p, dict):
        for k, v in p.items():
            out += paths(v, pre + (k,))
    elif isinstance(p, list):
        for i, v in enumerate(p):
            out += paths(v, pre + (i,))
    return out


def get_at(p: t.Any, path: t.Sequence[t.Any]) -> t.Any:
    for k in path:
        p = p[k]
    return p


def put_at(p: t.Any, path: t.Sequence[t.Any], v: t.Any) -> t.Any:
    """A copy of *p* (sharing what is unchanged) with *v* at *path*."""
    if not path:
        return v
    if isinstance(p, dict):
        return {k: (put_at(x, path[1:], v) if k == path[0] else x) for k, x in p.items()}
    return [put_at(x, path[1:], v) if i == path[0] else x for i, x in enumerate(p)]


def mutate_json(p: t.Any, rng: t.Any) -> t.Any:
    """One random structural or scalar change somewhere in the payload."""
    ps = paths(p)
    path = rng.choice(ps)
    v = get_at(p, path)
    ops = ["junk"]
    if isinstance(v, dict):
        ops += ["addkey", "addkey"] + (["delkey", "delkey", "renkey", "shuffle", "dupkey"] if v else [])
    elif isinstance(v, list):
        ops += ["append", "wrap"] + (["drop", "dup", "unwrap", "swap"] if v else [])
    elif isinstance(v, bool):
        ops += ["tostr", "toint", "not"]
    elif isinstance(v, (int, float)):
        ops += ["tostr", "tofloat", "toint", "inc", "wrap", "tobool"]
    elif isinstance(v, str):
        ops += ["chop", "chop", "case", "ext", "wrap", "toint", "space", "fore", "double"]
    else:
        ops += ["wrap"]
    op = rng.choice(ops)
    if op == "junk":
        n: t.Any = junk(rng, 2)
    elif op == "addkey":
        n = dict(v)
        items = list(n.items())
        items.insert(rng.randrange(len(items) + 1), (rng.choice(WORDS + ["zz", "extra", "$schema", "$id", "@type", "_comment", "//", "#", "__v", "x-extra"]), junk(rng, 1)))
        n = dict(items)
    elif op == "delkey":
        n = dict(v)
        del n[rng.choice(list(n))]
    elif op == "renkey":
        old = rng.choice(list(v))
        new = rng.choice([str(old) + "_", str(old).upper(), str(old)[:-1], rng.choice(WORDS)])
        n = {(new if k == old else k): x for k, x in v.items()}
    elif op == "dupkey":
        n = dict(v)
        n[rng.choice(WORDS)] = n[rng.choice(list(n))]
    elif op == "shuffle":
        items = list(v.items())
        rng.shuffle(items)
        n = dict(items)
    elif op == "append":
        n = v + [junk(rng, 1)]
    elif op == "wrap":
        n = [v]
    elif op == "drop":
        i = rng.randrange(len(v))
        n = v[:i] + v[i + 1 :]
    elif op == "dup":
        i = rng.randrange(len(v))
        n = v[: i + 1] + v[i:]
    elif op == "unwrap":
        n = v[0]
    elif op == "swap":
        n = list(v)
        rng.shuffle(n)
    elif op == "tostr":
        n = str(v)
    elif op == "toint":
        try:
            n = int(v)
        except Exception:
            n = 1
    elif op == "tofloat":
        try:
            n = float(v)
        except Exception:
            n = 1.0
    elif op == "tobool":
        n = bool(v)
    elif op == "inc":
        n = v + 1
    elif op == "not":
        n = not v
    elif op == "chop":
        if v:
            i = rng.randrange(len(v))
            n = v[:i] + v[i + 1 :]
        else:
            n = "x"
    elif op == "case":
        n = rng.choice([str.swapcase, str.upper, str.lower, str.title])(v)
    elif op == "ext":
        n = v + rng.choice(["x", "0", "=", "Z", "!"])
    elif op == "fore":
        n = rng.choice(["x", "0", "-", "+", ".", "E.", "/", "urn:uuid:", "\ufeff", "'", "_", "\n"]) + v
    elif op == "double":
        n = v + rng.choice(["", ",", " ", ".", "|"]) + v
    elif op == "space":
        n = " " + v
    else:
        raise AssertionError(op)
    return put_at(p, path, n)
