"""Snapshots of object graphs: which containers there are, what they hold (by identity), and what changed since."""

import collections
import collections.abc
import dataclasses
import enum
import typing as t

MUTABLE = (list, dict, set, collections.deque, bytearray)


def parts(x: t.Any) -> t.Optional[t.List[t.Tuple[t.Any, t.Any]]]:
    """[(label, child)] of a container, None for a leaf."""
    if isinstance(x, enum.Enum) or isinstance(x, type):
        return None
    if isinstance(x, dict):
        out = []
        for i, (k, v) in enumerate(list(dict.items(x))):
            out.append((("key", i), k))
            out.append((("value", i), v))
        return out + (attrs(x) if type(x) is not dict else [])
    if isinstance(x, (list, tuple, collections.deque)):
        return list(enumerate(x)) + (attrs(x) if type(x) not in (list, tuple) else [])
    if isinstance(x, (set, frozenset)):
        # No order: by identity.
        return [("element", e) for e in sorted(x, key=id)]
    if isinstance(x, bytearray):
        return [("bytes", bytes(x))]
    if isinstance(x, collections.abc.Mapping):
        return [(("item", i), kv) for i, kv in enumerate(x.items())]
    if dataclasses.is_dataclass(x):
        return [(f.name, getattr(x, f.name, None)) for f in dataclasses.fields(x)] + attrs(x)
    return None


def attrs(x: t.Any) -> t.List[t.Tuple[t.Any, t.Any]]:
    return [((".", k), v) for k, v in sorted(getattr(x, "__dict__", {}).items())]


def walk(x: t.Any, seen: t.Optional[t.Dict[int, t.Any]] = None) -> t.Dict[int, t.Any]:
    """All containers reachable through containers, by id."""
    seen = {} if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if id(y) in seen:
            continue
        p = parts(y)
        if p is None:
            continue
        seen[id(y)] = y
        stack.extend(c for _, c in p)
    return seen


def frozen(x: t.Any) -> bool:
    return dataclasses.is_dataclass(x) and type(x).__dataclass_params__.frozen  # type: ignore


def mutables(x: t.Any) -> t.Dict[int, t.Any]:
    return {i: y for i, y in walk(x).items()
            if isinstance(y, MUTABLE) or isinstance(y, collections.abc.MutableMapping) or dataclasses.is_dataclass(y) and not frozen(y)}


class Snap:
    """What a graph of containers and leaves looks like now; diff() says what is different later."""

    def __init__(self, x: t.Any, label: str) -> None:
        self.label = label
        self.root = x
        self.rec = [(y, parts(y)) for y in walk(x).values()]

    def diff(self) -> t.Optional[str]:
        for y, before in self.rec:
            now = parts(y)
            assert before is not None and now is not None
            if len(now) != len(before) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(before, now)):
                return f"{self.label}: a {type(y).__name__} changed from {before!r} to {now!r}"[:1500]
        return None


class Attrs:
    """The attributes of an object (a class, a setting, a mapper): those there were must stay what they were.
    Private additions (caches) are none of our business."""

    def __init__(self, x: t.Any, label: str, deep: bool = True) -> None:
        self.x, self.label = x, label
        self.before = dict(vars(x)) if hasattr(x, "__dict__") else {}
        self.snaps = [Snap(v, f"{label}.{k}") for k, v in self.before.items() if deep and parts(v) is not None and not k.startswith("__dataclass_fields")]
        fs = self.before.get("__dataclass_fields__")
        if fs:
            self.snaps.append(Snap([fs, [[getattr(f, a, None) for a in ("name", "type", "default", "default_factory", "metadata", "init", "repr", "compare", "kw_only")] + [dict(f.metadata)] for f in fs.values()]][0], f"{label} fields"))
            self.fields = [(f, [getattr(f, a, None) for a in ("name", "type", "default", "default_factory", "init", "repr", "compare", "kw_only")], dict(f.metadata)) for f in fs.values()]
        else:
            self.fields = []

    def diff(self) -> t.Optional[str]:
        now = dict(vars(self.x)) if hasattr(self.x, "__dict__") else {}
        for k, v in self.before.items():
            if k not in now:
                return f"{self.label}: attribute {k} is gone"
            if now[k] is not v:
                return f"{self.label}: attribute {k} is not what it was"
        for k in now:
            if k not in self.before and not k.startswith("_"):
                return f"{self.label}: new attribute {k}"
        for s in self.snaps:
            d = s.diff()
            if d:
                return d
        for f, a, m in self.fields:
            b = [getattr(f, x, None) for x in ("name", "type", "default", "default_factory", "init", "repr", "compare", "kw_only")]
            if any(x is not y for x, y in zip(a, b)) or dict(f.metadata) != m:
                return f"{self.label}: field {f.name} changed"
        return None


JUNK = object()


def spoil(x: t.Any) -> int:
    """Change every mutable container reachable from *x*; how many there were."""
    n = 0
    for y in mutables(x).values():
        n += 1
        if isinstance(y, (list, collections.deque)):
            y.append("spoiled")
            if len(y) > 1:
                y[0] = "spoiled"
        elif isinstance(y, dict):
            for k in list(y):
                y[k] = "spoiled"
            y["spoiled"] = "spoiled"
        elif isinstance(y, set):
            y.clear()
            y.add("spoiled")
        elif isinstance(y, bytearray):
            y += b"spoiled"
        elif dataclasses.is_dataclass(y):
            for f in dataclasses.fields(y):
                try:
                    setattr(y, f.name, "spoiled")
                except Exception:
                    pass
    return n
