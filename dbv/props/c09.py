"""Extra keys on the levels of nested structures under placements of allowing and forbidding settings."""

import dataclasses
import typing as t

from databind.core import Alias, ExtraKeys, Priority, Settings
from databind.json import get_object_mapper, load

from dbv.common import *
from dbv.util import ctx_path

ID = "C09"
CASES = {"quick": 5000, "thorough": 200000}
RULE = "a tree of structures, a placement of settings and one of extra keys; non-trivial if some level has extra keys"
MINIMA = {"accepted with extra keys": 2500, "refused": 5000, "recorder calls": 2000, "nested below an allowing level": 500, "many extra keys on one level": 300, "extra keys that are no strings": 1000}

PRIOS = [Priority.NORMAL] * 4 + [Priority.LOW, Priority.HIGH, Priority.ULTIMATE]


KEYS = ["e1", "e2", "zz", "", "N", "\u00e9", "$schema", "$id", "_", "_x", "__x__", "__class__", "__comment__", "_comment", "__doc__", "__type__", "//comment", "description", "x-foo", "//", "#", "@type", "type", "comment", "n ", " n", "n.", "c", "c0 ", "C0", "0", "None", "self", "\n",
        "extra_keys", "x" * 300]


class Level:
    def __init__(self, case, depth, name):
        r = case.rng
        self.name = name
        self.cls_settings = case.settings(r.choice([0, 0, 0, 1, 1, 2]))
        self.children = []
        fields = [("n", int, dataclasses.field(default=0))]
        self.alias = r.random() < 0.3
        if self.alias:
            fields.append(("x", t.Annotated[int, Alias("ex", "ex2")], dataclasses.field(default=1)))
        if depth > 0:
            for i in range(r.choice([1, 1, 2])):
                child = Level(case, depth - 1, f"{name}_{i}")
                wrap = r.choice(["direct", "direct", "list", "dict", "opt", "tuple"])
                anns = case.settings(r.choice([0, 0, 1, 2]))
                inner_anns = case.settings(r.choice([0, 0, 1])) if wrap in ("list", "dict", "tuple") else []
                c = annotated(child.cls, inner_anns)
                h = {"direct": c, "list": t.List[c], "dict": t.Dict[str, c], "opt": t.Optional[c], "tuple": t.Tuple[c, int]}[wrap]
                fields.append((f"c{i}", annotated(h, anns), dataclasses.field(default=None)))
                # An annotation is seen by the annotated value itself (an optional type passes it on).
                self.children.append((f"c{i}", wrap, child, (anns if wrap in ("direct", "opt") else inner_anns)))
        self.kind = r.choice(["dc", "dc", "dc", "td", "nt"])
        if self.kind == "dc":
            self.cls = dataclasses.make_dataclass("L" + name, fields)
        elif self.kind == "td":
            self.cls = t.TypedDict("L" + name, {f[0]: f[1] for f in fields}, total=False)
            self.cls.__module__ = __name__
        else:
            self.alias = False
            fields = [f for f in fields if f[0] != "x"]
            self.cls = named(name, fields)
        for s in self.cls_settings:
            s(self.cls)


def named(name, fields):
    ns = {"__annotations__": {f[0]: f[1] for f in fields}, "__module__": __name__}
    ns.update({f[0]: f[2].default for f in fields})
    import types

    return types.new_class("L" + name, (t.NamedTuple,), {}, lambda d: d.update(ns))


def annotated(h, anns):
    return t.Annotated[(h, "doc", *anns)] if anns else h


def payload_for(case, level, path, anns, extras):
    """A valid payload with extra keys on some levels; collects (path, keys, level, annotation settings)."""
    r = case.rng
    p = {}
    if r.random() < 0.7:
        p["n"] = 5
    if level.alias and r.random() < 0.7:
        p["ex"] = 2
    for name, wrap, child, canns in level.children:
        if r.random() < 0.15:
            continue
        sub = lambda *steps: payload_for(case, child, path + (name,) + steps, canns, extras)
        if wrap in ("direct", "opt"):
            p[name] = sub()
        elif wrap == "list":
            p[name] = [sub(i) for i in range(r.randrange(1, 3))]
        elif wrap == "dict":
            p[name] = {k: sub(k) for k in r.sample(["k1", "k2"], r.randrange(1, 3))}
        else:
            p[name] = [sub(0), 1]
    if r.random() < 0.04:
        # Many of them.
        keys = {f"{r.choice('xyz')}{i}" for i in range(r.choice([6, 9, 17, 70]))}
        p.update({k: 1 for k in sorted(keys, key=lambda k: r.random())})
        extras.append((path, keys, level, anns, p))
        case.count("many extra keys on one level")
    elif r.random() < case.rate:
        own = (["ex2"] if "ex" in p else []) + (["x"] if level.alias else [])
        keys = {r.choice(KEYS)} if r.random() < 0.4 else set(r.sample(KEYS + own * 4, r.choice([1, 2, 3])))
        if r.random() < 0.1:
            # No payload from a JSON text has these, but one that is made in Python.
            keys = (keys if r.random() < 0.5 else set()) | {r.choice([3, None, (1, 2), 2.5, b"x", False])}
            case.count("extra keys that are no strings")
        items = list(p.items())
        for k in sorted(keys, key=repr):
            items.insert(r.randrange(len(items) + 1), (k, r.choice([1, None, {}, [1], "t"])))
        p = dict(items)
        extras.append((path, keys, level, anns, p))
    return p


def clean(p, level):
    """The payload without the extra keys."""
    out = {}
    for k, v in p.items():
        if k == "n" or k == "ex" and level.alias:
            out[k] = v
    for name, wrap, child, _ in level.children:
        if name in p:
            v = p[name]
            out[name] = (clean(v, child) if wrap in ("direct", "opt") else [clean(x, child) for x in v] if wrap == "list"
                         else {k: clean(x, child) for k, x in v.items()} if wrap == "dict" else [clean(v[0], child), v[1]])
    return out


def highest(candidates):
    best = None
    for s in candidates:
        if best is None or s.priority > best.priority:
            best = s
    return best


def run(case):
    r = case.rng
    log = []

    def settings(n):
        out = []
        for _ in range(n):
            rec = r.random() < 0.6
            s = ExtraKeys(r.random() < 0.65, None, r.choice(PRIOS))
            if rec:
                s.recorder = lambda ctx, keys, s=s: log.append((tuple(ctx_path(Dummy(ctx))), keys, s, ctx.value))
            out.append(s)
        return out

    case.settings = settings
    case.rate = r.choice([0.15, 0.4, 0.8])
    root = Level(case, r.choice([0, 1, 1, 2, 2]), "r")
    root_anns = settings(r.choice([0, 0, 0, 1]))
    T = annotated(root.cls, root_anns)
    for _ in range(6):
        call = settings(r.choice([0, 0, 1, 1, 2]))
        mapper = get_object_mapper()
        glob = settings(r.choice([0, 0, 0, 1]))
        for s in glob:
            mapper.settings.add_global(s)
        extras = []
        p = payload_for(case, root, (), root_anns, extras)
        log.clear()
        want = []
        allowed = True
        above = set()
        for path, keys, level, anns, sub in sorted(extras, key=lambda e: len(e[0])):
            mapper_level = highest(glob)
            cands = list(anns) + list(level.cls_settings) + list(call) + ([mapper_level] if mapper_level else [])
            s = highest(cands)
            if s is None or not s.allow:
                allowed = False
                if any(path[: len(q)] == q and q != path for q in above):
                    case.count("nested below an allowing level")
            else:
                above.add(path)
                if s.recorder is not None:
                    want.append((path, keys, s, sub))
        case.note(type=describe(root, root_anns), payload=p, call=show(call), mapper=show(glob))
        o = observe(mapper.deserialize, p, T, None, list(call) if call or r.random() < 0.5 else None)
        case.ev((case.index, canon(p), show(call), show(glob)), trivial=not extras, sample=lambda: {"type": describe(root, root_anns)[:200], "payload": short(p, 160), "outcome": repr(o)[:120]})
        if not allowed:
            case.count("refused")
            if not o.refused:
                case.bad("keys no field claims were accepted where the setting in force does not allow them", got=repr(o))
            continue
        if not o.ok:
            case.bad("extra keys were refused although the setting in force allows them" if extras else "a payload without extra keys was refused", got=repr(o))
        if extras:
            case.count("accepted with extra keys")
        base = load(clean(p, root), root.cls)
        if not deep_eq(o.value, base):
            case.bad("allowed extra keys changed the result", got=o.value, expected=base)
        case.count("recorder calls", len(log))
        a = sorted(((path, sorted(keys, key=repr), id(s)) for path, keys, s, _ in want), key=str)
        b = sorted(((path, sorted(keys, key=repr), id(s)) for path, keys, s, _ in log), key=str)
        if a != b:
            case.bad("the recorder was not called once per level with exactly the unclaimed keys", expected=[(x[0], sorted(x[1], key=repr)) for x in want], got=[(x[0], sorted(x[1], key=repr)) for x in log])
        for path, keys, s, value in log:
            if not any(deep_eq(value, sub) for q, _, _, sub in want if q == path):
                case.bad("the recorder did not get the context of the level", path=path, value=value)


class Dummy:
    def __init__(self, ctx):
        self.context = ctx


def show(settings):
    return ", ".join(f"ExtraKeys({s.allow}, {'recorder' if s.recorder else None}, {s.priority.name})" for s in settings) or "none"


def describe(level, anns):
    subs = "; ".join(f"{n} ({w}): {describe(c, a)}" for n, w, c, a in level.children)
    return f"{level.kind} L{level.name} [annotation: {show(anns)}; class: {show(level.cls_settings)}]" + (f" {{{subs}}}" if subs else "")
