"""Aliases: every subset of the aliases of a field present in the payload."""

import dataclasses
import itertools
import typing as t

from databind.core import Alias, ExtraKeys, Flattened, Priority, Settings
from databind.json import get_object_mapper

from dbv.common import *

ID = "C10"
CASES = {"quick": 5000, "thorough": 200000}
RULE = "a structure with aliased fields and a subset of names present in the payload; non-trivial if a field has an alias"
MINIMA = {"accepted": 8000, "refused": 5000, "alias from another source": 3000, "flattened": 3000, "several aliases of one field present": 3000}

POOL = ["a", "b", "c", "d", "A", "a-b", "x.y", "type", "", " ", "\u00e9", "0", "f0", "f1", "f2", "g0", "b1", "b2", "b3", "b4", "b5", "b6"]


class FieldInfo:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind  # kind: int | str | opt
        self.ann = []  # Alias settings in the annotation
        self.ext = []  # Alias settings from a conditional provider, after the annotation
        self.default = False

    def alias(self):
        best = None
        for s in self.ann + self.ext:
            if best is None or s.priority > best.priority:
                best = s
        return list(best.aliases) if best else [self.name]


def run(case):
    r = case.rng
    names = ["f0", "f1", "f2"][: r.randrange(1, 4)]
    infos = []
    used = set()

    def fields(names):
        out = []
        for n in names:
            f = FieldInfo(n, r.choice(["int", "str", "opt"]))
            f.default = r.random() < 0.3
            taken = set(used)

            def draw():
                k = [x for x in POOL if x not in taken]
                if not k:
                    raise Skip("no names left")
                return r.sample(k, min(len(k), r.choice([1, 1, 2, 2, 3, 5])))

            if r.random() < 0.75:
                prio = r.choice([Priority.NORMAL, Priority.NORMAL, Priority.LOW, Priority.HIGH])
                f.ann = [Alias(*draw(), priority=prio)]
                if r.random() < 0.15:
                    f.ann.append(Alias(*draw(), priority=r.choice(list(Priority))))
            if r.random() < 0.3:
                f.ext = [Alias(*draw(), priority=r.choice(list(Priority)))]
            used.update(f.alias())
            out.append(f)
        return out

    main = fields(names)
    keys = [k for f in main for k in f.alias()]
    flat = []
    if r.random() < 0.35:
        flat = fields(["g0", "g1"][: r.randrange(1, 3)])
        keys += [k for f in flat for k in f.alias()]
    if len(set(keys)) != len(keys):
        # A name of one field that is also an alias of another one would make the payload ambiguous.
        raise Skip("colliding names")
    kind = r.choice(["dc", "dc", "td"]) if not flat else "dc"
    mapper = get_object_mapper()
    everyone = main + flat

    def hint(f):
        h = {"int": int, "str": str, "opt": t.Optional[int]}[f.kind]
        return t.Annotated[(h, "doc", *f.ann)] if f.ann or r.random() < 0.2 else h

    def default(f):
        return {"int": 41, "str": "dflt", "opt": 42}[f.kind]

    def build(name, fs, more=()):
        spec = [(f.name, hint(f), dataclasses.field(default=default(f)) if f.default else dataclasses.field()) for f in fs] + list(more)
        if kind == "td":
            for f in fs:
                f.default = False
            cls = t.TypedDict(name, {s[0]: s[1] for s in spec})
            cls.__module__ = __name__
            return cls
        return dataclasses.make_dataclass(name, spec, kw_only=True)

    more = []
    if flat:
        Inner = build("Inner", flat)
        more = [("inner", t.Annotated[Inner, Flattened()], dataclasses.field())]
        case.count("flattened", 3)
    Outer = build("Outer", main, more)
    for f in everyone:
        for s in f.ext:
            case.count("alias from another source", 2)
            if r.random() < 0.5:
                mapper.settings.add_conditional(lambda ctx, f=f: ctx.key == f.name, s)
            else:
                mapper.settings.add_provider(lambda ctx, f=f, s=s: [s] if ctx.key == f.name else [])
    extra = r.random() < 0.3
    T = t.Annotated[Outer, ExtraKeys()] if extra else Outer
    case.note(type=f"{kind} Outer: " + "; ".join(f"{f.name}: {f.kind} annotation {f.ann} elsewhere {f.ext} default {f.default}" for f in main)
              + (" | flattened: " + "; ".join(f"{f.name}: {f.kind} {f.ann} {f.ext} default {f.default}" for f in flat) if flat else ""), extra=extra)
    wrap = r.choice(["root", "list", "field"])
    TT = {"root": T, "list": t.List[T], "field": dataclasses.make_dataclass("W", [("w", T)])}[wrap]
    put = {"root": lambda x: x, "list": lambda x: [x], "field": lambda x: {"w": x}}[wrap]
    get = {"root": lambda x: x, "list": lambda x: x[0], "field": lambda x: x.w}[wrap]

    def val(f, i):
        return {"int": 10 + i, "str": f"s{i}", "opt": r.choice([None, 20 + i])}[f.kind]

    for _ in range(8):
        p = {}
        result = {}
        ok = True
        claimed = set()
        pool = []
        for f in everyone:
            present = [a for a in f.alias() if r.random() < (0.75 if len(f.alias()) == 1 else 0.5)]
            if not present and not f.default and f.kind != "opt" and r.random() < 0.7:
                present = [r.choice(f.alias())]
            if len(present) > 1 and not extra and r.random() < 0.7:
                present = [r.choice(present)]
            if len(present) > 1:
                case.count("several aliases of one field present")
            pool += [(a, val(f, i), f) for i, a in enumerate(present)]
        if r.random() < 0.2:
            # The bare name of an aliased field means nothing.
            f = r.choice(everyone)
            if f.name not in f.alias() and f.name not in keys:
                pool.append((f.name, val(f, 9), None))
        r.shuffle(pool)
        for a, v, _ in pool:
            p[a] = v
        for f in everyone:
            for a in f.alias():
                if a in p:
                    result[f.name] = p[a]
                    claimed.add(a)
                    break
            else:
                if f.default:
                    result[f.name] = default(f)
                elif f.kind == "opt":
                    result[f.name] = None
                else:
                    ok = False
        if set(p) - claimed and not extra:
            ok = False
        o = observe(mapper.deserialize, put(p), TT)
        case.note(payload=p)
        case.ev((case.index, canon(p), wrap), trivial=not any(f.ann or f.ext for f in everyone), sample=lambda: {"type": case.notes["type"][:200], "payload": short(p), "outcome": repr(o)[:120]})
        case.count("accepted" if ok else "refused")
        if not ok:
            if not o.refused:
                case.bad("a payload without a recognised name for a required field or with unclaimed names was accepted", got=repr(o))
            continue
        if not o.ok:
            case.bad("a payload with recognised names was refused", got=repr(o), expected=result)
        v = get(o.value)
        got = {f.name: (v[f.name] if kind == "td" else getattr(v, f.name)) for f in main}
        for f in flat:
            got[f.name] = getattr(v.inner, f.name)
        if not deep_eq(got, result):
            case.bad("a field was read from the wrong name", got=got, expected=result)
        d = observe(mapper.serialize, o.value, TT)
        if not d.ok:
            case.bad("the object could not be serialized", got=repr(d))
        w = d.value if wrap == "root" else d.value[0] if wrap == "list" else d.value["w"]
        want = {f.alias()[0]: result[f.name] for f in everyone}
        if not deep_eq(w, want):
            case.bad("the fields were not written under exactly their first aliases", got=w, expected=want)
