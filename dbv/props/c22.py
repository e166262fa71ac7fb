"""Snapshots of everything a conversion is given, before and after; and of what results share with anything else."""

import collections
import copy
import dataclasses
import typing as t

from databind.core import Alias, Converter, DateFormat, ExtraKeys, Priority, Remainder, SerializeDefaults, Strict, Union
from databind.json import get_object_mapper
from databind.json.settings import JsonConverter
from typeapi import ClassTypeHint

from dbv.common import *
from dbv.snap import Attrs, Snap, mutables, parts, spoil, walk

ID = "C22"
CASES = {"quick": 3000, "thorough": 200000}
RULE = "one conversion with snapshots of its inputs before and after, or a pair of conversions whose results are searched for shared containers; trivial if no mutable container was involved"
MINIMA = {"conversions watched": 15000, "successful": 8000, "failed": 3000, "containers in results": 15000, "results spoiled": 3500, "classes watched": 2500, "declared mutable defaults": 300, "without unrestricted types": 1500, "owned mappings": 120, "owned mappings kept by a flat union": 50, "kept keys": 80}

PLAIN = gen.Profile(leaves=[x for x in gen.LEAVES if x not in ("any", "object")])
PLAIN_FULL = gen.Profile(leaves=[x for x in gen.LEAVES if x not in ("any", "object")], comps=[c for c in gen.COMPS if c in ("dc", "td", "nt", "gen", "tagged", "rec", "opt", "list", "map", "set", "usercoll", "usermap")])


def classes(u):
    return [(k, v) for k, v in u.b.ns.items() if isinstance(v, type) and v.__module__ == u.b.ns.get("__name__")]


def setting_snaps(xs):
    out = [Snap(xs, "the list of settings")]
    out += [Attrs(s, f"the setting {type(s).__name__}") for s in xs]
    return out


def mapper_snaps(m):
    out = []

    def module(x):
        out.append(Snap(x.converters, f"the converters of {x.name}"))
        for c in x.converters:
            if hasattr(c, "converters"):
                module(c)

    module(m.module)
    s = m.settings
    out.append(Snap([s.global_settings], "the mapper's global settings"))
    out.append(Snap(s.local_settings, "the mapper's per-type settings"))
    out.append(Snap(s.providers, "the mapper's providers"))
    for x in s.global_settings:
        out.append(Attrs(x, f"the mapper's setting {type(x).__name__}"))
    return out


DEFAULTS = [(t.List[int], [1, 2]), (t.Dict[str, t.List[int]], {"a": [1]}), (t.Set[int], {1}), (t.Deque[int], collections.deque([1])), (t.List[t.List[int]], [[]]), (t.Any, {"a": [{}]}), (t.List[t.Any], [[{}]])]


def mutable_defaults(case):
    """Defaults that are containers, as far as Python lets one declare them without a factory."""
    r = case.rng
    chosen = r.sample(DEFAULTS, r.randrange(1, 4))
    names = r.sample(["a", "b", "c", "items"], len(chosen))
    kind = r.choice(["td", "factory"])
    made = [(n, h, copy.deepcopy(d)) for n, (h, d) in zip(names, chosen)]
    if kind == "td":
        T = t.TypedDict("TD", {n: h for n, h, _ in made})
        T.__module__ = __name__
        for n, _, d in made:
            setattr(T, n, d)
        get = lambda x, n: x[n]
    else:
        T = dataclasses.make_dataclass("DC", [(n, h, dataclasses.field(default_factory=lambda d=d: copy.deepcopy(d))) for n, h, d in made])
        get = getattr
    mapper = get_object_mapper()
    case.note(kind=kind, defaults={n: d for n, _, d in made})
    wrap = r.choice([lambda x: (x, T), lambda x: ([x, x], t.List[T]), lambda x: ({"k": x}, t.Dict[str, T])])
    for _ in range(3):
        given = {n: [] for n, h, d in made if r.random() < 0.2 and isinstance(d, list)}
        p, hint = wrap(given)
        a, b = mapper.deserialize(p, hint), mapper.deserialize(p, hint)
        case.count("declared mutable defaults")
        case.ev((case.index, kind, tuple(names), str(hint)), sample=lambda: {"kind": kind, "defaults": {n: d for n, _, d in made}})
        for which in (a, b):
            one = which if hint is T else list(which.values())[0] if isinstance(which, dict) else which[0]
            for n, _, d in made:
                v = get(one, n)
                if n not in given and not deep_eq(v, d):
                    case.bad("an absent field did not get its default", field=n, got=v, default=d)
        ma, mb = mutables(a), mutables(b)
        for i in ma:
            if i in mb:
                case.bad("the results of two deserializations share a mutable default", shared=ma[i])
        inner = {i for _, _, d in made for i in mutables(d)}
        for i in ma:
            if i in inner:
                case.bad("a result shares a mutable container with a default of its class", shared=ma[i])
        if isinstance(a, list) and a[0] is not a[1]:
            common = set(mutables(a[0])) & set(mutables(a[1]))
            if common:
                case.bad("two elements of one result share a mutable default", shared=[ma[i] for i in common])
        spoil(a)
        if not deep_eq([d for _, _, d in made], [dict((x, y) for x, y in zip(names, [c[1] for c in chosen]))[n] for n, _, _ in made]):
            case.bad("changing a result changed a default of its class", defaults=[d for _, _, d in made])


class Owner:
    """Keeps its serialized form itself."""

    def __init__(self, own):
        self.own = own

    def to_json(self):
        return self.own

    @classmethod
    def of(cls, x):
        return cls(x)


class Lender(Owner):
    pass


class OwnerConverter(Converter):
    def convert(self, ctx):
        if not isinstance(ctx.datatype, ClassTypeHint) or not issubclass(ctx.datatype.type, Owner):
            raise NotImplementedError
        return ctx.value.own if ctx.direction.is_serialize() else ctx.datatype.type(ctx.value)


class Odd(dict):
    pass


def owned_forms(case):
    """Values whose own converter hands out a mapping that is theirs."""
    r = case.rng
    style = r.choice(["flat", "flat", "nested", "keyed"])
    how = r.choice(["methods", "converter", "module"])
    members = {n: type(n.title(), (r.choice([Owner, Lender]),), {"__module__": __name__}) for n in r.sample(["a", "b", "cc"], r.randrange(2, 4))}
    if how == "methods":
        for c in members.values():
            JsonConverter.using_classmethods(serialize="to_json", deserialize="of")(c)
    elif how == "converter":
        for c in members.values():
            JsonConverter(OwnerConverter)(c)
    key = r.choice(["type", "kind", "k"])
    U = t.Annotated[t.Union[tuple(members.values())], Union(dict(members), style=style, discriminator_key=key)]
    mapper = get_object_mapper()
    if how == "module":
        mapper.module.register(OwnerConverter(), first=True)
    kind = r.choice([dict, dict, Odd, collections.OrderedDict, lambda x: collections.defaultdict(list, x)])

    def own():
        return kind({k: r.choice([[1], {"x": []}, 3, "s"]) for k in r.sample(["v", "w", "x", "y"], r.randrange(0, 4))})

    vs = [(n, members[n](own())) for n in r.choices(list(members), k=3)]
    plain = [dict(copy.deepcopy(v.own)) for _, v in vs]

    def form(n, x):
        return {key: n, **x} if style == "flat" else {key: n, n: x} if style == "nested" else {n: x}

    shape = r.choice(["one", "list", "dict", "twice"])
    T, v, want = {"one": (U, vs[0][1], form(vs[0][0], plain[0])),
                  "list": (t.List[U], [x for _, x in vs], [form(n, x) for (n, _), x in zip(vs, plain)]),
                  "dict": (t.Dict[str, U], {str(i): x for i, (_, x) in enumerate(vs)}, {str(i): form(n, x) for i, ((n, _), x) in enumerate(zip(vs, plain))}),
                  "twice": (t.List[U], [vs[0][1]] * 2, [form(vs[0][0], plain[0])] * 2)}[shape]
    case.note(style=style, how=how, shape=shape, forms=plain)
    for _ in range(2):
        before = Snap([x.own for _, x in vs], "the mapping of a value")
        o = observe(mapper.serialize, v, T)
        case.count("owned mappings")
        case.ev((case.index, style, how, shape, key), sample=lambda: {"style": style, "converter": how, "forms": plain, "outcome": repr(o)[:150]})
        if not o.ok or plainly(o.value) != want:
            case.bad("a union member with its own converter is not serialized to its form", got=repr(o), expected=want)
        if before.diff():
            case.bad("a serialization modified a mapping that belongs to the value", change=before.diff())
        case.count("owned mappings kept by a flat union", style == "flat")
    # And back, from a payload whose parts the values keep.
    wire = copy.deepcopy(want)
    before = Snap(wire, "the payload")
    o = observe(mapper.deserialize, wire, T)
    if not o.ok:
        case.bad("a union member with its own converter is not deserialized", got=repr(o))
    if before.diff():
        case.bad("a deserialization modified its payload", change=before.diff())
    got = o.value if isinstance(o.value, list) else list(o.value.values()) if isinstance(o.value, dict) else [o.value]
    if [dict(x.own) for x in got] != {"one": plain[:1], "twice": [plain[0]] * 2}.get(shape, plain):
        case.bad("a union member is not deserialized from its form", got=[x.own for x in got], expected=plain)


def kept_keys(case):
    """The keys a structure keeps without converting them: a mapping of its own, whatever it holds."""
    r = case.rng
    hint = r.choice([t.Any, object, t.Dict[str, t.Any], t.MutableMapping[str, t.Any], t.Dict[str, t.List[int]]])
    names = r.sample(["a", "b"], r.randrange(0, 3))
    fields = [(n, int, dataclasses.field(default=0)) for n in names] + [("rest", t.Annotated[hint, Remainder()], dataclasses.field(default_factory=dict))]
    r.shuffle(fields)
    S = dataclasses.make_dataclass("S", fields)
    T, wrap, first = r.choice([(S, lambda p: p, lambda v: v), (t.List[S], lambda p: [p], lambda v: v[0]), (t.Dict[str, S], lambda p: {"k": p}, lambda v: v["k"]),
                               (t.Optional[S], lambda p: p, lambda v: v), (t.Union[S, int], lambda p: p, lambda v: v)])
    mapper = get_object_mapper()
    for _ in range(3):
        own = {n: r.randrange(9) for n in names if r.random() < 0.4}
        rest = {k: [r.randrange(9)] for k in r.sample(["x", "y", "z"], r.randrange(0, 4))}
        p = {**own, **rest}
        keys = list(p)
        r.shuffle(keys)
        p = {k: p[k] for k in keys}
        wire = wrap(p)
        keep = copy.deepcopy(wire)
        case.note(remainder=str(hint), fields=[f[0] for f in fields], payload=keep)
        case.count("kept keys")
        o, again = observe(mapper.deserialize, wire, T), observe(mapper.deserialize, wire, T)
        case.ev((case.index, str(hint), str(T), canon(keep)), sample=lambda: {"remainder": str(hint), "payload": keep, "outcome": repr(o)[:150]})
        if not o.ok or not again.ok or plainly(dict(first(o.value).rest)) != rest:
            case.bad("a structure does not keep the remaining keys", got=repr(o), expected=rest)
        if first(o.value).rest is p or first(o.value).rest is first(again.value).rest:
            case.bad("the mapping of remaining keys is the payload itself, or that of another result")
        first(o.value).rest["new"] = 1
        if wire != keep or dict(first(again.value).rest) != rest:
            case.bad("changing the remaining keys of a result changed the payload or another result", payload=wire, other=first(again.value).rest)
        # And the other way round.
        v = first(again.value)
        kept = copy.deepcopy(v.rest)
        out = observe(mapper.serialize, v, S)
        if not out.ok or out.value != {**{n: getattr(v, n) for n in names}, **rest}:
            case.bad("a structure with remaining keys is not serialized to them", got=repr(out), expected=rest)
        out.value["new"] = 1
        if v.rest != kept:
            case.bad("changing the serialized form changed the value", now=v.rest, before=kept)


def plainly(x):
    return {k: plainly(v) for k, v in x.items()} if isinstance(x, dict) else [plainly(y) for y in x] if isinstance(x, list) else x


def run(case):
    r = case.rng
    if r.random() < 0.2:
        return r.choice([owned_forms, owned_forms, kept_keys, mutable_defaults, mutable_defaults])(case)
    profile = r.choice([None, PLAIN, PLAIN, PLAIN_FULL])
    u, (n,), (T,) = gen.make(case, profile)
    pure = profile is not None and not ("t.Any" in case.notes["module"] + n.expr or "object" in case.notes["module"] + n.expr)
    if pure:
        case.count("without unrestricted types")
    mapper = get_object_mapper()
    recorded = []
    env = M.Env(r.choice(gen.GLOBS))
    for s in r.sample([DateFormat("%Y", ".ISO_8601"), Alias("q"), ExtraKeys(True, recorder=lambda c, k: recorded.append(k), priority=Priority.LOW)], r.randrange(2)):
        if isinstance(s, DateFormat):
            continue
        mapper.settings.add_global(s)
    given = M.settings_for(env.glob)
    if r.random() < 0.3:
        given.append(ExtraKeys(True, recorder=lambda c, k: recorded.append(k)))
    kw = {"settings": given} if given or r.random() < 0.3 else {}
    cls = [Attrs(c, f"the class {k}") for k, c in classes(u) if "Union" not in str(vars(c).get("__databind_settings__", ""))]
    case.count("classes watched", len(cls))
    fixed = cls + setting_snaps(given) + mapper_snaps(mapper)
    # (What a union remembers of lazily given members is its own business.)
    metas = [Snap(m, "metadata of the annotation") if type(m) in (list, dict, tuple, set) else Attrs(m, "metadata of the annotation", deep=False) for m in getattr(T, "__metadata__", ())]
    fixed += metas
    default_ids = set()
    for _, c in classes(u):
        for f in (vars(c).get("__dataclass_fields__") or {}).values():
            for y in mutables(f.default).values():
                default_ids.add(id(y))
    case.note(type=n.expr, settings=env.glob)

    def watched(fn, x, what):
        """One conversion with all inputs watched."""
        before = Snap(x, f"the {what}")
        o = observe(fn, x, T, None, **kw)
        m = mutables(x)
        case.count("conversions watched")
        case.count("successful" if o.ok else "failed")
        case.note(input=x, conversion=what, outcome=repr(o))
        case.ev((case.index, n.expr, canon(x), what), trivial=not m, sample=lambda: {"type": n.expr, "input": short(x, 150), "containers watched": len(before.rec), "outcome": repr(o)[:120]})
        d = before.diff()
        for s in fixed:
            d = d or s.diff()
        if d:
            case.bad("a conversion modified what it was given", change=d)
        return o

    def apart(a, b, what):
        ma, mb = mutables(a), mutables(b)
        case.count("containers in results", len(ma))
        for i in ma:
            if i in mb and not isinstance(ma[i], type):
                case.bad(f"{what} share a mutable container", shared=ma[i])
        for i in ma:
            if i in default_ids:
                case.bad("a result shares a mutable container with a default of its class", shared=ma[i])

    for _ in range(3):
        # Deserialization
        kind, p = payload(case, n, env, kinds=("valid", "valid", "valid", "mutated", "mutated", "junk"))
        p2, p3, p4 = copy.deepcopy(p), copy.deepcopy(p), copy.deepcopy(p)
        a = watched(mapper.deserialize, p, "payload")
        b = watched(mapper.deserialize, p2, "payload")
        if a.kind != b.kind:
            case.bad("the same conversion has another outcome the second time", first=repr(a), second=repr(b))
        if a.ok:
            apart(a.value, b.value, "the results of two deserializations")
            if pure:
                apart(a.value, p, "a payload and what was deserialized from it")
            kept, wired = canon(b.value), canon(p2)
            keep_p = canon(p)
            if spoil(a.value):
                case.count("results spoiled")
            if canon(b.value) != kept:
                case.bad("changing the result of one deserialization changed that of another", now=b.value, before=kept)
            if pure and canon(p) != keep_p:
                case.bad("changing a result changed the payload it came from", now=p, before=keep_p)
            c = watched(mapper.deserialize, p3, "payload")
            if not c.ok or canon(c.value) != kept:
                case.bad("changing the result of one deserialization changed the next one's", got=repr(c), expected=kept)
            for s in fixed:
                if s.diff():
                    case.bad("changing a result changed a class, a setting or the mapper", change=s.diff())
        # Serialization
        v = n.gen(r, env)
        if r.random() < 0.3:
            v2 = sabotaged(case, n, v, env)
            watched(mapper.serialize, v2, "value")
            continue
        if expect(n.enc, v, env)[0] != "ok":
            continue
        x = watched(mapper.serialize, v, "value")
        y = watched(mapper.serialize, v, "value")
        if x.ok and y.ok and pure:
            apart(x.value, y.value, "the results of two serializations of one value")
            apart(x.value, v, "a value and its serialized form")
            kept, val = canon(y.value), canon(v)
            if spoil(x.value):
                case.count("results spoiled")
            if canon(v) != val:
                case.bad("changing the serialized form changed the value", now=v, before=val)
            z = watched(mapper.serialize, v, "value")
            if canon(y.value) != kept or not z.ok or canon(z.value) != kept:
                case.bad("changing one serialized form changed another", other=y.value, next=repr(z), before=kept)


def sabotaged(case, n, v, env):
    from dbv import walk as W

    ps = [p for p in W.value_places(n, v, env) if p.set is not None]
    if not ps:
        return case.rng.choice([object(), 5, "x", [1], {"a": [1]}])
    p = case.rng.choice(ps)
    try:
        p.set(case.rng.choice([object(), b"x", [1], {"q": {}}]))
    except Exception:
        pass
    return v
