"""Mappers put together by hand from the library's converters: what their options say, and nothing else, changes."""

import collections
import dataclasses
import pathlib
import types
import uuid

from databind.core import Module, ObjectMapper, SerializeDefaults, Strict
from databind.core.schema import Schema, convert_to_schema
from databind.json import converters as conv
from databind.json import dump, get_object_mapper, load
from databind.json.module import JsonConverterSupport
from nr.date import duration
from typeapi import TypeHint

from dbv import gen, walk
from dbv.common import *
from dbv.foreign import foreign
from dbv.util import ctx_path

ID = "C37"
CASES = {"quick": 4000, "thorough": 120000}
RULE = "one conversion by a mapper put together by hand next to the same by the default one; non-trivial if there is a container or a class in it"
MINIMA = {"dumped alike": 5000, "refused alike": 500, "read back alike": 3000, "sequences of the kind asked for": 2500, "mappings of the kind asked for": 700, "objects of the kind asked for": 1700, "defaults left out by option": 900,
          "schemas of other classes": 300, "other schemas: dumped": 500, "other schemas: loaded": 400, "other schemas: refused": 60, "strictness by option: accepted": 300, "strictness by option: refused": 300, "an explicit setting beats the option": 200, "strict in one of two": 20}


class XList(list):
    pass


class XTuple(tuple):
    pass


class XDeque(collections.deque):
    pass


class XUser(collections.UserList):
    pass


class YDict(dict):
    pass


class YOrdered(collections.OrderedDict):
    pass


class YUser(collections.UserDict):
    pass


class ZDict(dict):
    pass


class ZOrdered(collections.OrderedDict):
    pass


class ZUser(collections.UserDict):
    pass


SEQ, MAP, OBJ = [XList, XTuple, XDeque, XUser], [YDict, YOrdered, YUser], [ZDict, ZOrdered, ZUser]
OWN = (*SEQ, *MAP, *OBJ)


def mapper_of(r, coll, mapping, schema):
    """The converters of the library in the library's order."""
    m = Module("by hand")
    for c in (conv.AnyConverter(), coll, conv.DatetimeConverter(), conv.DecimalConverter(), conv.EnumConverter(), mapping, conv.OptionalConverter(),
              conv.PlainDatatypeConverter(), conv.UnionConverter(), schema):
        m.register(c)
    m.register(conv.StringifyConverter(uuid.UUID), first=True)
    m.register(conv.StringifyConverter(pathlib.PurePath), first=True)
    m.register(conv.StringifyConverter(pathlib.Path), first=True)
    m.register(conv.StringifyConverter(duration, duration.parse), first=True)
    m.register(conv.LiteralConverter())
    m.register(JsonConverterSupport(), first=True)
    mapper = ObjectMapper()
    if r.random() < 0.5:
        mapper.module.register(m)
    else:
        mapper.module = m
    return mapper


def plain(x):
    if isinstance(x, (dict, types.MappingProxyType, YUser, ZUser)):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, collections.deque, XUser)):
        return [plain(v) for v in x]
    return x


def at(x, where):
    for k in where:
        x = x[k]
    return x


def holds_own(x, d=0):
    if d > 40:
        return True
    if isinstance(x, OWN):
        return True
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return any(holds_own(y, d + 1) for y in x)
    if isinstance(x, collections.abc.Mapping):
        return any(holds_own(y, d + 1) for y in x.values())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return any(holds_own(getattr(x, f.name, None), d + 1) for f in dataclasses.fields(x))
    return False


def containers(case):
    r = case.rng
    u, (n,), (T,) = gen.make(case, gen.Profile(disjoint=r.random() < 0.5, comps=gen.COMPS + ["list", "map", "opt"] + (["union"] if r.random() < 0.5 else [])))
    src = u.b.source() + n.expr
    nt = "NamedTuple" in src
    X = r.choice([list, tuple, collections.deque, *SEQ, *SEQ])
    Y = r.choice([dict, collections.OrderedDict, *MAP, *MAP] + ([] if "Union(" in src else [types.MappingProxyType]))
    Z = r.choice([dict, collections.OrderedDict, *OBJ, *OBJ])
    sd = None if r.random() < 0.5 else r.random() < 0.3
    case.note(sequences=X.__name__, mappings=Y.__name__, objects=Z.__name__, serialize_defaults=sd)
    coll = r.choice([lambda: conv.CollectionConverter(X), lambda: conv.CollectionConverter(json_collection_type=X)])()
    mapping = r.choice([lambda: conv.MappingConverter(Y), lambda: conv.MappingConverter(json_mapping_type=Y)])()
    kw = {} if sd is None else {"serialize_defaults": sd}
    schema = r.choice([lambda: conv.SchemaConverter(Z, **kw), lambda: conv.SchemaConverter(json_mapping_type=Z, **kw)])()
    mapper = mapper_of(r, coll, mapping, schema)
    for _ in range(4):
        env = M.Env(r.choice(gen.GLOBS))
        ref = opts(env)
        if sd is False and "serdef" not in env.glob:
            ref = {"settings": [*(ref.get("settings") or []), SerializeDefaults(False)]}
            env = M.Env({**env.glob, "serdef": False})
            mine = {"settings": [s for s in ref["settings"] if not isinstance(s, SerializeDefaults)]}
        else:
            mine = ref
        left_out = mine is not ref
        if left_out and nt:
            case.count("skipped: the option does not reach named tuples")
            continue
        try:
            with M.Sabotage(r.choice([2, 4, 99, 99, 99, 99]), lambda node: foreign(r)):
                v = n.gen(r, env)
        except Exception:
            case.count("skipped: value cannot be built")
            continue
        case.note(value=v, settings=env.glob)
        a = observe(dump, v, T, **ref)
        b = observe(mapper.serialize, v, T, **mine)
        case.ev((src, canon(v), X.__name__, Y.__name__, Z.__name__, sd), trivial=not isinstance(a.value, (list, dict)) if a.ok else False,
                sample=lambda: {"type": n.expr[:150], "default": short(a.value, 100) if a.ok else repr(a)[:100], "by hand": repr(b)[:100]})
        if a.ok != b.ok or a.refused != b.refused:
            case.bad("a mapper put together from the library's converters does otherwise than the default one", default=repr(a), by_hand=repr(b))
        if not a.ok:
            case.count("refused alike")
            if a.refused and canon(ctx_path(a.exc)) != canon(ctx_path(b.exc)):
                case.bad("the place of the error depends on the containers that are written", default=f"{ctx_path(a.exc)} {a!r}", by_hand=f"{ctx_path(b.exc)} {b!r}")
            continue
        w, w2 = a.value, b.value
        if not deep_eq(plain(w), plain(w2), ordered=True):
            case.bad("more than the containers differs from what the default mapper writes", default=short(w, 800), by_hand=short(w2, 800))
        case.count("dumped alike")
        if left_out:
            case.count("defaults left out by option")
        seen = set()
        try:
            places = list(walk.decode_places(n, w, env))
        except Exception:
            case.count("wire not walked")
            places = []
        for p in places:
            if isinstance(p.node, (M.Coll, M.UserColl, M.Tup)):
                kind, what = X, "sequences"
            elif isinstance(p.node, M.Map):
                kind, what = Y, "mappings"
            elif isinstance(p.node, M.Struct):
                kind, what = (dict if p.node.kind == "nt" else Z), "objects"
            else:
                continue
            if p.where in seen:
                continue
            seen.add(p.where)
            got = at(w2, p.where)
            if type(got) is not kind:
                case.bad(f"{what} are not written into the kind of container the converter was set up with", at=p.where, got=type(got).__name__, expected=kind.__name__, wire=short(w2, 800))
            if kind not in (dict, list):
                case.count(f"{what} of the kind asked for")
        if not any(k in (tuple, collections.deque, collections.OrderedDict) for k in (X, Y, Z)) and r.random() < 0.7:
            lenv = M.Env({k: x for k, x in env.glob.items()})
            c = observe(load, w, T, **opts(lenv))
            d = observe(r.choice([mapper.deserialize, load]), w2, T, **opts(lenv))
            if c.ok != d.ok or c.refused != d.refused:
                case.bad("what was written in other containers is not read like what the default mapper writes", default=repr(c), by_hand=repr(d))
            if c.ok:
                if holds_own(d.value):
                    case.count("parts taken over as they are")
                elif canon(c.value) != canon(d.value) and not deep_eq(c.value, d.value):
                    case.bad("what was written in other containers is read as something else", default=short(c.value, 800), by_hand=short(d.value, 800))
                else:
                    case.count("read back alike")


def schemas(case):
    """A class that is no dataclass, with a schema given for it."""
    r = case.rng
    u = gen.Universe(r, gen.Profile(disjoint=True, extra=False, metas=r.random() < 0.3))
    case.cleanup.append(u.b.close)
    n = u.struct(r.choice([1, 2]))
    case.note(module=u.b.source(), types=n.expr)
    if getattr(n, "kind", None) not in ("dc", "xdc") or n.params:
        raise Skip("not a plain dataclass")
    (DC,) = u.build(n)
    names = [f.name for f in dataclasses.fields(DC)]
    log = []

    class Plain:
        """Known by its schema only."""

        def __init__(self, **kw):
            log.append(kw)
            object.__setattr__(self, "own", DC(**kw))

        def __getattr__(self, k):
            if k == "own" or k not in names:
                raise AttributeError(k)
            return getattr(self.own, k)

    class Sub(Plain):
        pass

    by_function = r.random() < 0.5

    def made(**kw):
        x = cls(**kw)
        by.append(x)
        return x

    by = []

    def of(hint):
        cls = getattr(hint, "type", None)
        if cls in (Plain, Sub):
            s = convert_to_schema(TypeHint(DC))
            return Schema(fields=s.fields, constructor=made if by_function else cls, type=cls, annotations=s.annotations)
        return convert_to_schema(hint)

    mapper = mapper_of(r, conv.CollectionConverter(), conv.MappingConverter(), conv.SchemaConverter(convert_to_schema=of))
    cls = r.choice([Plain, Plain, Sub])
    for _ in range(5):
        env = M.Env(r.choice(gen.GLOBS))
        wrap, X, R = r.choice([(lambda x: x, cls, DC), (lambda x: [x], t.List[cls], t.List[DC]), (lambda x: {"k": x}, t.Dict[str, cls], t.Dict[str, DC]), (lambda x: x, t.Optional[cls], t.Optional[DC]),
                               (lambda x: (x, 1), t.Tuple[cls, int], t.Tuple[DC, int])])
        case.count("schemas of other classes")
        if r.random() < 0.5:
            try:
                with M.Sabotage(r.choice([2, 4, 99, 99]), lambda node: foreign(r)):
                    v = n.gen(r, env)
            except Exception:
                case.count("skipped: value cannot be built")
                continue
            if type(v) is not DC:
                continue
            p = cls.__new__(cls)
            object.__setattr__(p, "own", v)
            case.note(value=v, settings=env.glob)
            a, b = observe(dump, wrap(v), R, **opts(env)), observe(mapper.serialize, wrap(p), X, **opts(env))
            case.ev((case.notes["module"], "dump", canon(v), str(R)), sample=lambda: {"type": str(R)[:100], "as a dataclass": repr(a)[:100], "by schema": repr(b)[:100]})
            if a.ok != b.ok or a.refused != b.refused or a.ok and not deep_eq(a.value, b.value, ordered=True):
                case.bad("a class with the schema of a dataclass is not written like it", dataclass=repr(a), by_schema=repr(b))
            case.count("other schemas: " + ("dumped" if a.ok else "refused"))
            o = observe(mapper.serialize, wrap(v), X, **opts(env))
            if not o.refused:
                case.bad("an object of another class than the schema's was written", got=repr(o))
        else:
            try:
                kind, p = payload(case, n, env, ["valid", "valid", "mutated", "junk"])
            except Skip:
                raise
            except Exception:
                case.count("skipped: payload cannot be built")
                continue
            case.note(payload=p, settings=env.glob)
            log.clear()
            a, b = observe(load, wrap(p), R, **opts(env)), observe(mapper.deserialize, wrap(p), X, **opts(env))
            case.ev((case.notes["module"], "load", canon(p), str(R)), sample=lambda: {"type": str(R)[:100], "as a dataclass": repr(a)[:100], "by schema": repr(b)[:100]})
            if a.ok != b.ok or a.refused != b.refused:
                case.bad("a class with the schema of a dataclass is not read like it", dataclass=repr(a), by_schema=repr(b))
            if not a.ok:
                case.count("other schemas: refused")
                continue
            case.count("other schemas: loaded")
            x, y = [q["k"] if isinstance(q, dict) else q[0] if isinstance(q, (list, tuple)) else q for q in (a.value, b.value)]
            if x is None and y is None:
                continue
            if type(y) is not cls or len(log) != 1:
                case.bad("the constructor of the schema was not called exactly once", got=repr(b), calls=len(log))
            if by_function and not any(q is y for q in by):
                case.bad("the object was not made by the constructor of the schema", got=repr(b))
            if not deep_eq(x, y.own) and canon(x) != canon(y.own):
                case.bad("a class with the schema of a dataclass is read as something else", dataclass=short(x, 600), by_schema=short(y.own, 600))


def loosely(x, r):
    """The same with some of the scalars written as texts, or texts of numbers as numbers."""
    if isinstance(x, dict):
        return {k: loosely(v, r) for k, v in x.items()}
    if isinstance(x, list):
        return [loosely(v, r) for v in x]
    if r.random() < 0.5:
        if isinstance(x, (bool, int, float)):
            return r.choice([str(x), str(x), str(x).lower(), x])
        if isinstance(x, str):
            try:
                return float(x) if r.random() < 0.5 else int(x)
            except (ValueError, OverflowError):
                return x
    return x


def strictness(case):
    r = case.rng
    leaves = ["int", "float", "str", "bool", "bytes", "decimal", "decimal", "date"]
    u, (n,), (T,) = gen.make(case, gen.Profile(leaves=leaves, disjoint=r.random() < 0.5, comps=["opt", "list", "map", "dc", "tuple", "td"] + (["union"] if r.random() < 0.3 else [])), depth=r.choice([0, 1, 1, 2]))
    src = u.b.source() + n.expr
    p0, d0 = r.random() < 0.3, r.random() < 0.3
    alone = isinstance(walk.core(n, M.Env({}))[0], M.DecimalN)
    only = p0 == d0 or "Decimal" not in src
    m = Module("by hand")
    m.register(r.choice([lambda: conv.PlainDatatypeConverter(p0), lambda: conv.PlainDatatypeConverter(strict_by_default=p0)])())
    m.register(r.choice([lambda: conv.DecimalConverter(d0), lambda: conv.DecimalConverter(strict_by_default=d0)])())
    mapper = get_object_mapper()
    mapper.module.register(m, first=True)
    case.note(plain_strict=p0, decimal_strict=d0)
    for _ in range(4):
        env = M.Env(r.choice(gen.GLOBS))
        try:
            kind, p = payload(case, n, env, ["valid", "valid", "mutated"])
        except Skip:
            raise
        except Exception:
            case.count("skipped: payload cannot be built")
            continue
        p = loosely(p, r)
        case.note(payload=p, settings=env.glob)
        o = observe(mapper.deserialize, p, T, **opts(env))
        if "strict" in env.glob:
            wants = [observe(load, p, T, **opts(env))]
            case.count("an explicit setting beats the option")
        else:
            s = list(opts(env).get("settings") or [])
            wants = [observe(load, p, T, settings=[*s, Strict(x)]) for x in ({d0} if alone else {p0} if only else {p0, d0})]
        case.ev((src, "load", canon(p), p0, d0, env.glob), sample=lambda: {"type": n.expr[:150], "by hand": repr(o)[:100]})
        case.count("strictness by option")
        w = wants[0]
        if len(wants) == 2 and wants[0].canon() != wants[1].canon():
            # One of the two is strict and the other is not: in between, and no more.
            case.count("strict in one of two")
            if not any(q.ok for q in wants) and o.ok:
                case.bad("accepted with a mix of options, with either of them for all refused", got=repr(o))
            continue
        if w.ok != o.ok or w.refused != o.refused or w.ok and not deep_eq(w.value, o.value) and canon(w.value) != canon(o.value):
            case.bad("a strictness given as an option is not what the setting for all is", option=repr(o), setting=repr(w))
        case.count("strictness by option: " + ("accepted" if o.ok else "refused"))


def run(case):
    k = case.rng.random()
    if k < 0.7:
        containers(case)
    elif k < 0.85:
        strictness(case)
    else:
        schemas(case)
