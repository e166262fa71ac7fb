"""Class decorators: histories of defining, decorating and converting classes that derive from each other."""

import abc
import dataclasses
import typing as t

from databind.core import (ClassDecoratorSetting, Context, Converter, ExtraKeys, Priority, Union, get_class_setting, get_class_settings)
from databind.core.settings import Setting
from databind.json import dump, get_object_mapper, load
from databind.json.settings import JsonConverter

from dbv.common import *

ID = "C17"
CASES = {"quick": 4000, "thorough": 250000}
RULE = "one observation of one class after one step of a history of definitions, decorations and conversions; non-trivial if the class or a relative of it is decorated"
MINIMA = {"decorated class observed": 6000, "undecorated relative of a decorated class": 2000, "several decorators of a kind": 1500, "decorated after a conversion": 2000,
          "decorated after its subclass": 500, "second binding refused": 1500, "slots": 300, "generic": 300, "typeddict": 300, "namedtuple": 300, "enum": 100, "made anew after it was decorated": 80}
T_ = t.TypeVar("T_")


class Custom(ClassDecoratorSetting):
    def __init__(self, tag, priority=Priority.NORMAL):
        super().__init__()
        self.tag, self.priority = tag, priority


class CustomSub(Custom):
    pass


class Alike(Custom):
    """All of them are equal."""

    def __eq__(self, other):
        return type(other) is Alike

    def __hash__(self):
        return 1


class Other(ClassDecoratorSetting):
    pass


@dataclasses.dataclass
class Leaf:
    x: int = 1


class Tagging(Converter):
    def __init__(self, tag):
        self.tag = tag

    def convert(self, ctx):
        return ("converted by", self.tag)


class E:
    """What is known about one class."""

    def __init__(self, cls, kind, bases):
        self.cls, self.kind, self.bases = cls, kind, bases
        self.settings = []
        self.converted = False


def define(r, i, known):
    kind = r.choice(["dataclass", "dataclass", "dataclass", "slots", "generic", "abc", "plain", "typeddict", "namedtuple", "enum"])
    name = f"D{i}"
    if kind == "typeddict":
        bases = [e for e in known if e.kind == "typeddict"][-1:] if r.random() < 0.7 else []
        cls = (type(t.TypedDict(name, {})) if bases else lambda n, b, ns: t.TypedDict(n, ns["__annotations__"]))(name, tuple(e.cls for e in bases) or (), {"__annotations__": {"x": int} if not bases else {}, "__module__": __name__})
        return E(cls, kind, bases)
    if kind == "namedtuple":
        return E(t.NamedTuple(name, [("x", int)]), kind, [])
    if kind == "enum":
        import enum

        return E(enum.Enum(name, ["x"]), kind, [])
    pool = [e for e in known if e.kind in ("dataclass", "slots", "generic", "abc", "plain")]
    bases = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 1, 2])))
    bases.sort(key=lambda e: -known.index(e))
    py = tuple(e.cls for e in bases)
    extra = (t.Generic[T_],) if kind == "generic" and not any(issubclass(c, t.Generic) for c in py) else (abc.ABC,) if kind == "abc" and not any(isinstance(c, abc.ABCMeta) for c in py) else ()
    import types

    ns = {"__annotations__": {"x": int} if r.random() < 0.7 or not any(map(dataclasses.is_dataclass, py)) else {}, "__module__": __name__}
    if "x" in ns["__annotations__"]:
        if kind != "slots":
            ns["x"] = 1
    try:
        cls = types.new_class(name, py + extra, {}, lambda d: d.update(ns))
        if kind != "plain":
            cls = dataclasses.dataclass(slots=True)(cls) if kind == "slots" else dataclasses.dataclass(cls)
    except TypeError:
        raise Skip("Python does not allow these bases")
    return E(cls, kind, bases)


def ancestors(e):
    return [x for b in e.bases for x in [b] + ancestors(b)]


def relatives(e, known):
    return [o for o in known if o in ancestors(e) or e in ancestors(o)]


def best(xs):
    b = None
    for x in xs:
        if b is None or int(x.priority) > int(b.priority):
            b = x
    return b


def run(case):
    r = case.rng
    theme = r.choice(["extra", "json", "union", "custom"])
    known, log, used = [], [], []
    n = [0]
    records = []
    # Some settings have nothing of their own: they are equal to others in all but their identity.
    plain = r.random() < 0.3
    numbers, made = {}, []
    no = lambda s: numbers.get(id(s), s)

    def setting():
        n[0] += 1
        i = n[0]
        p = r.choice([Priority.NORMAL, Priority.NORMAL, Priority.NORMAL, Priority.HIGH, Priority.LOW])
        k = theme if r.random() < 0.75 else "custom"
        if k == "extra":
            s = ExtraKeys(r.random() < 0.7, lambda ctx, keys, i=i: records.append((i, set(keys))), p)
        elif k == "json":
            s = JsonConverter(Tagging(i))
            s.priority = p
        elif k == "union":
            s = Union({"m": Leaf}, discriminator_key=f"t{i}", style=r.choice([Union.NESTED, Union.FLAT]))
            s.priority = p
        else:
            s = r.choice([Custom, CustomSub, Alike])(0 if plain else i, p)
        numbers[id(s)] = i
        made.append(s)
        return s

    def wrap(e):
        """The class as it occurs in types, with the path to the converted value."""
        base = e.cls
        if e.kind == "generic" and getattr(e.cls, "__parameters__", ()) and r.random() < 0.7:
            base = e.cls[int]
        k = r.choice(["", "", "list", "dict", "opt", "ann", "field"])
        if k == "list":
            return t.List[base], lambda p: [p, p], lambda v: v[1]
        if k == "dict":
            return t.Dict[str, base], lambda p: {"k": p}, lambda v: v["k"]
        if k == "opt":
            return t.Optional[base], lambda p: p, lambda v: v
        if k == "ann":
            return t.Annotated[base, "note"], lambda p: p, lambda v: v
        if k == "field":
            H = dataclasses.make_dataclass("H", [("f", base)])
            return H, lambda p: {"f": p}, lambda v: v.f
        return base, lambda p: p, lambda v: v

    def observe_one(e):
        mine = [s for s in e.settings]
        rel = relatives(e, known)
        deco_rel = any(o.settings for o in rel)
        trivial = not mine and not deco_rel
        case.ev((case.index, e.cls.__name__, len(log)), trivial=trivial, sample=lambda: {"history": log[-6:], "observed": e.cls.__name__, "settings": [type(s).__name__ for s in mine]})
        if mine:
            case.count("decorated class observed")
        elif deco_rel:
            case.count("undecorated relative of a decorated class")
        if len(mine) > 1 and any(isinstance(a, type(b)) for a in mine for b in mine if a is not b):
            case.count("several decorators of a kind")
        case.count(e.kind)
        e.converted = True
        where = dict(cls=e.cls.__name__, bases=[b.cls.__name__ for b in e.bases], form=e.kind, history="; ".join(log))
        for kind in (Custom, CustomSub, ExtraKeys, JsonConverter, Union, ClassDecoratorSetting, Setting, Other):
            want = [s for s in mine if isinstance(s, kind)]
            got = list(get_class_settings(e.cls, kind))
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                case.bad("the settings of a class are not exactly those it was decorated with", kind=kind.__name__, expected=[no(s) for s in want], got=[no(s) for s in got], **where)
            if get_class_setting(e.cls, kind) is not best(want):
                case.bad("the setting of a class is not its first of highest priority", kind=kind.__name__, **where)
        # What a conversion step for the class sees.
        mapper = get_object_mapper()
        seen = {}

        class Probe(Converter):
            def convert(self, ctx):
                h = ctx.datatype.hint
                if hasattr(h, "__metadata__"):
                    h = h.__origin__
                if h is e.cls or t.get_origin(h) is e.cls:
                    for kind in (Custom, CustomSub, ExtraKeys, JsonConverter, Union, Other):
                        seen[kind] = ctx.get_setting(kind)
                raise NotImplementedError

        mapper.module.register(Probe(), first=True)
        T, inside, get = wrap(e)
        where["type"] = str(T)
        plain = "x" if e.kind == "enum" else {"x": 5}
        o = observe(mapper.deserialize, inside(plain), T)
        for kind, s in seen.items():
            if s is not best([x for x in mine if isinstance(x, kind)]):
                case.bad("a conversion step does not see the setting of its class", kind=kind.__name__, got=no(s),
                         expected=no(best([x for x in mine if isinstance(x, kind)])), **where)
        if not seen:
            case.bad("no step of the conversion was for the class", got=repr(o), **where)
        # And what it does.
        json, union, extra = (best([s for s in mine if isinstance(s, k)]) for k in (JsonConverter, Union, ExtraKeys))
        convertible = e.kind != "plain" or dataclasses.is_dataclass(e.cls)
        if theme == "json":
            if json is not None:
                if not o.ok or get(o.value) != ("converted by", json.supplier().tag):
                    case.bad("the converter a class was decorated with was not used", got=repr(o), **where)
            elif convertible:
                if not o.ok or type(get(o.value)) is not (dict if e.kind == "typeddict" else e.cls):
                    case.bad("a class that has no converter of its own was not converted by its fields", got=repr(o), **where)
            elif o.ok:
                case.bad("a class that is not convertible and has no converter of its own was converted", got=repr(o), **where)
        if theme == "union":
            for u in [s for x in known for s in x.settings if isinstance(s, Union)]:
                p = {u.discriminator_key: "m", "m": {"x": 7}} if u.style == Union.NESTED else {u.discriminator_key: "m", "x": 7}
                o2 = observe(load, inside(p), T)
                if u is union:
                    if not o2.ok or get(o2.value) != Leaf(7):
                        case.bad("the union a class was decorated with was not used", got=repr(o2), **where)
                    continue
                if not o2.refused:
                    case.bad("the union of another class was used", got=repr(o2), payload=p, union=no(u), **where)
            if union is None and convertible and not (o.ok and type(get(o.value)) is (dict if e.kind == "typeddict" else e.cls)):
                case.bad("a class that is not a union was not converted by its fields", got=repr(o), **where)
        if theme == "extra" and convertible and e.kind != "enum":
            del records[:]
            o2 = observe(load, inside({"x": 5, "zz": 1}), T)
            if extra is None or not extra.allow:
                if not o2.refused or records:
                    case.bad("extra keys of a class that does not allow them were accepted or reported", got=repr(o2), reported=records, **where)
            elif not o2.ok or not records or any(rec != (no(extra), {"zz"}) for rec in records):
                case.bad("extra keys of a class that allows them were not accepted and reported to its own recorder", got=repr(o2), reported=records, **where)

    for step in range(r.randrange(5, 16)):
        k = r.random()
        if not known or k < 0.3 and len(known) < 6:
            known.append(define(r, len(known), known))
            e = known[-1]
            log.append(f"define {e.kind} {e.cls.__name__}({', '.join(b.cls.__name__ for b in e.bases)})")
        elif k < 0.72:
            e = r.choice(known)
            s = setting()
            if e.converted:
                case.count("decorated after a conversion")
            if any(e in o.bases and o.settings for o in known):
                case.count("decorated after its subclass")
            if s(e.cls) is not e.cls:
                case.bad("decorating a class does not return the class", cls=e.cls.__name__)
            e.settings.append(s)
            used.append(s)
            log.append(f"decorate {e.cls.__name__} with {type(s).__name__} {no(s)} ({s.priority.name})")
        elif k < 0.76 and (e := r.choice(known)).kind in ("dataclass", "generic", "abc") and not any(e in o.bases for o in known) and "__slots__" not in vars(e.cls):
            # As @dataclass(slots=True) above another decorator does it: a new class is made from the decorated one.
            try:
                e.cls = dataclasses.dataclass(slots=True)(e.cls)
            except TypeError:
                continue  # The layouts of the bases.
            log.append(f"make {e.cls.__name__} anew with slots")
            case.count("made anew after it was decorated" if e.settings else "made anew")
        elif k < 0.84 and used:
            s, e = r.choice(used), r.choice(known)
            log.append(f"try to decorate {e.cls.__name__} with {type(s).__name__} {no(s)} again")
            try:
                s(e.cls)
            except RuntimeError:
                case.count("second binding refused")
            else:
                case.bad("a setting that decorates one class could be used to decorate another", cls=e.cls.__name__, history="; ".join(log))
        else:
            observe_one(r.choice(known))
    case.note(theme=theme)
    for e in known:
        observe_one(e)
