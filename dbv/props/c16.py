"""Setting lookup: every observed step of a conversion is asked for every kind of setting and compared with the rule."""

import dataclasses
import typing as t

from databind.core import (Alias, ClassDecoratorSetting, Context, Converter, DateFormat, DeserializeAs, Direction, ExtraKeys, Flattened, ObjectMapper, Precision, Priority,
                           Remainder, Required, SerializeDefaults, Setting, Settings, SettingsProvider, Strict, Union, get_annotation_setting,
                           get_class_setting, get_class_settings, get_highest_setting)
from databind.json import get_object_mapper
from databind.json.settings import JsonConverter
from typeapi import TypeHint

from dbv.common import *

ID = "C16"
CASES = {"quick": 20000, "thorough": 900000}
RULE = "one lookup of one kind of setting at one step of a conversion; non-trivial if at least two settings of that kind apply"
MINIMA = {"several candidates": 15000, "tie for the highest priority": 7000, "no candidate": 8000, "won by annotation": 2000, "won by class": 500, "won by local": 800,
          "won by provider": 2000, "won by conditional": 1000, "won by global": 2000, "won by parent": 2000, "highest not first": 8000, "failing providers": 800, "predicates that answer without a bool": 2000}


class Custom(Setting):
    def __init__(self, tag, priority=Priority.NORMAL):
        self.tag, self.priority = tag, priority


class CustomSub(Custom):
    pass


class Deco(ClassDecoratorSetting):
    def __init__(self, tag, priority=Priority.NORMAL):
        self.tag, self.priority = tag, priority
        self.bound_to = None


class DecoSub(Deco):
    pass


def mk(kind, i, prio):
    if kind is Alias:
        s = Alias(f"a{i}", priority=prio)
    elif kind in (Required, Flattened, Strict, SerializeDefaults):
        s = kind(bool(i % 2), priority=prio)
    elif kind is DeserializeAs:
        s = DeserializeAs(int, priority=prio)
    elif kind is Precision:
        s = Precision(i + 1, priority=prio)
    elif kind in (Custom, CustomSub, Deco, DecoSub):
        s = kind(i, prio)
    elif kind is ExtraKeys:
        s = ExtraKeys(bool(i % 2))
        s.priority = prio
    elif kind is Union:
        s = Union(style=Union.NESTED)
        s.priority = prio
    elif kind is DateFormat:
        s = DateFormat(".ISO_8601", priority=prio)
    elif kind is JsonConverter:
        s = JsonConverter(Never())
        s.priority = prio
    elif kind is Remainder:
        s = Remainder(bool(i % 2))
        try:
            s.priority = prio
        except dataclasses.FrozenInstanceError:
            s = Remainder(bool(i % 2), priority=prio)
    else:
        raise AssertionError(kind)
    return s


class Never(Converter):
    pass


KINDS = [Alias, Required, Flattened, Strict, SerializeDefaults, DeserializeAs, Precision, Custom, CustomSub, Deco, DecoSub, ExtraKeys, Union, DateFormat, JsonConverter, Remainder]
ASK = KINDS + [Setting]
CLASSY = [k for k in KINDS if issubclass(k, ClassDecoratorSetting)]


class ListProvider(SettingsProvider):
    """A provider of the user's own."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return self.items[0].priority if self.items else 0  # Zero for some.

    def get_setting(self, context, setting_type):
        best = None
        for s in self.items:
            if isinstance(s, setting_type) and (best is None or s.priority > best.priority):
                best = s
        return best


ERRORS = [ValueError, ValueError, KeyError, LookupError, TypeError, AttributeError, RuntimeError, ZeroDivisionError, UnicodeError, OSError]


def failing(case):
    """A provider that fails is not one without settings: what it raises comes out, no other setting takes over."""
    r = case.rng
    error = r.choice(ERRORS)("from the provider")
    kind = r.choice([Alias, Strict, ExtraKeys, Custom, Precision])
    prios = [Priority.LOW, Priority.NORMAL, Priority.HIGH]
    n = [0]

    def setting():
        n[0] += 1
        return mk(kind, n[0], r.choice(prios))

    def fail(ctx):
        if r.random() < 2:
            raise error

    def fail_midway(ctx):
        yield setting()
        fail(ctx)

    def build(depth, broken):
        s = Settings(build(depth - 1, broken) if depth else None)
        for _ in range(r.randrange(3)):
            s.add_global(setting()) if r.random() < 0.5 else s.add_provider(lambda ctx: [setting()])
        if depth == broken:
            r.choice([lambda: s.add_conditional(fail, setting()), lambda: s.add_provider(fail), lambda: s.add_provider(fail_midway)])()
        for _ in range(r.randrange(3)):
            s.add_global(setting()) if r.random() < 0.5 else s.add_provider(lambda ctx: [setting()])
        return s

    depth = r.randrange(3)
    settings = build(depth, r.randrange(depth + 1))
    seen = []

    class Probe(Converter):
        def convert(self, ctx):
            seen.append(ctx.get_setting(kind))
            return ctx.value

    mapper = ObjectMapper(settings)
    mapper.module.register(Probe())
    hint = t.Annotated[(int, *[setting() for _ in range(r.randrange(1, 3))])] if r.random() < 0.5 else int
    case.note(failing=type(error).__name__, kind=kind.__name__, type=str(hint))
    case.count("failing providers")
    case.ev((case.index, "failing", kind.__name__, type(error).__name__), sample=lambda: {"provider raises": type(error).__name__, "kind": kind.__name__})
    try:
        mapper.convert(r.choice(list(Direction)), 1, hint)
    except Exception as exc:
        if exc is not error:
            case.bad("the failure of a settings provider turned into another one", got=repr(exc), raised=repr(error))
    else:
        case.bad("the failure of a settings provider was taken for the absence of settings", got=str(seen))


def run(case):
    r = case.rng
    n = [0]
    kinds = r.sample(KINDS, r.choice([1, 2, 3]))
    prios = r.choice([list(Priority), [Priority.NORMAL], [Priority.NORMAL, Priority.NORMAL, Priority.HIGH, Priority.LOW]])
    origin = {}

    def setting(where, kinds=kinds):
        n[0] += 1
        s = mk(r.choice(list(kinds)), n[0], r.choice(prios))
        origin[id(s)] = where
        keep.append(s)
        return s

    keep = []

    def some(where, kinds=kinds, top=3):
        return [setting(where, kinds) for _ in range(r.choice([0, 0, 1, 1, 2, top]))] if kinds else []

    # Classes, some decorated, one derived from a decorated one.
    classes = []
    for i in range(3):
        base = (classes[0],) if i == 2 and r.random() < 0.6 else ()
        cls = type(f"K{i}", base, {})
        # Only settings that do not change how the mapper walks the value.
        for s in some("class", [k for k in kinds if k in CLASSY]):
            s(cls)
        classes.append(cls)
    pool = classes + [int, str, list, dict]
    meta = ["doc", 5, object()]

    def hint(d=1):
        k = r.random()
        h = r.choice(classes) if k < 0.5 else int if k < 0.65 else t.List[int] if k < 0.75 else t.Optional[int] if k < 0.85 else t.Dict[str, int] if k < 0.95 else t.Literal[1]
        if r.random() < 0.65:
            ann = some("annotation") + r.sample(meta, r.randrange(2))
            r.shuffle(ann)
            if ann:
                h = t.Annotated[(h, *ann)]
                # typing takes hints for the same if their annotations are equal.
                for got, given in zip(h.__metadata__, ann):
                    if isinstance(given, Setting) and (type(got) is not type(given) or vars(got) != vars(given)):
                        case.bad("a type hint has another setting than the one it was annotated with", given=vars(given), got=vars(got))
        return h

    calls = []

    def predicate():
        k = r.choice(["true", "false", "key", "direction", "depth"])
        key = r.choice(["a", "b", Context.ROOT, 0])
        dirn = r.choice(list(Direction))
        if r.random() < 0.25:
            case.count("predicates that answer without a bool")
            yes, no = r.choice([1, "x", [0], 0.5, object()]), r.choice([0, "", None, [], 0.0])
            return lambda c: yes if c.key == key or c.direction is dirn else no
        return {"true": lambda c: True, "false": lambda c: False, "key": lambda c: c.key == key, "direction": lambda c: c.direction is dirn,
                "depth": lambda c: c.parent is not None}[k]

    def build(depth):
        """A Settings object with its model: a list of (source, function of the context giving settings)."""
        parent, above = None, None
        if depth > 0:
            if r.random() < 0.25:
                items = some("parent")
                parent, above = ListProvider(items), [("parent", lambda c, items=items: items)]
            elif r.random() < 0.8:
                parent, above = build(depth - 1)
        glob = some("global") if r.random() < 0.5 else None
        s = Settings(parent, glob)
        mglob = list(glob or [])
        if glob:
            glob.append(setting("nowhere"))  # The list given is not the one kept.
        locals_ = {}
        provs = []
        for _ in range(r.randrange(7)):
            op = r.choice(["global", "local", "local", "provider", "conditional"])
            if op == "global":
                x = setting("global")
                s.add_global(x)
                mglob.append(x)
            elif op == "local":
                ty, x = r.choice(pool), setting("local")
                s.add_local(ty, x)
                locals_.setdefault(ty, []).append(x)
            elif op == "provider":
                xs, p = some("provider"), predicate()
                f = lambda c, xs=xs, p=p: list(xs) if p(c) else []
                s.add_provider(f)
                provs.append(f)
            else:
                x, p = setting("conditional"), predicate()
                s.add_conditional(p, x)
                provs.append(lambda c, x=x, p=p: [x] if p(c) else [])
        model = [("local", lambda c, ty: locals_.get(ty, []))] + [("provider", f) for f in provs] + [("global", lambda c: mglob)]
        return s, (model, above)

    def candidates(ctx, kind, model):
        h = ctx.datatype.hint
        out = []
        if hasattr(h, "__metadata__"):
            out += [x for x in h.__metadata__ if isinstance(x, kind)]
            h = h.__origin__
        ty = h if isinstance(h, type) else t.get_origin(h)
        if ty is t.Union or ty is t.Literal:
            ty = None
        if ty is not None:
            out += [x for x in vars(ty).get("__databind_settings__", []) if isinstance(x, kind)]
        m, above = model
        for src, f in m:
            xs = (f(ctx, ty) if ty is not None else []) if src == "local" else f(ctx)
            out += [x for x in xs if isinstance(x, kind)]
        if above is not None:
            xs = candidates(ctx, kind, above) if isinstance(above, tuple) else [x for x in above[0][1](ctx) if isinstance(x, kind)]
            b = best(xs)
            if b is not None:
                out.append(b)
        return out

    def best(xs):
        b = None
        for x in xs:
            if b is None or int(x.priority) > int(b.priority):
                b = x
        return b

    if r.random() < 0.08:
        return failing(case)
    settings, model = build(2)
    mapper = get_object_mapper(settings)
    how = r.choice(["mapper", "list", "object"])
    kw = {}
    if how == "list":
        xs = some("global")
        kw["settings"] = xs
        model = ([("local", lambda c, ty: [])] + [("global", lambda c: xs)], model)
    elif how == "object":
        own, om = build(0)
        own.parent = settings if r.random() < 0.7 else None
        kw["settings"] = own
        model = (om[0], model if own.parent is not None else None)

    seen = []

    class Probe(Converter):
        def convert(self, ctx):
            for kind in r.sample(ASK, 5) + kinds:
                got = ctx.get_setting(kind)
                c = candidates(ctx, kind, model)
                seen.append((ctx.key, kind, got, c, ctx.datatype))
            if isinstance(ctx.value, list):
                for i, x in enumerate(ctx.value):
                    ctx.spawn(x, hints[x], r.choice(["a", "b", i])).convert()
            return ctx.value

    mapper.module.register(Probe(), first=True)
    hints = [hint() for _ in range(4)]
    root = r.choice([t.List[int], t.Annotated[t.List[int], *some("annotation"), "root"], hint()])
    case.note(root=str(root), hints=[str(h) for h in hints], how=how, kinds=[k.__name__ for k in kinds])
    mapper.convert(r.choice(list(Direction)), [0, 1, 2, 3], root, **kw)
    for key, kind, got, c, dt in seen:
        want = best(c)
        case.ev((case.index, str(key), kind.__name__), trivial=len(c) < 2, sample=lambda: {"kind": kind.__name__, "candidates": [f"{origin.get(id(x))}/{x.priority.name}" for x in c], "chosen": origin.get(id(want))})
        if not c:
            case.count("no candidate")
        elif len(c) > 1:
            case.count("several candidates")
            if sum(x.priority == want.priority for x in c) > 1:
                case.count("tie for the highest priority")
            if c[0] is not want:
                case.count("highest not first")
        if want is not None:
            case.count("won by " + origin.get(id(want), "annotation"))  # typing caches equal annotations
        if got is not want:
            case.bad("another setting than the one of highest priority and closest source is in force", kind=kind.__name__, step=str(key), type=str(dt),
                     candidates=[f"{type(x).__name__} from {origin.get(id(x))}, {x.priority.name}" for x in c],
                     got=f"{type(got).__name__} from {origin.get(id(got))}, {getattr(got, 'priority', None)}", expected=f"from {origin.get(id(want))}")
    # The helper functions follow the same rule.
    xs = some("annotation", KINDS, 5)
    want = best(xs)
    if get_highest_setting(iter(xs)) is not want:
        case.bad("get_highest_setting() is not the first of highest priority", settings=[x.priority.name for x in xs])
    kind = r.choice(kinds)
    h = TypeHint(hint())
    md = [x for x in getattr(h.hint, "__metadata__", []) if isinstance(x, kind)]
    if get_annotation_setting(h, kind) is not best(md):
        case.bad("get_annotation_setting() is not the first of highest priority", type=str(h))
    for cls in classes:
        own = [x for x in vars(cls).get("__databind_settings__", []) if isinstance(x, kind)]
        if list(get_class_settings(cls, kind)) != own or get_class_setting(cls, kind) is not best(own):
            case.bad("the settings of a class are not those it was decorated with", cls=cls.__name__)

