"""A monitor at every step of a conversion: which settings the step sees, its direction, its place in the source."""

import dataclasses
import datetime
import decimal
import enum
import typing as t
import uuid

import typing_extensions as te
from databind.core import ClassDecoratorSetting, Context, ConversionError, Converter, Direction, Flattened, Location, ObjectMapper, Setting, Settings, SettingsProvider, Strict, Union
from databind.json import JsonModule, get_object_mapper
from typeapi import AnnotatedTypeHint, TypeHint

from dbv.common import *

ID = "C35"
CASES = {"quick": 6000, "thorough": 220000}
RULE = "one step of a conversion whose settings, direction and place are compared with what the type says; non-trivial below the root"
MINIMA = {"conversions": 5000, "conversion refused": 350, "annotation marks expected": 4000, "steps that must see no annotation mark": 14000, "local marks expected": 4500, "call settings": 2500, "call settings object": 900, "mapper settings": 2500, "parent settings": 1500, "provider": 1500,
          "depth 4": 1500, "optional": 900, "plain union": 450, "tagged": 420, "mapping key": 900, "class marks expected": 650, "own converter": 430, "place of its own": 130, "flattened": 280, "shared type": 400, "conditional": 2000}


class Mark(Setting):
    """In annotations only."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"Mark({self.i})"


class Wide(Setting):
    def __init__(self, i):
        self.i = i


class Wide2(Wide):
    pass


class Wide3(Wide):
    pass


class Cond(Setting):
    pass


class Local(Setting):
    def __init__(self, i):
        self.i = i


class CallProv(Setting):
    pass


class Deco(ClassDecoratorSetting):
    pass


class OwnProvider(SettingsProvider):
    """Settings of the user's making, in front of those of the mapper."""

    def __init__(self, wide, prov, rest):
        self.wide, self.prov, self.rest = wide, prov, rest

    def get_setting(self, context, setting_type):
        if setting_type is Wide:
            return self.wide
        if setting_type is CallProv:
            return self.prov
        return self.rest.get_setting(context, setting_type)


class SizedProvider(OwnProvider):
    """A provider that has a length and is thus false."""

    def __len__(self):
        return 0


class SizedSettings(Settings):
    def __len__(self):
        return 0


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Box:
    """Converted by a converter of the user's."""

    def __init__(self, inner):
        self.inner = inner


class BoxConverter(Converter):
    def __init__(self, types_):
        self.types_ = types_  # class -> (hint, key, location)

    def convert(self, ctx):
        T = ctx.datatype
        T = getattr(T[0] if isinstance(T, AnnotatedTypeHint) else T, "type", None)
        if T not in self.types_:
            raise NotImplementedError
        hint, key, loc = self.types_[T]
        value = ctx.value.inner if ctx.direction.is_serialize() else ctx.value
        out = ctx.spawn(value, hint, key, loc).convert()
        return out if ctx.direction.is_serialize() else T(out)


class Step:
    """What is expected of the steps at one place."""

    def __init__(self, path, marks, allowed, classes, filename, deco):
        self.path, self.marks, self.allowed, self.classes, self.filename, self.deco = path, marks, allowed, classes, filename, deco


class Node:
    """A type with marks, and how to walk a value of it."""

    def __init__(self, hint, marks, make, walk, cls=None, leaf=True):
        self.hint, self.marks, self.make, self.walk_, self.cls, self.leaf = hint, marks, make, walk, cls, leaf

    def places(self, v, path, d, filename):
        """Yields steps: the first is for this very place."""
        return self.walk_(v, path, d, filename)


LEAVES = [
    (int, lambda r: (n := r.randrange(-99, 99), n)),
    (str, lambda r: (s := r.choice(["", "a", "bc"]), s)),
    (float, lambda r: (f := r.random(), f)),
    (bool, lambda r: (b := r.random() < 0.5, b)),
    (datetime.date, lambda r: (x := datetime.date(2024, r.randrange(1, 13), 3), x.isoformat())),
    (decimal.Decimal, lambda r: (x := decimal.Decimal(r.randrange(99)), str(x))),
    (uuid.UUID, lambda r: (x := uuid.UUID(int=r.randrange(1 << 128)), str(x))),
    (Color, lambda r: (x := r.choice(list(Color)), x.name)),
    (t.Any, lambda r: (x := r.choice([1, None, [2], "x"]), x)),
    (t.Literal["x", 2], lambda r: (x := r.choice(["x", 2]), x)),
]


class Types:
    def __init__(self, case):
        self.case, self.r = case, case.rng
        self.n = 0
        self.boxes = {}
        self.shared = []

    def uid(self):
        self.n += 1
        return self.n

    def annotate(self, hint):
        """The type with marks around it."""
        marks = set()
        if self.r.random() < 0.4:
            ms = [Mark(self.uid()) for _ in range(self.r.choice([1, 1, 2]))]
            others = self.r.sample(["doc", 5, Strict(True)], self.r.choice([0, 0, 1]))
            # The one that is asked for is the first.
            metas = [*others, *ms] if self.r.random() < 0.5 else [*ms, *others]
            return t.Annotated[(hint, *metas)], {ms[0].i}
        return hint, marks

    def node(self, d):
        r = self.r
        if self.shared and r.random() < 0.15:
            self.case.count("shared type")
            return r.choice(self.shared)
        k = r.choice(["leaf"] if d <= 0 else ["leaf", "list", "list", "dict", "dict", "tuple", "opt", "opt", "union", "struct", "struct", "tagged", "box", "set"])
        node = getattr(self, k)(d)
        if r.random() < 0.3:
            self.shared.append(node)
        return node

    # Every kind: (value of the type, its payload), and the steps for a value.

    def leaf(self, d, which=None):
        T, f = which or self.r.choice(LEAVES)
        hint, marks = self.annotate(T)
        cls = T if isinstance(T, type) else None

        def walk(v, path, dr, fn):
            yield Step(path, marks, marks, {cls} - {None}, fn, False)

        return Node(hint, marks, lambda: f(self.r), walk, cls)

    def list(self, d):
        item = self.node(d - 1)
        base, cls, make = self.r.choice([(t.List, list, list), (t.Sequence, None, list), (t.Tuple, tuple, tuple), (t.Deque, None, __import__("collections").deque)])
        hint, marks = self.annotate(base[item.hint, ...] if base is t.Tuple else base[item.hint])

        def mk():
            k = self.r.random()
            xs = [item.make() for _ in range(self.r.randrange(5) if k < 0.9 else self.r.choice([6, 12]) if k < 0.98 and d < 3 else self.r.choice([33, 101, 130, 260]) if d < 2 else 5)]
            return make(x[0] for x in xs), [x[1] for x in xs]

        def walk(v, path, dr, fn):
            # NOTE: Tuples of any length are no classes to the mapper.
            yield Step(path, marks, marks, {list} if cls is list else set(), fn, False)
            for i, x in enumerate(v):
                yield from item.places(x, path + (i,), dr, fn)

        return Node(hint, marks, mk, walk, cls if cls is list else None, False)

    def set(self, d):
        item = self.leaf(0, self.r.choice(LEAVES[:3]))
        hint, marks = self.annotate(t.Set[item.hint])

        def mk():
            x = item.make()
            return {x[0]}, [x[1]]

        def walk(v, path, dr, fn):
            yield Step(path, marks, marks, {set}, fn, False)
            for i, x in enumerate(v):
                yield from item.places(x, path + (i,), dr, fn)

        return Node(hint, marks, mk, walk, set, False)

    def dict(self, d):
        key, val = self.leaf(0, LEAVES[1]), self.node(d - 1)
        hint, marks = self.annotate(t.Dict[key.hint, val.hint])
        self.case.count("mapping key")

        def mk():
            xs = {k: val.make() for k in self.r.sample(["a", "b", "c d", ""], self.r.randrange(4))}
            return {k: x[0] for k, x in xs.items()}, {k: x[1] for k, x in xs.items()}

        def walk(v, path, dr, fn):
            yield Step(path, marks, marks, {dict}, fn, False)
            for k, x in v.items():
                yield from val.places(x, path + (k,), dr, fn)
                yield from key.places(k, path + (f"Key({k!r})",), dr, fn)

        return Node(hint, marks, mk, walk, dict, False)

    def tuple(self, d):
        items = [self.node(d - 1) for _ in range(self.r.randrange(1, 4) if self.r.random() < 0.9 else 6)]
        hint, marks = self.annotate(t.Tuple[tuple(i.hint for i in items)])

        def mk():
            xs = [i.make() for i in items]
            return tuple(x[0] for x in xs), [x[1] for x in xs]

        def walk(v, path, dr, fn):
            yield Step(path, marks, marks, set(), fn, False)
            for i, (x, n) in enumerate(zip(v, items)):
                yield from n.places(x, path + (i,), dr, fn)

        return Node(hint, marks, mk, walk, None, False)

    def opt(self, d):
        inner = self.node(d - 1)
        while t.get_origin(core(inner.hint)) is t.Union or core(inner.hint) is t.Any:
            inner = self.node(d - 1)
        self.case.count("optional")
        hint, marks = self.annotate(t.Optional[inner.hint])

        def mk():
            out = (None, None) if self.r.random() < 0.2 else inner.make()
            return out if out[1] is not None else (None, None)

        def walk(v, path, dr, fn):
            if v is None:
                yield Step(path, marks, marks, set(), fn, False)
                return
            first, *rest = inner.places(v, path, dr, fn)
            # The annotation of the optional stands before that of what is inside, at the inner step.
            yield Step(path, marks, first.allowed | marks, first.classes, names(fn, first), first.deco)
            yield from (Step(path, set(), s.allowed | marks, s.classes, s.filename, s.deco) if s.path == path else s for s in rest)

        return Node(hint, marks, mk, walk, None, False)

    def union(self, d):
        ms = [self.leaf(0, w) for w in self.r.sample([LEAVES[0], LEAVES[1], LEAVES[4], LEAVES[7]], self.r.choice([2, 2, 3]))]
        self.case.count("plain union")
        hint, marks = self.annotate(t.Union[tuple(m.hint for m in ms)])

        def mk():
            # A string in the payload may be for any of them.
            return self.r.choice([m for m in ms if m.cls is int] or ms).make()

        def walk(v, path, dr, fn):
            allowed = set(marks)
            for m in ms:
                allowed |= m.marks
            yield Step(path, marks, allowed, None, fn, False)

        return Node(hint, marks, mk, walk, None, False)

    def struct(self, d, name=None, flat=True):
        r, n = self.r, self.uid()
        kind = r.choice(["dc", "dc", "td", "nt"]) if name is None else "dc"
        fields = {f"f{n}_{i}": self.node(d - 1) for i in range(r.randrange(1, 4))}
        flats = set()
        hints = {k: f.hint for k, f in fields.items()}
        if kind == "dc" and flat and r.random() < 0.25:
            f = self.struct(0, name=f"Flat{n}", flat=False)
            fields[f"g{n}"] = f
            flats.add(f"g{n}")
            self.case.count("flattened")
            hints[f"g{n}"] = t.Annotated[f.hint, Flattened()]
        name = name or f"S{n}"
        deco = kind == "dc" and r.random() < 0.3
        if kind == "dc":
            T = dataclasses.make_dataclass(name, list(hints.items()))
            if deco:
                Deco()(T)
        elif kind == "td":
            T = te.TypedDict(name, hints)
        else:
            T = t.NamedTuple(name, list(hints.items()))
        hint, marks = self.annotate(T)

        def mk():
            xs = {k: f.make() for k, f in fields.items()}
            v = {k: x[0] for k, x in xs.items()}
            p = {}
            for k, x in xs.items():
                if k in flats:
                    p.update(x[1])
                else:
                    p[k] = x[1]
            return (v if kind == "td" else T(**v)), p

        def walk(v, path, dr, fn):
            yield Step(path, marks, marks, {T}, fn, deco)
            for k, f in fields.items():
                yield from f.places(v[k] if kind == "td" else getattr(v, k), path + (k,), dr, fn)

        return Node(hint, marks, mk, walk, T, False)

    def tagged(self, d):
        r, n = self.r, self.uid()
        style = r.choice([Union.NESTED, Union.KEYED, Union.FLAT])
        ms = {f"m{i}": self.struct(d - 1, name=f"M{n}_{i}") for i in range(r.randrange(1, 3))}
        self.case.count("tagged")
        deco = r.random() < 0.5
        members = {k: m.cls for k, m in ms.items()}
        Base = type(f"B{n}", (), {})
        classes = {Base}
        if deco:
            Union(members, style=style)(Base)
            hint, marks = self.annotate(Base)
        else:
            hint, marks = self.annotate(Base)
            hint = t.Annotated[hint, Union(members, style=style)]

        def mk():
            k = r.choice(list(ms))
            v, p = ms[k].make()
            return v, {"type": k, k: p} if style == Union.NESTED else {k: p} if style == Union.KEYED else {**p, "type": k}

        def walk(v, path, dr, fn):
            k = next(k for k, m in ms.items() if m.cls is type(v))
            below = path + (k,) if dr.is_deserialize() and style != Union.FLAT else path
            # The members are given without their annotations.
            first, *rest = ms[k].places(v, below, dr, fn)
            first = Step(below, set(), set(), first.classes, fn, first.deco)
            if below == path:
                yield Step(path, marks, marks, classes | first.classes, fn, first.deco)
            else:
                yield Step(path, marks, marks, classes, fn, False)
                yield first
            yield from rest

        return Node(hint, marks, mk, walk, None, False)

    def box(self, d):
        r, n = self.r, self.uid()
        inner = self.node(d - 1)
        self.case.count("own converter")
        key = r.choice(["inner", 0, None, "x"])
        loc = None
        if r.random() < 0.3:
            self.case.count("place of its own")
            loc = Location(f"file{n}", 7, None)
        T = type(f"Box{n}", (Box,), {})
        self.boxes[T] = (r.choice([inner.hint, TypeHint(inner.hint)]), key, loc)
        hint, marks = self.annotate(T)

        def mk():
            v, p = inner.make()
            return T(v), p

        def walk(v, path, dr, fn):
            below = path + (key,) if key is not None else path
            name = loc.filename if loc else fn
            first, *rest = inner.places(v.inner, below, dr, name)
            if below == path:
                yield Step(path, marks | first.marks, marks | first.allowed, None if first.classes is None else {T} | first.classes, names(fn, first), first.deco)
            else:
                yield Step(path, marks, marks, {T}, fn, False)
                yield first
            yield from rest

        return Node(hint, marks, mk, walk, T, False)


def names(fn, step):
    """The filenames of several steps for one value."""
    return (fn, *(step.filename if isinstance(step.filename, tuple) else (step.filename,)))


def core(h):
    while t.get_origin(h) is t.Annotated:
        h = t.get_args(h)[0]
    return h


class Monitor(Converter):
    def __init__(self, predicate):
        self.log, self.predicate = [], predicate

    def convert(self, ctx):
        mark, deco, local = ctx.get_setting(Mark), ctx.get_setting(Deco), ctx.get_setting(Local)
        self.log.append((ctx, mark, [ctx.get_setting(w) for w in (Wide, Wide2, Wide3)], ctx.get_setting(Cond), local, deco, self.predicate(ctx), ctx.get_setting(CallProv)))
        raise NotImplementedError


def path_of(ctx):
    out = []
    while ctx.parent is not None:
        if ctx.key is not None:
            out.append(ctx.key)
        ctx = ctx.parent
    return tuple(reversed(out)), ctx


def run(case):
    r = case.rng
    ts = Types(case)
    node = ts.node(r.choice([1, 2, 2, 3, 4]))
    dirs = list(Direction)
    preds = [lambda c: c.direction is Direction.SERIALIZE, lambda c: isinstance(c.value, str), lambda c: isinstance(c.key, int), lambda c: c.parent is None, lambda c: True]
    for _ in range(2):
        d = r.choice(dirs)
        pred = r.choice(preds)
        v, p = node.make()
        x = v if d.is_serialize() else p
        mon = Monitor(pred)
        # Where the settings are that everything must see.
        where = {}
        parent = None
        if r.random() < 0.3:
            case.count("parent settings")
            parent = r.choice([Settings, SizedSettings])(None, [where.setdefault("parent", Wide3(1))])
        settings = r.choice([Settings, Settings, SizedSettings])(parent)
        if r.random() < 0.5:
            case.count("mapper settings")
            settings.add_global(where.setdefault("mapper", Wide2(2)))
        if r.random() < 0.3:
            case.count("provider")
            s = where.setdefault("provider", r.choice([Wide2, Wide3])(3))
            settings.add_provider(lambda ctx: [s])
        if r.random() < 0.4:
            case.count("conditional")
            where["cond"] = Cond()
            settings.add_conditional(pred, where["cond"])
        locals_ = {}
        for T in r.sample([int, str, list, dict, set, datetime.date, Color, *(k for k in ts.boxes)], r.choice([0, 2, 3, 3, 3])):
            locals_[T] = Local(T)
            settings.add_local(T, locals_[T])
        call = prov = None
        if r.random() < 0.6:
            case.count("call settings")
            call = [where.setdefault("call", Wide(4))]
            if r.random() < 0.35:
                case.count("call settings object")
                k = r.choice(["provider", "plain", "local", "own"])
                if k == "own":
                    prov = CallProv()
                    call = r.choice([OwnProvider, SizedProvider])(call[0], prov, settings)
                else:
                    call = r.choice([Settings, SizedSettings])(settings, call)
                    if k == "provider":
                        prov = CallProv()
                        call.add_provider(lambda ctx: [prov])
                    elif k == "local":
                        call.add_local(Box, CallProv())
        m = get_object_mapper(settings) if r.random() < 0.8 else ObjectMapper(settings)
        if not m.module.converters:
            m.module.register(JsonModule())
        m.module.register(BoxConverter(ts.boxes), first=True)
        m.module.register(mon, first=True)
        fn = r.choice([None, "a.json", "dir/b", ""])
        loc = Location(fn, r.choice([None, 3]), r.choice([None, 9]))
        case.note(type=repr(node.hint), direction=d.name, input=x, filename=fn)
        hint = node.hint if r.random() < 0.8 else TypeHint(node.hint)
        bad = False
        if r.random() < 0.2:
            # It fails somewhere.
            if d.is_deserialize():
                x, bad = mutate_json(x, r), True
        if r.random() < 0.3:
            o = observe(lambda: m.convert(d, x, hint, loc, call))
        else:
            loc = Location(fn, None, None)
            o = observe(m.serialize if d.is_serialize() else m.deserialize, x, hint, fn, call)
        if not o.ok and not o.refused:
            case.bad("the conversion leaks", got=repr(o))
        if not o.ok and not bad:
            case.bad("a value of the type is refused", got=repr(o))
        case.count("conversions" if o.ok else "conversion refused")
        places = {}
        for s in node.places(v, (), d, fn):
            if s.path in places:
                raise AssertionError(f"two expectations for {s.path}")
            places[s.path] = s
        seen = {}
        for ctx, mark, wides, cond, local, deco, holds, sees in mon.log:
            path, root = path_of(ctx)
            seen.setdefault(path, []).append((ctx, mark, local, deco))
            case.ev((case.index, d.name, path, len(seen[path])), trivial=not path, sample=lambda: {"type": short(repr(node.hint), 150), "path": repr(path), "mark": repr(mark)})
            if len(path) >= 4:
                case.count("depth 4")
            at = dict(path=repr(path), step=repr(ctx.datatype))
            if ctx.direction is not d:
                case.bad("a step has another direction than the conversion", got=ctx.direction, **at)
            if root.key is not Context.ROOT or root.value is not x or root.location != loc:
                case.bad("the outermost step is not that of the conversion", got=repr(root), **at)
            if ctx.parent is not None and ctx.parent.location.filename == ctx.location.filename and (ctx.location.line, ctx.location.column) != (None, None) and not (ctx.location.line == 7):
                case.bad("a step has the line of another", got=repr(ctx.location), **at)
            # Settings for all.
            if sees is not prov:
                case.bad("a setting of the call's provider is not seen, or one that is not for this step is", got=repr(sees), expected=repr(prov), **at)
            for k, s in where.items():
                if k == "cond":
                    if (cond is s) != holds:
                        case.bad("a conditional setting is seen where the condition does not hold, or not where it does", holds=holds, got=repr(cond), **at)
                elif k in ("parent", "mapper", "provider") and not any(w is s for w in wides) and not any(type(q) is type(s) and q is not s for q in where.values()):
                    # (Another one of the same kind may stand before it.)
                    case.bad(f"a setting for all ({k}) is not seen", got=repr(wides), **at)
                elif k == "call" and wides[0] is not s:
                    case.bad("a setting of the call is not seen", got=repr(wides), **at)
            if cond is not None and "cond" not in where or any(w is not None and w not in where.values() for w in wides):
                case.bad("a setting is seen that was never given", got=repr((cond, wides)), **at)
            st = places.get(path)
            if bad:
                continue
            if st is None:
                case.bad("a step at a place that the type does not have", places=repr(list(places)), **at)
            fns = st.filename if isinstance(st.filename, tuple) else (st.filename,)
            if ctx.location.filename not in fns:
                case.bad("a step has another filename", got=ctx.location.filename, expected=st.filename, **at)
            if mark is not None and mark.i not in st.allowed:
                case.bad("a step sees a setting from the annotation of another value", got=repr(mark), expected=repr(st.allowed), **at)
            if not st.allowed:
                case.count("steps that must see no annotation mark")
            if local is not None and st.classes is not None and local.i not in st.classes:
                case.bad("a step sees a setting that is meant for another type", got=repr(local.i), expected=repr(st.classes), **at)
            if deco is not None and not st.deco:
                case.bad("a step sees a setting that is of another class", **at)
        if not o.ok or bad:
            continue
        for path, st in places.items():
            at = dict(path=repr(path), trace=repr([(path_of(c[0])[0], c[0].datatype) for c in mon.log]))
            got = seen.get(path)
            if not got:
                case.bad("no step for a place that the type has", **at)
            for want in st.marks:
                case.count("annotation marks expected")
                if not any(g[1] is not None and g[1].i == want for g in got):
                    case.bad("no step sees the setting from the annotation of its value", expected=want, **at)
            for T in locals_:
                if st.classes and T in st.classes:
                    case.count("local marks expected")
                    if not any(g[2] is locals_[T] for g in got):
                        case.bad("no step sees the setting that is meant for its type", expected=repr(T), **at)
            if st.deco:
                case.count("class marks expected")
                if not any(g[3] is not None for g in got):
                    case.bad("no step sees the setting of its class", **at)
