"""Structures with defaults under placements of the SerializeDefaults setting: the short output next to the full one."""

import copy
import dataclasses
import types
import typing as t

from databind.core import Alias, Flattened, Priority, Required, Remainder, SerializeDefaults, Settings
from databind.json import dump, get_object_mapper, load

from dbv.common import *

ID = "C25"
CASES = {"quick": 5000, "thorough": 250000}
RULE = "a value of a tree of structures and a placement of settings; trivial if no field has a default"
MINIMA = {"entries omitted": 7000, "entries kept although equal to their default": 5000, "entries kept as they differ": 8000, "read back": 7000, "setting from annotation": 1000, "setting from per-type": 1000,
          "setting from provider": 700, "setting from global": 1000, "setting from call": 1500, "no setting": 3000, "implied None": 2000, "flattened": 800, "flattened with a default": 100, "factory": 1500}

PRIOS = [Priority.NORMAL] * 4 + [Priority.LOW, Priority.HIGH, Priority.ULTIMATE]
NODEF = object()


LEAF = [
    (int, [0, 1, 5]), (str, ["", "a", "b"]), (bool, [True, False]), (float, [0.0, 1.5, float("nan")]), (t.List[int], [[], [1]]), (t.Dict[str, int], [{}, {"k": 1}]), (t.Tuple[int, str], [(1, "a"), (2, "b")]),
    (t.Any, [None, 1, [], "x"]), (t.Optional[int], [None, 0, 3]), (t.Optional[str], [None, "", "x"]), (t.Set[int], [set(), {1}]), (t.Optional[t.List[int]], [None, [], [2]]),
]


class F:
    pass


class Level:
    def __init__(self, case, depth, name, flat=False):
        r = case.rng
        self.name = name
        self.kind = r.choice(["dc", "dc", "dc", "td", "nt"]) if not flat else "dc"
        self.fields = []
        self.uid = name
        for i in range(r.randrange(1, 4)):
            f = F()
            f.name = f"{name}f{i}"
            f.child = None
            f.anns = []
            f.factory = f.required = f.flat = False
            f.inner_anns = []
            f.alias = f"{f.name}-al" if self.kind != "nt" and r.random() < 0.25 else None
            f.default = NODEF
            if depth > 0 and r.random() < 0.45:
                f.flat = self.kind == "dc" and r.random() < 0.3
                f.child = Level(case, depth - 1, f"{name}{i}", f.flat)
                f.wrap = "direct" if f.flat else r.choice(["direct", "direct", "opt", "list", "dict"])
                f.anns = case.settings(r.choice([0, 0, 0, 1, 1, 2]))
                if f.wrap in ("list", "dict"):
                    f.inner_anns = case.settings(r.choice([0, 0, 1]))
                if r.random() < 0.4 and self.kind == "dc":
                    f.factory = True
                    if f.flat:
                        case.count("flattened with a default")
                    f.default = value(case, f)
                elif f.wrap == "opt" and r.random() < 0.5:
                    f.default = None
            else:
                f.hint, f.pool = r.choice(LEAF)
                f.anns = case.settings(r.choice([0, 0, 0, 1]))
                f.required = r.random() < 0.07 and self.kind == "dc"
                if r.random() < 0.6:
                    f.default = r.choice(f.pool)
                    if type(f.default) in (list, dict, set) or r.random() < 0.2 and self.kind == "dc":
                        f.factory = True
                        if self.kind != "dc":
                            f.default, f.factory = NODEF, False
            self.fields.append(f)
        if self.kind == "nt":
            self.fields.sort(key=lambda f: f.default is not NODEF)
        self.total = r.random() < 0.6
        self.make(case)

    def make(self, case):
        fs = []
        for f in self.fields:
            h = annotated({"direct": lambda x: x, "opt": lambda x: t.Optional[x], "list": lambda x: t.List[x], "dict": lambda x: t.Dict[str, x]}[f.wrap](annotated(f.child.cls, f.inner_anns)), f.anns) if f.child else annotated(f.hint, f.anns)
            more = ([Alias(f.alias, f.name)] if f.alias else []) + ([Flattened()] if f.flat else []) + ([Required(True)] if f.required else [])
            fs.append((f.name, annotated(h, more), f))
        self.hints = {n: h for n, h, _ in fs}
        if self.kind == "dc":
            spec = []
            for n, h, f in fs:
                if f.default is NODEF:
                    spec.append((n, h))
                elif f.factory:
                    case.count("factory")
                    spec.append((n, h, dataclasses.field(default_factory=lambda f=f: copy.deepcopy(f.default))))
                else:
                    spec.append((n, h, dataclasses.field(default=f.default)))
            self.cls = dataclasses.make_dataclass("D" + self.name, spec, kw_only=True)
        elif self.kind == "td":
            self.cls = t.TypedDict("D" + self.name, self.hints, total=self.total)
            self.cls.__module__ = __name__
            for f in self.fields:
                if f.default is not NODEF:
                    setattr(self.cls, f.name, f.default)
        else:
            ns = {"__annotations__": self.hints, "__module__": __name__}
            ns.update({f.name: f.default for f in self.fields if f.default is not NODEF})
            self.cls = types.new_class("D" + self.name, (t.NamedTuple,), {}, lambda d: d.update(ns))

    def instance(self, case):
        vals = {}
        for f in self.fields:
            if self.kind == "td" and not self.total and self.implied(f) is NODEF and case.rng.random() < 0.3:
                continue  # Not required, and not there. (An absent key that has a default comes back with it.)
            vals[f.name] = value(case, f)
        return dict(vals) if self.kind == "td" else self.cls(**vals)

    def implied(self, f):
        """The default a field has: its own, or None if it is optional."""
        if f.default is not NODEF:
            return f.default
        if f.required:
            return NODEF
        optional = f.wrap == "opt" if f.child else type(None) in t.get_args(f.hint)
        if optional and self.kind != "nt":
            return None
        return NODEF


def value(case, f):
    r = case.rng
    if f.default is not NODEF and r.random() < 0.5:
        return copy.deepcopy(f.default)
    if f.child is None:
        return copy.deepcopy(r.choice(f.pool))
    one = lambda: f.child.instance(case)
    if f.wrap == "direct":
        return one()
    if f.wrap == "opt":
        return one() if r.random() < 0.6 else None
    if f.wrap == "list":
        return [one() for _ in range(r.randrange(3))]
    return {k: one() for k in r.sample(["p", "q"], r.randrange(3))}


def annotated(h, anns):
    return t.Annotated[(h, *anns)] if anns else h


def highest(cands):
    best = None
    for s in cands:
        if best is None or s.priority > best.priority:
            best = s
    return best


def expected(case, level, v, full, anns, above, local):
    """What is left of the full output of *level*. *above*: settings of call, providers, mapper, in order."""
    s = highest(list(anns) + local.get(level.cls, []) + above)
    on = s is None or s.enabled
    case.count("setting from " + s.source if s is not None else "no setting")
    out = {}
    for f in level.fields:
        if level.kind == "td" and f.name not in v:
            continue
        x = v[f.name] if level.kind == "td" else getattr(v, f.name)
        key = f.alias or f.name
        if f.flat:
            case.count("flattened")
            out.update(expected(case, f.child, x, full, f.anns, above, local))
            continue
        d = level.implied(f)
        if d is None and f.default is NODEF:
            case.count("implied None")
        equal = d is not NODEF and not x != d
        if equal and not on:
            case.count("entries omitted")
            continue
        case.count("entries kept although equal to their default" if equal else "entries kept as they differ")
        if key not in full:
            case.bad("a field is missing in the full output", key=key, full=full)
        w = full[key]
        if f.child is not None:
            if f.wrap == "direct" or f.wrap == "opt" and x is not None:
                w = expected(case, f.child, x, w, f.anns, above, local)
            elif f.wrap == "list":
                w = [expected(case, f.child, a, b, f.inner_anns, above, local) for a, b in zip(x, w)]
            elif f.wrap == "dict":
                w = {k: expected(case, f.child, x[k], w[k], f.inner_anns, above, local) for k in x}
        out[key] = w
    return out


def levels(level):
    yield level
    for f in level.fields:
        if f.child is not None:
            yield from levels(f.child)


def run(case):
    r = case.rng
    if r.random() < 0.05:
        return odd_equality(case)

    def settings(n, source="annotation"):
        out = []
        for _ in range(n):
            s = Placed(r.random() < 0.35, r.choice(PRIOS))
            object.__setattr__(s, "source", source)
            out.append(s)
        return out

    class Placed(SerializeDefaults):
        pass

    case.settings = settings
    root = Level(case, r.choice([0, 1, 2, 2]), "r")
    anns = settings(r.choice([0, 0, 0, 1]))
    T = annotated(root.cls, anns)
    # The full output, from the initial behaviour: no setting anywhere but for the highest priority saying so.
    on = SerializeDefaults(True, Priority.ULTIMATE)
    all_levels = list(levels(root))
    trivial = not any(lv.implied(f) is not NODEF for lv in all_levels for f in lv.fields)
    for _ in range(4):
        v = root.instance(case)
        mapper = get_object_mapper()
        local = {}
        for lv in all_levels:
            if r.random() < 0.15:
                ss = settings(r.choice([1, 1, 2]), "per-type")
                local[lv.cls] = ss
                for s in ss:
                    mapper.settings.add_local(lv.cls, s)
        call = settings(r.choice([0, 0, 1, 1, 2]), "call")
        prov = settings(r.choice([0, 0, 0, 1]), "provider")
        for s in prov:
            if r.random() < 0.5:
                mapper.settings.add_conditional(lambda ctx: True, s)
            else:
                mapper.settings.add_provider(lambda ctx, s=s: [s])
        glob = settings(r.choice([0, 0, 0, 1]), "global")
        for s in glob:
            mapper.settings.add_global(s)
        # Per-call settings come before the mapper's own, which is asked as their parent: one answer of it.
        case.note(type=describe(root, anns), value=v, call=show(call), providers=show(prov), mapper=show(glob), per_type={c.__name__: show(ss) for c, ss in local.items()})
        strong = any(s.priority == Priority.ULTIMATE for lv in all_levels for f in lv.fields for s in f.anns + f.inner_anns) or any(s.priority == Priority.ULTIMATE for s in anns)
        if strong:
            # No setting overrides those, so the full output is that of an equal class without them; take it by parts.
            full = rebuild(root, v)
        else:
            o = observe(dump, v, T, None, [on])
            if not o.ok:
                case.bad("a value could not be serialized", got=repr(o))
            full = o.value
            if not deep_eq(full, rebuild(root, v)):
                case.bad("with default serialization on, the output has not every field", got=full, expected=rebuild(root, v))
        if call or r.random() < 0.5:
            # With per-call settings, the mapper's per-type settings, providers and globals are behind them.
            o = observe(mapper.serialize, v, T, None, list(call))
            want = with_call(case, root, v, full, anns, call, prov, glob, local)
        else:
            o = observe(mapper.serialize, v, T)
            want = expected(case, root, v, full, anns, prov + glob, local)
        case.ev((case.index, canon(v), show(call), show(glob), show(prov)), trivial=trivial, sample=lambda: {"type": describe(root, anns)[:200], "value": short(v, 150), "output": short(o.value, 150)})
        if not o.ok:
            case.bad("a value could not be serialized", got=repr(o))
        if not deep_eq(o.value, want):
            case.bad("the output is not the full output without the fields equal to their default", got=o.value, expected=want, full=full)
        if missing_required(root, v, o.value):
            case.count("required entry omitted")
            continue
        back = observe(mapper.deserialize, o.value, T, None, list(call))
        case.count("read back")
        # (Equal, not identical: a default may equal a value of another type.)
        if not back.ok or canon(back.value) != canon(v) and not loose(back.value, v):
            case.bad("the output does not give back an equal object", output=o.value, got=repr(back), full=full)


def with_call(case, level, v, full, anns, call, prov, glob, local):
    """The mapper's settings are the parent of the call's: of each level's candidates there, the best one comes last."""
    merged = {}
    for lv in levels(level):
        parent = highest(local.get(lv.cls, []) + prov + glob)
        merged[lv.cls] = list(call) + ([parent] if parent is not None else [])
    return expected(case, level, v, full, anns, [], merged)


def loose(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def missing_required(level, v, out):
    for f in level.fields:
        if level.kind == "td" and f.name not in v:
            continue
        x = v[f.name] if level.kind == "td" else getattr(v, f.name)
        if f.flat:
            if missing_required(f.child, x, out):
                return True
            continue
        k = f.alias or f.name
        if k not in out:
            if f.required:
                return True
            continue
        if f.child is not None and x is not None:
            w = out[k]
            subs = [(x, w)] if f.wrap in ("direct", "opt") else list(zip(x, w)) if f.wrap == "list" else [(x[q], w[q]) for q in x]
            if any(missing_required(f.child, a, b) for a, b in subs):
                return True
    return False


def rebuild(level, v):
    """The full output, from the value alone."""
    out = {}
    for f in level.fields:
        if level.kind == "td" and f.name not in v:
            continue
        x = v[f.name] if level.kind == "td" else getattr(v, f.name)
        if f.flat:
            out.update(rebuild(f.child, x))
            continue
        if f.child is None:
            w = list(x) if isinstance(x, (tuple, set, list)) else dict(x) if isinstance(x, dict) else x
        elif f.wrap in ("direct", "opt"):
            w = None if x is None else rebuild(f.child, x)
        elif f.wrap == "list":
            w = [rebuild(f.child, y) for y in x]
        else:
            w = {k: rebuild(f.child, y) for k, y in x.items()}
        out[f.alias or f.name] = w
    return out


def odd_equality(case):
    """Values whose comparison is their own business."""
    r = case.rng

    @dataclasses.dataclass(eq=False)
    class ById:
        a: int = 1

    @dataclasses.dataclass(eq=False)
    class Always:
        a: int = 1

        def __eq__(self, other):
            return True

        __hash__ = None

    @dataclasses.dataclass(eq=False)
    class Never:
        a: int = 1

        def __eq__(self, other):
            return False

        def __hash__(self):
            return 1

    C = r.choice([ById, Always, Never])
    shared = C(1)

    S = dataclasses.make_dataclass("S", [("x", C, dataclasses.field(default_factory=lambda: shared)), ("y", t.Optional[C], None)])
    v = S(r.choice([shared, C(1), C(2)]), r.choice([None, C(3)]))
    omit = r.random() < 0.6
    o = observe(dump, v, S, None, [SerializeDefaults(not omit)])
    want = {}
    inner = lambda c: {} if omit and c.a == 1 else {"a": c.a}
    if not omit or v.x != shared:
        want["x"] = inner(v.x)
    if not omit or v.y != None:  # noqa
        want["y"] = None if v.y is None else inner(v.y)
    case.note(cls=C.__name__, value=v, omit=omit)
    case.count("own comparison")
    case.ev((case.index, "odd"), sample=lambda: {"class": C.__name__, "output": short(o.value, 80)})
    if not o.ok or not deep_eq(o.value, want):
        case.bad("the output is not the full output without the fields equal to their default", got=repr(o), expected=want)


def show(ss):
    return ", ".join(f"{s.source}: {s.enabled} {s.priority.name}" for s in ss) or "none"


def describe(level, anns):
    parts = []
    for f in level.fields:
        d = "" if f.default is NODEF else f" = {short(f.default, 40)}" + ("()" if f.factory else "")
        h = f"{f.wrap}[{show(f.inner_anns) if f.inner_anns else ''}] {describe(f.child, f.anns)}" if f.child else str(f.hint).replace("typing.", "")
        parts.append(f"{f.name}{'/' + f.alias if f.alias else ''}{' flat' if f.flat else ''}{' required' if f.required else ''}: {h}{d}")
    return f"{level.kind}{'' if level.total else ' non-total'} ({show(anns)}) {{{'; '.join(parts)}}}"
