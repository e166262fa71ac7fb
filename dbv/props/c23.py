"""Histories of conversions next to what each of them does first thing in a pristine copy of the process."""

import collections
import copy
import dataclasses
import datetime
import enum
import sys
import types
import typing as t
import uuid

from databind.core import Alias, DateFormat, ExtraKeys, Priority, SerializeDefaults, Settings, Strict, Union
from databind.json import JsonConverter, dump, dumps, get_object_mapper, load, loads

from dbv.common import *
from dbv.hist import alone, safe, text

ID = "C23"
CASES = {"quick": 1100, "thorough": 40000}
RULE = "one call of a history, compared with the same call alone in a copy of the process made before the history; trivial for the first call"
MINIMA = {"calls compared": 8000, "returned": 3000, "refused": 2000, "interrupted by user code": 800, "after an interruption": 800, "same call repeated": 2000, "lazy members": 300, "short-lived classes": 1000, "look-alikes": 1000, "hundreds of the same call": 20,
          "on a shared mapper": 3000, "late imports": 60, "generic classes": 150, "short-lived: enum": 30, "short-lived: lazy": 30, "short-lived: conv": 30}

SOURCE = '''
@dataclasses.dataclass
class HPost{i}:
    x: int
    y: t.Optional[str] = None

    def __post_init__(self):
        TICK("post")


@dataclasses.dataclass
class HFactory{i}:
    x: int = dataclasses.field(default_factory=lambda: TICK("factory") or 5)
    sub: t.Optional["HPost{i}"] = None


@JsonConverter.using_classmethods(serialized_type=str, serialize="to_text", deserialize="of_text")
class HConv{i}:
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is type(self) and o.s == self.s

    def __repr__(self):
        return f"HConv({{self.s!r}})"

    @classmethod
    def of_text(cls, s):
        TICK("of_text")
        if s == "decline":
            raise NotImplementedError
        return cls(s)

    def to_text(self):
        TICK("to_text")
        return self.s


@dataclasses.dataclass
class HMemberA{i}:
    a: int


@dataclasses.dataclass
class HMemberB{i}:
    b: str = "x"


HLazy{i} = t.Annotated[t.Union[HMemberA{i}, HMemberB{i}], Union({{"A": lambda: TICK("lazy") or HMemberA{i}, "B": lambda: TICK("lazy") or HMemberB{i}}}, style={style!r})]
class HCarrier{i}:
    pass


HLate{i} = t.Annotated[HCarrier{i}, Union("<import>", style="nested", nesting_key="v")]

HT{i} = t.TypeVar("HT{i}")


@dataclasses.dataclass
class HGen{i}(t.Generic[HT{i}]):
    v: HT{i}
    w: t.List[HT{i}]


@dataclasses.dataclass
class HSub{i}(HGen{i}[int]):
    z: t.Optional["HSub{i}"] = None
'''


class Interrupt(Exception):
    pass


class Interrupt2(BaseException):
    pass


LOOKALIKES = [
    # Groups of calls with types or inputs that compare equal, but are not the same.
    [("load", "1", t.Union[int, str], "lax"), ("load", "1", t.Union[str, int], "lax")],
    [("load", x, T, None) for x in (1, True, 1.0) for T in (int, float, bool, t.Any, t.List[int])],
    [("dump", x, T, None) for x in (1, True, 1.0) for T in (int, float, bool, t.Any)],
    [("load", x, t.Literal[1, "a"], None) for x in (1, "a", 2)] + [("load", x, t.Literal["a", 1], None) for x in (1, "a", 2)],
    [("load", [1, 2], T, None) for T in (t.List[int], t.Tuple[int, int], t.Tuple[int, ...], t.Set[int], t.List[float], t.Sequence[int], list, tuple, t.List[t.Any])],
    [("load", {"a": 1}, T, None) for T in (t.Dict[str, int], t.Mapping[str, float], t.OrderedDict[str, int], dict, t.Dict[str, str])],
    [("load", "2020-01-02", T, None) for T in (datetime.date, str, datetime.datetime, t.Annotated[datetime.date, DateFormat("%Y")], t.Annotated[datetime.date, DateFormat(".ISO_8601")], t.Annotated[str, "x"])],
    [("load", "5", t.Annotated[int, s], None) for s in (Strict(False), Strict(True), SerializeDefaults(False), "doc")],
    [("load", "5", int, s) for s in (None, "lax")] + [("load", "5", t.Annotated[int, "doc"], s) for s in (None, "lax")],
]


class World:
    def __init__(self):
        self.armed = None  # After how many more calls of user code one raises.
        self.kind = None
        self.ticks = 0

    def tick(self, what):
        self.ticks += 1
        if self.armed is not None:
            self.armed -= 1
            if self.armed < 0:
                self.armed = None
                raise self.kind(what)


def run(case):
    r = case.rng
    u = gen.Universe(r, gen.Profile(future=False) if r.random() < 0.7 else gen.Profile())
    case.cleanup.append(u.b.close)
    future = u.b.future
    d = r.choice([0, 1, 2])
    nodes = [u.node(d) for _ in range(r.randrange(1, 4))]
    i = u.b.uid()
    style = r.choice(["nested", "flat", "keyed"])
    w = World()
    u.b.ns = {}
    u.b.add(SOURCE.format(i=i, style=style))
    w_name = f"_tick_{u.b.name}"
    # The synthetic module finds its hook in builtins of its own namespace.
    mod_hook = types.ModuleType(w_name)
    mod_hook.TICK = w.tick
    sys.modules[w_name] = mod_hook
    case.cleanup.append(lambda: sys.modules.pop(w_name, None))
    u.b.chunks.insert(0, f"from {w_name} import TICK\nfrom databind.json import JsonConverter")
    types_ = u.build(*nodes)
    ns = u.b.ns
    case.note(module=u.b.source(), types=", ".join(n.expr for n in nodes))
    own = {k: ns[f"{k}{i}"] for k in ("HPost", "HFactory", "HConv", "HLazy", "HLate", "HGen", "HSub", "HMemberA", "HMemberB")}
    late = f"dbvlate_{u.b.name}"
    case.cleanup.append(lambda: sys.modules.pop(late, None))

    mapper = get_object_mapper()
    twin = get_object_mapper(Settings())
    globs = r.choice([[], [ExtraKeys(True)], [SerializeDefaults(False)], [Strict(False)]])
    for s in globs:
        mapper.settings.add_global(s)
    if r.random() < 0.3:
        mapper.settings.add_provider(lambda ctx: w.tick("provider") or [])
    if r.random() < 0.2:
        mapper.settings.add_conditional(lambda ctx: w.tick("predicate") or ctx.key == "x", Strict(False))

    def settings():
        k = r.random()
        if k < 0.5:
            return None
        out = [r.choice([ExtraKeys(True), ExtraKeys(True, recorder=lambda c, keys: w.tick("recorder")), ExtraKeys(False), SerializeDefaults(False), SerializeDefaults(True), Strict(False),
                         Strict(True, priority=Priority.HIGH) if False else Strict(True), Alias("x", "zz"), DateFormat("%Y/%m/%d", ".ISO_8601")]) for _ in range(r.randrange(1, 3))]
        return out

    def own_call():
        name = r.choice(["HPost", "HFactory", "HConv", "HLazy", "HLazy", "HLate", "HGen", "HSub"])
        T = own[name]
        if name == "HGen":
            case.count("generic classes")
            a = r.choice([int, str, own["HPost"], t.List[int], t.Optional[int]])
            T = own["HGen"][a]
            v = {int: 3, str: "s", own["HPost"]: {"x": 1}, t.List[int]: [1], t.Optional[int]: None}[a]
            p = {"v": v, "w": [v] * r.randrange(3)}
            val = lambda: load(p, T)
        elif name == "HSub":
            p = {"v": 1, "w": [2], "z": {"v": 3, "w": []} if r.random() < 0.5 else None}
            T = own["HSub"]
        elif name == "HPost":
            p = {"x": 1, "y": r.choice([None, "t"])}
        elif name == "HFactory":
            p = r.choice([{}, {"x": 2}, {"sub": {"x": 1}}])
        elif name == "HConv":
            p = r.choice(["a", "decline", 5])
        elif name == "HLazy":
            case.count("lazy members")
            tag = r.choice(["A", "B", "C"])
            inner = {"A": {"a": 1}, "B": {"b": "q"}, "C": {}}[tag]
            key = tag
            p = {"nested": {"type": tag, key: inner}, "flat": {"type": tag, **inner}, "keyed": {tag: inner}}[style]
        else:
            case.count("late imports")
            p = {"type": f"{late}.Late", "v": {"n": 1}}
        if r.random() < 0.25:
            p = mutate_json(p, r)
        wrap = r.random()
        if wrap < 0.2:
            p, T = [p, copy.deepcopy(p)], t.List[T]
        elif wrap < 0.3:
            p, T = {"k": p}, t.Dict[str, T]
        elif wrap < 0.4:
            T = t.Optional[T]
        return ("load", p, T)

    def dump_call():
        name = r.choice(["HPost", "HFactory", "HConv", "HLazy", "HSub", "HLate"])
        T = own[name]
        if name == "HPost":
            v = own["HPost"](1, r.choice([None, "q"]))
        elif name == "HFactory":
            v = own["HFactory"](r.choice([5, 6]), None)
        elif name == "HConv":
            v = own["HConv"]("c")
        elif name == "HLazy":
            case.count("lazy members")
            v = r.choice([own["HMemberA"](1), own["HMemberB"]("z"), own["HPost"](1)])
        elif name == "HSub":
            v = own["HSub"](1, [2], None)
        else:
            v = own["HMemberA"](4)
        return ("dump", v, T)

    calls = []
    if r.random() < 0.5:
        group = r.choice(LOOKALIKES)
        for op, x, T, lax in r.sample(group, min(len(group), r.randrange(2, 6))):
            calls.append((op, x, T, [Strict(False)] if lax else None, r.choice(["mapper", "mapper", "function"]), None))
            case.count("look-alikes")
    for _ in range(r.randrange(5, 10)):
        k = r.random()
        if k < 0.3:
            op, x, T = own_call()
        elif k < 0.45:
            op, x, T = dump_call()
        else:
            j = r.randrange(len(nodes))
            env = M.Env(r.choice(gen.GLOBS))
            T = types_[j]
            if k < 0.8:
                op, x = "load", payload(case, nodes[j], env)[1]
            else:
                op, x = "dump", nodes[j].gen(r, env)
                if r.random() < 0.2:
                    x = r.choice([object, 5, [x], {"a": x}, "x"])
        via = r.choice(["mapper", "mapper", "mapper", "twin", "function", "text"])
        calls.append((op, x, T, settings(), via, r.choice([None, None, "f.json"])))
    if r.random() < 0.5:
        # The same input with and without settings, or via another mapper: nothing may stick.
        op, x, T, s, via, fn = r.choice(calls)
        calls.append((op, x, T, None if s else settings(), "mapper", fn))

    def make(c):
        op, x, T, s, via, fn = c
        kw = {"settings": list(s)} if s is not None else {}
        if via in ("mapper", "twin"):
            m = mapper if via == "mapper" else twin
            f = m.deserialize if op == "load" else m.serialize
            return lambda: f(x, T, fn, **kw)
        if via == "function" or op == "load":
            f = load if op == "load" else dump
            return lambda: f(x, T, fn, **kw)
        return lambda: dumps(x, T, fn, **kw)

    present = r.random() < 0.5  # Whether the late module is there at first.
    state = {"late": False}

    def provide(on):
        if on and late not in sys.modules:
            m = types.ModuleType(late)
            m.Late = state.setdefault("class", dataclasses.make_dataclass("Late", [("n", int)]))
            m.Late.__module__ = late
            sys.modules[late] = m
        elif not on:
            sys.modules.pop(late, None)
        state["late"] = on

    thunks = [make(c) for c in calls]
    want = {}
    for on in (False, True):
        provide(on)
        for j, f in enumerate(thunks):
            if on and late not in repr(calls[j][1]) and "HLate" not in repr(calls[j][2]):
                want[j, True] = want[j, False]
            else:
                want[j, on] = alone(f)
    provide(present)
    done = []
    interrupted = False
    for step in range(r.randrange(12, 32)):
        if r.random() < 0.1:
            provide(not state["late"])
        if r.random() < 0.003:
            # Hundreds of times the same.
            j = r.choice([j for j in range(len(calls)) if want[j, state["late"]].startswith("refused")] or [0])
            for _ in range(r.choice([150, 400, 1200])):
                observe(thunks[j])
            observe(mapper.deserialize, "x", int)
            case.count("hundreds of the same call")
            done.append(f"call {j} hundreds of times")
            continue
        if r.random() < 0.12:
            ephemeral(case, r.choice([mapper, twin]))
            done.append("a conversion of a short-lived class")
            continue
        j = r.randrange(len(calls))
        if r.random() < 0.2:
            # Interrupted somewhere in user code, if the call gets to that many places of it.
            w.armed, w.kind = r.choice([0, 0, 1, 1, 2, 3, 5]), r.choice([Interrupt, Interrupt, ValueError, KeyError, Interrupt2, KeyboardInterrupt, RecursionError])
            before = w.armed
            try:
                thunks[j]()
            except BaseException:  # noqa
                pass
            if w.armed is None:
                case.count("interrupted by user code")
                interrupted = True
                done.append(f"call {j} interrupted")
                w.armed = None
                continue
            w.armed = None
            done.append(f"call {j}")
            continue
        o = observe(thunks[j])
        got = safe(text(o))
        case.count("calls compared")
        case.count("returned" if o.ok else "refused" if o.refused else "raised by user code or unhashable inputs")
        if interrupted:
            case.count("after an interruption")
        if f"call {j}" in done:
            case.count("same call repeated")
        if calls[j][4] == "mapper":
            case.count("on a shared mapper")
        op, x, T, s, via, fn = calls[j]
        case.ev((case.index, step, j), trivial=not done, sample=lambda: {"call": f"{op} {short(x, 100)}", "after": len(done), "outcome": got[:120]})
        if got != want[j, state["late"]]:
            case.bad("a call has another outcome after other calls than alone", call=f"{op} via {via}", input=x, type=str(T), settings=str(s), after=done, alone=want[j, state["late"]][:1500], got=got[:1500])
        done.append(f"call {j}")


KEPT = []


def ephemeral(case, mapper):
    """A class that may live for one conversion only; the next one may have its name, or its place in memory."""
    r = case.rng
    kind = r.choice(["dc", "dc", "td", "nt", "enum", "intenum", "conv", "union", "generic", "alias", "lazy", "path", "collection", "hint"])
    names = r.sample(["a", "b", "c", "d"], r.randrange(1, 4))
    case.count("short-lived classes")
    case.count("short-lived: " + kind)
    base = [ExtraKeys(False), Strict(True), SerializeDefaults(True)]
    good, bad, T = [], [], None  # [(payload, value)] and [payload]
    if kind in ("dc", "td", "nt"):
        hints = {n: r.choice([int, str]) for n in names}
        if kind == "dc":
            T = made = dataclasses.make_dataclass("Short", list(hints.items()))
        elif kind == "td":
            T, made = t.TypedDict("Short", hints), dict
        else:
            T = made = t.NamedTuple("Short", list(hints.items()))
        p = {n: 1 if h is int else "x" for n, h in hints.items()}
        good = [(p, made(**p))]
        bad = [{**p, "e": 1}, {k: v for k, v in p.items() if k != names[0]}, {**p, names[0]: None}]
    elif kind == "alias":
        al = r.choice(["u", "v", "w"])
        dflt = r.choice([1, 2, 3])
        T = dataclasses.make_dataclass("Short", [("a", t.Annotated[int, Alias(al)], dflt)])
        good = [({al: 5}, T(5))]
        bad = [{"a": 5}, {r.choice([x for x in "uvw" if x != al]): 5}]
        o = observe(mapper.deserialize, {}, T, None, base)
        if not o.ok or not deep_eq(o.value, T(dflt)):
            case.bad("a class just made is taken for another one", form=kind, payload={}, expected=dflt, got=repr(o))
    elif kind in ("enum", "intenum"):
        vals = r.sample([1, 2, 3, 4], len(names))
        B = enum.Enum if kind == "enum" else enum.IntEnum
        ann = {}
        ns = B.__prepare__("Short", (B,))
        for n, v in zip(names, vals):
            ns[n] = v
        if kind == "enum":
            ann = {n: t.Annotated[int, Alias(f"{n}{r.choice('xy')}", *r.sample(["p" + n, "q" + n], r.randrange(2)))] for n in names if r.random() < 0.6}
        ns["__annotations__"] = ann
        ns["__module__"] = __name__
        T = type(B)("Short", (B,), ns)
        good = [((v if kind == "intenum" else ann[n].__metadata__[0].aliases[0] if n in ann else n), T[n]) for n, v in zip(names, vals)]
        bad = [v for v in (1, 2, 3, 4) if v not in vals] + [None, "zzz"] if kind == "intenum" else [n for n in "abcd" if n not in names] + [None, 1] + [f"{n}{c}" for n in names for c in "xy" if n not in ann or f"{n}{c}" not in ann[n].__metadata__[0].aliases]
    elif kind == "conv":
        pre = r.choice(["x", "y", "z"])

        class Short:
            def __init__(self, s):
                self.s = s

            def __eq__(self, o):
                return type(o) is type(self) and o.s == self.s

            def to_text(self):
                return pre + self.s

            @classmethod
            def of_text(cls, s):
                return cls(s.removeprefix(pre))

        T = JsonConverter.using_classmethods(str, serialize="to_text", deserialize="of_text")(Short)
        good, bad = [(pre + "1", T("1"))], [5]
    elif kind in ("union", "lazy"):
        tags = r.sample(["A", "B", "C"], r.randrange(1, 3))
        classes = {g: dataclasses.make_dataclass("Member", [(r.choice("ab"), int)]) for g in tags}
        sty = r.choice(["nested", "flat", "keyed"])
        mk = lambda g, x: {"nested": {"type": g, g: x}, "flat": {"type": g, **x}, "keyed": {g: x}}[sty]
        mem = {g: (lambda c=c: c) if kind == "lazy" else c for g, c in classes.items()}
        if r.random() < 0.5:
            class Short:
                pass

            T = Union(mem, style=sty)(Short)
        else:
            class Carrier:
                pass

            T = t.Annotated[Carrier, Union(mem, style=sty)]
        for g, c in classes.items():
            f = dataclasses.fields(c)[0].name
            good.append((mk(g, {f: 1}), c(1)))
            bad.append(mk(g, {"b" if f == "a" else "a": 1}))
        bad += [mk(g, {"a": 1}) for g in "ABC" if g not in tags]
    elif kind == "generic":
        V = t.TypeVar("V")
        G = dataclasses.dataclass(types.new_class("Short", (t.Generic[V],), {}, lambda ns: ns.update(__annotations__={names[0]: V}, __module__=__name__)))
        arg = r.choice([int, str])
        T = G[arg]
        good, bad = [({names[0]: 1 if arg is int else "x"}, G(1 if arg is int else "x"))], [{names[0]: "x" if arg is int else 1}, {"e": 1}]
    elif kind == "path":
        parse = r.choice([str, lambda s: s * 2])
        n = r.choice([1, 2])

        class Short(uuid.UUID):
            def __init__(self, s):
                super().__init__(s * n)

            def __str__(self):
                return super().__str__().replace("-", "")[: 32 // n]

        T = Short
        x = "12345678123456781234567812345678"[: 32 // n]
        good, bad = [(x, Short(x))], [x + "1", 5]
    elif kind == "collection":
        B = r.choice([list, set, tuple, frozenset, collections.deque])
        arg = r.choice([int, str])
        T = types.new_class("Short", ({list: t.List, set: t.Set, tuple: t.Tuple, frozenset: t.FrozenSet, collections.deque: t.Deque}[B][arg if B is not tuple else (arg, ...)],), {}, lambda ns: ns.update(__module__=__name__)) if B is not tuple else t.Tuple[arg, ...]
        x = [1] if arg is int else ["x"]
        good, bad = [(x, (T if B is not tuple else tuple)(x))], [["x"] if arg is int else [1], 5, None]
    else:
        # Types without a class of their own, equal or nearly equal to each other.
        T, good, bad = r.choice([
            (t.Tuple[int, str], [([1, "x"], (1, "x"))], [["x", 1], [1]]),
            (t.Tuple[str, int], [(["x", 1], ("x", 1))], [[1, "x"], [1]]),
            (t.Tuple[int, int], [([1, 2], (1, 2))], [["x", 1], [1]]),
            (t.Dict[str, int], [({"a": 1}, {"a": 1})], [{"a": "x"}]),
            (t.Dict[str, str], [({"a": "x"}, {"a": "x"})], [{"a": 1}]),
            (t.Optional[int], [(1, 1), (None, None)], ["x"]),
            (t.Optional[str], [("x", "x"), (None, None)], [1]),
            (t.Annotated[int, Strict(True)], [(1, 1)], ["1"]),
            (t.List[t.List[int]], [([[1]], [[1]])], [[["x"]], [1]]),
            (t.List[t.Tuple[int, ...]], [([[1]], [(1,)])], [[["x"]], [1]]),
            (t.Literal["a", "b"], [("a", "a")], ["c", 1]),
            (t.Literal["c", 1], [("c", "c"), (1, 1)], ["a", True]),
        ])
    if r.random() < 0.4:
        KEPT.append(T)
        del KEPT[:-50]
    if r.random() < 0.5:
        U = T
        T, wp, wv = r.choice([(t.List[U], lambda x: [x], lambda x: [x]), (t.Dict[str, U], lambda x: {"k": x}, lambda x: {"k": x}), (t.Tuple[U, int], lambda x: [x, 1], lambda x: (x, 1)),
                              (t.Dict[str, t.List[U]], lambda x: {"k": [x]}, lambda x: {"k": [x]}), (t.Optional[U], lambda x: x, lambda x: x)])
        good, bad = [(wp(a), wv(b)) for a, b in good], [wp(x) for x in bad if x is not None]
    todo = [(p, v, True) for p, v in good] + [(p, None, False) for p in bad]
    r.shuffle(todo)
    for p, v, ok in todo[:3]:
        o = observe(mapper.deserialize, p, T, None, base)
        if ok and not o.ok or not ok and not o.refused or ok and not deep_eq(o.value, v):
            case.bad("a class just made is taken for another one", form=kind, type=str(T), payload=p, expected=repr(v) if ok else "refused", got=repr(o))
        if ok:
            o = observe(mapper.serialize, v, T, None, base)
            if not o.ok or not deep_eq(o.value, p):
                case.bad("a class just made is taken for another one", form=kind, type=str(T), value=repr(v), expected=p, got=repr(o))
