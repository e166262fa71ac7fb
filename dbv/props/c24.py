"""Several threads converting on one mapper, under a scheduler and free-running, next to each call alone."""

import dataclasses
import datetime
import decimal
import enum
import importlib
import pathlib
import sys
import types
import typing as t
import uuid

from databind.core import Alias, DateFormat, ExtraKeys, Flattened, Precision, Remainder, SerializeDefaults, Strict, Union
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import get_object_mapper

from dbv import plugins
from dbv.common import *
from dbv.hist import alone, safe, text
from dbv.sched import Scheduler, run_threads
from dbv.util import ctx_path

ID = "C24"
CASES = {"quick": 900, "thorough": 60000}
RULE = "one call made by one of several threads at once, compared with the same call alone in a copy of the process; trivial if only one thread was running"
MINIMA = {"calls compared": 8000, "schedules with switches": 200, "switches": 5000, "free-running": 100, "first use of a registry": 250, "refused": 1500, "returned": 4000, "per-call settings": 1300, "rivals": 500}
DIST = "dbvplug24"


class Carrier:
    """A class without any conversion of its own."""


def prepare(tier):
    plugins.install(DIST)


SOURCE = '''
@dataclasses.dataclass
class MA{i}:
    a: int


@dataclasses.dataclass
class MB{i}:
    b: str = "x"
    me: t.Optional["MB{i}"] = None


def mk{i}():
    return dataclasses.make_dataclass("Made{i}", [("m", int)])


@Union(style={style!r})
@dataclasses.dataclass
class Base{i}(abc.ABC):
    @abc.abstractmethod
    def f(self): ...


@Union.register(Base{i}, "one")
@dataclasses.dataclass
class One{i}(Base{i}):
    n: int

    def f(self): ...


@Union.register(Base{i}, "two")
@dataclasses.dataclass
class Two{i}(Base{i}):
    sub: t.List["Base{i}"]

    def f(self): ...


LazyU{i} = t.Annotated[t.Union[MA{i}, MB{i}], Union({{"A": lambda: (PAUSE(), MA{i})[1], "B": lambda: (PAUSE(), MB{i})[1], "C": lambda: (PAUSE(), mk{i}())[1]}}, style={style!r})]
'''


def run(case):
    r = case.rng
    u = gen.Universe(r)
    case.cleanup.append(u.b.close)
    rivals = r.random() < 0.5
    nodes = [u.node(r.choice([0, 1, 2])) for _ in range(2)] if not rivals else []
    i = u.b.uid()
    style = r.choice(["nested", "flat", "keyed"])
    hook = f"_pause_{u.b.name}"
    import time

    m = types.ModuleType(hook)
    m.PAUSE = lambda: time.sleep(0)
    sys.modules[hook] = m
    case.cleanup.append(lambda: sys.modules.pop(hook, None))
    u.b.chunks.insert(0, f"from {hook} import PAUSE\nimport abc")
    u.b.add(SOURCE.format(i=i, style=style))
    hints = u.build(*[n.expr for n in nodes]) if False else u.build(*nodes)
    ns = u.b.ns
    case.note(module=u.b.source())
    other = importlib.import_module(f"{DIST}.other")
    mod = importlib.import_module(f"{DIST}.mod")
    EP = t.Annotated[Carrier, Union(EntrypointUnionMembers(f"{DIST}.{r.choice(['one', 'two'])}"), style="nested", nesting_key="v")]
    chain = t.Annotated[Carrier, Union(ChainUnionMembers(StaticUnionMembers({"A": lambda: (m.PAUSE(), ns[f"MA{i}"])[1]}), EntrypointUnionMembers(f"{DIST}.one"), ImportUnionMembers()), style="nested", nesting_key="v")]
    imp = t.Annotated[Carrier, Union("<import>", style="nested", nesting_key="v")]
    lazy, base = ns[f"LazyU{i}"], ns[f"Base{i}"]

    def shape(tag, inner):
        return {"nested": {"type": tag, tag: inner}, "flat": {"type": tag, **inner}, "keyed": {tag: inner}}[style]

    def special():
        k = r.choice(["lazy", "lazy", "lazydump", "ep", "ep", "epdump", "chain", "import", "base", "basedump"])
        case.count("first use of a registry")
        if k == "lazy":
            return "load", shape(*r.choice([("A", {"a": 1}), ("B", {"b": "y", "me": {"b": "z"}}), ("A", {"a": "no"}), ("C", {"m": 5}), ("Q", {})])), lazy
        if k == "lazydump":
            return "dump", r.choice([ns[f"MA{i}"](3), ns[f"MB{i}"]("t", ns[f"MB{i}"]()), ns[f"One{i}"](1)]), lazy
        if k == "ep":
            return "load", {"type": r.choice(["alpha", "beta", "gamma", "Alpha", "zeta"]), "v": {}}, EP
        if k == "epdump":
            return "dump", r.choice([mod.Alpha(), mod.Beta(), other.Beta(), other.Alpha(), mod.Gamma()]), EP
        if k == "chain":
            return r.choice([("load", {"type": r.choice(["A", "alpha", f"{DIST}.mod.Delta", "none.such"]), "v": {}}, chain), ("dump", r.choice([ns[f"MA{i}"](3), mod.Alpha(), mod.Delta()]), chain)])
        if k == "import":
            return "load", {"type": f"{DIST}.{r.choice(['mod.Alpha', 'other.Beta', 'mod.Nope'])}", "v": {}}, imp
        if k == "base":
            return "load", shape("two", {"sub": [shape("one", {"n": 1}), shape("two", {"sub": []})]}), base
        return "dump", ns[f"Two{i}"]([ns[f"One{i}"](3)]), base

    mapper = get_object_mapper()
    if r.random() < 0.4:
        mapper.settings.add_global(r.choice([ExtraKeys(True), SerializeDefaults(False), Strict(False)]))
    if r.random() < 0.3:
        mapper.settings.add_provider(lambda ctx: [Strict(False)] if ctx.key == "x" else [])

    def settings():
        if r.random() < 0.4:
            return None
        case.count("per-call settings")
        return r.sample(["extra", "noextra", "lax", "strict", "omit", "keep", "date"], r.randrange(1, 3))

    def make(op, x, T, names):
        f = mapper.deserialize if op == "load" else mapper.serialize

        def call():
            log = []
            ss = None
            if names is not None:
                # Made for this call: what they see must be of this call only.
                ss = [{"extra": lambda: ExtraKeys(True, recorder=lambda c, k: log.append((ctx_path(Place(c)), sorted(k)))), "noextra": lambda: ExtraKeys(False), "lax": lambda: Strict(False), "strict": lambda: Strict(True),
                       "omit": lambda: SerializeDefaults(False), "keep": lambda: SerializeDefaults(True), "date": lambda: DateFormat("%d.%m.%Y", ".ISO_8601")}[n]() for n in names]
            o = observe(lambda: (f(x, T, None, ss), log)) if op == "load" else observe(f, x, T, None, ss)
            return o

        return call

    family = r.choice(FAMILIES)() if rivals else None
    calls = []
    for _ in range(r.randrange(4, 10)):
        if rivals:
            # Calls that all keep the same converter busy with different types, settings or values.
            case.count("rivals")
            op, x, T = r.choice(family)
        elif r.random() < 0.5:
            op, x, T = special()
            if op == "load" and r.random() < 0.2:
                x = mutate_json(x, r)
        else:
            j = r.randrange(len(nodes))
            env = M.Env(r.choice(gen.GLOBS))
            T = hints[j]
            op, x = ("load", payload(case, nodes[j], env)[1]) if r.random() < 0.6 else ("dump", nodes[j].gen(r, env))
        calls.append((op, x, T, make(op, x, T, settings())))
    want = [alone(lambda c=c: unwrap(c[3]())) for c in calls]
    n = r.choice([2, 2, 3, 4, 6])
    mode = r.choice(["schedule", "schedule", "free"])
    if mode == "free":
        # No scheduler, but a switch every microsecond; more rounds instead.
        plans = [[r.randrange(len(calls)) for _ in range(r.randrange(10, 30))] for _ in range(n)]
        sched = None
        case.count("free-running")
    else:
        plans = [[r.randrange(len(calls)) for _ in range(r.randrange(1, 5) if not rivals else r.randrange(5, 20))] for _ in range(n)]
        if r.random() < 0.5:
            first = r.randrange(len(calls))
            for p in plans:
                p[0] = first  # All begin with the same thing.
        how = r.choice(["random", "random", "stores", "stores", "few"] if rivals else ["random", "random", "random", "stores", "few"])
        case.count("schedule: " + how)
        seed = f"{case.seed}:{case.index}"
        if how == "random":
            focus = r.choice([(), ("union.py",), ("union.py", "settings.py"), ("schema.py", "context.py"), ("converters.py",)])
            sched = Scheduler(n, seed, r.choice([0.02, 0.1, 0.3]), focus)
        elif how == "stores":
            sched = Scheduler(n, seed, r.choice([0.0, 0.01]), stores=r.choice([0.2, 0.5, 0.8]), holds=r.choice([(50,), (10, 100), (5, 50, 300)]))
        else:
            sched = Scheduler(n, seed, r.choice([0.003, 0.01]), holds=r.choice([(20,), (100,), (20, 200)]))
    got = [[] for _ in plans]

    def body(k):
        def go():
            for j in plans[k]:
                got[k].append(calls[j][3]())
        return go

    errors = run_threads([body(k) for k in range(n)], sched)
    if errors:
        for e in errors:
            if isinstance(e, TimeoutError):
                case.bad("threads converting at the same time did not finish")
        raise errors[0]
    if sched is not None:
        case.count("switches", sched.switches)
        case.count("points where a switch was possible", sched.points)
        if sched.impatient:
            case.count("went on without the turn", sched.impatient)
        if sched.switches:
            case.count("schedules with switches")
            case.ev(("schedule", sched.fingerprint()), sample=lambda: {"threads": n, "switches": sched.switches, "schedule": str(sched.trace[:12])})
    made = {}
    for k, plan in enumerate(plans):
        for step, j in enumerate(plan):
            o = got[k][step]
            op, x, T, _ = calls[j]
            case.count("calls compared")
            case.count("returned" if o.ok else "refused" if o.refused else "raised")
            case.ev((case.index, k, step, j), trivial=n < 2)
            s = safe(text(unwrap_outcome(o)))
            if s != want[j]:
                case.bad("a call that ran next to others in other threads has another outcome than alone", call=op, input=x, type=str(T), threads=n, mode=mode, plans=plans, alone=want[j][:1500], got=s[:1500],
                         schedule=sched and str(sched.trace[-30:]))
            v = o.value[0] if o.ok and op == "load" else None
            if v is not None and type(v).__name__ == f"Made{i}":
                made.setdefault("class", type(v))
                if made["class"] is not type(v):
                    case.bad("a lazily given member became two different types in two threads", type=str(T), threads=n, mode=mode)


def _enums():
    out = []
    for k in range(3):
        ns = enum.Enum.__prepare__("Pet", (enum.Enum,))
        ns["CAT"], ns["DOG"] = 1, 2
        ns["__annotations__"] = {"CAT": t.Annotated[int, Alias(f"cat{k}", "DOGGY")]}
        E = enum.EnumMeta("Pet", (enum.Enum,), ns)
        N = enum.IntEnum("Num", {"A": k, "B": k + 1})
        out += [("load", f"cat{k}", E), ("dump", E.CAT, E), ("load", "DOG", E), ("load", "CAT", E), ("load", f"cat{k + 1}", E), ("load", k, N), ("dump", N.B, N)]
    return out


def _structs():
    out = []
    for hints in ({"a": int}, {"a": str}, {"a": t.List[int]}, {"a": t.Annotated[int, Alias("b")]}, {"a": t.Optional[int], "b": int}, {"b": t.Annotated[t.Dict[str, int], Remainder()]}):
        D = dataclasses.make_dataclass("D", list(hints.items()))
        N = t.NamedTuple("D", list(hints.items()))
        X = t.TypedDict("D", hints)
        for T in (D, X) + (() if "Remainder" in str(hints) else (N,)):
            out += [("load", p, T) for p in ({"a": 1}, {"a": "x"}, {"b": 2}, {"a": 1, "b": 2})]
    P = dataclasses.make_dataclass("P", [("n", t.Annotated[dataclasses.make_dataclass("Q", [("x", int), ("y", int, 3)]), Flattened()]), ("z", int, 4)])
    out += [("load", {"x": 1, "z": 5}, P), ("load", {"x": 1, "y": 2}, P), ("load", {"y": 1}, P)]
    return out


FAMILIES = [
    # Tuples of the same lengths, and collections
    lambda: [("load", p, T) for T in (t.Tuple[int], t.Tuple[str], t.Tuple[bool], t.Tuple[t.Tuple[int, str], ...], t.List[int], t.List[str], t.Set[int]) for p in ([1], ["x"], [True], [[1, "x"]])]
    + [("load", p, T) for T in (t.Tuple[int, str], t.Tuple[str, int], t.Tuple[int, int], t.Deque[int], t.FrozenSet[str]) for p in ([1, "x"], ["x", 1], [1, 2])]
    + [("dump", v, T) for T in (t.Tuple[int, str], t.Tuple[str, int]) for v in ((1, "x"), ("x", 1))],
    lambda: [("load", "1.23456789", t.Annotated[decimal.Decimal, Precision(k, m)]) for k in (1, 2, 3, 5) for m in (decimal.ROUND_UP, decimal.ROUND_DOWN)] + [("load", "1.23456789", decimal.Decimal), ("load", "x", decimal.Decimal)],
    lambda: [("load", s, t.Annotated[T, DateFormat(*f)]) for T in (datetime.date, datetime.datetime) for f in (("%Y-%m-%d",), ("%d.%m.%Y", "%Y-%m-%d"), (".ISO_8601",), ("%m.%d.%Y",)) for s in ("2020-01-02", "01.02.2020", "2020-01-02T03:04:05Z")]
    + [("dump", datetime.date(2020, 1, 2), t.Annotated[datetime.date, DateFormat(f)]) for f in ("%Y", "%m", "%d.%m.%Y")],
    _enums,
    _structs,
    lambda: [("load", p, T) for T in (t.Dict[str, int], t.Dict[int, int], t.Dict[str, str], t.Dict[str, t.Dict[str, int]], t.OrderedDict[str, int]) for p in ({"a": 1}, {1: 1}, {"a": "b"}, {"a": {"b": 1}})],
    lambda: [("load", p, t.Annotated[T, s]) for T in (int, str, bool, float) for s in (Strict(True), Strict(False)) for p in ("1", 1, True, 1.0)],
    lambda: [("load", p, T) for T in (t.Union[int, str], t.Union[str, int], t.Union[t.List[int], str], t.Optional[int], t.Optional[t.Union[str, bytes]]) for p in ("1", 1, None, [1], "YQ==")],
    lambda: [("load", p, T) for T in (uuid.UUID, pathlib.Path, pathlib.PurePosixPath, t.Literal["a", 1], t.Literal[1, "b"]) for p in ("a", "b", 1, "12345678123456781234567812345678")] + [("dump", pathlib.PurePosixPath("a"), pathlib.PurePosixPath), ("dump", uuid.UUID(int=5), uuid.UUID)],
]


class Place:
    def __init__(self, ctx):
        self.context = ctx


def unwrap(o):
    """For alone(): gives back what the call gave."""
    if o.ok:
        return o.value
    raise o.exc


def unwrap_outcome(o):
    return o
