"""Families of mappers and settings: each member behaves like a fresh one that was given the member's own history."""

import datetime
import decimal
import typing as t

from databind.core import (ClassDecoratorSetting, Converter, ConversionError, DateFormat, Direction, ExtraKeys, Module, ObjectMapper, Precision, Priority, SerializeDefaults, Setting, Settings,
                           SettingsProvider, Strict)
from databind.json import JsonModule, get_object_mapper
from databind.json.settings import JsonConverter
import dataclasses

from dbv.common import *

ID = "C34"
CASES = {"quick": 1600, "thorough": 40000}
RULE = "one probe conversion on one member of a family of mappers next to its twin; non-trivial if the family has a copy"
MINIMA = {"mapper copied": 1800, "settings copied": 1000, "converter registered": 1200, "registered after a copy": 750, "setting added": 2900, "added after a copy": 1800, "global": 900, "local": 900, "conditional": 450, "provider": 450,
          "copy of a copy": 800, "step told members apart": 15000, "conversion with settings of its own": 4000, "list of settings changed afterwards": 140, "parent": 250, "settings replaced": 220}


class Custom(Setting):
    def __init__(self, tag, priority=Priority.NORMAL):
        self.tag, self.priority = tag, priority

    def __repr__(self):
        return f"Custom({self.tag}, {int(self.priority)})"


class Custom2(Custom):
    pass


class Other(Setting):
    def __init__(self, tag, priority=Priority.NORMAL):
        self.tag, self.priority = tag, priority

    def __repr__(self):
        return f"Other({self.tag}, {int(self.priority)})"


class Probe:
    def __repr__(self):
        return "Probe()"


class Probe2(Probe):
    pass


KINDS = (Custom, Custom2, Other, Strict, DateFormat, ExtraKeys, Precision, SerializeDefaults)


class Spy(Converter):
    """Tells what the step sees."""

    def convert(self, ctx):
        if getattr(ctx.datatype, "type", None) in (Probe, Probe2) or isinstance(ctx.value, Probe):
            return tuple(ctx.get_setting(k) for k in KINDS)
        raise NotImplementedError


class Marker(Converter):
    def __init__(self, tag, types_, how):
        self.tag, self.types_, self.how = tag, types_, how

    def __repr__(self):
        return f"Marker({self.tag})"

    def convert(self, ctx):
        if getattr(ctx.datatype, "type", None) not in self.types_:
            raise NotImplementedError
        if self.how == "refuse":
            raise ConversionError(self, ctx, f"refused by {self.tag}")
        if self.how == "s" and ctx.direction.is_deserialize() or self.how == "d" and ctx.direction.is_serialize():
            raise NotImplementedError
        return ("marked", self.tag)


class MyMapper(ObjectMapper):
    pass


class MySettings(Settings):
    def __len__(self):
        return len(self.global_settings)


@dataclasses.dataclass
class Rec:
    a: int = 3
    b: t.List[datetime.date] = dataclasses.field(default_factory=list)


class Sh:
    """Settings, and what was done to them."""

    def __init__(self, real, cls, given, parent, hist):
        self.real, self.cls, self.given, self.parent, self.hist = real, cls, given, parent, hist

    def twin(self, memo):
        if id(self) not in memo:
            s = self.cls(self.parent.twin(memo) if self.parent else None, list(self.given) if self.given is not None else None)
            for f in self.hist:
                f(s)
            memo[id(self)] = s
        return memo[id(self)]


class Mh:
    def __init__(self, real, make, sh, hist, copied=0):
        self.real, self.make, self.sh, self.hist, self.copied = real, make, sh, hist, copied

    def twin(self):
        m = self.make(self.sh.twin({}))
        for f in self.hist:
            f(m)
        return m


def spied(settings):
    m = get_object_mapper(settings)
    m.module.register(Spy(), first=True)
    return m


def plain(settings):
    m = ObjectMapper(settings)
    m.module.register(Spy())
    return m


def mine(settings):
    m = MyMapper(settings)
    m.module.register(Spy())
    m.module.register(JsonModule())
    return m


PROBES = [(Direction.DESERIALIZE, 1, Probe), (Direction.SERIALIZE, Probe2(), Probe2), (Direction.SERIALIZE, [Probe()], t.List[Probe]), (Direction.DESERIALIZE, {"k": 0}, t.Dict[str, Probe2]), (Direction.DESERIALIZE, "5", int),
          (Direction.DESERIALIZE, 5, int), (Direction.SERIALIZE, 5, int), (Direction.SERIALIZE, "x", str), (Direction.DESERIALIZE, "x", str), (Direction.SERIALIZE, datetime.date(2024, 2, 3), datetime.date), (Direction.DESERIALIZE, "2024-02-03", datetime.date),
          (Direction.SERIALIZE, decimal.Decimal("1.23456"), decimal.Decimal), (Direction.DESERIALIZE, {"a": "7", "b": ["2024-01-01"], "z": 1}, Rec), (Direction.SERIALIZE, Rec(), Rec), (Direction.DESERIALIZE, [1, "2", None], t.List[t.Optional[int]])]


def probe(m, p, settings=None):
    try:
        v = m.convert(*p, settings=settings)
    except ConversionError as exc:
        return ("refused", type(exc), str(exc))
    return ("ok", v)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "refused":
        return a[1:] == b[1:]
    return alike(a[1], b[1])


def alike(a, b):
    """Equal, settings being compared by identity."""
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, Setting):
        return a is b
    return type(a) is type(b) and a == b


def run(case):
    r = case.rng
    n = [0]
    log = []

    def setting():
        n[0] += 1
        p = r.choice([Priority.LOW, Priority.NORMAL, Priority.NORMAL, Priority.HIGH])
        k = r.choice([Custom, Custom, Custom2, Other, Strict, DateFormat, ExtraKeys, Precision, SerializeDefaults])
        if k in (Strict, SerializeDefaults):
            return k(r.random() < 0.5, priority=p)
        if k is ExtraKeys:
            return ExtraKeys(r.random() < 0.5)
        if k is DateFormat:
            return DateFormat(r.choice(["%d.%m.%Y", "%Y-%m-%d", "%Y%m%d"]), priority=p)
        if k is Precision:
            return Precision(r.randrange(1, 6), priority=p)
        return k(n[0], p)

    def marker():
        n[0] += 1
        return Marker(n[0], tuple(r.sample([int, str, Probe, Probe2, datetime.date, Rec], r.choice([1, 1, 2]))), r.choice(["both", "both", "both", "s", "d", "refuse"]))

    shs, mhs = [], []
    shared_list = [setting() for _ in range(r.randrange(3))]

    def new_settings():
        cls = r.choice([Settings, Settings, MySettings])
        parent = r.choice(shs) if shs and r.random() < 0.4 else None
        k = r.random()
        if k < 0.3:
            given = lst = None
        elif k < 0.65:
            lst = shared_list
            given = list(lst)
        else:
            lst = [setting() for _ in range(r.randrange(3))]
            given = list(lst)
        if parent:
            case.count("parent")
        real = cls(parent.real if parent else None, lst)
        if lst is not None and lst is not shared_list and r.random() < 0.4:
            # The caller's list is the caller's.
            lst.append(setting())
            case.count("list of settings changed afterwards")
        sh = Sh(real, cls, given, parent, [])
        shs.append(sh)
        log.append(f"settings {len(shs) - 1} made from {given}, parent {shs.index(parent) if parent else None}")
        return sh

    def new_mapper():
        make = r.choice([spied, spied, plain, mine])
        if r.random() < 0.3:
            real = make(None)
            sh = Sh(real.settings, Settings, None, None, [])
            shs.append(sh)
        else:
            sh = new_settings()
            if r.random() < 0.15:
                case.count("settings copied")
                sh = Sh(sh.real.copy(), sh.cls, sh.given, sh.parent, list(sh.hist))
                shs.append(sh)
            real = make(sh.real)
        mhs.append(Mh(real, make, sh, []))
        log.append(f"mapper {len(mhs) - 1} made by {make.__name__} with settings {shs.index(sh)}")

    def add(sh):
        s = setting()
        how = r.choice(["global", "global", "local", "local", "conditional", "provider"])
        case.count(how)
        case.count("setting added")
        if any(m.copied for m in mhs):
            case.count("added after a copy")
        if how == "global":
            f = lambda x: x.add_global(s)
        elif how == "local":
            T = r.choice([int, Probe, Probe2, datetime.date, decimal.Decimal, Rec, str])
            f = lambda x: x.add_local(T, s)
        elif how == "conditional":
            d = r.choice(list(Direction))
            f = lambda x: x.add_conditional(lambda ctx: ctx.direction is d, s)
        else:
            f = lambda x: x.add_provider(lambda ctx: [s])
        f(sh.real)
        sh.hist.append(f)
        log.append(f"{how} {s!r} added to settings {shs.index(sh)}")

    def compare(what):
        seen = {}
        ps = r.sample(PROBES, 4)
        if r.random() < 0.5:
            ps.append(PROBES[0])
        for p in ps:
            outs = []
            for i, m in enumerate(mhs):
                case.note(history=list(log), probe=repr(p), member=i)
                got = probe(m.real, p)
                want = probe(twins[i], p)
                outs.append(got)
                case.ev((case.index, len(log), i, repr(p)), trivial=not any(x.copied for x in mhs), sample=lambda: {"history": log[-6:], "probe": repr(p), "outcome": short(got, 100)})
                if not same(got, want):
                    case.bad(f"{what}: a mapper does not behave like one that was given its own history", got=short(got, 800), expected=short(want, 800))
            if any(not same(o, outs[0]) for o in outs):
                case.count("step told members apart")

    new_mapper()
    for step in range(r.randrange(6, 16)):
        k = r.random()
        if k < 0.08 or not mhs:
            new_mapper()
        elif k < 0.32 and len(mhs) < 6:
            m = r.choice(mhs)
            case.count("mapper copied")
            if m.copied:
                case.count("copy of a copy")
            real = m.real.copy()
            if type(real) is not type(m.real) or type(real.settings) is not type(m.real.settings):
                case.bad("the copy is of another type", got=repr(real), original=repr(m.real))
            if real.settings is m.real.settings or real.module is m.real.module:
                case.count("copy shares an object")
            sh = Sh(real.settings, m.sh.cls, m.sh.given, m.sh.parent, list(m.sh.hist))
            shs.append(sh)
            mhs.append(Mh(real, m.make, sh, list(m.hist), m.copied + 1))
            m.copied = m.copied or 1
            log.append(f"mapper {len(mhs) - 1} copied from {mhs.index(m)}, its settings are {len(shs) - 1}")
        elif k < 0.4:
            sh = r.choice(shs)
            case.count("settings copied")
            shs.append(Sh(sh.real.copy(), sh.cls, sh.given, sh.parent, list(sh.hist)))
            log.append(f"settings {len(shs) - 1} copied from {shs.index(sh)}")
            # Used by a mapper of its own, so that what it does can be seen.
            mhs.append(Mh(plain(shs[-1].real), plain, shs[-1], []))
            log.append(f"mapper {len(mhs) - 1} made with them")
        elif k < 0.75:
            add(r.choice(shs) if r.random() < 0.4 else r.choice(mhs).sh)
        elif k < 0.9:
            m = r.choice(mhs)
            case.count("converter registered")
            if any(x.copied for x in mhs):
                case.count("registered after a copy")
            c = marker()
            if r.random() < 0.2:
                mod = Module(f"mod{n[0]}")
                for _ in range(r.randrange(3)):
                    mod.register(marker(), first=r.random() < 0.5)
                mod.register(c)
                c = mod
            first = r.random() < 0.6
            f = lambda x, c=c, first=first: x.module.register(c, first=first)
            f(m.real)
            m.hist.append(f)
            log.append(f"{c} registered with mapper {mhs.index(m)}{' first' if first else ''}: {[(q.types_, q.how) for q in (c.converters if isinstance(c, Module) else [c])]}")
        elif k < 0.93:
            m = r.choice(mhs)
            case.count("settings replaced")
            sh = new_settings()
            m.real.settings = sh.real
            m.sh = sh
            log.append(f"mapper {mhs.index(m)} now has settings {shs.index(sh)}")
        if r.random() < 0.5:
            # Settings of one conversion leave no trace.
            m = r.choice(mhs)
            case.count("conversion with settings of its own")
            lst = [setting() for _ in range(r.randrange(4))]
            keep = list(lst)
            p = r.choice(PROBES)
            got = probe(m.real, p, lst)
            if len(lst) != len(keep) or any(a is not b for a, b in zip(lst, keep)):
                case.bad("the list of settings given to a conversion was changed", history=list(log), given=repr(keep), now=repr(lst))
            want = probe(m.twin(), p, list(lst))
            if not same(got, want):
                case.note(history=list(log), probe=repr(p), member=mhs.index(m))
                case.bad("conversion with settings of its own: a mapper does not behave like one that was given its own history", got=short(got, 800), expected=short(want, 800), settings=repr(lst))
        twins = [m.twin() for m in mhs]
        compare("after " + log[-1])
