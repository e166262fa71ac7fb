"""Member registries: random histories of registrations and lookups against a plain model, in every kind of registry."""

import collections
import dataclasses
import importlib
import types
import typing as t

from databind.core import Union
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import dump, load
from typeapi import ClassTypeHint, TypeHint

from dbv import plugins
from dbv.common import *

ID = "C15"
CASES = {"quick": 8000, "thorough": 700000}
RULE = "one lookup after a history of registrations, replacements and removals; non-trivial if the registry has members"
MINIMA = {"type of an identifier": 15000, "identifier of a type": 15000, "identifiers listed": 3000, "unknown type": 4000, "unknown identifier": 4000,
          "lookups in a chain": 8000, "written as a list": 200, "lookups through conversions": 2500, "replaced after a lookup": 600, "removed after a lookup": 300, "lazy": 4000,
          "entry points": 500, "imports": 500, "modules that cannot be imported": 200, "members given as type hints": 1500, "entry points that cannot be loaded": 300, "types by import in changing modules": 400}

DIST = "dbvplug"
IDS = ["a", "b", "alpha", "beta", "Alpha", "", "x.y", "dbvplug.mod.Alpha", "0", "type"]


def prepare(tier):
    plugins.install(DIST)


BROKEN = [f"{DIST}.{m}" for m in ("broken.Alpha", "broken2.Alpha", "broken3.Alpha", "broken", "broken3", "sub.inner.Alpha", "sub.Alpha", "broken2.X.Y")]


def failing_entry_points(case):
    """What goes wrong in the module of an entry point does not mean that there is no such entry point."""
    r = case.rng
    m = EntrypointUnionMembers(DIST + ".three")
    wrap = r.choice([lambda: m, lambda: ChainUnionMembers(m), lambda: ChainUnionMembers(StaticUnionMembers({"alpha": int}), m)])()
    for i in r.sample(["failing", "importing", "lacking", "alpha", "nope"], 3):
        want = {"failing": KeyError, "importing": ImportError, "lacking": AttributeError, "nope": ValueError}.get(i)
        try:
            got = wrap.get_type_by_id(i)
        except Exception as exc:
            got = exc
        case.ev((case.index, "failing", i), sample=lambda: {"entry point": i, "outcome": repr(got)})
        case.count("entry points that cannot be loaded")
        if isinstance(got, Exception) if want is None else not isinstance(got, want):
            case.bad("an entry point that exists but cannot be loaded is not reported as such", entry_point=i, got=repr(got), expected=getattr(want, "__name__", "a type"))
        if want in (KeyError, ImportError, AttributeError):
            case.note(entry_point=i)
            try:
                o = load({"type": i, i: {}}, t.Annotated[Carrier, Union(m)])
            except Exception as exc:
                o = exc
            if not isinstance(o, want):
                case.bad("an entry point that exists but cannot be loaded is not reported as such by a conversion", entry_point=i, got=repr(o))


def changing_modules(case):
    """A type is looked up by import where it is now, not where it was."""
    r = case.rng
    import sys
    import types

    name = f"dbvc15_{case.index}"
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    case.cleanup.append(lambda: sys.modules.pop(name, None))
    m = ImportUnionMembers()
    wrap = r.choice([m, ChainUnionMembers(m), ChainUnionMembers(StaticUnionMembers({"alpha": int}), m)])
    U = t.Annotated[Carrier, Union(wrap, style=Union.KEYED)]
    now, history = {}, []
    for _ in range(r.randrange(4, 10)):
        a = r.choice(["X", "Y"])
        op = r.choice(["set", "set", "delete", "look", "look", "look", "convert", "module"])
        history.append(f"{op} {a}")
        case.note(history=str(history))
        if op == "set":
            now[a] = dataclasses.make_dataclass(a, [("n", int, 1)], module=name)
            setattr(mod, a, now[a])
        elif op == "delete" and a in now:
            del now[a]
            delattr(mod, a)
        elif op == "module":
            mod = sys.modules[name] = types.ModuleType(name)
            vars(mod).update(now)
        elif op == "look":
            try:
                got = wrap.get_type_by_id(f"{name}.{a}")
            except ValueError:
                got = None
            case.count("types by import in changing modules")
            case.ev((case.index, str(history)), trivial=not now)
            if got is not now.get(a):
                case.bad("an import finds another type than the one that is there now", got=got, expected=now.get(a))
        elif op == "convert":
            o = observe(load, {f"{name}.{a}": {}}, U)
            if a not in now and not o.refused or a in now and not (o.ok and type(o.value) is now[a]):
                case.bad("a conversion finds another type than the one that is there now", got=repr(o))
            if a in now:
                o = observe(dump, now[a](), U)
                if not o.ok or o.value != {f"{name}.{a}": {"n": 1}}:
                    case.bad("a member given by import is not written by its name", got=repr(o))


class Carrier:
    """Not convertible by itself."""


class Types:
    def __init__(self):
        mod = importlib.import_module(DIST + ".mod")
        other = importlib.import_module(DIST + ".other")
        same = importlib.import_module(DIST + ".Same")
        top = importlib.import_module(DIST)

        @dataclasses.dataclass
        class Local:
            x: int = 1

        self.mod, self.other, self.Local = mod, other, Local
        self.pool = [mod.Alpha, mod.Beta, mod.Gamma, mod.Delta, other.Alpha, other.Beta, mod.Alpha.Nested, mod.Gamma.Nested, mod.Alpha.Nested.Deep, int, str, dict, Local,
                     same.Same, top.Top, t.Any]
        self.structs = [mod.Alpha, mod.Beta, mod.Gamma, mod.Delta, other.Alpha, other.Beta]


class Model:
    """What a registry should answer: ids in order, id -> type, type -> id."""

    def ids(self): ...
    def by_id(self, i): ...
    def of(self, ty): ...


class StaticModel(Model):
    def __init__(self, real):
        self.real, self.d, self.kind = real, {}, "static"
        self.seen = set()

    def ids(self):
        return list(self.d)

    def by_id(self, i):
        if i not in self.d:
            raise ValueError
        return self.d[i]

    def of(self, ty):
        for i, x in self.d.items():
            if x is ty or isinstance(x, TypeHint) and (x == ty or isinstance(x, ClassTypeHint) and x.type is ty):
                return i
        raise ValueError


class EntryModel(Model):
    def __init__(self, real, T, group):
        self.real, self.kind = real, "entry points"
        self.group = f"{DIST}.{group}"
        self.d = {"one": {"alpha": T.mod.Alpha, "beta": T.mod.Beta, "nested": T.mod.Gamma.Nested},
                  "two": {"beta": T.other.Beta, "gamma": T.mod.Gamma, "Alpha": T.other.Alpha}, "none": {}}[group]

    ids, by_id, of = StaticModel.ids, StaticModel.by_id, StaticModel.of


class ImportModel(Model):
    KNOWN = None

    def __init__(self, real, T):
        self.real, self.kind = real, "imports"
        self.T = T

    def ids(self):
        raise NotImplementedError

    def by_id(self, i):
        known = {f"{x.__module__}.{x.__qualname__}": x for x in self.T.pool if isinstance(x, type) and x is not self.T.Local}
        known.update({"builtins.list": list, "builtins.dict": dict, "builtins.set": set})
        known[DIST + ".mod.alias"] = self.T.mod.Alpha
        if i in known:
            return known[i]
        if i in BROKEN:
            raise ImportError
        raise ValueError

    def of(self, ty):
        if not isinstance(ty, type) or ty is self.T.Local:
            raise ValueError
        return f"{ty.__module__}.{ty.__qualname__}"


class ChainModel(Model):
    def __init__(self, real, parts):
        self.real, self.parts, self.kind = real, parts, "chain"

    def ids(self):
        out = []
        for p in self.parts:
            try:
                out += [i for i in p.ids() if i not in out]
            except NotImplementedError:
                pass
        return out

    def by_id(self, i):
        for p in self.parts:
            try:
                return p.by_id(i)
            except ValueError:
                pass
        raise ValueError

    def of(self, ty):
        for p in self.parts:
            try:
                return p.of(ty)
            except ValueError:
                pass
        raise ValueError


def run(case):
    r = case.rng
    T = Types()
    statics = []

    def registry(d):
        k = r.random()
        if d > 0 and k < 0.35:
            parts = [registry(d - 1) for _ in range(r.randrange(0, 4))]
            if r.random() < 0.4:
                # As a list given to the setting, some of its items in a short form.
                case.count("written as a list")
                given = []
                for p in parts:
                    if p.kind == "entry points" and r.random() < 0.6:
                        given.append("!" + p.group)
                    elif p.kind == "imports" and r.random() < 0.6:
                        given.append("<import>")
                    elif p.kind == "static" and r.random() < 0.6:
                        given.append(r.choice([dict, types.MappingProxyType, collections.OrderedDict])(p.real.members))
                    else:
                        given.append(p.real)
                real = Union(given).members
                if len(real.delegates) != len(parts):
                    case.bad("members given as a list are not all there", given=repr(given), got=repr(real))
                for p, q in zip(parts, real.delegates):
                    p.real = q
                return ChainModel(real, parts)
            return ChainModel(ChainUnionMembers(*[p.real for p in parts]), parts)
        if k < 0.7 or d == 2:
            m = StaticModel(r.choice([StaticUnionMembers, StaticUnionMembers, lambda: Union().members, lambda: Union({}).members])())
            statics.append(m)
            for _ in range(r.randrange(3)):
                change(m, "add")
            return m
        if k < 0.85:
            g = r.choice(["one", "one", "two", "none"])
            how = r.choice([EntrypointUnionMembers, Union.entrypoint, lambda n: Union("!" + n).members])
            return EntryModel(how(f"{DIST}.{g}"), T, g)
        return ImportModel(r.choice([ImportUnionMembers, Union.import_, lambda: Union("<import>").members])(), T)

    def change(m, op=None):
        op = op or r.choice(["add", "add", "replace", "replace", "replace", "remove", "remove", "again"])
        i = r.choice(IDS)
        if op in ("replace", "remove", "again") and m.d:
            i = r.choice(list(m.d))
        ty = r.choice(T.pool)
        if r.random() < 0.08:
            # Known by the class that is behind it.
            ty = TypeHint(r.choice([t.List[int], t.Dict[str, int], t.Set[str], T.mod.Alpha, T.other.Beta, list, T.Local, t.Deque[int], t.Annotated[int, "doc"], t.Optional[int]]))
            case.count("members given as type hints")
        if op == "again" and i in m.d:
            ty = m.d[i]
        if op == "remove":
            if i in m.d:
                if i in m.seen:
                    case.count("removed after a lookup")
                del m.d[i]
                del m.real.members[i]
                history.append(f"del {i!r}")
            return
        if i in m.seen:
            case.count("replaced after a lookup")
        m.seen.discard(i)
        how = r.choice(["register", "class name", "set", "lazy", "lazy", "def"])
        if how == "class name" and isinstance(ty, type):
            i = ty.__name__
            if m.real.register()(ty) is not ty:
                case.bad("register() did not return the type it was given")
        elif how == "register" and isinstance(ty, type):
            if m.real.register(i)(ty) is not ty:
                case.bad("register() did not return the type it was given")
        elif how == "lazy":
            case.count("lazy")
            m.real.members[i] = lambda: ty
        elif how == "def":
            case.count("lazy")

            def provider():
                return ty

            m.real.members[i] = provider
        else:
            m.real.members[i] = ty
        m.d[i] = ty
        history.append(f"{how} {i!r} = {ty}")

    if r.random() < 0.1:
        failing_entry_points(case)
    if r.random() < 0.1:
        changing_modules(case)
    history = []
    root = registry(2)
    case.note(history=history, kind=root.kind)

    def ask(fn, arg):
        try:
            return "ok", fn(arg)
        except ValueError:
            return "ValueError", None
        except ImportError:
            return "ImportError", None
        except Exception as exc:
            return f"{type(exc).__name__}: {exc}", None

    def expect_(fn, arg):
        try:
            return "ok", fn(arg)
        except ValueError:
            return "ValueError", None
        except ImportError:
            return "ImportError", None

    def lookup(m):
        what = r.choice(["id", "id", "type", "type", "list", "convert"])
        if m.kind == "chain":
            case.count("lookups in a chain")
        elif m.kind in ("entry points", "imports"):
            case.count(m.kind)
        try:
            known = m.ids()
        except NotImplementedError:
            known = []
        if what == "id":
            i = r.choice(known + [r.choice(IDS), "nope", "dbvplug.mod.Gamma.Nested", "dbvplug.mod.function", "dbvplug.mod.value", "dbvplug.nope", "dbvplug.mod", "dbvplug.mod.Nope", "dbvplug.Same",
                                  "dbvplug.Same.Same", "nopackage.X", "builtins.int", "dbvplug.mod.alias", "dbvplug.Top", "int", "dbvplug", "dbvplug.mod.Alpha.", "dbvplug..mod"])
            case.note(lookup=f"type of {i!r} in {m.kind}")
            if r.random() < 0.07:
                i = r.choice(BROKEN)
                case.note(lookup=f"type of {i!r} in {m.kind}")
            want, got = expect_(m.by_id, i), ask(m.real.get_type_by_id, i)
            if want[0] == "ImportError":
                case.count("modules that cannot be imported")
            case.count("type of an identifier")
            if want[0] != "ok":
                case.count("unknown identifier")
            elif isinstance(m, StaticModel):
                m.seen.add(i)
            if want[0] == "ok" and want[0] == got[0]:
                # And back.
                back, wback = ask(m.real.get_type_id, got[1]), expect_(m.of, got[1])
                if back != wback:
                    case.bad("the identifier of the type of an identifier is wrong", got=back, expected=wback)
        elif what == "type":
            ty = r.choice(T.pool + [T.mod.Alpha.Nested, T.mod.function, 5, None, "a", t.List[int], list, list, dict, set])
            case.note(lookup=f"identifier of {ty!r} in {m.kind}")
            want, got = expect_(m.of, ty), ask(m.real.get_type_id, ty)
            case.count("identifier of a type")
            if want[0] != "ok":
                case.count("unknown type")
            elif isinstance(m, StaticModel):
                m.seen.update(m.d)
            if want[0] == "ok" and want[0] == got[0]:
                back = ask(m.real.get_type_by_id, got[1])
                wb = expect_(m.by_id, got[1])
                if back != wb:
                    case.bad("the type of the identifier of a type is wrong", got=back, expected=wb)
        elif what == "list":
            case.note(lookup=f"identifiers of {m.kind}")
            case.count("identifiers listed")
            try:
                want = ("ok", m.ids())
            except NotImplementedError:
                want = ("NotImplementedError", None)
            try:
                got = ("ok", m.real.get_type_ids())
                if not isinstance(got[1], list):
                    case.bad("the identifiers are not given as a list", got=got[1])
            except NotImplementedError:
                got = ("NotImplementedError", None)
        else:
            # What a conversion makes of the registry right now.
            U = t.Annotated[Carrier, Union(m.real, style=Union.KEYED)]
            case.count("lookups through conversions")
            S = r.choice(T.structs)
            w = expect_(m.of, S)
            if w[0] == "ok" and expect_(m.by_id, w[1])[1] is not S:
                return  # Its identifier is that of another type in an earlier delegate.
            o = observe(dump, S(), U)
            case.note(lookup=f"dump({S.__name__}()) against {m.kind}")
            if (w[0] == "ok") != o.ok or o.ok and list(o.value) != [w[1]] or not o.ok and not o.refused:
                case.bad("serialization does not use the registry as it is now", got=repr(o), expected=w)
            i = r.choice(known + IDS)
            w = expect_(m.by_id, i)
            if w[0] == "ok" and w[1] not in T.structs:
                return
            case.note(lookup=f"load {{{i!r}: {{}}}} against {m.kind}")
            o = observe(load, {i: {}}, U)
            if (w[0] == "ok") != o.ok or o.ok and type(o.value) is not w[1] or not o.ok and not o.refused:
                case.bad("deserialization does not use the registry as it is now", got=repr(o), expected=w)
            case.ev((str(history), "convert", S.__name__, i, m.kind))
            return
        if isinstance(want[1], type) or want[1] is t.Any:
            same = got[1] is want[1]
        else:
            same = got[1] == want[1]
        case.ev((str(history), case.notes["lookup"]), trivial=not known, sample=lambda: {"history": str(history)[-160:], "lookup": case.notes["lookup"], "answer": str(got)})
        if got[0] != want[0] or not same:
            case.bad("a registry gave the wrong answer", lookup=case.notes["lookup"], got=got, expected=want)

    def everything(m):
        yield m
        for p in getattr(m, "parts", []):
            yield from everything(p)

    for _ in range(20):
        if statics and r.random() < 0.45:
            change(r.choice(statics))
        lookup(r.choice([root, r.choice(list(everything(root)))]))
        if isinstance(root, ChainModel) and r.random() < 0.1:
            m = registry(0)
            i = r.randrange(len(root.parts) + 1)
            root.parts.insert(i, m)
            root.real.delegates.insert(i, m.real)
            history.append("delegate inserted")
