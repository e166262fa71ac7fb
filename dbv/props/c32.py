"""A TypedDict or NamedTuple next to a dataclass with the same fields (and, for serialization, to one dataclass for each field)."""

import collections
import keyword
import re
import sys
import types

from databind.json import dump, load

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C32"
CASES = {"quick": 4000, "thorough": 120000}
RULE = "one conversion under a TypedDict or NamedTuple and under the equivalent dataclass; trivial if the type has no fields"
MINIMA = {"TypedDict": 1500, "NamedTuple": 800, "load accepted": 5000, "load refused": 5000, "dump accepted": 3500, "dump refused": 1500, "a key is absent": 2000, "a required key is absent": 500, "absent when serialized": 1200,
          "required absent when serialized": 250, "key like a method": 1500, "key that is no identifier": 300, "several bases": 300, "inherited from another module": 250, "names mean something else here": 200, "default used": 400,
          "functional": 150, "non-total": 300, "both totalities": 200, "remainder": 150, "aliases": 800, "NamedTuple subclass": 110, "other mapping serialized": 100, "tuple in place of NamedTuple": 50}
METHODS = ["items", "keys", "values", "get", "update", "pop", "copy", "clear", "setdefault", "popitem", "fromkeys"]
ODD = ["class", "with-dash", "a b", "0", "é-", "$", "x.y", "None", "def"]
NTODD = ["count", "index"]


class Absent:
    def __repr__(self):
        return "<absent>"


ABSENT = Absent()


def line(name, f, default="", required=None):
    g = M.FieldSpec(name, f.node, f.aliases, f.default, required, remainder=f.remainder, anns=f.anns, meta=f.meta)
    return f"    {name}: {g.hint()}{default or M.Struct._default_src(g)}"


def make_fields(u, r, kind, case):
    out, used = [], set()
    for i in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5] if kind == "td" else [1, 2, 2, 3, 4])):
        f = u.field(r.choice([0, 0, 1]), "td" if kind == "td" else "nt")
        k = r.random()
        f.name = f"{r.choice(['f', 'name', 'x'])}{u.b.uid()}"
        if kind == "td":
            if k < 0.3:
                f.name = r.choice(METHODS)
            elif k < 0.4:
                f.name = r.choice(ODD)
            elif k < 0.5:
                f.name = r.choice(["_x", "_", "x_", "_fields", "X", "__doc", "__a__"])
        elif k < 0.15:
            f.name = r.choice(NTODD)
        f.aliases = []
        if r.random() < 0.25:
            f.aliases = [f"{w}{u.b.uid()}" for w in r.sample(["a-", "B", "c.d", "items", "é"], r.randrange(1, 3))]
            if r.random() < 0.3 and kind == "td":
                f.aliases.append(r.choice(METHODS))
            if r.random() < 0.2:
                f.aliases.insert(r.randrange(2), f.name)
        if used & {f.name, *f.keys}:
            continue
        used |= {f.name, *f.keys}
        f.required = None
        f.quote = False
        out.append(f)
    if r.random() < 0.15:
        f = M.FieldSpec(f"rest{u.b.uid()}", M.Map(r.choice(["Dict", "Mapping", "OrderedDict"]), M.Str(), u.node(0)), remainder=True)
        out.insert(r.randrange(len(out) + 1) if kind == "td" else 0, f)
    return out


def optional(f):
    return f.is_optional()


def run(case):
    r = case.rng
    kind = r.choice(["td", "td", "nt"])
    cross = r.random() < 0.25
    u = gen.Universe(r, gen.Profile(disjoint=r.random() < 0.5, future=True if cross and r.random() < 0.8 else None, comps=["opt", "opt", "union", "list", "tuple", "map", "dc", "td", "nt", "tagged", "ann", "rec", "set"]))
    case.cleanup.append(u.b.close)
    fields = make_fields(u, r, kind, case)
    names = {id(f): f.name if f.name.isidentifier() and not keyword.iskeyword(f.name) and f.name != "__doc" else f"n{i}_" for i, f in enumerate(fields)}
    identifiers = all(names[id(f)] == f.name for f in fields)
    for f in fields:
        case.count("key like a method" if f.name in METHODS + NTODD else "key that is no identifier" if names[id(f)] != f.name else "ordinary key")
        if f.remainder:
            case.count("remainder")
        if f.aliases:
            case.count("aliases")
    tail = None
    name = f"Y{u.b.uid()}"
    if kind == "td":
        case.count("TypedDict")
        if not identifiers or r.random() < 0.1:
            case.count("functional")
            tot = r.random() < 0.5
            for f in fields:
                f.notreq, f.default = not tot, M.NODEF
            src = f"{name} = t.TypedDict({name!r}, {{{', '.join(f'{f.name!r}: {f.hint()}' for f in fields)}}}, total={tot})"
            totals = {tot}
        else:
            groups = [[f] for f in fields] if r.random() < 0.2 else [fields] if r.random() < 0.4 else None
            if groups is None:
                k = r.randrange(len(fields) + 1)
                groups = [fields[:k], fields[k:]]
            groups = groups or [[]]
            if cross:
                groups.append([])
            tots = [r.random() < 0.5 for _ in groups]
            totals = {tt for tt, g in zip(tots, groups) if g}
            chain = r.random() < 0.6
            if len(groups) > 1 and not chain:
                case.count("several bases")
            parts, prev = [], []
            for i, (g, tt) in enumerate(zip(groups, tots)):
                last = i == len(groups) - 1
                nm = name if last else f"{name}_{i}"
                bases = list(prev) if last else prev[-1:] if chain else []
                if chain:
                    bases = prev[-1:]
                for f in g:
                    f.notreq = not tt
                    if not last or len(groups) > 1 or f.default is not M.NODEF and f.default[0] != "value":
                        f.default = M.NODEF
                ls = [f"    {f.name}: {f.hint()}{M.Struct._default_src(f)}" for f in g] or ["    pass"]
                if last and cross:
                    tail = (bases, tt)
                else:
                    parts.append(f"class {nm}({', '.join(bases or ['t.TypedDict'])}, total={tt}):\n" + "\n".join(ls))
                prev.append(nm)
            src = "\n\n".join(parts)
        if False in totals:
            case.count("non-total" if len(totals) == 1 else "both totalities")
    else:
        case.count("NamedTuple")
        fields.sort(key=lambda f: f.default is not M.NODEF)
        for f in fields:
            f.notreq = False
            if f.default is not M.NODEF and f.default[0] != "value":
                f.default = M.NODEF
        fields.sort(key=lambda f: f.default is not M.NODEF)
        src = f"class {name}(t.NamedTuple):\n" + "\n".join(f"    {f.name}: {f.hint()}{M.Struct._default_src(f)}" for f in fields)
        if cross:
            tail = ([name], None)
        elif r.random() < 0.2:
            case.count("NamedTuple subclass")
            body = r.choice(["    pass", "    def method(self):\n        return 1", "    __slots__ = ()", "    LIMIT: t.ClassVar[int] = 3", "    extra: int = 3\n    __slots__ = ()"])
            src += f"\n\nclass {name}s({name}):\n{body}"
            name += "s"
    u.b.add(src)
    absent = u.b.default_slot(lambda: ABSENT, False)

    def dcline(f):
        nm = names[id(f)]
        g = M.FieldSpec(nm, f.node, f.aliases or ([f.name] if nm != f.name and not f.remainder else []), f.default, None, remainder=f.remainder, anns=f.anns, meta=f.meta)
        d = ""
        if kind == "td" and f.notreq and f.default is M.NODEF and not f.remainder and not f.is_optional():
            d = f" = _D[{absent}]"
        if kind == "nt" and f.is_optional() and f.default is M.NODEF:
            g.required = True
        return f"    {nm}: {g.hint()}{d or M.Struct._default_src(g)}", g

    rows = [dcline(f) for f in fields]
    dc = f"D{u.b.uid()}"
    u.b.add(f"@dataclasses.dataclass(kw_only=True)\nclass {dc}:\n" + ("\n".join(x for x, _ in rows) or "    pass"))
    single = {}
    for f, (x, _) in zip(fields, rows):
        single[f.name] = f"D{u.b.uid()}"
        u.b.add(f"@dataclasses.dataclass(kw_only=True)\nclass {single[f.name]}:\n{x}")
    specs = []
    for f, (_, g) in zip(fields, rows):
        specs.append(M.FieldSpec(g.name, f.node, g.aliases, f.default, None, remainder=f.remainder, anns=f.anns, meta=f.meta))
    model = M.Struct(u.b, specs, "dc", options="kw_only=True")
    case.note(module=u.b.source(), types=name)
    if tail is None:
        T, D, *F = u.build(*_nodes(name, dc, *single.values()))
    else:
        D, *F = u.build(*_nodes(dc, *single.values()))
        T = elsewhere(case, u, name, tail, kind)
    one = {f.name: C for f, C in zip(fields, F)}
    mod = sys.modules[u.b.name]
    for k in range(8):
        env = M.Env(r.choice(gen.GLOBS))
        if k < 5:
            check_loads(case, u, T, D, model, fields, names, env, kind)
        else:
            check_dumps(case, u, T, D, one, model, fields, names, env, kind)


class _N:
    def __init__(self, e):
        self.expr = e


def _nodes(*names):
    return [_N(n) for n in names]


def elsewhere(case, u, name, tail, kind):
    """The type derives, in another module, from what is declared in the universe's."""
    r = case.rng
    case.count("inherited from another module")
    bases, tt = tail
    m = types.ModuleType(u.b.name + "_other")
    decoys = []
    if r.random() < 0.8:
        case.count("names mean something else here")
        decoys = [f"{x} = t.List[int]" for x in sorted(u.b.ns) if re.match(r"[A-Z]\w*\d", x)] + ["datetime = decimal = uuid = pathlib = collections = None"]
    bs = ", ".join(f"A.{b}" for b in bases) or "t.TypedDict"
    body = f"class {name}x({bs}, total={tt}):\n    pass" if kind == "td" else f"class {name}x({bs}):\n    pass"
    src = "\n".join([r.choice(["", "from __future__ import annotations"]), "import typing as t", f"import {u.b.name} as A", *decoys, body])
    sys.modules[m.__name__] = m
    case.cleanup.append(lambda: sys.modules.pop(m.__name__, None))
    case.note(other_module=src)
    exec(compile(src, f"<{m.__name__}>", "exec"), m.__dict__)
    return m.__dict__[name + "x"]


def check_loads(case, u, T, D, model, fields, names, env, kind):
    r = case.rng
    how, p = payload(case, model, env, ("valid", "valid", "mutated", "mutated", "junk"))
    if how != "junk" and isinstance(p, dict):
        p = dict(p)
        for f in fields:
            if r.random() < (0.4 if f.notreq or f.default is not M.NODEF else 0.08):
                for k in f.keys:
                    if k in p:
                        del p[k]
                        case.count("a key is absent")
                        if not f.notreq and f.default is M.NODEF and not f.is_optional():
                            case.count("a required key is absent")
    case.note(payload=p, settings=env.glob, direction="load")
    want, got = observe(load, p, D, **opts(env)), observe(load, p, T, **opts(env))
    case.ev((u.b.source(), "load", canon(p), env.glob), trivial=not fields, sample=lambda: {"type": case.notes["module"][-600:], "payload": short(p, 100), "outcome": repr(got)[:100]})
    if want.ok:
        case.count("load accepted")
        v = {f.name: getattr(want.value, names[id(f)]) for f in fields}
        v = {k: x for k, x in v.items() if x is not ABSENT}
        if not got.ok:
            case.bad("load: what the equivalent dataclass accepts is not accepted", dataclass=repr(want), got=repr(got))
        if isinstance(p, dict) and any(not any(k in p for k in f.keys) and f.default is not M.NODEF for f in fields):
            case.count("default used")
        if kind == "td":
            if type(got.value) is not dict:
                case.bad("load: the result is not a plain dict", got=repr(got))
            if set(got.value) != set(v):
                case.bad("load: the result does not have exactly the keys present or defaulted", got=repr(got), expected=sorted(v))
            if not deep_eq(got.value, v):
                case.bad("load: another result than with the equivalent dataclass", got=repr(got), expected=short(v, 1000))
        else:
            if type(got.value) is not T:
                case.bad("load: the result is no instance of the NamedTuple", got=repr(got))
            if not all(deep_eq(getattr(got.value, k), x) for k, x in v.items()):
                case.bad("load: another result than with the equivalent dataclass", got=repr(got), expected=short(v, 1000))
    elif want.refused:
        case.count("load refused")
        if not got.refused:
            case.bad("load: what the equivalent dataclass refuses is not refused", dataclass=repr(want), got=repr(got))
    else:
        case.count("load: the dataclass leaks")


def check_dumps(case, u, T, D, one, model, fields, names, env, kind):
    r = case.rng
    try:
        with M.Sabotage(r.choice([1, 2, 3, 4, 99, 99, 99, 99]), lambda node: foreign(r)):
            m = model.gen(r, env)
        vals = {f.name: getattr(m, names[id(f)]) for f in fields}
    except Exception:
        case.count("skipped: value cannot be built")
        return
    missing = False
    if kind == "td":
        for f in fields:
            if r.random() < (0.4 if f.notreq else 0.06):
                del vals[f.name]
                case.count("absent when serialized")
                if not f.notreq and not f.is_optional() and f.default is M.NODEF:
                    case.count("required absent when serialized")
                    missing = True
        v = dict(vals)
        if r.random() < 0.3:
            items = list(v.items())
            r.shuffle(items)
            v = dict(items)
        if r.random() < 0.1:
            case.count("other mapping serialized")
            v = r.choice([collections.OrderedDict, types.MappingProxyType, collections.UserDict])(v)
    else:
        v = T(**vals)
        if r.random() < 0.04:
            case.count("tuple in place of NamedTuple")
            v = tuple(v)
    case.note(value=v, settings=env.glob, direction="dump")
    got = observe(dump, v, T, **opts(env))
    case.ev((u.b.source(), "dump", canon(v), env.glob), trivial=not fields, sample=lambda: {"type": case.notes["module"][-600:], "value": short(v, 100), "outcome": repr(got)[:100]})
    if type(v) is tuple or missing:
        case.count("dump refused")
        if not got.refused:
            case.bad("dump: a value without a required key is serialized" if missing else "dump: a plain tuple is taken for the NamedTuple", got=repr(got))
        return
    want, rest = {}, {}
    refused = False
    for f in fields:
        if f.name not in vals:
            continue
        try:
            x = one[f.name](**{names[id(f)]: vals[f.name]})
        except Exception:
            case.count("skipped: value cannot be built")
            return
        o = observe(dump, x, one[f.name], **opts(env))
        if not o.ok and not o.refused:
            case.count("dump: the dataclass leaks")
            return
        if o.refused:
            refused = True
        elif f.remainder:
            rest = o.value
        else:
            want.update(o.value)
    if set(want) & set(rest):
        case.count("skipped: colliding keys")
        return
    if refused:
        case.count("dump refused")
        if not got.refused:
            case.bad("dump: a value of a field that the equivalent dataclass refuses is serialized", got=repr(got))
        return
    want.update(rest)
    case.count("dump accepted")
    if not got.ok:
        case.bad("dump: what the equivalent dataclass serializes is not serialized", got=repr(got), expected=short(want, 1000))
    if not deep_eq(got.value, want):
        case.bad("dump: another result than with the equivalent dataclass", got=repr(got), expected=short(want, 1000))
