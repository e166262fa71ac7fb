"""Schemas of dataclasses spread over modules, bases and type parameters, against what Python itself says about them."""

import __future__
import dataclasses
import sys
import types
import typing as t

from databind.core import Alias, Flattened
from databind.core.schema import Field, Schema, convert_dataclass_to_schema, convert_to_schema, get_fields_expanded
from databind.core.utils import NotSet
from databind.json import dump, load
from typeapi import TypeHint

from dbv.common import *

ID = "C20"
CASES = {"quick": 5000, "thorough": 300000}
RULE = "one field of one derived schema; non-trivial if the field is inherited, of a substituted type, or named in another module"
MINIMA = {"field": 40000, "inherited field": 12000, "substituted type": 6000, "declared in another module": 6000, "overridden field": 2500, "diamond": 400, "postponed annotation": 6000,
          "quoted annotation": 3000, "shadowed class name": 1500, "undecorated class": 800, "extension dataclass": 3000, "swapped type parameters": 300, "quoted type argument of a base": 1000, "converted": 4000,
          "flattened field expanded": 1200, "expanded over several levels": 500, "expanded by a function of the caller": 250, "aliases": 800, "annotations of a schema": 1000, "expansion refused": 60}


class AnyEq:
    """Equal to everything, as unittest.mock.ANY."""

    def __eq__(self, o):
        return True

    __hash__ = object.__hash__


class Mod:
    def __init__(self, r, no, uid):
        self.name = f"dbvmod_{uid}_{no}"
        self.no = no
        self.future = r.random() < 0.4
        self.lines = ["from __future__ import annotations"] if self.future else []
        self.typing = r.choice(["t", "typing", "direct"])
        self.lines += {"t": ["import typing as t"], "typing": ["import typing"], "direct": ["from typing import *"]}[self.typing]
        self.dc = r.choice(["dataclasses", "dc"])
        self.lines += [f"import dataclasses{'' if self.dc == 'dataclasses' else ' as dc'}", "from databind.core import dataclasses as ext", "from databind.core import Required, Flattened, Alias",
                       "from dbv.props.c20 import AnyEq"]
        self.done = 0
        self.classes = {}
        self.imports = {}
        self.tvars = ["T", "U"]
        p = self.p()
        self.lines += [f"T = {p}TypeVar('T')", f"U = {p}TypeVar('U')"]

    def p(self):
        return {"t": "t.", "typing": "typing.", "direct": ""}[self.typing]

    def ref(self, r, c):
        """Text naming the class *c* in this module."""
        if c.mod is self:
            return c.name
        if c not in self.imports:
            if r.random() < 0.4:
                self.lines.append(f"import {c.mod.name}")
                self.imports[c] = f"{c.mod.name}.{c.name}"
            else:
                alias = f"Imp{len(self.imports)}"
                if c.name not in self.names and r.random() < 0.5:
                    alias = c.name
                    self.names.add(alias)
                self.lines.append(f"from {c.mod.name} import {c.name} as {alias}")
                self.imports[c] = alias
        return self.imports[c]


class C:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        self.params, self.bases, self.fields = [], [], {}
        self.decorated = True
        self.leaf = None

    def __repr__(self):
        return f"{self.mod.name}.{self.name}"

    @property
    def py(self):
        return getattr(sys.modules[self.mod.name], self.name)


class F:
    def __init__(self, name, sym, text):
        self.name, self.sym, self.text = name, sym, text


# Symbolic types: ("py", type) ("cls", C, args) ("var", C, "T") ("list"|"dict"|"opt"|"set", s) ("tuple", [s...]) ("ann", s, text, evaluate)
def subst(s, env):
    k = s[0]
    if k == "var":
        return env.get(s[2], s) if env is not None else s
    if k == "cls":
        return ("cls", s[1], [subst(a, env) for a in s[2]])
    if k in ("list", "dict", "opt", "set"):
        return (k, subst(s[1], env))
    if k == "tuple":
        return (k, [subst(a, env) for a in s[1]])
    if k == "ann":
        return (k, subst(s[1], env), *s[2:])
    return s


def ground(s):
    k = s[0]
    return k != "var" and all(ground(x) for x in ([s[1]] if k in ("list", "dict", "opt", "set", "ann") else s[1] if k == "tuple" else s[2] if k == "cls" else []))


def shape(s):
    """What the hint has to look like."""
    k = s[0]
    if k == "py":
        return s[1]
    if k == "cls":
        return (s[1].py, *[shape(a) for a in s[2]]) if s[2] else s[1].py
    if k == "opt":
        x = shape(s[1])
        if isinstance(x, tuple) and x[0] == "opt":
            return x
        return ("opt", x)
    if k == "list":
        return (list, shape(s[1]))
    if k == "set":
        return (set, shape(s[1]))
    if k == "dict":
        return (dict, str, shape(s[1]))
    if k == "tuple":
        return (tuple, *[shape(a) for a in s[1]])
    if k == "ann":
        return ("ann", shape(s[1]), s[3])
    raise AssertionError(s)


def seen(h):
    """The same of an actual hint."""
    if hasattr(h, "__metadata__"):
        return ("ann", seen(h.__origin__), tuple(map(str, h.__metadata__)))
    o = t.get_origin(h)
    if o is t.Union or o is types.UnionType:
        args = [a for a in t.get_args(h) if a is not type(None)]
        return ("opt", seen(args[0])) if len(args) == 1 and len(t.get_args(h)) == 2 else ("union", *map(seen, t.get_args(h)))
    if o is not None:
        return (o, *map(seen, t.get_args(h)))
    return h


def text(r, m, s, own, quote, base=False):
    """Source of the annotation; *quote* says whether parts may be in quotes. Names that exist later are always quoted."""
    p = m.p()
    k = s[0]

    def q(x, force=False):
        if '"' in x or "'" in x:
            return x
        if force or quote and r.random() < 0.3:
            return f'"{x}"'
        return x

    def sub(x):
        return text(r, m, x, own, quote, base)

    if k == "py":
        return q(s[1].__name__)
    if k == "var":
        return s[2]
    if k == "cls":
        late = s[1].mod is m and (s[1] is own or s[1].leaf == "later")
        n = m.ref(r, s[1])
        if s[2]:
            inner = ", ".join(sub(a) for a in s[2])
            return q(f"{n}[{inner}]", late and (base or not m.future))
        return q(n, late and (base or not m.future))
    if k == "opt":
        return f"{p}Optional[{sub(s[1])}]"
    if k == "list":
        return f"{r.choice([p + 'List', 'list']) if m.typing != 'direct' else 'List'}[{sub(s[1])}]"
    if k == "set":
        return f"{p}Set[{sub(s[1])}]"
    if k == "dict":
        return f"{p}Dict[str, {sub(s[1])}]"
    if k == "tuple":
        return f"{p}Tuple[{', '.join(sub(a) for a in s[1])}]"
    if k == "ann":
        return f"{p}Annotated[{sub(s[1])}, {s[2]}]"
    raise AssertionError(s)


COUNTER = [0]


def make(case):
    r = case.rng
    COUNTER[0] += 1
    mods = []
    out = []
    leafs = []
    for i in range(r.choice([1, 2, 2, 3])):
        m = Mod(r, i, COUNTER[0])
        m.names = {"Inner", "Node", "Item", "Later", "T", "U"}
        mods.append(m)
        # Plain structures every module has under the same names.
        for n in r.sample(["Inner", "Node", "Item"], 2):
            c = C(m, n)
            c.leaf = "before"
            c.fields = {f"{n.lower()}_{i}": F(f"{n.lower()}_{i}", ("py", int), "int")}
            m.lines += [f"@{m.dc}.dataclass", f"class {n}:", f"    {n.lower()}_{i}: int"]
            m.classes[n] = c
            leafs.append(c)
        later = C(m, "Later")
        later.leaf = "later"
        later.fields = {f"later_{i}": F(f"later_{i}", ("py", str), "str")}
        m.classes["Later"] = later
        reach = [c for c in leafs] + [later]
        body = m.lines
        for j in range(r.randrange(1, 5)):
            c = C(m, r.choice([n + str(j) for n in ("A", "B", "D", "E", "Mid", "F", "G") if n + str(j) not in m.names]))
            m.names.add(c.name)
            pool = [x for x in out]
            n = r.choice([0, 1, 1, 1, 2, 2]) if pool else 0
            bases = r.sample(pool, min(n, len(pool)))
            bases.sort(key=lambda b: -out.index(b))
            npar = r.choice([0, 0, 1, 2])
            c.params = m.tvars[:npar]
            if npar == 2 and r.random() < 0.4:
                c.params = ["U", "T"]
            c.decorated = r.random() < 0.87 or not bases

            def sym(d, c=c, reach=reach):
                k = r.random()
                if c.params and k < 0.35:
                    return ("var", c, r.choice(c.params))
                if d > 0 and k < 0.7:
                    kind = r.choice(["list", "dict", "opt", "set", "tuple", "gen"])
                    if kind == "set":
                        return ("set", ("py", r.choice([int, str])))
                    if kind == "tuple":
                        return (kind, [sym(d - 1) for _ in range(r.randrange(1, 3))])
                    if kind == "gen":
                        gs = [x for x in out if x.params and x.leaf is None]
                        if gs:
                            g = r.choice(gs)
                            return ("cls", g, [sym(d - 1) for _ in g.params])
                        kind = "list"
                    return (kind, sym(d - 1))
                if k < 0.88:
                    return ("cls", r.choice(reach), [])
                return ("py", r.choice([int, str, bool, float]))

            for b in bases:
                args = None
                if b.params:
                    if r.random() < 0.85:
                        args = [("var", c, r.choice(c.params)) if c.params and r.random() < 0.5 else sym(1) for _ in b.params]
                        # (The class itself and those after it have no name yet that a base could be written with, but in quotes.)
                        args = [("py", str) if has_late(a, c) and a[0] != "cls" else a for a in args]
                        if len(c.params) == 2 and len(b.params) == 2 and r.random() < 0.3:
                            args = [("var", c, b.params[1]), ("var", c, b.params[0])]
                            case.count("swapped type parameters")
                c.bases.append((b, args))
            names = ["f0", "f1", "f2", "f3", "f4", "f5"]
            for fn in sorted(r.sample(names, r.randrange(0 if bases else 1, 4))):
                s = sym(2)
                if r.random() < 0.07 and c.decorated:
                    s = ("opt", ("cls", c, [("var", c, v) for v in c.params]))
                if r.random() < 0.15:
                    txt, ev = r.choice([("'doc'", ("doc",)), ("Required()", None), ("Required(False)", None), ("Alias('al')", None), ("5", ("5",))])
                    s = ("ann", s, txt, ev)
                c.fields[fn] = F(fn, s, None)
            # Source
            heads = []
            for b, args in c.bases:
                n2 = m.ref(r, b)
                heads.append(n2 + (f"[{', '.join(text(r, m, a, c, r.random() < 0.4, True) for a in args)}]" if args else ""))
            if c.params:
                heads.append(f"{m.p()}Generic[{', '.join(c.params)}]")
            c.ext = r.random() < 0.3
            c.dopts = r.choice(["", "", "(eq=False)", "(kw_only=True)", "(slots=True)", "(frozen=False)"])
            if c.ext:
                c.dopts = r.choice(["", "()"])
            if any('"' in h for h in heads):
                case.count("quoted type argument of a base")
            lines = [f"class {c.name}({', '.join(heads)}):" if heads else f"class {c.name}:"]
            if c.decorated:
                lines.insert(0, f"@{'ext' if c.ext else m.dc}.dataclass{c.dopts}")
            dcm = "ext" if c.ext else m.dc
            for f in c.fields.values():
                src = text(r, m, f.sym, c, True)
                if r.random() < 0.15 and not m.future and '"' not in src:
                    src = f'"{src}"'
                f.text = src
                k = r.random() * (1 if c.decorated else 0.55)
                if k < 0.35 or c.dopts == "(slots=True)" and not c.bases and False:
                    lines.append(f"    {f.name}: {src}")
                elif k < 0.55:
                    lines.append(f"    {f.name}: {src} = {r.choice(['None', '0', repr('d'), '()', 'AnyEq()', '1.5', 'False'])}")
                elif k < 0.7:
                    lines.append(f"    {f.name}: {src} = {dcm}.field(default_factory={r.choice(['list', 'dict', 'lambda: 7'])})")
                elif k < 0.8:
                    lines.append(f"    {f.name}: {src} = {dcm}.field(init=False, default=3)")
                elif k < 0.9:
                    lines.append(f"    {f.name}: {src} = {dcm}.field(repr=False)")
                else:
                    lines.append(f"    {f.name}: {src} = {dcm}.field(default=8)")
            if r.random() < 0.2:
                lines.append(f"    CONST: {m.p()}ClassVar[int] = 4")
            if r.random() < 0.15 and bases:
                lines.append(f"    {r.choice(names)}_x = 5")
            if len(lines) == 1 or not c.fields:
                lines.append("    pass")
            c.src = lines
            # A class Python does not accept is left out.
            grow(case, m)
            keep = len(body)
            body += lines
            try:
                grow(case, m)
            except TypeError:
                del body[keep:]
                m.done = keep
                continue
            m.classes[c.name] = c
            out.append(c)
        body += [f"@{m.dc}.dataclass", "class Later:", f"    later_{i}: str"]
        grow(case, m)
        leafs.append(later)
    return mods, out, leafs


def has_late(s, own):
    k = s[0]
    if k == "cls":
        return s[1].leaf == "later" or s[1] is own or any(has_late(a, own) for a in s[2])
    return any(has_late(x, own) for x in ([s[1]] if k in ("list", "dict", "opt", "set", "ann") else s[1] if k == "tuple" else []))


def grow(case, m):
    """Execute what has been added to the source of the module since."""
    if m.name not in sys.modules:
        sys.modules[m.name] = types.ModuleType(m.name)
        case.cleanup.append(lambda: sys.modules.pop(m.name, None))
    new, m.done = m.lines[m.done:], len(m.lines)
    exec(compile("\n".join(new), f"<{m.name}>", "exec", flags=__future__.annotations.compiler_flag if m.future else 0, dont_inherit=True), sys.modules[m.name].__dict__)


def ancestry(c, args):
    """All (class, arguments or None) reachable from *c*, with type arguments substituted. None: inconsistent."""
    envs = {}

    def clash(c):
        envs[c] = ("conflict", None)
        for b, _ in c.bases:
            clash(b)

    def go(c, args):
        key = None if args is None else tuple(map(repr, args))
        if c in envs:
            if envs[c][0] != key:
                clash(c)
            return
        env = None if args is None else dict(zip(c.params, args))
        envs[c] = (key, env)
        for b, bargs in c.bases:
            go(b, None if bargs is None else [subst(a, env) for a in bargs])

    go(c, args)
    return envs


def meta(s):
    if s[2] == "Required()":
        return ("Required(enabled=True, priority=<Priority.NORMAL: 1>)",)
    if s[2] == "Required(False)":
        return ("Required(enabled=False, priority=<Priority.NORMAL: 1>)",)
    if s[2].startswith("Alias"):
        return ("Alias('al', priority=<Priority.NORMAL: 1>)",)
    return s[3]


def fill(s):
    return ("ann", s[1], s[2], meta(s)) if s[0] == "ann" else s


def sample(s, d=0):
    """(payload, value) of a ground type, or Skip."""
    k = s[0]
    if k == "py":
        return {int: (5, 5), str: ("x", "x"), bool: (True, True), float: (1.5, 1.5)}[s[1]]
    if k == "ann":
        return sample(s[1], d)
    if k == "opt":
        return (None, None) if d > 2 else sample(s[1], d + 1)
    if k == "list":
        p, v = sample(s[1], d + 1)
        return [p], [v]
    if k == "set":
        p, v = sample(s[1], d + 1)
        return [p], {v}
    if k == "dict":
        p, v = sample(s[1], d + 1)
        return {"k": p}, {"k": v}
    if k == "tuple":
        xs = [sample(a, d + 1) for a in s[1]]
        return [x[0] for x in xs], tuple(x[1] for x in xs)
    if k == "cls" and s[1].leaf:
        f = next(iter(s[1].fields.values()))
        p, v = sample(f.sym)
        return {f.name: p}, s[1].py(v)
    raise Skip("")


def run(case):
    r = case.rng
    try:
        mods, out, leafs = make(case)
    except RecursionError:
        raise Skip("too deep")
    names = [c.name for c in leafs]
    # Which declaration a Field object comes from, according to the standard library.
    if case.index % 4 == 0:
        expansion(case)
    origin = {}
    for c in out:
        if c.decorated:
            for f in c.fields.values():
                o = c.py.__dataclass_fields__.get(f.name)
                if o is not None:
                    origin[id(o)] = (c, f)
    for c in out:
        if c.leaf is not None or not dataclasses.is_dataclass(c.py):
            continue
        args = None
        hint = c.py
        if c.params and r.random() < 0.8:
            args = [r.choice([("py", int), ("py", str), ("list", ("py", int)), ("opt", ("py", int)), ("cls", r.choice(leafs), []), ("dict", ("py", bool))]) for _ in c.params]
            hint = c.py[tuple(build(a) for a in args)]
        check(case, c, args, hint, origin, names, "\n".join(x for m in mods for x in [f"# {m.name}"] + m.lines))


def build(s):
    k = s[0]
    if k == "py":
        return s[1]
    if k == "cls":
        return s[1].py
    return {"list": lambda x: t.List[x], "opt": lambda x: t.Optional[x], "dict": lambda x: t.Dict[str, x]}[k](build(s[1]))


def check(case, c, args, hint, origin, names, src):
    envs = ancestry(c, args)
    case.note(source=src, hint=str(hint))
    notes = case.rng.choice([(), (), ("x",), ("y", 5, "y")])
    if case.rng.random() < 0.5:
        notes = ()
        dc = convert_dataclass_to_schema(hint)
    else:
        dc = convert_to_schema(TypeHint(t.Annotated[(hint, *notes)] if notes else hint))
    if dc.annotations != list(notes):
        case.bad("a schema does not have the annotations of the type hint", expected=notes, got=dc.annotations)
    if notes:
        case.count("annotations of a schema")
    want = {f.name: f for f in dataclasses.fields(c.py) if f.init}
    if dc.type is not c.py:
        case.bad("the schema names another type", got=dc.type)
    if set(dc.fields) != set(want):
        case.bad("the schema does not list exactly the fields the constructor accepts", expected=sorted(want), got=sorted(dc.fields))
    diamond = sum(1 for b, _ in c.bases for x in ancestry(b, None)) > len(envs) - 1
    if diamond:
        case.count("diamond")
    if not c.decorated:
        case.count("undecorated class")
    payload, expect_attrs, convertible, wires = {}, {}, True, []
    for name, f in want.items():
        owner, spec = origin[id(f)]
        got: Field = dc.fields[name]
        key, env = envs[owner]
        s = subst(spec.sym, env)
        inherited, replaced = owner is not c, s != spec.sym
        case.count("field")
        for cond, label in ((inherited, "inherited field"), (replaced, "substituted type"), (owner.mod is not c.mod, "declared in another module"), (owner.mod.future, "postponed annotation"),
                            ('"' in spec.text, "quoted annotation"), (owner.ext, "extension dataclass"),
                            (any(name in a.fields and a.decorated for a in envs if a is not owner), "overridden field"),
                            (s[0] == "cls" and names.count(s[1].name) > 1, "shadowed class name")):
            if cond:
                case.count(label)
        case.ev((case.index, c.name, name), trivial=not inherited and not replaced, sample=lambda: {"field": f"{c}.{name}", "declared": spec.text, "type": str(got.datatype)})
        info = dict(field=name, cls=str(c), declared_in=str(owner), annotation=spec.text)
        typed = key != "conflict" and ground(s)
        if typed:
            s = expand(s)
            try:
                exp = shape(s)
            except RecursionError:
                raise Skip("too deep")
            if seen(got.datatype.hint) != exp:
                case.bad("a field of the schema does not have the type Python gives it", expected=exp, got=str(got.datatype), seen=seen(got.datatype.hint), **info)
            if s[0] == "ann":
                alias = ("al",) if any("Alias(" in str(x) for x in s[3]) else ()
                if alias:
                    case.count("aliases")
                if got.aliases != alias:
                    case.bad("a field of the schema does not have the aliases of its annotation", expected=alias, got=got.aliases, **info)
            elif got.aliases:
                case.bad("a field of the schema has aliases its annotation does not have", got=got.aliases, **info)
        # Defaults
        missing = f.default is dataclasses.MISSING or f.default is NotSet.Value
        has = not missing or f.default_factory is not dataclasses.MISSING
        if not missing and got.default is not f.default:
            case.bad("a field of the schema does not have the default Python gives it", expected=repr(f.default), got=repr(got.default), **info)
        if f.default_factory is not dataclasses.MISSING and got.default_factory is not f.default_factory:
            case.bad("a field of the schema does not have the default factory Python gives it", got=repr(got.default_factory), **info)
        if not has and got.default not in (NotSet.Value, None) or f.default_factory is dataclasses.MISSING and got.default_factory is not NotSet.Value:
            case.bad("a field of the schema has a default its declaration does not have", got=repr(got), **info)
        if typed:
            inner = s[1] if s[0] == "ann" else s
            req = not has and inner[0] != "opt"
            if s[0] == "ann" and s[2].startswith("Required"):
                req = s[2] == "Required()"
            if got.required is not req:
                case.bad("a field of the schema is not required exactly if it has neither default nor optional type, or says so", expected=req, got=got.required, **info)
            if not has and (got.default is None) != (not req):
                case.bad("an optional field without default does not default to None", got=repr(got), **info)
        # Payload for the constructor.
        wire = "al" if "Alias(" in spec.text or s[0] == "ann" and "Alias(" in str(s[3]) else name
        wires.append(wire)
        try:
            if not typed:
                raise Skip("")
            p, v = sample(s)
            payload[wire] = p
            expect_attrs[name] = v
        except Skip:
            if not has or got.required:
                convertible = False
    if convertible and len({*wires}) == len(wires):
        case.count("converted")
        o = observe(load, payload, hint)
        if not o.ok or type(o.value) is not c.py or any(not deep_eq(getattr(o.value, k), v) for k, v in expect_attrs.items()):
            case.bad("an object of the dataclass is not read by the types Python gives its fields", payload=payload, expected=expect_attrs, got=repr(o), cls=str(c))


class Foreign:
    """Not a structure, but to the function a caller passes in."""


def expansion(case):
    """get_fields_expanded(): whatever is reachable through each flattened field, at any depth."""
    r = case.rng
    T = t.TypeVar("T")
    types_ = [int, str, bool, t.List[int], t.Optional[str], t.Dict[str, float]]
    no = [0]
    own = r.random() < 0.4  # whether the caller has a function of their own
    described, expect_calls = {}, []
    clash = r.random() < 0.12
    levels = []

    def structure(d):
        """(type, its plain fields and what its flattened ones expand to)"""
        no[0] += 1
        kind = r.choice(["dataclass", "dataclass", "typed dict", "generic", "derived"] + ["foreign"] * own)
        plain, flat, decl, subs = {}, {}, [], []
        for _ in range(r.randrange(0 if d else 1, 4)):
            no[0] += 1
            n, ty = f"f{no[0]}", r.choice(types_)
            plain[n] = ty
            decl.append((n, ty))
        if d < 4:
            for _ in range(r.choice([0, 1, 1, 2]) if d else r.choice([1, 1, 2, 3])):
                no[0] += 1
                n = f"g{no[0]}"
                sub, below = structure(d + 1)
                flat[n] = below
                levels.append(d)
                hint = t.Annotated[sub, Flattened()]
                subs.append((n, sub, hint))
                decl.append((n, hint))
        if clash and plain and flat and r.random() < 0.7:
            # A name that a flattened field brings along, too.
            brought = [k for b in flat.values() for k in b]
            if brought and len(levels) < 40:
                k = r.choice(brought)
                decl.append((k, int))
                plain[k] = int
                refused.append(d)
        r.shuffle(decl)
        name = f"S{no[0]}"
        if kind == "typed dict" or kind == "foreign" and not d:
            cls = hint = t.TypedDict(name, dict(decl))
        elif kind == "foreign":
            cls = hint = type(name, (Foreign,), {})
            described[cls] = decl
        elif kind == "generic":
            at = r.choice([n for n, _ in decl if n in plain] or [None])
            cls = dataclasses.make_dataclass(name, [(n, T if n == at else x) for n, x in decl], bases=(t.Generic[T],))
            hint = cls[plain[at] if at else int]
        elif kind == "derived":
            k = r.randrange(len(decl) + 1)
            base = dataclasses.make_dataclass(name + "b", decl[:k])
            cls = hint = dataclasses.make_dataclass(name, decl[k:], bases=(base,))
        else:
            cls = hint = dataclasses.make_dataclass(name, decl)
        every = dict(plain)
        for b in flat.values():
            every.update(b)
        tops[:] = [flat]
        expect_calls.extend(sub for _, sub, _ in subs)
        return hint, every

    refused, tops = [], []
    top, _ = structure(0)
    calls = []

    def convert(h):
        calls.append(h.hint)
        inner = t.get_args(h.hint)[0] if hasattr(h.hint, "__metadata__") else h.hint
        if isinstance(inner, type) and inner in described:
            return Schema({n: Field(TypeHint(x), flattened=hasattr(x, "__metadata__")) for n, x in described[inner]}, inner, inner)
        return convert_to_schema(h)

    schema = convert_to_schema(TypeHint(top))
    o = observe(get_fields_expanded, schema, convert) if own else observe(get_fields_expanded, schema)
    case.ev((case.index, "expanded"), trivial=len(levels) < 2, sample=lambda: {"type": str(top), "expanded": repr(o)[:300]})
    info = dict(type=str(top), own_function=own, foreign=[str(x) for x in described])
    if refused:
        case.count("expansion refused")
        if o.ok or not isinstance(o.exc, RuntimeError):
            case.bad("a flattened field brings a name that its parent has, but get_fields_expanded() does not refuse it", got=repr(o), **info)
        return
    if not o.ok:
        case.bad("get_fields_expanded() fails", got=repr(o), **info)
    want = tops[0]
    case.count("flattened field expanded", len(want))
    if any(levels):
        case.count("expanded over several levels")
    if own:
        case.count("expanded by a function of the caller")
        if sorted(map(str, calls)) != sorted(str(t.Annotated[x, Flattened()]) for x in expect_calls):
            case.bad("get_fields_expanded() does not use the function it is given for every flattened field", calls=[str(x) for x in calls], expected=[str(x) for x in expect_calls], **info)
    if set(o.value) != set(want):
        case.bad("get_fields_expanded() does not list exactly the flattened fields", expected=sorted(want), got=sorted(o.value), **info)
    for k, fs in want.items():
        if {n: f.datatype.hint for n, f in o.value[k].items()} != fs:
            case.bad("get_fields_expanded() does not list exactly the fields that a flattened field brings", field=k, expected=fs, got={n: str(f.datatype) for n, f in o.value[k].items()}, **info)


def expand(s):
    """Metadata as it prints, nested optionals as typing collapses them."""
    if s[0] == "ann":
        inner = expand(s[1])
        if inner[0] == "ann":  # Annotated of Annotated is flattened.
            return ("ann", inner[1], s[2] if s[2].startswith("Required") else inner[2], inner[3] + meta(s))
        return ("ann", inner, s[2], meta(s))
    if s[0] == "opt":
        inner = expand(s[1])
        return inner if inner[0] == "opt" else ("opt", inner)
    if s[0] in ("list", "dict", "set"):
        return (s[0], expand(s[1]))
    if s[0] == "tuple":
        return ("tuple", [expand(a) for a in s[1]])
    if s[0] == "cls":
        return ("cls", s[1], [expand(a) for a in s[2]])
    return s


def probe_setting_arguments():
    m = types.ModuleType("dbvmod_probe")
    sys.modules[m.__name__] = m
    try:
        exec("from __future__ import annotations\nimport dataclasses, typing as t\nfrom databind.core import DeserializeAs\n@dataclasses.dataclass\nclass A:\n    x: int = 1\n"
             "@dataclasses.dataclass\nclass B(A):\n    pass\n@dataclasses.dataclass\nclass S:\n    a: t.Annotated[A, DeserializeAs(B)]\n", m.__dict__)
        try:
            v = load({"a": {"x": 2}}, m.S)
        except Exception as exc:
            return f"{type(exc).__name__}: {exc}"
        return None if type(v.a) is m.B else f"read as {type(v.a).__name__}"
    finally:
        del sys.modules[m.__name__]


FINDINGS = {"setting-arguments-in-string-annotations": probe_setting_arguments}
