"""Random type universes: synthetic modules full of types, each with its reference model."""

import typing as t

from dbv import model as M
from dbv.core import Case, Skip

LEAVES = ["int", "float", "str", "bool", "bytes", "decimal", "uuid", "path", "duration", "date", "time", "datetime",
          "literal", "enum", "intenum", "flag", "any", "object"]
COMPS = ["opt", "union", "list", "set", "tuple", "map", "dc", "td", "nt", "gen", "tagged", "ann", "rec", "desas", "usercoll", "usermap"]
METAS = ["'doc'", "42", "t.Any", "('a', 1)", "object()", "'x' * 3", "Priority.LOW", "int", "[1, 2]", "{'a': 1}"]


class Profile:
    def __init__(
        self,
        leaves: t.Sequence[str] = LEAVES,
        comps: t.Sequence[str] = COMPS,
        disjoint: bool = True,  # members of plain unions have disjoint wire forms
        flat: bool = True,
        remainder: bool = True,
        aliases: bool = True,
        defaults: bool = True,
        required: bool = True,
        inherit: bool = True,
        extra: bool = True,
        settings: bool = True,  # settings in annotations
        metas: bool = True,
        td_notreq: bool = True,
        future: t.Optional[bool] = None,
        strict_ann: bool = True,
    ) -> None:
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})


SIMPLE = Profile(leaves=["int", "str", "bool"], comps=["opt", "list", "tuple", "map", "dc"], metas=False, settings=False)
GROUPS = {"int": "num", "float": "num", "str": "text", "bool": "bool", "bytes": "text", "decimal": "text", "uuid": "text", "path": "text",
          "date": "text", "time": "text", "datetime": "text", "enum": "text", "intenum": "num", "flag": "text"}


class Universe:
    def __init__(self, rng: t.Any, profile: t.Optional[Profile] = None, label: str = "") -> None:
        self.r = rng
        self.p: t.Any = profile or Profile()
        self.b = M.Builder(rng, self.p.future, label)
        self.structs = 0
        self.types: t.Dict[int, t.Any] = {}

    # leaves

    def leaf(self, names: t.Optional[t.Sequence[str]] = None) -> M.Node:
        r = self.r
        name = r.choice(list(names or self.p.leaves))
        simple = {"int": M.Int, "float": M.Float, "str": M.Str, "bool": M.Bool, "bytes": M.Bytes, "decimal": M.DecimalN, "uuid": M.UUIDN,
                  "duration": M.DurationN, "date": M.DateN, "time": M.TimeN, "datetime": M.DatetimeN, "any": M.Any_, "object": M.Object_}
        if name in simple:
            return simple[name]()
        if name == "path":
            return M.PathN(r.choice(["Path", "PurePath", "PurePosixPath", "PureWindowsPath", "PosixPath"]))
        if name == "literal":
            pool = r.choice([["a", "b", "c"], [2, 3, 5], ["x", 7, "y"], ["on", None], [True, "z"], ["only"], ["None", "null", 1], ["true", "0", False], ["", "1"]])
            return M.LiteralN(r.sample(pool, r.randrange(1, len(pool) + 1)))
        if name == "enum":
            return M.EnumN(self.b, "enum", mixin=r.choice(["", "", "str", "int"]))
        if name == "intenum":
            return M.EnumN(self.b, "int")
        if name == "flag":
            return M.EnumN(self.b, "flag")
        raise AssertionError(name)

    def names(self, *allowed: str) -> t.List[str]:
        return [x for x in self.p.leaves if x in allowed]

    def hashable(self, d: int) -> M.Node:
        names = [x for x in self.p.leaves if x not in ("any", "object", "duration")]
        k = self.r.random()
        if k < (0.1 if d > 0 else 0.05) and "opt" in self.p.comps:
            return M.Opt(self.leaf(names))
        if d > 0 and k < 0.2 and "tuple" in self.p.comps:
            return M.Tup([self.leaf(names) for _ in range(self.r.randrange(3))])
        if d > 0 and k < 0.25 and "set" in self.p.comps:
            return M.Coll("FrozenSet", self.leaf(names))
        return self.leaf(names)

    def element(self, d: int) -> M.Node:
        """Of a set; now and then one whose values cannot be in a set."""
        k = self.r.random()
        if k < 0.08 and "any" in self.p.leaves:
            return M.Any_()
        if k < 0.13 and d > 0:
            return self.node(d)
        return self.hashable(d)

    def keyish(self) -> M.Node:
        names = self.names("str", "bytes", "decimal", "uuid", "path", "date", "time", "datetime", "enum", "flag")
        if not names or self.r.random() < 0.5:
            return M.Str()
        return self.leaf(names)

    # composites

    def node(self, d: int = 2) -> M.Node:
        r = self.r
        if d <= 0 or r.random() < 0.18 or not self.p.comps:
            return self.leaf()
        return self.comp(r.choice(list(self.p.comps)), d)

    def comp(self, c: str, d: int) -> M.Node:
        r = self.r
        if c == "opt":
            n = self.node(d - 1)
            while isinstance(n, (M.Opt, M.LiteralN)):
                n = self.node(d - 1)
            return M.Opt(n, r.randrange(2))
        if c == "union":
            return self.union(d)
        if c == "list":
            kinds = ["List", "list", "Deque", "VarTuple", "vartuple", "Sequence", "MutableSequence", "Collection"]
            return M.Coll(r.choice(kinds), self.node(d - 1))
        if c == "set":
            return M.Coll(r.choice(["Set", "FrozenSet", "AbstractSet", "MutableSet"]), self.element(d - 1))
        if c == "tuple":
            return M.Tup([self.node(d - 1) for _ in range(r.choice([0, 1, 2, 3]))], r.random() < 0.5)
        if c == "map":
            return M.Map(r.choice(list(M.Map.KINDS)), self.keyish(), self.node(d - 1))
        if c == "dc":
            return self.struct(d, "xdc" if r.random() < 0.2 else "dc")
        if c == "td":
            return self.struct(d, "td")
        if c == "nt":
            return self.struct(d, "nt")
        if c == "gen":
            return self.generic(d)
        if c == "tagged":
            return self.tagged(d)
        if c == "ann":
            return self.ann(self.node(d - 1))
        if c == "rec":
            return self.recursive(d)
        if c == "desas":
            base = M.Struct(self.b, [self.field(d - 1, plain=True)])
            sub = M.Struct(self.b, [self.field(d - 1, plain=True)], base=base)
            if self.b.future:
                # Names inside of annotation arguments are not resolved in postponed annotations (see known findings).
                return sub
            return M.DesAs(base, sub)
        if c == "usercoll":
            base = r.choice(["t.List", "t.Set", "t.Deque", "t.FrozenSet"])
            return M.UserColl(self.b, base, self.element(d - 1) if "Set" in base else self.node(d - 1))
        if c == "usermap":
            return M.Map("user", self.keyish(), self.node(d - 1), self.b)
        raise AssertionError(c)

    def ann(self, n: M.Node) -> M.Node:
        r = self.r
        anns: t.Dict[str, t.Any] = {}
        metas: t.List[str] = []
        if self.p.settings and r.random() < 0.6:
            for kind in r.sample(["strict", "extra", "serdef"], r.randrange(1, 3)):
                if kind == "strict" and not self.p.strict_ann:
                    continue
                anns[kind] = r.random() < 0.5
        if self.p.metas:
            metas = r.sample(METAS, r.randrange(0 if anns else 1, 3))
        if not anns and not metas:
            return n
        if isinstance(n, (M.UnionN, M.Tagged)) or isinstance(n, M.Ann) and isinstance(n.inner, (M.UnionN, M.Tagged)):
            anns = {}
            if not metas:
                return n
        return M.Ann(n, anns, metas)

    def union(self, d: int) -> M.Node:
        r = self.r
        pool: t.List[M.Node] = []
        groups: t.Set[str] = set()
        tnames: t.Set[str] = set()
        n = r.randrange(2, 5)
        for _ in range(12):
            if len(pool) >= n:
                break
            k = r.random()
            if k < 0.7 or d <= 0:
                name = r.choice([x for x in self.p.leaves if x in GROUPS])
                g, m = GROUPS[name], None
                if self.p.disjoint and (name == "intenum" and "bool" in groups or name == "bool" and "ie" in groups):
                    continue
            elif k < 0.85 and "list" in self.p.comps:
                g, name = "list", ""
            else:
                g, name = "obj", ""
            if self.p.disjoint and g in groups:
                continue
            if name:
                m = self.leaf([name])
            elif g == "list":
                m = M.Coll(r.choice(["List", "Deque", "Sequence"]), self.leaf())
            elif "dc" in self.p.comps:
                m = self.struct(d - 1, "dc", optional_free=True)
            else:
                continue
            assert m is not None
            if m.tname is None or m.tname in tnames:
                continue
            groups.add(g)
            if name == "intenum":
                groups.add("ie")
            tnames.add(m.tname)
            pool.append(m)
        if len(pool) < 2:
            return self.leaf()
        pipe = not self.b.future and False
        return M.UnionN(pool, pipe)

    def fname(self, kind: str) -> str:
        i = self.b.uid()
        if kind == "td" and self.r.random() < 0.2:
            return self.r.choice(["items", "keys", "values", "get", "update", "class", "with-dash", "a b"]) + ("" if self.r.random() < 0.5 else str(i))
        return self.r.choice(["f", "name", "type_", "value", "data", "x", "Up", "\u00e9"] + ["_p"] * (kind != "nt")) + str(i)

    def field(self, d: int, kind: str = "dc", plain: bool = False, node: t.Optional[M.Node] = None, frozen: bool = False) -> M.FieldSpec:
        r = self.r
        name = self.fname(kind)
        n = node or self.node(d)
        aliases: t.List[str] = []
        default: t.Any = M.NODEF
        required = None
        anns: t.Dict[str, t.Any] = {}
        metas: t.List[str] = []
        if not plain:
            if self.p.aliases and r.random() < 0.3 and kind != "nt":
                i = self.b.uid()
                aliases = [f"{w}{i}" for w in r.sample(["a-", "B", "c.d", "type", "\u00e9", "_", "0"], r.randrange(1, 4))]
                if r.random() < 0.2:
                    aliases.insert(r.randrange(len(aliases) + 1), name)
            if self.p.defaults and r.random() < 0.35 and kind in ("dc", "xdc", "nt", "td"):
                default = self.default(n, kind)
            if self.p.required and r.random() < 0.15 and kind in ("dc", "xdc"):
                # A required field is left out on request when it equals its default, so such a payload does not load.
                required = r.random() < 0.6 and default is M.NODEF
                if default is M.NODEF and not required and not isinstance(n, M.Opt):
                    required = None
            if self.p.metas and r.random() < 0.15:
                metas = [r.choice(METAS)]
            if self.p.settings and r.random() < 0.15 and not isinstance(n, (M.Tagged, M.UnionN)):
                k = r.choice(["strict", "extra", "serdef"])
                if k != "strict" or self.p.strict_ann:
                    anns = {k: r.random() < 0.5}
        return M.FieldSpec(name, n, aliases, default, required, anns=anns, meta=metas, quote=kind == "dc" and not self.b.future and "DeserializeAs" not in n.expr and r.random() < 0.15)

    def default(self, n: M.Node, kind: str) -> t.Any:
        inner: t.Any = n
        while isinstance(inner, (M.Ann, M.Opt)):
            inner = inner.inner
        leaves = (M.Int, M.Float, M.Str, M.Bool, M.Bytes, M.DecimalN, M.UUIDN, M.PathN, M.DateN, M.TimeN, M.DatetimeN, M.LiteralN)
        builtin = isinstance(inner, leaves)
        env = M.Env()
        r = self.r
        if builtin:
            return ("value", self.b.default_slot(lambda: n.gen(r, env, 1), False))
        fixed = isinstance(inner, M.Coll) and inner.made in (tuple, frozenset) and isinstance(inner.item, leaves) or isinstance(inner, M.Tup) and all(isinstance(x, leaves) for x in inner.items)
        if fixed and r.random() < 0.5:
            # What Python takes for a default without a factory.
            return ("value", self.b.default_slot(lambda: n.gen(r, env, 1), False))
        if kind in ("nt", "td") or self.uses_params(n):
            return M.NODEF
        return ("factory", self.b.default_slot(lambda: n.gen(r, env, 1), True))

    def uses_params(self, n: t.Any) -> bool:
        if isinstance(n, (M.Param, M.Rec)):
            return True
        if isinstance(n, M.Struct):
            return False
        for a in ("inner", "item", "k", "v", "struct"):
            x = getattr(n, a, None)
            if isinstance(x, M.Node) and self.uses_params(x):
                return True
        return any(self.uses_params(x) for a in ("items", "members", "args") for x in (lambda v: v.values() if isinstance(v, dict) else v if isinstance(v, list) else [])(getattr(n, a, [])))

    def struct(self, d: int, kind: str = "dc", optional_free: bool = False, flatten_depth: int = 2, allow_rem: bool = True,
               min_fields: int = 0) -> M.Struct:
        r = self.r
        self.structs += 1
        nf = r.randrange(max(min_fields, 1 if kind == "nt" or r.random() < 0.9 else 0), 4 if d > 1 else 3)
        fields: t.List[M.FieldSpec] = []
        notreq_style = r.random() < 0.4 and kind == "td" and self.p.td_notreq
        used: t.Set[str] = set()
        base = None
        if kind in ("dc", "xdc") and self.p.inherit and r.random() < 0.2 and d > 0 and not optional_free:
            base = self.struct(d - 1, kind, allow_rem=False, flatten_depth=0)
        rem = False
        for _ in range(nf):
            if kind in ("dc", "xdc") and self.p.flat and flatten_depth > 0 and d > 0 and r.random() < 0.15 and not optional_free:
                sub = self.struct(d - 1, "td" if r.random() < 0.15 else "dc", flatten_depth=flatten_depth - 1, allow_rem=allow_rem and not rem)
                if sub.has_remainder(M.Env()):
                    rem = True
                # (A default of the field is for objects made by hand: its fields have their own.)
                default = self.default(sub, kind) if self.p.defaults and r.random() < 0.3 else M.NODEF
                f = M.FieldSpec(self.fname("dc"), sub, default=default, flat=True)
            elif kind in ("dc", "xdc", "td") and self.p.remainder and allow_rem and not rem and r.random() < 0.12:
                f = M.FieldSpec(self.fname("dc"), M.Map(r.choice(["Dict", "Mapping", "OrderedDict"]), M.Str(), self.node(0)), remainder=True)
                rem = True
            else:
                f = self.field(d - 1, kind, plain=optional_free)
            if f.name in used:
                continue
            used.add(f.name)
            f.notreq = bool(notreq_style and r.random() < 0.6)
            if kind == "td" and f.default is not M.NODEF and not f.name.isidentifier():
                f.default = M.NODEF
            fields.append(f)
        if kind == "td":
            if any(not f.name.isidentifier() or f.name == "class" for f in fields):
                for f in fields:
                    f.notreq, f.default = notreq_style, M.NODEF
                return M.Struct(self.b, fields, kind, functional=True)
            mixed = len({f.notreq for f in fields}) > 1
            if mixed:
                # Defaults of a base TypedDict are not inherited.
                for f in fields:
                    f.default = M.NODEF
        opts = []
        frozen = False
        if kind in ("dc", "xdc") and base is None:
            if r.random() < 0.15 and not any(f.flat for f in fields):
                frozen = True
            if r.random() < 0.15:
                opts.append("kw_only=True")
        extra = r.random() < 0.5 if self.p.extra and kind in ("dc", "xdc") and r.random() < 0.12 else None
        if base is not None and base.frozen:
            frozen = True
        if base is not None and kind == "dc" and any(f.default is not M.NODEF for f, _ in base.all_fields(M.Env())):
            opts.append("kw_only=True")
        return M.Struct(self.b, fields, kind, base=base, extra=extra, options=",".join(dict.fromkeys(opts)), frozen=frozen)

    def generic(self, d: int) -> M.Node:
        r = self.r
        params = [f"T{self.b.uid()}" for _ in range(r.randrange(1, 3))]
        for p in params:
            self.b.add(f"{p} = t.TypeVar({p!r})")
        fields = []
        for p in params:
            n: M.Node = M.Param(p)
            k = r.random()
            if k < 0.3:
                n = M.Coll("List", n)
            elif k < 0.4:
                n = M.Map("Dict", M.Str(), n)
            elif k < 0.5:
                n = M.Tup([n, self.leaf()])
            fields.append(M.FieldSpec(self.fname("dc"), n))
        fields.append(self.field(0))
        s = M.Struct(self.b, fields, "dc", params=params, options="kw_only=True")
        if r.random() < 0.4:
            # A subclass binding the parameters (possibly swapped, possibly to its own).
            q = f"T{self.b.uid()}"
            self.b.add(f"{q} = t.TypeVar({q!r})")
            args: t.List[M.Node] = [M.Param(q) if i == 0 else self.arg(d - 1) for i in range(len(params))]
            r.shuffle(args)
            s = M.Struct(self.b, [self.field(0)], "dc", base=s, base_args=args, params=[q], options="kw_only=True")
            params = [q]
        args = [self.arg(d - 1) for _ in params]
        return M.Gen_(s, args)

    def arg(self, d: int) -> M.Node:
        n = self.node(d)
        while isinstance(n, M.Opt) or isinstance(n, M.Ann) and isinstance(n.inner, M.Opt):
            # Whether a parametrised field is required cannot be said without the argument.
            n = self.node(d)
        return n

    def tagged(self, d: int) -> M.Node:
        r = self.r
        if r.random() < 0.35:
            return self.tagged_class(d)
        style = r.choice(["nested", "flat", "keyed"])
        members: t.Dict[str, M.Node] = {}
        seen: t.Set[str] = set()
        while len(members) < 2 or r.random() < 0.4:
            if style == "flat" or r.random() < 0.6:
                n: M.Node = self.struct(d - 1, "dc")
            else:
                n = self.leaf([x for x in self.p.leaves if x in GROUPS])
            if n.expr in seen:
                continue
            seen.add(n.expr)
            members[r.choice(["a", "B", "member", "x-y"]) + str(self.b.uid())] = n
        disc = r.choice(["type", "type", "kind", "@t", "$"])
        nest = r.choice([None, None, "with", "payload", ""]) if style == "nested" else None
        lazy = [k for k in members if r.random() < 0.3]
        sts = [m for m in members.values() if isinstance(m, M.Struct)]
        over = r.choice(sts).expr if sts and r.random() < 0.15 else None
        return M.Tagged(self.b, members, style, disc, nest, lazy=lazy, over=over)

    def tagged_class(self, d: int) -> M.Node:
        """A decorated base class, which may be a structure itself, a member of itself, and occur in its members."""
        r = self.r
        base = f"Base{self.b.uid()}"
        style = r.choice(["nested", "flat", "keyed"])
        disc = r.choice(["type", "type", "kind", "@t", "$"])
        nest = r.choice([None, None, "with", "payload", ""]) if style == "nested" else None
        opts = f"style={style!r}, discriminator_key={disc!r}" + ("" if nest is None else f", nesting_key={nest!r}")
        members: t.Dict[str, M.Node] = {}
        root = None
        if r.random() < 0.5:
            root = M.Struct(self.b, [self.field(d - 1) for _ in range(r.choice([0, 1, 1]))], "dc", name=base, decorators=[f"@Union({opts})"], options="kw_only=True")
            if r.random() < 0.4:
                tag = f"own{self.b.uid()}"
                self.b.add(f"Union.register({base}, {tag!r})({base})")
                members[tag] = root
        else:
            self.b.add(f"@Union({opts})\nclass {base}:\n    pass")
        ref = M.Rec(base)
        for _ in range(r.choice([1, 2, 3])):
            tag = r.choice(["a", "B", "member", "x-y"]) + str(self.b.uid())
            fields = [self.field(d - 1) for _ in range(r.choice([0, 1, 2]))]
            if r.random() < 0.3:
                inner = r.choice([lambda: M.Opt(ref), lambda: M.Coll("List", ref), lambda: M.Map("Dict", M.Str(), ref)])()
                fields.append(M.FieldSpec(self.fname("dc"), inner))
            members[tag] = M.Struct(self.b, fields, "dc", bases=[] if root else [base], base=root, decorators=[f"@Union.register({base}, {tag!r})"], options="kw_only=True")
        ref.struct = n = M.Tagged(self.b, members, style, disc, nest, carrier="class", basename=base)
        return n

    def recursive(self, d: int) -> M.Node:
        r = self.r
        name = f"S{self.b.uid()}"
        ref = M.Rec(name)
        inner = r.choice([lambda: M.Opt(ref), lambda: M.Coll("List", ref), lambda: M.Map("Dict", M.Str(), ref), lambda: M.Opt(M.Coll("List", ref))])()
        fields = [M.FieldSpec(self.fname("dc"), inner, quote=not self.b.future), self.field(0)]
        r.shuffle(fields)
        s = M.Struct(self.b, fields, "dc", name=name, options="kw_only=True")
        ref.struct = s
        return s

    # finishing

    def build(self, *nodes: M.Node) -> t.List[t.Any]:
        return self.b.build(*[n.expr for n in nodes])


def make(case: Case, profile: t.Optional[Profile] = None, n: int = 1, depth: t.Optional[int] = None,
         only: t.Optional[str] = None) -> t.Tuple[Universe, t.List[M.Node], t.List[t.Any]]:
    """A universe with *n* root types."""
    u = Universe(case.rng, profile)
    case.cleanup.append(u.b.close)
    d = depth if depth is not None else case.rng.choice([0, 1, 1, 2, 2, 3])
    nodes = [u.comp(only, d) if only else u.node(d) for _ in range(n)]
    case.note(module=u.b.source(), types=", ".join(x.expr for x in nodes))
    return u, nodes, u.build(*nodes)


GLOBS: t.List[t.Dict[str, t.Any]] = [{}, {}, {}, {"extra": True}, {"serdef": False}, {"strict": False}, {"extra": True, "serdef": False, "strict": False}, {"strict": True, "extra": False, "serdef": True}]
