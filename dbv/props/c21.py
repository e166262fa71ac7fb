"""The dataclass extension, class by class next to the standard library's decorator on the same source."""

import __future__
import copy
import dataclasses
import pickle
import sys
import types
import typing as t

from databind.core import dataclasses as ext

from dbv.common import *

ID = "C21"
CASES = {"quick": 5000, "thorough": 300000}
RULE = "one observation (construction, comparison, representation, ...) of the same class under both decorators; trivial if the class has no field"
MINIMA = {"class std accepts": 6000, "class only the extension accepts": 600, "construction accepted": 20000, "construction refused": 8000, "left out": 4000, "frozen": 800, "slots": 800,
          "kw_only": 1200, "order": 800, "InitVar": 800, "ClassVar": 800, "inherits": 4000, "inherits from the standard decorator": 300, "post_init": 2000, "replace": 8000, "postponed": 1500, "decoration refused": 80, "field with annotations": 3000}


class Sent:
    """Stands for "no default" where the standard library demands one."""

    def __repr__(self):
        return "<missing>"

    def __deepcopy__(self, memo):
        return self


SENT = Sent()


class Fd:
    pass


class Cl:
    pass


def spec_class(r, i, known):
    c = Cl()
    c.name = f"K{i}"
    k = r.random()
    c.bases = [] if not known or k < 0.35 else r.sample(known, min(len(known), r.choice([1, 1, 1, 2])))
    c.bases.sort(key=lambda b: -known.index(b))
    c.std = r.random() < 0.12  # decorated by the standard library in both worlds
    if c.std:
        c.bases = [b for b in c.bases if b.std]  # Deriving a class of the standard decorator from one of the extension is not promised.
    c.plain = bool(c.bases) and not c.std and r.random() < 0.07
    if len({"frozen" in b.opts for b in c.bases}) > 1:
        c.plain = False  # Nobody checks that the bases of an undecorated class are all frozen or all not.
    o = {}
    for name, p in (("eq", 0.15), ("order", 0.2), ("frozen", 0.15), ("unsafe_hash", 0.12), ("repr", 0.06), ("kw_only", 0.15), ("slots", 0.17), ("match_args", 0.05), ("init", 0.04), ("weakref_slot", 0.04)):
        if r.random() < p:
            o[name] = name in ("order", "frozen", "unsafe_hash", "kw_only", "slots", "weakref_slot")
    if o.get("eq") is False:
        o.pop("order", None)
    if any("frozen" in b.opts for b in c.bases if not b.plain) and r.random() < 0.9:
        o["frozen"] = True
    elif any("frozen" not in b.opts for b in c.bases if not b.plain) and r.random() < 0.9:
        o.pop("frozen", None)
    c.opts = o
    c.call = r.random() < 0.5 or bool(o)
    c.fields = []
    names = r.sample(["a", "b", "c", "d", "e", "f"], r.randrange(0, 5))
    tidy = r.random() < 0.5  # defaults last
    for n in names:
        f = Fd()
        f.name = n
        f.kind = r.choice(["field"] * 8 + ["classvar", "initvar"])
        f.type = r.choice(["int", "t.Any", "t.Optional[int]", "str", "list"])
        f.default = r.choice(["none", "none", "value", "value", "factory"])
        f.via = r.random() < 0.5 or f.default == "factory"
        f.args = {}
        if f.via:
            for a, p, vs in (("init", 0.12, [False]), ("repr", 0.15, [False]), ("compare", 0.15, [False]), ("hash", 0.12, [True, False, None]), ("kw_only", 0.12, [True, False]), ("metadata", 0.1, [{"m": 1}])):
                if r.random() < p:
                    f.args[a] = r.choice(vs)
        if f.kind == "classvar":
            f.via, f.args = False, {}
            f.default = r.choice(["none", "value"])
        if c.plain:
            f.via, f.args = False, {}
            f.default = "value" if f.default == "factory" else f.default
        if f.kind == "initvar":
            f.args = {k: v for k, v in f.args.items() if k in ("repr", "compare", "hash", "metadata")}
            if f.default == "factory":
                f.default = "value"
        c.fields.append(f)
    if tidy:
        c.fields.sort(key=lambda f: f.default != "none")
    c.kwmark = r.random() < 0.06 and len(c.fields) > 1 and r.randrange(len(c.fields)) or 0
    c.post = r.random() < 0.3 and not c.plain
    c.methods = [m for m in ("__eq__", "__hash__", "__repr__", "__lt__", "__setattr__", "plain", "prop") if r.random() < 0.05]
    c.value = {f.name: r.choice(["1", "'v'", "None", "0", "(1, 2)", "frozenset()"]) for f in c.fields}
    c.superpost = r.random() < 0.6
    c.postkind = r.choice(["method"] * 8 + ["staticmethod", "classmethod"])
    return c


def initvars(c, seen=None):
    """Names of init-only variables a __post_init__ of *c* is called with, per Python: those of all bases in MRO order."""
    return c.ivars


def source(c, fill, future, world=None):
    """Source of one class. *fill*: give every field that would have no default a stand-in."""
    L = []
    if not c.plain:
        dec = "std" if c.std else "dc"
        L.append(f"@{dec}.dataclass" + (f"({', '.join(f'{k}={v}' for k, v in c.opts.items())})" if c.call else ""))
    L.append(f"class {c.name}({', '.join(b.name for b in c.bases)}):" if c.bases else f"class {c.name}:")
    dm = "std" if c.std else "dc"
    for i, f in enumerate(c.fields):
        if c.kwmark and i == c.kwmark:
            L.append("    _: KW_ONLY")
        ty = {"classvar": f"t.ClassVar[{f.type}]", "initvar": f"InitVar[{f.type}]"}.get(f.kind, f.type)
        args = dict(f.args)
        default = f.default
        val = c.value[f.name]
        if default == "none" and fill and not c.plain and f.kind != "classvar" and args.get("init", True) and not (not f.via and inherits_value(world, c, f.name)):
            default, val = "value", "SENT"
        if not f.via:
            L.append(f"    {f.name}: {ty}" + (f" = {val}" if default == "value" else ""))
        else:
            parts = [f"{k}={v!r}" for k, v in args.items()]
            if default == "value":
                parts.append(f"default={val}")
            elif default == "factory":
                parts.append("default_factory=list")
            L.append(f"    {f.name}: {ty} = {dm}.field({', '.join(parts)})")
    if c.post and c.postkind != "method":
        first = "cls, " if c.postkind == "classmethod" else ""
        L += [f"    @{c.postkind}", f"    def __post_init__({first}*vars):", f"        LOG.append(({c.name!r}, {'cls.__name__' if first else None}, vars))"]
    elif c.post:
        L.append("    def __post_init__(self, *vars):")
        L.append(f"        LOG.append(({c.name!r}, type(self).__name__, vars))")
        if c.superpost:
            L.append(f"        if hasattr(super({c.name}, self), '__post_init__'): super({c.name}, self).__post_init__(*vars)")
    for m in c.methods:
        L += {"__eq__": ["    def __eq__(self, o): return isinstance(o, type(self))"], "__hash__": ["    def __hash__(self): return 77"], "__repr__": ["    def __repr__(self): return 'own repr'"],
              "__lt__": ["    def __lt__(self, o): return 'own lt'"], "__setattr__": ["    def __setattr__(self, k, v): object.__setattr__(self, k, v)"], "plain": ["    attr = 5"],
              "prop": ["    @property", "    def size(self): return 3"]}[m]
    if len(L) == (1 if c.plain else 2):
        L.append("    pass")
    return L


def inherits_value(world, c, name):
    """Whether a re-declaration of the field without a value takes over a class attribute of a base, as the standard library has it."""
    for b in c.bases:
        v = getattr(world.cls(b), name, Sent)
        if v is SENT and any(vars(k).get(name, SENT) is not SENT for k in world.cls(b).__mro__):
            raise Skip("a stand-in hides a value further up that the re-declaration takes over")
        if v is not Sent and not isinstance(v, types.MemberDescriptorType):
            return True
    return False


class WorldM:
    def __init__(self, case, name, deco, future):
        self.name = name
        self.mod = types.ModuleType(name)
        sys.modules[name] = self.mod
        case.cleanup.append(lambda: sys.modules.pop(name, None))
        self.future = future
        self.log = []
        self.mod.__dict__.update(dc=deco, std=dataclasses, t=t, InitVar=dataclasses.InitVar, KW_ONLY=dataclasses.KW_ONLY, SENT=SENT, LOG=self.log)

    def define(self, lines):
        flags = __future__.annotations.compiler_flag if self.future else 0
        exec(compile("\n".join(lines), "<dbv c21>", "exec", flags=flags, dont_inherit=True), self.mod.__dict__)

    def cls(self, c):
        return self.mod.__dict__[c.name]


N = [0]


def attempt(fn, *a, **k):
    try:
        return ("ok", fn(*a, **k))
    except Exception as exc:
        return ("raised", exc)


def annotated_fields(case):
    """field(annotations=...): the standard library's field plus one entry in its metadata, and nothing else."""
    r = case.rng
    metas = [None, {}, {"m": 1}, {"a": [1], "b": None}, types.MappingProxyType({"m": 2}), {ext.ANNOTATIONS_METADATA_KEY: ["mine"], "k": 0}]
    shared = r.choice(metas)
    seen = []
    for _ in range(r.randrange(1, 4)):
        meta = shared if r.random() < 0.7 else r.choice(metas)
        notes = r.choice([None, [], ["x"], [5, "y"], ("z",)])
        before = None if meta is None else dict(meta)
        kw = r.choice([{}, {"default": 3}, {"default_factory": list}, {"init": False, "default": 1}, {"repr": False}, {"compare": False}, {"kw_only": True}, {"hash": True}])
        args = dict(kw)
        if notes is not None or r.random() < 0.5:
            args["annotations"] = notes
        if meta is not None or r.random() < 0.5:
            args["metadata"] = meta
        x = attempt(ext.field, **args)
        case.count("field with annotations")
        case.ev((case.index, "field", repr(args)), sample=lambda: {"field": repr(args), "result": repr(x)[:200]})
        if x[0] == "raised":
            case.bad("field() refuses annotations or metadata", arguments=repr(args), got=repr(x[1]))
        ref = dataclasses.field(**kw, metadata=meta)
        want = dict(before or {})
        if notes:
            want[ext.ANNOTATIONS_METADATA_KEY] = notes
        seen.append((x[1], want, args))
        if meta is not None and dict(meta) != before:
            case.bad("field() modifies the metadata it is given", before=before, after=dict(meta), arguments=repr(args))
        for a in ("default", "default_factory", "init", "repr", "compare", "hash", "kw_only"):
            if getattr(x[1], a) != getattr(ref, a):
                case.bad("field() does not pass an argument on to the standard library", argument=a, got=getattr(x[1], a), expected=getattr(ref, a), arguments=repr(args))
    for f, want, args in seen:
        if dict(f.metadata) != want:
            case.bad("the metadata of a field is not what was given and its annotations", expected=want, got=dict(f.metadata), arguments=repr(args))


def failing_decoration(case):
    """A class that cannot be decorated leaves its bases, and what is derived from them later, as they are."""
    r = case.rng
    names = r.sample(["a", "b", "c", "d"], r.randrange(1, 4))

    def source(deco, spec):
        L = [f"@{deco}.dataclass", "class Base:"] + [f"    {n}: int" + (f" = {deco}.field({x})" if x else "") for n, x in spec]
        return L

    spec = sorted(((n, r.choice(["", "", "default=1", "default_factory=list", "init=False", "kw_only=True"])) for n in names), key=lambda s: "default" in s[1])
    how = r.choice(["x: list = []", "x: int = std.field(default={1: 2})", "__slots__ = ('x',)\n    x: int = 1", "frozen", "order", "twice"])
    use = r.choice(["std", "dc"])
    N[0] += 1
    worlds = [WorldM(case, f"dbvc21f_{N[0]}{s}", ext, False) for s in "ab"]
    fails = {"frozen": "@dc.dataclass(frozen=True)\nclass Bad(Base):\n    x: int", "order": "@dc.dataclass(order=True)\nclass Bad(Base):\n    x: int\n    def __lt__(self, o): return True",
             "twice": "@dc.dataclass(nothing=True)\nclass Bad(Base):\n    x: int"}.get(how, f"@dc.dataclass\nclass Bad(Base):\n    {how}")
    after = "@%s.dataclass\nclass Sub(Base):\n    z: int = std.field(default=3%s)" % (r.choice(["std", "dc"]), r.choice(["", ", kw_only=True"]))
    case.note(source="\n".join(source(use, spec)), failing=fails, later=after)
    for w, bad in zip(worlds, (False, True)):
        w.define(source(use, spec))
        w.before = [(f.name, f.default, f.default_factory) for f in dataclasses.fields(w.mod.Base)]
        if bad:
            for _ in range(r.randrange(1, 3)):
                x = attempt(w.define, [fails])
                case.count("decoration refused", x[0] == "raised")
                case.ev((case.index, how, use), trivial=x[0] == "ok", sample=lambda: {"class": fails, "outcome": repr(x)})
        w.later = attempt(w.define, [after])[0]
        w.after = [(f.name, f.default, f.default_factory) for f in dataclasses.fields(w.mod.Base)]
        w.sub = [(f.name, f.default, f.default_factory, f.init, f.kw_only) for f in dataclasses.fields(w.mod.Sub)] if w.later == "ok" else None
        w.made = [attempt(getattr(w.mod, n), **{k: 5 for k in kw})[0] for n in ("Base", "Sub") if n == "Base" or w.later == "ok" for kw in ([], names, [n for n, x in spec if not x], ["z"])]
        for n in names:
            v = attempt(getattr, w.mod.Base, n)
            w.made.append(repr(v[1]) if v[0] == "ok" else "none")
    if worlds[1].after != worlds[1].before or worlds[0].after != worlds[0].before:
        case.bad("the decoration of a subclass changes the fields of its base", before=worlds[1].before, after=worlds[1].after)
    for a in ("later", "sub", "made"):
        if getattr(worlds[0], a) != getattr(worlds[1], a):
            case.bad("a class that cannot be decorated changes what its base or a class derived from that later does", without=getattr(worlds[0], a), afterwards=getattr(worlds[1], a))


def run(case):
    r = case.rng
    if case.index % 25 == 0:
        failing_decoration(case)
    if case.index % 3 == 0:
        annotated_fields(case)
    N[0] += 1
    future = r.random() < 0.3
    A = WorldM(case, f"dbvc21_{N[0]}", dataclasses, future)
    B = WorldM(case, f"dbvc21_{N[0]}e", ext, future)
    B.mod.__name__ = A.name  # Both print and pickle alike.
    known = []
    text = []
    filled = False  # Whether the standard library's world has stand-ins for missing defaults.
    for i in range(r.randrange(1, 5)):
        c = spec_class(r, i, known)
        src = source(c, filled and not c.std, future, A)
        sa = attempt(A.define, src)
        sb = attempt(B.define, source(c, False, future))
        shown = "\n".join(source(c, False, future))
        case.note(source="\n".join(text + [shown]), postponed=future)
        if sa[0] == "raised" and sb[0] == "raised":
            if c.std or "non-default argument" not in str(sa[1]):
                # Neither accepts it, for a reason of the standard library's.
                case.count("class neither accepts")
                continue
        if sa[0] == "ok" and sb[0] == "raised":
            case.bad("the extension does not accept a class that the standard decorator accepts", got=repr(sb[1]))
        if sa[0] == "raised":
            if "non-default argument" not in str(sa[1]):
                if sb[0] == "ok":
                    # The extension may be more permissive only about the order of defaults.
                    case.bad("the extension accepts a class that the standard decorator refuses for another reason than the order of defaults", standard=repr(sa[1]))
                continue
            if c.std:
                continue
            if filled:
                continue
            if any(b_.std for b_ in all_bases(c)) or c.plain:
                continue  # A stand-in in a class of the standard library's would be a real default.
            # Rebuild the standard world with stand-ins for all missing defaults.
            filled = True
            again = True
            for k in known + [c]:
                if attempt(A.define, source(k, not k.std, future, A))[0] == "raised":
                    again = False
            if not again:
                raise Skip("no equivalent for the standard library")
            if sb[0] == "raised":
                case.bad("the extension does not accept a field without default after one with default", got=repr(sb[1]))
            for k in known:
                k.filled = True
            case.count("class only the extension accepts")
        else:
            case.count("class std accepts")
        c.filled = filled
        text.append(shown)
        known.append(c)
        # What the constructor takes, in order, from the standard library's point of view.
        observe_class(case, c, A, B, filled, r)
    for c in known:
        if r.random() < 0.3:
            observe_class(case, c, A, B, filled, r)  # Deriving from a class does not change it.


def all_bases(c):
    return [x for b in c.bases for x in [b] + all_bases(b)]


def params(cls):
    """[(name, keyword only, has default)] of the generated constructor, from the standard library's own records."""
    fs = [f for f in vars(cls).get("__dataclass_fields__", {}).values() if f.init and f._field_type is not dataclasses._FIELD_CLASSVAR]
    fs = [f for f in fs if not f.kw_only] + [f for f in fs if f.kw_only]
    return [(f.name, f.kw_only, not (f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING) and f.default is not SENT) for f in fs]


def observe_class(case, c, A, B, filled, r):
    ca, cb = A.cls(c), B.cls(c)
    opts = c.opts
    for cond, label in (("frozen" in opts, "frozen"), ("slots" in opts, "slots"), ("kw_only" in opts or any("kw_only" in f.args for f in c.fields), "kw_only"), ("order" in opts, "order"),
                        (any(f.kind == "initvar" for f in c.fields), "InitVar"), (any(f.kind == "classvar" for f in c.fields), "ClassVar"), (bool(c.bases), "inherits"),
                        (any(b.std for b in all_bases(c)), "inherits from the standard decorator"), (c.post, "post_init"), (A.future, "postponed")):
        if cond:
            case.count(label)
    trivial = not c.fields and not c.bases
    where = dict(cls=c.name)
    # A class that is not decorated itself has its base's constructor.
    owner = next((k for k in ca.__mro__ if "__init__" in vars(k) and k is not object), None)
    ps = params(owner) if owner is not None else []
    standins = {n for n, _, _ in ps if dataclasses.fields and vars(owner)["__dataclass_fields__"][n].default is SENT} if owner is not None else set()

    def eqv(x, y, what, **more):
        case.ev((case.index, c.name, what, len(str(more))), trivial=trivial, sample=lambda: {"class": c.name, "options": opts, "observed": what, "result": short(x, 80)})
        if x[0] != y[0]:
            case.bad(f"{what} differs between the standard decorator and the extension", standard=repr(x), extension=repr(y), **where, **more)
        if x[0] == "ok" and not same(x[1], y[1]):
            case.bad(f"{what} differs between the standard decorator and the extension", standard=short(x[1]), extension=short(y[1]), **where, **more)

    # Class level
    fa, fb = dataclasses.fields(ca), ext.fields(cb)
    eqv(("ok", [(f.name, f.init, f.repr, f.compare, f.hash, f.kw_only, dict(f.metadata)) for f in fa]), ("ok", [(f.name, f.init, f.repr, f.compare, f.hash, f.kw_only, dict(f.metadata)) for f in fb]), "fields()")
    for f, g in zip(fa, fb):
        if f.default is not dataclasses.MISSING and f.default is not SENT:
            eqv(("ok", f.default), ("ok", g.default), "the default of a field")
        eqv(("ok", f.default_factory), ("ok", g.default_factory), "the default factory of a field")
    for a in ("a", "b", "c", "d", "e", "f", "_", "__match_args__", "__slots__"):
        x, y = attempt(getattr, ca, a), attempt(getattr, cb, a)
        if a in standins:
            # The extension leaves no trace of a required field on its class.
            continue
        if x[0] == "ok" and isinstance(x[1], types.MemberDescriptorType):
            x = ("ok", "slot")
        if y[0] == "ok" and isinstance(y[1], types.MemberDescriptorType):
            y = ("ok", "slot")
        if filled and x[0] == "ok" and x[1] is SENT:
            continue
        eqv(x, y, f"the class attribute {a}")
    # Construction
    kinds = {}
    for k in [c] + all_bases(c):
        for f in k.fields:
            kinds.setdefault(f.name, set()).add((f.kind, f.args.get("init", True)))
    if any(len(v) > 1 for v in kinds.values()) and filled:
        return  # A field that changes into another kind of field below a constructor that takes it: a stand-in is no stand-in.
    if filled and (owner is None or "__dataclass_fields__" not in vars(ca) or owner is not ca):
        return  # Fields that no constructor sets: a stand-in is no stand-in.
    objs = []
    pool = [lambda: 1, lambda: 2, lambda: "x", lambda: None, lambda: [1], lambda: (1, 2)]
    for k in range(10):
        npos = r.randrange(len([p for p in ps if not p[1]]) + 1) if r.random() < 0.92 else r.randrange(len(ps) + 3)
        pos = [r.choice(pool) for _ in range(npos)]
        rest = [p for p in ps[npos:]] if npos <= len(ps) else []
        mode = r.random()
        kw = {p[0]: r.choice(pool) for p in rest if mode < 0.6 and (not p[2] or r.random() < 0.5) or mode >= 0.6 and r.random() < 0.6}
        if r.random() < 0.07:
            kw[r.choice(["zz", "a", "_", "self"])] = r.choice(pool)
        if r.random() < 0.4:
            items = list(kw.items())
            r.shuffle(items)
            kw = dict(items)
        pa, ka = [f() for f in pos], {n: f() for n, f in kw.items()}
        pb, kb = copy.deepcopy(pa), copy.deepcopy(ka)
        del A.log[:], B.log[:]
        xa, xb = attempt(ca, *pa, **ka), attempt(cb, *pb, **kb)
        given = set(ka) | {p[0] for p in [p for p in ps if not p[1]][: len(pa)]}
        missing = [p[0] for p in ps if not p[2] and p[0] not in given]
        if missing and xa[0] == "ok":
            # Only with a stand-in: the reference did not notice.
            case.count("left out")
            case.ev((case.index, c.name, "missing", tuple(missing)), trivial=trivial)
            if xb[0] == "ok" or not isinstance(xb[1], TypeError):
                case.bad("a required argument was left out, but no TypeError was raised", missing=missing, args=pa, kwargs=ka, got=repr(xb), **where)
            continue
        if missing and filled and xa[0] == "raised" and xb[0] == "raised":
            continue
        foreign_hook = owner is not None and hasattr(ca, "__post_init__") and "__post_init__" not in owner.__init__.__code__.co_names
        if missing and xa[0] == "raised" and xb[0] == "ok" and foreign_hook:
            case.count("constructor of a base without __post_init__")  # See FINDINGS: that of another class stands before the check.
            continue
        eqv(xa if xa[0] == "raised" else ("ok", None), xb if xb[0] == "raised" else ("ok", None), "whether the constructor accepts the arguments", args=pa, kwargs=ka)
        if xa[0] == "raised":
            case.count("construction refused")
            if isinstance(xa[1], TypeError) and missing:
                case.count("left out")
            if missing and isinstance(xb[1], dataclasses.FrozenInstanceError) and owner is not ca and "frozen" in c.opts and not owner.__dataclass_params__.frozen:
                continue  # Immutable below a constructor that assigns: there is no way to construct it at all.
            if missing and isinstance(xb[1], AttributeError) and isinstance(attempt(ca, *pa, **ka, **dict.fromkeys(missing, 0))[1], AttributeError):
                continue  # A class attribute in place of the slot that the constructor assigns: the same.
            if isinstance(xa[1], TypeError) != isinstance(xb[1], TypeError):
                case.bad("the constructor raises another kind of exception", standard=repr(xa[1]), extension=repr(xb[1]), args=pa, kwargs=ka, **where)
            continue
        case.count("construction accepted")
        if owner is not None and hasattr(type(xa[1]), "__post_init__") and "__post_init__" not in owner.__init__.__code__.co_names:
            case.count("constructor of a base without __post_init__")  # See FINDINGS.
        elif not filled or not any(SENT in v for _, _, v in A.log):
            eqv(("ok", A.log), ("ok", B.log), "the calls of __post_init__", args=pa, kwargs=ka)
        objs.append((xa[1], xb[1]))
        state(eqv, c, xa[1], xb[1], dict(args=pa, kwargs=ka))
    # Everything else
    for i, (a, b) in enumerate(objs):
        for a2, b2 in objs[i:] + [(5, 5)]:
            for op in ("__eq__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__"):
                eqv(attempt(getattr(operator_, op), a, a2), attempt(getattr(operator_, op), b, b2), f"the result of {op}")
        eqv(attempt(hash, a) if hashes_by_value(ca) else ("ok", 0), attempt(hash, b) if hashes_by_value(ca) else ("ok", 0), "the hash")
        if hashes_by_value(ca) is False:
            eqv(("ok", attempt(hash, a)[0]), ("ok", attempt(hash, b)[0]), "whether it can be hashed")
        # replace()
        for _ in range(2):
            ch = {n: r.choice([1, "y", None]) for n in r.sample([p[0] for p in ps] + ["zz"], r.randrange(min(3, len(ps) + 1)))} if ps else {}
            x, y = attempt(dataclasses.replace, a, **ch), attempt(ext.replace, b, **ch)
            case.count("replace")
            if filled and x[0] == "ok" and any(v is SENT for v in values(x[1]).values()):
                continue
            if c.plain and any(z[0] == "raised" and "InitVar" in str(z[1]) for z in (x, y)):
                continue  # An undecorated subclass has an attribute of the name of an init-only variable.
            eqv(x if x[0] == "raised" else ("ok", None), y if y[0] == "raised" else ("ok", None), "whether replace() works", changes=ch)
            if x[0] == "raised" and not filled and owner is ca:
                eqv(("ok", type(x[1])), ("ok", type(y[1])), "the exception of replace()", changes=ch)
            if x[0] == "ok":
                state(eqv, c, x[1], y[1], dict(replaced=ch))
        for fn in (copy.copy, copy.deepcopy):
            x, y = attempt(fn, a), attempt(fn, b)
            eqv((x[0], 0), (y[0], 0), f"{fn.__name__}()")
            if x[0] == "ok":
                state(eqv, c, x[1], y[1], {"by": fn.__name__})
        # Immutability
        n = r.choice(["a", "b", "c", "d", "new"])
        x, y = attempt(setattr, a, n, 99), attempt(setattr, b, n, 99)
        eqv((x[0], type(x[1]) if x[0] == "raised" else None), (y[0], type(y[1]) if y[0] == "raised" else None), "assignment to an attribute", attribute=n)
        x, y = attempt(delattr, a, n), attempt(delattr, b, n)
        if n not in standins:
            eqv((x[0], type(x[1]) if x[0] == "raised" else None), (y[0], type(y[1]) if y[0] == "raised" else None), "deletion of an attribute", attribute=n)
        if n not in standins and not filled:
            state(eqv, c, a, b, dict(after="assignment and deletion"))


def hashes_by_value(cls):
    """None: unhashable; True: by value; False: by identity."""
    h = cls.__hash__
    return None if h is None else h is not object.__hash__


class operator_:
    import operator as o

    __eq__, __lt__, __le__, __gt__, __ge__, __ne__ = o.eq, o.lt, o.le, o.gt, o.ge, o.ne


def values(x):
    d = {}
    for k in "abcdef":
        v = attempt(getattr, x, k)
        d[k] = v[1] if v[0] == "ok" else "<none>"
    if hasattr(x, "__dict__"):
        d["__dict__"] = sorted(vars(x))
    return d


def state(eqv, c, a, b, how):
    va, vb = values(a), values(b)
    if c.filled:
        # Where an attribute is kept may depend on the class attribute that a stand-in is.
        va.pop("__dict__", 0), vb.pop("__dict__", 0)
    eqv(("ok", va), ("ok", vb), "the attribute values", **how)
    for what, fn_a, fn_b in (("repr()", repr, repr), ("asdict()", dataclasses.asdict, ext.asdict), ("astuple()", dataclasses.astuple, ext.astuple)):
        if what == "repr()" and type(a).__repr__ is object.__repr__:
            continue
        eqv(attempt(fn_a, a), attempt(fn_b, b), what, **how)


def same(x, y):
    if isinstance(x, Sent) or isinstance(y, Sent):
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    return x == y


def _post_init_below():
    @ext.dataclass
    class Base:
        a: int = 1

    class Sub(Base):
        called = False

        def __post_init__(self):
            type(self).called = True

    Sub()
    if Sub.called:
        return "a __post_init__ that an undecorated subclass adds is called by the constructor of its base"


FINDINGS = {"post-init-added-by-subclass-without-own-constructor": _post_init_below}
