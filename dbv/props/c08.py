"""Presence of fields: every subset of keys of generated structures, with null, falsy and default values."""

import itertools

from databind.json import load

from dbv import gen
from dbv.common import *

ID = "C08"
CASES = {"quick": 2600, "thorough": 120000}
RULE = "a generated structure and a subset of present keys with values; non-trivial if a key is absent or a value is null, falsy or the default"
MINIMA = {"accepted": 6000, "refused": 10000, "fresh defaults": 400, "absent with default": 5000, "factories watched: value absent": 500, "factories watched: value present": 300}


def make(case):
    r = case.rng
    u = gen.Universe(r, gen.Profile(leaves=["int", "str", "bool"], comps=["opt", "list", "map", "tuple"], metas=True, settings=False))
    case.cleanup.append(u.b.close)
    b = u.b
    inner = M.Struct(b, [M.FieldSpec("p", M.Int(), default=("value", b.default_slot(lambda: 7, False)) if r.random() < 0.5 else M.NODEF)], "dc")

    def node():
        k = r.random()
        if k < 0.4:
            n = r.choice([M.Int, M.Str, M.Bool])()
        elif k < 0.6:
            n = M.Coll("List", r.choice([M.Int, M.Str])())
        elif k < 0.7:
            n = M.Map("Dict", M.Str(), M.Int())
        elif k < 0.8:
            n = inner
        elif k < 0.9:
            n = M.Tup([M.Int(), M.Str()])
        else:
            n = M.Coll(r.choice(["VarTuple", "FrozenSet"]), M.Int())
        if r.random() < 0.3:
            if r.random() < 0.3:
                n = M.UnionN(r.sample([M.Int(), M.Str(), M.Coll("List", M.Int()), M.Map("Dict", M.Str(), M.Int())], r.choice([2, 2, 3])))
                case.count("optional unions")
            n = M.Opt(n, r.randrange(2))
        if r.random() < 0.1:
            n = M.Ann(n, {}, [r.choice(gen.METAS)])
        return n

    def field(i, kind):
        n = node()
        f = M.FieldSpec(f"f{i}", n)
        core = n
        while isinstance(core, (M.Ann, M.Opt)):
            core = core.inner
        k = r.random()
        env = M.Env()
        if k < 0.4 or kind == "td" and k < 0.2:
            mutable = isinstance(core, (M.Coll, M.Map, M.Struct, M.UnionN)) and getattr(core, "made", None) not in (tuple, frozenset)

            def default():
                """Falsy about every other time."""
                vs = [n.gen(r, env, 1) for _ in range(1 if r.random() < 0.6 else 6)]
                return next((v for v in vs if not v), vs[0])

            if kind in ("nt", "td"):
                if not mutable:
                    f.default = ("value", b.default_slot(default, False))
            elif mutable or r.random() < 0.4:
                f.default = ("factory", b.default_slot(lambda: n.gen(r, env, 1), isinstance(core, M.Struct)))
            else:
                f.default = ("value", b.default_slot(default, False))
        if kind != "nt" and r.random() < 0.25:
            f.required = r.random() < 0.6
            if not f.required and f.default is M.NODEF and not f.is_optional():
                case.count("not required without default")
        if kind in ("dc", "xdc", "td") and r.random() < 0.15:
            f.aliases = [f"a{i}"] if r.random() < 0.5 else [f"a{i}", f"b{i}"]
        return f

    def alike(i):
        """A field whose default equals some of its values without being one of them."""
        case.count("default that equals other values")
        n, d = r.choice([(M.Float, 1), (M.Float, 0), (M.Float, True), (M.Any_, 1), (M.Any_, 0.0), (M.Any_, False), (M.Int, True), (M.Int, 0.0), (M.Bool, 1), (M.Bool, 0)])
        n = n()
        if r.random() < 0.2:
            n = M.Opt(n, r.randrange(2))
        f = M.FieldSpec(f"f{i}", n, default=("value", b.default_slot(lambda: d, False)))
        f.alike = [x for x in (0, 0.0, False, 1, 1.0, True) if x == d]
        return f

    kind = r.choice(["dc", "dc", "dc", "xdc", "td", "td", "nt"])
    nf = r.randrange(1, 6)
    fields = [alike(i) if r.random() < 0.08 else field(i, kind) for i in range(nf)]
    if kind == "nt":
        fields.sort(key=lambda f: f.default is not M.NODEF)
    base = None
    if kind in ("dc", "xdc") and r.random() < 0.4:
        bfields = [field(i, kind) for i in r.sample(range(nf + 2), r.randrange(1, 3))]
        for f in bfields:
            # A field declared again without a default would inherit the class attribute (of another type) as its default.
            if f.default is not M.NODEF and f.default[0] == "value" and any(g.name == f.name and g.default is M.NODEF for g in fields):
                f.default = M.NODEF
        base = M.Struct(b, bfields, kind, options="kw_only=True" if kind == "dc" else "")
        case.count("with a base class")
    if kind == "td":
        style = r.choice(["total", "non-total", "mixed"])
        for f in fields:
            f.notreq = style == "non-total" or style == "mixed" and r.random() < 0.5
        if len({f.notreq for f in fields}) > 1:
            for f in fields:
                f.default = M.NODEF
                if f.required is False and not f.is_optional():
                    f.required = None
        case.count("TypedDict: " + style)
    s = M.Struct(b, fields, kind, base=base, options="kw_only=True" if kind == "dc" and base is not None else "")
    return u, s


def run(case):
    r = case.rng
    u, s = make(case)
    case.note(module=u.b.source())
    (T,) = u.build(s)
    env = M.Env()
    fields = [f for f, _ in s.all_fields(env)]
    subsets = list(itertools.product([False, True], repeat=len(fields)))
    if len(subsets) > 16:
        subsets = r.sample(subsets, 14) + [subsets[0], subsets[-1]]
    for present in subsets:
        p = {}
        special = not all(present)
        fill = r.random() < 0.6
        for f, yes in zip(fields, present):
            if not yes and not (fill and s.required(f)):
                if f.default is not M.NODEF:
                    case.count("absent with default")
                continue
            k = r.random()
            if k < (0.3 if hasattr(f, "alike") else 0.8):
                w = f.node.enc(f.node.gen(r, env, 1), env)
            else:
                special = True
                if k < 0.86:
                    w = None
                elif hasattr(f, "alike"):
                    w = r.choice(f.alike)
                elif k < 0.92 or f.default is M.NODEF:
                    w = r.choice([0, "", False, [], {}])
                else:
                    w = f.node.enc(s.default_of(f), env)
            p[r.choice(f.keys)] = w
        want = expect(s.dec, p, env)
        case.note(payload=p)
        if want[0] == "unspecified":
            continue
        u.b.watch_factories = True
        del u.b.made[:]
        o = observe(load, p, T)
        made = list(u.b.made)
        case.ev((case.notes["module"], canon(p)), trivial=not special, sample=lambda: {"payload": short(p, 160), "outcome": repr(o)[:160]})
        case.count("accepted" if want[0] == "ok" else "refused")
        check_load(case, o, want, s.kind)
        if want[0] == "ok":
            for f in fields:
                if f.default is not M.NODEF and f.default[0] == "factory":
                    n = made.count(f.default[1])
                    absent = not any(k in p for k in f.keys)
                    case.count("factories watched: value " + ("absent" if absent else "present"))
                    if n != absent:
                        case.bad("a default factory was called although the value is present" if not absent else "a default factory was not called exactly once for an absent value", field=f.name, calls=n)
            o2 = load(p, T)
            for f in fields:
                if f.default is not M.NODEF and f.default[0] == "factory" and not any(k in p for k in f.keys):
                    a, b = getattr(o.value, f.name), getattr(o2, f.name)
                    if isinstance(a, (list, dict)) or hasattr(a, "__dict__"):
                        case.count("fresh defaults")
                        if a is b:
                            case.bad("two objects share what the default factory should have made for each of them", field=f.name)
                        if isinstance(a, list):
                            a.append("spoiled")
                        elif isinstance(a, dict):
                            a["spoiled"] = 1
                        else:
                            a.__dict__["p"] = "spoiled"
            check_load(case, observe(load, p, T), want, s.kind + " after earlier results were changed")
