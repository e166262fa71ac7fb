"""Remainder fields: which entries land in them, in which order, and what happens to colliding ones."""

from databind.core import ExtraKeys
from databind.json import dump, load

from dbv import gen
from dbv.common import *

ID = "C12"
CASES = {"quick": 3200, "thorough": 140000}
RULE = "a structure with a remainder field and a payload or value; non-trivial if at least one entry is (or may be) left over"
MINIMA = {"remainder field with a default": 300, "entries in the remainder": 8000, "collisions refused": 600, "two remainder fields": 200, "remainder of a flattened structure": 800,
          "empty remainder": 700, "unclaimed alias in the remainder": 150, "refused payloads": 500, "order of remainders written": 500}

KEYS = ["a", "b", "c", "rest", "type", "", "a-b", "0", "\u00e9", "items", "q", "zz", "x y", "A"]


def make(case):
    r = case.rng
    u = gen.Universe(r, gen.Profile(leaves=["int", "str", "bool"], metas=True, settings=False))
    case.cleanup.append(u.b.close)
    b = u.b

    def vals():
        k = r.random()
        if k < 0.25:
            return M.Any_()
        if k < 0.6:
            return r.choice([M.Int, M.Str])()
        if k < 0.7:
            return M.Coll("List", M.Int())
        if k < 0.8:
            return M.Opt(M.Int())
        if k < 0.9:
            return M.Struct(b, [M.FieldSpec("p", M.Int())], "dc")
        return M.Map("Dict", M.Str(), M.Int())

    def rem(name):
        n = M.Map(r.choice(["Dict", "dict", "Mapping", "MutableMapping", "OrderedDict", "user"]), M.Str(), vals(), b)
        default = M.NODEF
        if kind in ("dc", "xdc") and n.expr.startswith(("t.", "dict")) and r.random() < 0.3:
            # Never needed, as there is always a remainder.
            default = ("factory", b.default_slot(lambda: n.gen(r, M.Env(), 1), True))
            case.count("remainder field with a default")
        return M.FieldSpec(name, n, default=default, remainder=True,
                           meta=[r.choice(gen.METAS)] if r.random() < 0.15 else [])

    free = [k for k in KEYS if k.isidentifier()]
    r.shuffle(free)

    def leaf(kind):
        name = free.pop()
        n = r.choice([M.Int, M.Str])()
        if r.random() < 0.2:
            n = M.Opt(n)
        aliases = []
        if r.random() < 0.3:
            aliases = [f"{name}-1", f"{name}-2"][: r.randrange(1, 3)]
            if r.random() < 0.3:
                aliases.append(name)
        default = M.NODEF
        if kind != "td" and r.random() < 0.25:
            default = ("value", b.default_slot(lambda: n.gen(r, M.Env(), 1), False))
        meta = []
        return M.FieldSpec(name, n, aliases, default, meta=meta)

    where = r.choice(["own", "own", "own", "flat", "deep", "two", "two-flat"])
    kind = r.choice(["dc", "dc", "xdc", "td"]) if where == "own" else "dc"
    fields = [leaf(kind) for _ in range(r.randrange(0, 3))]
    if kind != "td" and r.random() < 0.1:
        # A disabled setting makes it an ordinary field.
        fields.append(M.FieldSpec(free.pop(), M.Map("Dict", M.Str(), M.Int()), meta=["Remainder(False)"]))
    if where in ("own", "two", "two-flat"):
        fields.append(rem(free.pop()))
    if where == "two":
        fields.append(rem(free.pop()))
    if where in ("flat", "deep", "two-flat") or where == "own" and kind != "td" and r.random() < 0.3:
        inner = [leaf("dc") for _ in range(r.randrange(0, 2))]
        if where in ("flat", "two-flat"):
            inner.append(rem(free.pop()))
        elif where == "deep":
            inner2 = [leaf("dc") for _ in range(r.randrange(0, 2))] + [rem(free.pop())]
            r.shuffle(inner2)
            inner.append(M.FieldSpec("deep_", M.Struct(b, inner2, "dc", options="kw_only=True"), flat=True))
        r.shuffle(inner)
        fields.append(M.FieldSpec("flat_", M.Struct(b, inner, "dc", options="kw_only=True"), flat=True))
    r.shuffle(fields)
    extra = r.random() < 0.5 if kind != "td" and r.random() < 0.2 else None
    s = M.Struct(b, fields, kind, options="kw_only=True" if kind == "dc" else "", extra=extra)
    return u, s, where


def rems(s, v, env, path=()):
    """The remainder field of a structure or of what is flattened into it: (mapping, its field)."""
    for f, _ in s.all_fields(env):
        x = v[f.name] if s.kind == "td" else getattr(v, f.name)
        if f.remainder:
            yield x, f
        elif f.flat:
            yield from rems(f.node, x, env)


def run(case):
    r = case.rng
    u, s, where = make(case)
    case.note(module=u.b.source(), types=s.expr)
    (T,) = u.build(s)
    env = M.Env()
    if r.random() < 0.3:
        W, wrap, unwrap = t.List[T], lambda x: [x], lambda x: x[0]
    else:
        W, wrap, unwrap = T, lambda x: x, lambda x: x
    logged = []
    st = [ExtraKeys(True, recorder=lambda ctx, keys: logged.append(keys))] if r.random() < 0.25 and s.extra is None else []
    own = s.wire_keys(env)

    def fill(p):
        items = list(p.items())
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.choice(KEYS + sorted(own))
            if k not in p and k not in dict(items):
                items.insert(r.randrange(len(items) + 1), (k, None))
        return items

    for _ in range(5):
        # Values.
        v = s.gen(r, env, 2)
        special = r.random()
        if special < 0.3 and where != "td":
            # A remainder that collides with another field or holds an odd key.
            for m, f in rems(s, v, env):
                if own and r.random() < 0.7:
                    m[r.choice(sorted(own))] = f.node.v.gen(r, env, 1)
        if where in ("two", "two-flat"):
            case.count("two remainder fields")
            o = observe(dump, wrap(v), W)
            case.ev(("dump", case.notes["module"], canon(v)))
            if where == "two" and not o.refused:
                case.bad("a structure with two remainder fields was serialized", value=v, got=repr(o))
            p = {k: x for k, x in fill({k: 1 for k in own})}
            o = observe(load, wrap(p), W)
            case.ev(("load", case.notes["module"], canon(p)))
            if not o.refused:
                case.bad("a structure with two remainder fields was deserialized", payload=p, got=repr(o))
            continue
        want = expect(s.enc, v, env)
        case.note(value=short(v, 1500))
        o = observe(dump, wrap(v), W)
        if want[0] != "unspecified":
            case.ev(("dump", case.notes["module"], canon(v)), sample=lambda: {"value": short(v, 160), "outcome": repr(o)[:160]})
            if want[0] == "reject":
                case.count("collisions refused")
            elif sum(len(m) for m, _ in rems(s, v, env)) == 0:
                case.count("empty remainder")
            check_dump(case, o, ("ok", wrap(want[1])) if want[0] == "ok" else want, "dump with a remainder")
            if want[0] == "ok":
                for m, _ in rems(s, v, env):
                    left = [k for k in unwrap(o.value) if k in m]
                    case.count("order of remainders written", len(left) > 1)
                    if left != list(m):
                        case.bad("the remainder is not written in its order", got=left, expected=list(m))
                back = observe(load, unwrap(o.value), T)
                if not back.ok or not deep_eq(back.value, v):
                    case.bad("loading what was serialized gives another object", payload=o.value, got=repr(back))
        # Payloads.
        if want[0] != "ok":
            continue
        (m, f), = rems(s, v, env)
        p = {}
        for k, x in fill({k: x for k, x in want[1].items()}):
            if x is None and k not in want[1]:
                x = f.node.v.enc(f.node.v.gen(r, env, 1), env) if r.random() < 0.9 else junk(r, 1)
            p[k] = x
        if r.random() < 0.2 and p:
            del p[r.choice(list(p))]
        items = list(p.items())
        if r.random() < 0.5:
            r.shuffle(items)
        p = dict(items)
        want2 = expect(s.dec, p, env)
        if want2[0] == "unspecified":
            continue
        del logged[:]
        o2 = observe(load, wrap(p), W, settings=st)
        case.note(payload=short(p, 1500))
        case.ev(("load", case.notes["module"], canon(p)), trivial=not set(p) - own)
        if want2[0] == "reject":
            case.count("refused payloads")
            check_load(case, o2, want2, "load with a remainder")
            continue
        check_load(case, o2, ("ok", wrap(want2[1])), "load with a remainder")
        if logged:
            case.bad("entries of the remainder were reported as extra keys", keys=logged)
        (got, f), = rems(s, unwrap(o2.value), env)
        left = [k for k in p if k in got]
        if list(got) != left:
            case.bad("the remainder is not in the order of the payload", got=list(got), expected=left)
        case.count("entries in the remainder", len(got))
        if not got:
            case.count("empty remainder")
        if set(got) & own:
            case.count("unclaimed alias in the remainder")
        if where in ("flat", "deep"):
            case.count("remainder of a flattened structure")
