"""Flattening: structures with flattened members against the merged level and against their nested twins."""

from databind.json import dump, load

from dbv import gen
from dbv.common import *

ID = "C11"
CASES = {"quick": 2600, "thorough": 110000}
RULE = "a tree of structures with flattened members, its twin without flattening, and a value or payload; non-trivial if something is flattened"
MINIMA = {"serialized": 5000, "loaded": 6000, "collisions refused": 500, "extra keys refused": 800, "missing keys refused": 800,
          "same name, other alias": 400, "flattened twice deep": 800, "generic": 300}

NAMES = ["a", "b", "c", "name", "type", "x1", "items", "k"]


class Tree:
    """A structure and its twin without flattening, in step."""

    def __init__(self, flat, nest):
        self.flat, self.nest = flat, nest
        self.subs = []  # (field name, Tree, is flattened)


def make(case):
    r = case.rng
    u = gen.Universe(r, gen.Profile(leaves=["int", "str", "bool"], comps=["opt", "list", "map", "tuple"], metas=True, settings=False))
    case.cleanup.append(u.b.close)
    b = u.b
    collide = r.random() < 0.25
    stats = dict(depth=0, flat=0, same=0, gen=0)

    def leaf():
        k = r.random()
        n = r.choice([M.Int, M.Str, M.Bool])() if k < 0.7 else M.Coll("List", M.Int()) if k < 0.85 else M.Map("Dict", M.Str(), M.Int())
        return M.Opt(n, r.randrange(2)) if r.random() < 0.2 else n

    def tree(d, level, keys, names):
        """*keys*: those taken at the level the fields end up on; *names*: field names used there by other structures."""
        kind = r.choice(["dc", "dc", "dc", "xdc", "td"])
        ff, nf = [], []
        subs = []
        used = set()
        param = None
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            name = r.choice(NAMES)
            if name in used:
                continue
            used.add(name)
            n = leaf()
            aliases = []
            if collide and keys and r.random() < 0.2:
                aliases = [r.choice(sorted(keys))]
            elif name in keys or r.random() < 0.25:
                aliases = [f"{name}-{b.uid()}"] + ([f"alt{b.uid()}"] if r.random() < 0.3 else [])
                if name in names:
                    stats["same"] += 1
            names.add(name)
            keys.update(aliases or [name])
            default = M.NODEF
            if kind != "td" and r.random() < 0.25:
                immut = not isinstance(n.inner if isinstance(n, M.Opt) else n, (M.Coll, M.Map))
                if immut:
                    default = ("value", b.default_slot(lambda: n.gen(r, M.Env(), 1), False))
                else:
                    default = ("factory", b.default_slot(lambda: n.gen(r, M.Env(), 1), False))
            meta = [r.choice(gen.METAS)] if r.random() < 0.15 else []
            for out in (ff, nf):
                out.append(M.FieldSpec(name, n, list(aliases), default, meta=meta))
        if d > 0:
            for _ in range(r.choice([0, 1, 1, 2]) if level else r.choice([1, 1, 2, 3])):
                name = r.choice(NAMES + ["inner", "sub"])
                if name in used:
                    continue
                used.add(name)
                flat = r.random() < 0.8
                if flat:
                    stats["flat"] += 1
                    stats["depth"] = max(stats["depth"], level + 1)
                    sub = tree(d - 1, level + 1, keys, names)
                    names.add(name)
                else:
                    if name in keys:
                        continue
                    keys.add(name)
                    names.add(name)
                    sub = tree(d - 1, 0, set(), set())
                subs.append((name, sub, flat))
                default = M.NODEF
                if flat and kind != "td" and r.random() < 0.25:
                    # For objects made by hand: what is merged has defaults of its own.
                    default = ("factory", b.default_slot(lambda s=sub: s.flat.gen(r, M.Env(), 1), True))
                ff.append(M.FieldSpec(name, sub.flat, default=default, flat=flat))
                nf.append(M.FieldSpec(name, sub.nest))
        if kind == "dc" and r.random() < 0.25 and ff:
            # A generic structure, used with an argument.
            param = f"T{b.uid()}"
            b.add(f"{param} = t.TypeVar({param!r})")
            pn = f"p{b.uid()}"
            keys.add(pn)
            names.add(pn)
            stats["gen"] += 1
            for out in (ff, nf):
                out.append(M.FieldSpec(pn, M.Param(param)))
        idx = list(range(len(ff)))
        r.shuffle(idx)
        ff, nf = [ff[i] for i in idx], [nf[i] for i in idx]
        opts = "kw_only=True" if kind == "dc" else ""
        extra = r.random() < 0.6 if kind != "td" and r.random() < 0.15 else None
        ps = [param] if param else []
        fs = M.Struct(b, ff, kind, options=opts, extra=extra, params=ps)
        ns = M.Struct(b, nf, kind, options=opts, extra=extra, params=ps)
        if param:
            arg = leaf()
            while isinstance(arg, M.Opt):
                arg = leaf()
            t_ = Tree(M.Gen_(fs, [arg]), M.Gen_(ns, [arg]))
        else:
            t_ = Tree(fs, ns)
        t_.subs = subs
        return t_

    top = tree(r.choice([1, 2, 2, 3, 4]), 0, set(), set())
    return u, top, stats, collide


def twin(tr, v):
    """The value of the nested twin that corresponds to *v*."""
    n, _ = M.strip(tr.nest, M.Env())
    f, _ = M.strip(tr.flat, M.Env())
    subs = {name: s for name, s, _ in tr.subs}
    if f.kind == "td":
        return {k: (twin(subs[k], x) if k in subs else x) for k, x in v.items()}
    return n.cls(**{fs.name: (twin(subs[fs.name], getattr(v, fs.name)) if fs.name in subs else getattr(v, fs.name)) for fs, _ in f.all_fields(M.Env())})


def unflatten(tr, p):
    """The payload of the nested twin that has the same entries."""
    f, _ = M.strip(tr.flat, M.Env())
    subs = {name: (s, flat) for name, s, flat in tr.subs}
    out = {}
    for fs, _ in f.all_fields(M.Env()):
        if fs.name in subs:
            s, flat = subs[fs.name]
            if flat:
                out[fs.name] = unflatten(s, p)
            elif fs.name in p:
                out[fs.name] = unflatten(s, p[fs.name]) if isinstance(p[fs.name], dict) else p[fs.name]
        else:
            for k in fs.keys:
                if k in p:
                    out[k] = p[k]
                    break
    return out


def run(case):
    r = case.rng
    u, top, stats, collide = make(case)
    case.note(module=u.b.source(), types=top.flat.expr)
    F, N = u.build(top.flat, top.nest)
    env = M.Env()
    place = r.choice(["root", "root", "list", "optional"])
    T = {"root": F, "list": t.List[F], "optional": t.Optional[F]}[place]
    put = (lambda x: [x]) if place == "list" else (lambda x: x)
    get = (lambda x: x[0]) if place == "list" else (lambda x: x)
    if stats["depth"] >= 2:
        case.count("flattened twice deep")
    if stats["same"]:
        case.count("same name, other alias")
    if stats["gen"]:
        case.count("generic")
    for _ in range(3):
        v = top.flat.gen(r, env, 3)
        want = expect(top.flat.enc, v, env)
        if want[0] == "unspecified":
            raise Skip("no documented form")
        o = observe(dump, put(v), T)
        case.note(value=short(v, 2000))
        case.ev(("dump", case.notes["module"], canon(v)), trivial=not stats["flat"], sample=lambda: {"value": short(v, 160), "payload": repr(o)[:160]})
        if want[0] == "reject":
            case.count("collisions refused")
            check_dump(case, o, want, "two entries share a key")
            continue
        case.count("serialized")
        check_dump(case, o, ("ok", put(want[1])), "dump with flattened members")
        w = get(o.value)
        if collide:
            continue  # Keys of several fields are among each other's aliases.
        back = observe(load, put(w), T)
        if not back.ok:
            case.bad("what a structure with flattened members was serialized to cannot be loaded", payload=w, got=repr(back))
        if not deep_eq(get(back.value), v):
            case.bad("loading gave another object than the one serialized", payload=w, got=get(back.value), expected=v)
        case.count("loaded")
        # The twin without flattening.
        np = unflatten(top, w)
        nb = observe(load, np, N)
        if not nb.ok or not deep_eq(nb.value, twin(top, v)):
            case.bad("the structure without flattening loads the nested form differently", payload=np, got=repr(nb), expected=twin(top, v))
        # Changes at the merged level.
        for _ in range(3):
            p = dict(w)
            for _ in range(r.choice([1, 1, 2])):
                op = r.choice(["add", "drop", "shuffle", "junk"])
                if op == "add":
                    p[r.choice(["zz", "inner", "sub", "extra", "q"])] = junk(r, 1)
                elif op == "drop" and p:
                    del p[r.choice(list(p))]
                elif op == "junk" and p:
                    p[r.choice(list(p))] = junk(r, 1)
                else:
                    items = list(p.items())
                    r.shuffle(items)
                    p = dict(items)
            want2 = expect(top.flat.dec, p, env)
            if want2[0] == "unspecified":
                continue
            o2 = observe(load, put(p), T)
            case.note(payload=short(p, 2000))
            case.ev(("load", case.notes["module"], canon(p)), trivial=not stats["flat"])
            if want2[0] == "ok":
                case.count("loaded")
                check_load(case, o2, ("ok", put(want2[1])), "load with flattened members")
            else:
                extra = set(p) - set(w)
                case.count("extra keys refused" if extra else "missing keys refused" if set(w) - set(p) else "bad entries refused")
                check_load(case, o2, want2, "load with flattened members")
