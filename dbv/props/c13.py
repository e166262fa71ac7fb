"""Tagged unions in every style: shapes, tags, wrong tags, and values that are no member."""

from databind.json import dump, load

from dbv import foreign, gen
from dbv.common import *

ID = "C13"
CASES = {"quick": 2600, "thorough": 110000}
RULE = "a generated tagged union (style, keys, carrier, member registry, place) and a value or payload; non-trivial always"
MINIMA = {"members serialized": 5000, "non-members refused": 2500, "payloads accepted": 6000, "payloads refused": 6000,
          "carrier class": 700, "carrier annotated": 700, "style nested": 500, "style flat": 500, "style keyed": 500, "lazy or imported members": 600, "keys clash": 200, "over a structure": 300, "a member of itself": 60}

TAGS = ["a", "B", "member", "x-y", "", "type", "0", "\u00e9", "none", "with"]


def make(case):
    r = case.rng
    u = gen.Universe(r, gen.Profile(leaves=["int", "str", "bool"], comps=["opt", "list", "map"], metas=False, settings=False, flat=True, future=False))
    case.cleanup.append(u.b.close)
    b = u.b
    style = r.choice(["nested", "flat", "keyed"])
    disc = r.choice(["type", "type", "kind", "@t", "$", "with", ""])
    # (It says nothing for the other styles.)
    nest = r.choice([None, None, "with", "payload", "0", ""]) if style == "nested" or r.random() < 0.3 else None
    if style == "nested" and r.random() < 0.04:
        nest = disc
        case.count("keys clash")
    carrier = r.choice(["annotated", "class"])
    case.count("carrier " + carrier)
    case.count("style " + style)
    tags = [x for x in TAGS if x != disc or style == "keyed" or r.random() < 0.3]
    r.shuffle(tags)
    nm = r.randrange(2, 5)

    def clash():
        """A field with the key of the discriminator."""
        case.count("keys clash")
        return M.FieldSpec(f"own{b.uid()}", r.choice([M.Str(), M.Int()]), [disc])

    def plain():
        k = r.random()
        if k < 0.4:
            return u.leaf(["int", "str", "float", "bool"])
        if k < 0.6:
            return u.leaf(["enum", "uuid", "decimal", "date", "bytes"])
        if k < 0.7:
            return M.UserColl(b, "t.List", M.Int())
        if k < 0.85:
            return M.Map("user", M.Str(), M.Int(), b)
        return u.struct(1, "nt")

    if carrier == "annotated":
        members = {}
        exprs = set()
        lazy = []
        while len(exprs) < nm:
            n = u.struct(r.choice([0, 1]), r.choice(["dc", "dc", "xdc"])) if r.random() < (0.8 if style == "flat" else 0.5) else plain()
            if r.random() < (0.1 if style == "flat" else 0.03):
                n = M.Struct(b, [M.FieldSpec("n", M.Int()), clash()], "dc")
            if n.expr in exprs:
                continue
            exprs.add(n.expr)
            members[tags.pop()] = n
        if r.random() < 0.15 and tags:
            # Two tags for one type: the first one is written, both are read.
            members[tags.pop()] = r.choice(list(members.values()))
        for k in members:
            if r.random() < 0.3:
                lazy.append(k)
        if lazy:
            case.count("lazy or imported members")
        over = None
        if r.random() < 0.3:
            # Annotating a structure (one of the members or another one), which could be converted without the union.
            case.count("over a structure")
            sts = [m for m in members.values() if isinstance(m, M.Struct) and m.kind in ("dc", "xdc", "td")]
            over = (r.choice(sts) if sts and r.random() < 0.6 else u.struct(0, r.choice(["dc", "xdc", "td"]))).expr
        n = M.Tagged(b, members, style, disc, nest, lazy=lazy, over=over)
        return u, n, []
    base = f"Base{b.uid()}"
    how = r.choice(["register", "register", "dict", "import", "chain"])
    opts = [f"style={style!r}"] if style != "nested" or r.random() < 0.3 else []
    if disc != "type":
        opts.append(f"discriminator_key={disc!r}")
    if nest is not None:
        opts.append(f"nesting_key={nest!r}")
    names = [f"M{b.uid()}" for _ in range(nm)]
    ids = {}
    for nme in names:
        ids[nme] = nme if how == "register" and r.random() < 0.2 else f"{b.name}.{nme}" if how == "import" else tags.pop()
    if how in ("dict", "chain"):
        case.count("lazy or imported members")
        d = "{" + ", ".join(f"{ids[x]!r}: lambda: {x}" for x in (names[:-1] if how == "chain" else names)) + "}"
        if how == "chain":
            ids[names[-1]] = f"{b.name}.{names[-1]}"
            d = f"[{d}, '<import>']"
        opts.insert(0, d)
    elif how == "import":
        case.count("lazy or imported members")
        opts.insert(0, "'<import>'")
    root = own = None
    members = {}
    if r.random() < 0.5:
        # The base can be converted without the union, and may be one of its members.
        case.count("over a structure")
        fields = [u.field(0) for _ in range(r.choice([0, 0, 1, 2]))]
        root = M.Struct(b, fields, "dc", name=base, decorators=[f"@Union({', '.join(opts)})"], options="kw_only=True", extra=r.choice([None, None, True]))
        if how == "register" and tags and r.random() < 0.4:
            tag = tags.pop()
            b.add(f"Union.register({base}, {tag!r})({base})")
            own = tag
        if how == "import" or how == "chain":
            own = f"{b.name}.{base}"
    else:
        b.add(f"@Union({', '.join(opts)})\nclass {base}:\n    pass")
    prev = None
    for nme in names:
        deco = []
        if how == "register":
            deco = [f"@Union.register({base})" if ids[nme] == nme else f"@Union.register({base}, {ids[nme]!r})"]
        fields = [u.field(0) for _ in range(r.randrange(3))]
        if r.random() < 0.06:
            fields.append(clash())
        if prev is not None and r.random() < 0.25:
            # A member derived from another member.
            members[ids[nme]] = M.Struct(b, fields, "dc", name=nme, base=prev, decorators=deco, options="kw_only=True")
        else:
            members[ids[nme]] = M.Struct(b, fields, "dc", name=nme, bases=[] if root else [base], base=root, decorators=deco, options="kw_only=True")
        prev = members[ids[nme]]
    if own is not None:
        case.count("a member of itself")
        members[own] = root
    stranger = M.Struct(b, [M.FieldSpec("p", M.Int())], "dc", bases=[] if root else [base], base=root, options="kw_only=True") if how in ("register", "dict") else None
    n = M.Tagged(b, members, style, disc, nest, carrier="class", basename=base)
    b.add(f"class Sub{nm}_({names[0]}):\n    pass")
    outs = [s for s in [stranger] if s is not None]
    if root is not None and root not in members.values():
        outs.append(root)
    if how in ("register", "dict"):
        outs.append(f"Sub{nm}_")
    return u, n, (None if how in ("import", "chain") else outs)


def payloads(r, n, p, tag):
    """Corruptions of the valid payload *p*."""
    others = [k for k in n.members if k != tag]
    out = []
    if n.style == "keyed":
        w = p[tag]
        if n.nest is not None:
            out += [{**p, n.nest: None}, {n.disc: tag, n.nest: w}]
        out += [{}, {tag: w, "zz": 1}, {"unknown": w}, w, None, [p], tag, {o: w for o in others[:1]}]
        if others:
            out.append({tag: w, others[0]: w})
    else:
        key = tag if n.nest is None else n.nest
        out += [{k: v for k, v in p.items() if k != n.disc}, None, [], tag, {}]
        for bad in (None, 1, True, ["a"], {"a": 1}, 1.5, "unknown", tag + "x", tag.upper() if tag.upper() not in n.members else None):
            out.append({**p, n.disc: bad})
        for o in others:
            out.append({**p, n.disc: o})
        if n.style == "nested":
            out.append({k: v for k, v in p.items() if k != key})
            out += [{**{k: v for k, v in p.items() if k != key}, n.disc: o, (o if n.nest is None else n.nest): p[key]} for o in others[:2]]
            if key != tag:
                rest = {k: v for k, v in p.items() if k != key}
                out += [{**rest, tag: p[key]}, {**p, tag: p[key]}, {**rest, tag: p[key], key: None}]
            if isinstance(p[key], dict):
                out.append({**p[key], n.disc: tag})
        else:
            items = list(p.items())
            r.shuffle(items)
            if n.nest is not None:
                out += [{**p, n.nest: x} for x in (None, {}, 1)]
            out += [dict(items), {**p, "zz": 1}, {**p, tag: None}, {n.disc: tag}, {n.disc: tag, tag: {k: v for k, v in p.items() if k != n.disc}}]
    return out


def run(case):
    r = case.rng
    u, n, outs = make(case)
    case.note(types=n.expr, module=u.b.source())
    (T,) = u.build(n)
    env = M.Env()
    place = r.choice(["root", "root", "list", "dict", "optional", "tuple"])
    W = {"root": T, "list": t.List[T], "dict": t.Dict[str, T], "optional": t.Optional[T], "tuple": t.Tuple[int, T]}[place]
    put = {"list": lambda x: [x], "dict": lambda x: {"k": x}, "tuple": lambda x: [3, x]}.get(place, lambda x: x)
    putv = {"tuple": lambda x: (3, x)}.get(place, put)
    get = {"list": lambda x: x[0], "dict": lambda x: x["k"], "tuple": lambda x: x[1]}.get(place, lambda x: x)
    for tag, m in n.members.items():
        v = m.gen(r, env, 2)
        want = expect(n.enc, v, env)
        o = observe(dump, putv(v), W)
        case.note(value=short(v, 1000))
        if want[0] == "unspecified":
            continue
        case.ev(("dump", case.notes["module"], canon(v), place), sample=lambda: {"union": n.expr, "style": n.style, "value": short(v, 120), "outcome": repr(o)[:160]})
        if want[0] == "reject":
            case.count("non-members refused")
            check_dump(case, o, want, "a member that has no flat form, or keys that clash")
            if n.style == "nested":
                q = {n.disc: tag}
                check_load(case, observe(load, put(q), W), expect(n.dec, q, env), "load where the nesting key is the discriminator key")
            continue
        case.count("members serialized")
        check_dump(case, o, ("ok", put(want[1])), f"dump in {n.style} style")
        p = want[1]
        tag = next(k for k, x in n.members.items() if n.type_of(x) is type(v))
        if place != "optional" or p is not None:
            cands = [p] + r.sample(payloads(r, n, p, tag), 5) + [mutate_json(p, r) for _ in range(2)]
        for q in cands:
            if place == "optional" and q is None:
                continue
            w2 = expect(n.dec, q, env)
            if w2[0] == "unspecified":
                case.count("unspecified")
                continue
            o2 = observe(load, put(q), W)
            case.note(payload=short(q, 1000))
            case.ev(("load", case.notes["module"], canon(q), place))
            case.count("payloads accepted" if w2[0] == "ok" else "payloads refused")
            check_load(case, o2, ("ok", putv(w2[1])) if w2[0] == "ok" else w2, f"load in {n.style} style")
    # Values that are no member: foreign ones, of a class derived from a member, of the base.
    if outs is None:
        return  # Any class that can be imported is a member.
    types = [n.type_of(m) for m in n.members.values()]
    bads = [foreign.foreign(r) for _ in range(3)] + [None]
    for s in outs:
        bads.append(u.b.ev(s)(**{f.name: getattr(x, f.name) for x in [next(iter(n.members.values())).gen(r, env, 1)] for f, _ in next(iter(n.members.values())).all_fields(env)}) if isinstance(s, str) else s.gen(r, env, 1))
    for v in bads:
        if type(v) in types or place == "optional" and v is None:
            continue
        o = observe(dump, putv(v), W)
        case.note(value=short(v, 300))
        case.ev(("bad", case.notes["module"], short(v), place))
        case.count("non-members refused")
        if not o.refused:
            case.bad("a value whose type is no member of the union was not refused with a conversion error", got=repr(o))
