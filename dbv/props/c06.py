"""One place of a valid payload or value is broken; the context of the error must lead there and be rendered."""

import dataclasses
import re
import typing as t

from databind.core import Context, Converter, Direction, Location
from databind.json import dump, get_object_mapper, load

from typeapi import ClassTypeHint

from dbv import gen, walk
from dbv.common import *
from dbv.foreign import Odd
from dbv.util import ctx_path, get_at, put_at

ID = "C06"
CASES = {"quick": 5000, "thorough": 160000}
RULE = "a generated type, a valid payload or value and one corrupted place; non-trivial if the place is below the root"
MINIMA = {"errors at depth 1": 1500, "errors at depth 2": 700, "errors at depth 3": 200, "deserialize": 5000, "serialize": 2500, "error across files": 3000, "error with a position": 1000}
ASSUMPTIONS = ["no untagged unions, flattened or remainder fields on the path", "an aliased field may be named by its name or by the alias in the payload"]

PROFILE = gen.Profile(
    leaves=[x for x in gen.LEAVES if x not in ("any", "object", "literal")],
    comps=["opt", "list", "list", "set", "tuple", "map", "dc", "dc", "td", "nt", "gen", "tagged", "ann", "rec", "desas", "usercoll", "usermap"],
    flat=False, remainder=False,
)
SCALARS = [None, True, False, 5, -1, 1.5, "~~", "", 10**400]


def corruptions(case, pl):
    """(kind, new value, [accepted (steps, value found there)]) for one place of a payload."""
    r, n, p = case.rng, pl.node, pl.value
    out = []

    def sub(kind, new, more=()):
        if pl.owner == "optional" and new is None:
            return
        if expect(n.dec, new, pl.env, pl.ann)[0] == "reject":
            out.append((kind, new, [(pl.path, new)] + list(more)))

    if isinstance(n, M.Opt):
        return out
    for new in r.sample(SCALARS, 3):
        sub("wrong kind", new)
    if isinstance(n, M.Struct):
        sub("wrong kind", [])
        fs = [f for f, _ in n.all_fields(pl.env) if any(k in p for k in f.keys) and n.required(f)]
        if fs and not any(f.aliases and len([k for k in f.keys if k in p]) > 1 for f in fs):
            f = r.choice(fs)
            sub("missing key", {k: v for k, v in p.items() if k not in f.keys})
        sub("extra key", {**p, "~extra~": r.choice([1, None, {}])})
    elif isinstance(n, (M.Coll, M.UserColl)):
        sub("wrong kind", {})
    elif isinstance(n, M.Tup):
        sub("wrong kind", {})
        sub("wrong length", p + [1])
        if p:
            sub("wrong length", p[:-1])
    elif isinstance(n, M.Map):
        sub("wrong kind", [])
        if p and expect(n.k.dec, "~", pl.env)[0] == "reject":
            k = r.choice(list(p))
            new = {("~" if x == k else x): v for x, v in p.items()}
            out.append(("bad mapping key", new, [(pl.path + ("Key('~')",), "~")]))
    elif isinstance(n, M.Tagged):
        sub("wrong kind", [])
        if n.style == "keyed":
            sub("number of keys", {})
            sub("number of keys", {**p, "~": 1})
            sub("unknown tag", {"~": next(iter(p.values()))})
        else:
            sub("missing tag", {k: v for k, v in p.items() if k != n.disc})
            sub("unknown tag", {**p, n.disc: "~"}, [(pl.path + (n.disc,), "~")])
            sub("tag is no text", {**p, n.disc: 5}, [(pl.path + (n.disc,), 5)])
            if n.style == "nested":
                sub("missing nesting key", {n.disc: p[n.disc]})
    return out




def run(case):
    r = case.rng
    for _ in range(2):
        files(case)
    u, (n,), (T,) = gen.make(case, PROFILE, depth=r.choice([1, 2, 2, 3]))
    src = case.notes["module"]
    for _ in range(4):
        env = M.Env(r.choice(gen.GLOBS))
        st, p = expect(n.enc, n.gen(r, env), env)
        if st != "ok" or expect(n.dec, p, env)[0] != "ok":
            case.count("skipped: value without a payload")
            continue
        places = list(walk.decode_places(n, p, env))
        deep = [x for x in places if len(x.path) >= 2]
        special = [x for x in places if isinstance(x.node, (M.Struct, M.Tagged, M.Map, M.Tup))]
        k = r.random()
        pl = r.choice(special if special and k < 0.4 else deep if deep and k < 0.75 else places)
        opts_ = corruptions(case, pl)
        if not opts_:
            continue
        which = r.choice(sorted({x[0] for x in opts_}))
        kind, new, accept = r.choice([x for x in opts_ if x[0] == which])
        bad = put_at(p, pl.where, new)
        if get_at(bad, pl.where) is not new:
            continue
        alt = [(pl.where + path[len(pl.path):], x) for path, x in accept]
        filename = r.choice([None, "data.json", "/x/y z.json", "C:\\cfg", "", "None", "-", "\u00e9 \u4e00"])
        case.note(payload=bad, settings=env.glob, type=n.expr, corruption=kind, place=pl.where, filename=filename)
        o = observe(load, bad, T, filename, **opts(env))
        if not o.refused:
            case.count("not refused (judged by other checks)")
            continue
        case.ev((n.expr, src, canon(bad), filename), trivial=not accept[0][0], sample=lambda: {"type": n.expr, "payload": short(bad, 160), "place": short(pl.where), "steps": short(ctx_path(o.exc))})
        case.count("deserialize")
        case.count("corruption: " + kind)
        judge(case, o.exc, accept + alt, filename, "deserialize")
    for _ in range(3):
        env = M.Env(r.choice(gen.GLOBS))
        v = n.gen(r, env)
        if expect(n.enc, v, env)[0] != "ok" or not observe(dump, v, T, **opts(env)).ok:
            continue
        places = [x for x in walk.value_places(n, v, env) if x.set or not x.path]
        deep = [x for x in places if len(x.path) >= 2]
        pl = r.choice(deep if deep and r.random() < 0.5 else places)
        new = r.choice([Odd, Odd, object])()
        if isinstance(pl.node, M.Tup) and r.random() < 0.5:
            new = pl.value + (1,)
        if not pl.path:
            v = new
        else:
            pl.set(new)
        filename = r.choice([None, "data.json", "out/2", "", "0"])
        case.note(value=v, settings=env.glob, type=n.expr, corruption="value replaced", place=pl.path, filename=filename)
        o = observe(dump, v, T, filename, **opts(env))
        if not o.refused:
            case.count("not refused (judged by other checks)")
            continue
        case.ev((n.expr, src, canon(v), filename), trivial=not pl.path, sample=lambda: {"type": n.expr, "value": short(v, 160), "steps": short(ctx_path(o.exc))})
        case.count("serialize")
        judge(case, o.exc, [(pl.path, new)], filename, "serialize")


class Include(Converter):
    """Continues in another file where the payload says so."""

    def __init__(self, files):
        self.files = files

    def convert(self, ctx):
        if not isinstance(ctx.datatype, ClassTypeHint) or ctx.datatype.type is not Knotty:
            raise NotImplementedError
        if isinstance(ctx.value, dict) and set(ctx.value) == {"$include"}:
            value, location = self.files[ctx.value["$include"]]
            return ctx.spawn(value, Knotty, "$include", location).convert()
        return ctx.spawn(ctx.value, Knot, None).convert()


class Knotty:
    pass


@dataclasses.dataclass
class Knot:
    n: t.Optional[int] = None
    sub: "t.List[Knotty]" = dataclasses.field(default_factory=list)
    by: "t.Dict[str, Knotty]" = dataclasses.field(default_factory=dict)


def files(case):
    """A payload spread over files, read with positions; the error must tell them."""
    r = case.rng
    texts = {}

    def here(names):
        k = r.random()
        if r.random() < 0.06:
            return Location(r.choice(names), 0, 0)
        return Location(r.choice(names), r.choice([0, r.randrange(1000, 9999), r.randrange(1000, 9999)]), r.randrange(1000, 9999)) if k < 0.4 else Location(r.choice(names), r.randrange(1000, 9999), r.choice([0, 1, 80])) if k < 0.6 else Location(r.choice(names), None, None)

    names = ["a.json", "b.json", "dir/c.json"]
    root = here(names) if r.random() < 0.8 else Location(None, r.randrange(1000, 9999), r.randrange(1000, 9999)) if r.random() < 0.5 else None
    # From the broken place up to the root.
    place = []
    value, depth = r.choice([{"n": "bad"}, {"sub": 5}, {"by": []}, {"odd": 1}, []]), r.randrange(1, 6)
    steps = [("n",)] if value == {"n": "bad"} else [("sub",)] if value == {"sub": 5} else [("by",)] if value == {"by": []} else []
    steps = [(k, None) for k, in steps]
    for i in range(depth):
        k = r.random()
        if k < 0.4:
            no = f"file{len(texts)}"
            texts[no] = (value, here(names))
            steps.insert(0, ("$include", texts[no][1]))
            value = {"$include": no}
        elif k < 0.7:
            n = r.randrange(3)
            value = {"n": 1, "sub": [{} for _ in range(n)] + [value]}
            steps[:0] = [("sub", None), (n, None)]
        else:
            value = {"by": {"x": {}, "k": value}}
            steps[:0] = [("by", None), ("k", None)]
    mapper = get_object_mapper()
    mapper.module.register(Include(texts), first=True)
    case.note(payload=value, files={k: v[0] for k, v in texts.items()}, root=root, steps=steps)
    o = observe(mapper.convert, Direction.DESERIALIZE, value, Knotty, root)
    if not o.refused:
        case.bad("files: a payload with a wrong place was not refused with a conversion error", got=repr(o))
    case.count("error across files" if texts else "error with a position")
    case.ev(("files", canon(value), repr(root), repr(steps)), sample=lambda: {"payload": short(value, 120), "steps": short(steps, 200), "error": short(str(o.exc), 300)})
    got = [c.key for c in o.exc.context.iter_hierarchy_up()][::-1]
    got = [k for k in got[1:] if k is not None]
    if got != [k for k, _ in steps]:
        case.bad("files: the error does not point at the offending place", got=got)
    m = re.search(r"\n\nTrace:\n(.*?)(?:\n\nThe following errors|\Z)", str(o.exc), re.S)
    lines = [x.strip() for x in m.group(1).split("\n")] if m else []
    # A step that stays at the place of the one above it is not where a value was found.
    for x in lines:
        if x.startswith("^") and re.search(r"\d{4}:\d+|\d+:\d{4}", x):
            case.bad("files: the trace states a position for a step that has none", line=x, got=lines)
    lines = [x for x in lines if not x.startswith("^")]
    want, current, stated = [], None, None
    for key, loc in [("$", root)] + steps:
        if loc is not None:
            current = loc.filename
        if current is not None and current != stated:
            want.append(f'In "{current}"')
            stated = current
        want.append(("$" if key == "$" and not any(w.startswith("$") for w in want) else f"[{key}]" if isinstance(key, int) else f".{key}", loc))
        want[-1:] = [want[-1][0] + ": " + (f"{loc.line}:{loc.column}" if loc is not None and loc.column is not None else "")]
    ok = len(lines) == len(want)
    for x, w in zip(lines, want):
        if w.startswith("In "):
            ok = ok and x == w
        else:
            step, _, at = w.partition(": ")
            ok = ok and x.startswith(step + ": ") and (at in x if at else not re.search(r"\d{4}:\d+|\d+:\d{4}", x))
    if not ok:
        case.bad("files: the trace does not tell the steps with their files and positions", expected=want, got=lines)


def judge(case, exc, accept, filename, direction):
    got = tuple(ctx_path(exc))
    case.count(f"errors at depth {min(len(got), 4)}")
    ok = [x for path, x in accept if same_path(path, got)]
    if not ok:
        case.bad(f"{direction}: the error does not point at the offending place", steps=got, expected=accept[0][0], error=str(exc)[:1500])
    if not any(exc.context.value is x or deep_eq(exc.context.value, x) for x in ok):
        case.bad(f"{direction}: the error does not carry the value found at the place", found=exc.context.value, expected=ok[0])
    chain = list(exc.context.iter_hierarchy_up())
    if chain[-1].key is not Context.ROOT or chain[-1].parent is not None or any(c.key is Context.ROOT for c in chain[:-1]):
        case.bad(f"{direction}: the chain of contexts does not end at the root", keys=[c.key for c in chain])
    if any(c.location.filename != filename for c in chain):
        case.bad(f"{direction}: the source file is not known at every step", filenames=[c.location.filename for c in chain])
    text = str(exc)
    m = re.search(r"\n\nTrace:\n(.*?)(?:\n\nThe following errors|\Z)", text[len(exc.message):], re.S)
    if not m:
        case.bad(f"{direction}: the error has no trace", text=text[:1500])
    lines = [x.strip() for x in m.group(1).split("\n")]
    if filename is not None:
        if lines[0] != f'In "{filename}"':
            case.bad(f"{direction}: the trace does not start with the name of the file", text=text[:1500])
        lines = lines[1:]
    elif any(x.startswith('In "') for x in lines):
        case.bad(f"{direction}: the trace names a file although none was given", text=text[:1500])
    if any(str(k).splitlines() not in ([], [str(k)]) or str(k) != str(k).strip() for k in got):
        return
    steps = [x for x in lines if re.match(r"(?:\$|\.|\[)", x)]
    want = ["$"] + [f"[{k}]" if isinstance(k, int) else f".{k}" if isinstance(k, str) else f"[{k!r}]" for k in got]
    if len(steps) != len(want) or not all(x.startswith(w.strip() + ": ") or x.startswith(w + ": ") for x, w in zip(steps, want)):
        case.bad(f"{direction}: the trace does not list the steps in order", text=text[:1500], steps=got)


def same_path(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))
