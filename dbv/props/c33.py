"""Containers next to their elements: the conversion of a whole, and the conversions of what is in it one by one."""

import array
import collections
import types

from databind.json import dump, load

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C33"
CASES = {"quick": 5000, "thorough": 150000}
RULE = "one conversion of a container next to those of its elements; trivial if it is empty"
MINIMA = {"large": 4, "load accepted": 4000, "load refused": 3000, "dump accepted": 4000, "dump refused": 1000, "one element fails": 2500, "several elements fail": 500, "long": 600, "repeated elements": 600, "no collection": 1200, "wrong length of a tuple": 500,
          "mapping": 900, "tuple": 450, "set": 400, "subclass": 400, "generic subclass": 230, "other kind of collection in the payload": 400, "abstract": 650, "annotated container": 400, "wrong kind when serialized": 500, "key refused": 300, "keys collide": 60}
EXOTIC = '''
class CSeq{n}(collections.abc.Sequence[{e}]):
    def __init__(self, items=()):
        self.items = tuple(items)
    def __len__(self):
        return len(self.items)
    def __getitem__(self, i):
        return self.items[i]
'''
CMAP = '''
class CMap{n}(collections.abc.Mapping[{k}, {v}]):
    def __init__(self, items=()):
        self.items_ = dict(items)
    def __len__(self):
        return len(self.items_)
    def __iter__(self):
        return iter(self.items_)
    def __getitem__(self, k):
        return self.items_[k]
'''


def length(r):
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9])


def values_of(x):
    return list(x)


def large(case):
    """Containers larger than any in the rest."""
    r = case.rng
    n = 70001 if case.index % 2500 == 7 else r.choice([1025, 4097, 10001, 16385, 33000])
    kind = r.choice(["list", "deque", "tuple", "set", "dict", "fields"])
    case.note(elements=n, kind=kind)
    case.count("large")
    xs = list(range(n))
    if kind == "dict":
        T, v, p = t.Dict[str, int], {str(x): x for x in xs}, {str(x): x for x in xs}
    elif kind == "fields":
        n //= 16  # (Making the class takes long.)
        names = [f"f{i}" for i in range(n)]
        T = t.TypedDict("T", dict.fromkeys(names, int))
        v = p = dict(zip(names, xs))
    else:
        T, f = {"list": (t.List[int], list), "deque": (t.Deque[int], collections.deque), "tuple": (t.Tuple[int, ...], tuple), "set": (t.Set[int], set)}[kind]
        v, p = f(xs), xs
    for direction, fn, a, b in (("load", load, p, v), ("dump", dump, v, p)):
        o = observe(fn, a, T)
        case.ev(("large", kind, n, direction))
        if not o.ok or type(o.value) is not type(b) or (sorted(o.value) if kind == "set" and direction == "dump" else o.value) != b or kind in ("dict", "fields") and list(o.value) != list(b):
            got = short(o.value, 200) if o.ok else repr(o)
            case.bad(f"{direction}: a large container is not converted as a small one", got=got, length=len(o.value) if o.ok else None)
    # The last element is looked at like the first.
    bad = dict(p) if isinstance(p, dict) else list(p)
    bad[next(reversed(bad)) if isinstance(p, dict) else -1] = "x"
    o = observe(load, bad, T)
    case.ev(("large", kind, n, "bad"))
    if not o.refused:
        case.bad("load: the last element of a large container is refused on its own, but the container is not", got=short(o.value if o.ok else o, 200))


def run(case):
    r = case.rng
    if case.index % 1250 == 7:
        return large(case)
    u = gen.Universe(r, gen.Profile(disjoint=r.random() < 0.4))
    case.cleanup.append(u.b.close)
    what = r.choice(["coll", "coll", "coll", "tuple", "map", "map"])
    d = r.choice([0, 0, 1, 1, 2])
    if what == "coll":
        return collections_(case, u, d)
    if what == "tuple":
        return tuples(case, u, d)
    return mappings(case, u, d)


def wrap(case, u, expr):
    """Annotations on the container mean nothing to its elements."""
    if case.rng.random() < 0.12:
        case.count("annotated container")
        return f"t.Annotated[{expr}, {case.rng.choice(['Strict(False)', 'Strict(True)', 'ExtraKeys(True)', 'SerializeDefaults(False)', repr('doc'), 'Alias(' + repr('x') + ')'])}]"
    return expr


def one(case, node, env, bad):
    """A payload of the element type, perhaps a bad one."""
    k, p = payload(case, node, env, ("mutated", "junk") if bad else ("valid",))
    return p


def value(case, node, env, bad):
    r = case.rng
    with M.Sabotage(1 if bad and r.random() < 0.5 else r.randrange(1, 4) if bad else 99, lambda n: foreign(r)):
        return node.gen(r, env, 2)


def evaluate(case, u, ev, *exprs):
    case.note(module=u.b.source(), types=", ".join(exprs))
    return u.b.build(*exprs)


def bad_positions(r, n):
    k = r.random()
    if k < 0.6 or not n:
        return set()
    return {r.randrange(n) for _ in range(1 if k < 0.9 else r.randrange(1, 4))}


def outcome(case, elems, what):
    """The outcome of the elements: ('ok', results) or ('refused', None) or None if there is nothing to say."""
    if any(not o.ok and not o.refused for o in elems):
        case.count("skipped: an element leaks")
        return None
    bad = sum(o.refused for o in elems)
    if bad:
        case.count("one element fails" if bad == 1 else "several elements fail")
        return "refused", None
    return "ok", [o.value for o in elems]


def settled(case, direction, o, want):
    case.count(f"{direction} {'accepted' if o.ok else 'refused' if o.refused else 'leaked'}")
    if want[0] == "refused" and not o.refused:
        case.bad(f"{direction}: an element is refused on its own, but the container is not", got=repr(o))
    if want[0] == "ok" and not o.ok:
        case.bad(f"{direction}: every element is accepted on its own, but the container is not", got=repr(o))
    return o.ok


def same_items(case, direction, got, want):
    if len(got) != len(want):
        case.bad(f"{direction}: the result has another length", got=short(got, 800), expected=short(want, 800))
    for i, (a, b) in enumerate(zip(got, want)):
        if not deep_eq(a, b, ordered=True):
            case.bad(f"{direction}: element {i} is not what it is on its own", got=short(a, 400), expected=short(b, 400))


NOT = [lambda r: "abc", lambda r: "", lambda r: b"ab", lambda r: bytearray(b"ab"), lambda r: memoryview(b"ab"), lambda r: {}, lambda r: {"a": 1}, lambda r: collections.OrderedDict(a=1), lambda r: types.MappingProxyType({1: 2}),
       lambda r: collections.UserDict({"k": "v"}), lambda r: 5, lambda r: None, lambda r: 1.5, lambda r: True, lambda r: object(), lambda r: iter([1]), lambda r: collections.ChainMap({"a": 1}), lambda r: collections.Counter("ab")]


def collections_(case, u, d):
    r = case.rng
    kind = r.choice([*M.Coll.KINDS, "list", "List", "Sequence", "Set", "user", "user", "generic", "generic", "exotic"])
    sets = kind in ("Set", "FrozenSet", "AbstractSet", "MutableSet")
    base = None
    if kind in ("user", "generic"):
        base = r.choice(["t.List", "t.Deque", "t.Set", "t.FrozenSet", "t.List", "list"])
        sets = "Set" in base
    e = u.hashable(d) if sets else u.node(d)
    if kind == "user":
        case.count("subclass")
        n = u.b.uid()
        # Perhaps at one remove.
        u.b.add(f"class K{n}({base}[{e.expr}]):\n    pass" + (f"\n\nclass K{n}b(K{n}):\n    pass" if r.random() < 0.4 else ""))
        expr = f"K{n}b" if f"K{n}b" in u.b.chunks[-1] else f"K{n}"
    elif kind == "generic":
        case.count("generic subclass")
        n = u.b.uid()
        u.b.add(f"V{n} = t.TypeVar('V{n}')\n\nclass K{n}({base}[V{n}]" + (f", t.Generic[V{n}]" if base == "list" or r.random() < 0.3 else "") + "):\n    pass")
        expr = f"K{n}[{e.expr}]"
        if r.random() < 0.4:
            u.b.add(f"class K{n}b(K{n}[{e.expr}]):\n    pass")
            expr = f"K{n}b"
    elif kind == "exotic":
        case.count("subclass")
        n = u.b.uid()
        u.b.add(EXOTIC.format(n=n, e=e.expr))
        expr = f"CSeq{n}"
    else:
        expr = M.Coll.KINDS[kind][0].format(e.expr)
        if kind in ("Sequence", "MutableSequence", "Collection", "AbstractSet", "MutableSet"):
            case.count("abstract")
    try:
        T, E = evaluate(case, u, None, wrap(case, u, expr), e.expr)
    except TypeError as exc:
        raise Skip(f"Python refuses the type: {str(exc)[:50]}")
    if kind in M.Coll.KINDS:
        made, need = M.Coll.KINDS[kind][1:]
    else:
        made = need = u.b.ns[expr.split("[")[0]]
    if sets:
        case.count("set")
    for _ in range(6):
        env = M.Env(r.choice(gen.GLOBS))
        n = length(r)
        simple = isinstance(e, (M.Int, M.Str, M.Bool, M.Float, M.LiteralN, M.EnumN, M.DateN))
        if simple and r.random() < 0.25:
            n = r.choice([30, 64, 100, 257])
            case.count("long")
        bad = bad_positions(r, n)
        if r.random() < 0.5:
            ps = [one(case, e, env, i in bad) for i in range(n)]
            if ps and r.random() < 0.15:
                ps = ps + [ps[r.randrange(len(ps))] for _ in range(r.randrange(1, 4))]
                case.count("repeated elements")
            p = ps
            if r.random() < 0.12:
                case.count("no collection")
                p = r.choice(NOT)(r)
                case.note(payload=p, direction="load", settings=env.glob)
                o = observe(load, p, T, **opts(env))
                case.ev((u.b.source(), expr, "no", canon(p)))
                case.count(f"load {'accepted' if o.ok else 'refused'}")
                if not o.refused:
                    case.bad("load: what is no collection was not refused for a collection", got=repr(o))
                continue
            if r.random() < 0.12:
                case.count("other kind of collection in the payload")
                try:
                    p = r.choice([tuple, collections.deque, lambda x: dict(enumerate(x)).values(), lambda x: collections.UserList(x)])(ps)
                except TypeError:
                    pass
                ps = list(p)
            case.note(payload=list(p), direction="load", settings=env.glob)
            o = observe(load, p, T, **opts(env))
            want = outcome(case, [observe(load, x, E, **opts(env)) for x in ps], "load")
            case.ev((u.b.source(), expr, "load", canon(ps), env.glob), trivial=not ps, sample=lambda: {"type": expr[:150], "payload": short(ps, 100), "outcome": repr(o)[:100]})
            if want is None or sets and want[0] == "ok" and unhashable(want[1]):
                continue
            if not settled(case, "load", o, want):
                continue
            if type(o.value) is not made:
                case.bad("load: the result is not of the declared type", got=f"{type(o.value).__name__}: {o!r}", expected=made.__name__)
            if sets:
                if not deep_eq(set(o.value), set(want[1])) and not any(x != x for x in want[1]):
                    case.bad("load: the set does not have the elements that there are", got=repr(o), expected=short(want[1], 800))
            else:
                same_items(case, "load", list(o.value), want[1])
        else:
            try:
                vs = [value(case, e, env, i in bad) for i in range(n)]
                v = made(vs)
            except Exception:
                case.count("skipped: value cannot be built")
                continue
            if vs and r.random() < 0.15 and not sets:
                v = made(vs + [vs[r.randrange(len(vs))]] * r.randrange(1, 4))
                case.count("repeated elements")
            wrong = r.random() < 0.15
            if wrong:
                v = wrong_kind(r, vs, need)
            case.note(value=v, direction="dump", settings=env.glob)
            o = observe(dump, v, T, **opts(env))
            case.ev((u.b.source(), expr, "dump", canon(v), env.glob), trivial=not vs, sample=lambda: {"type": expr[:150], "value": short(v, 100), "outcome": repr(o)[:100]})
            if not isinstance(v, need) or isinstance(v, (str, bytes, bytearray, memoryview, collections.abc.Mapping)):
                case.count("wrong kind when serialized")
                case.count("dump refused")
                if not o.refused:
                    case.bad("dump: a value that is no instance of the declared type was not refused", got=repr(o), value_type=type(v).__name__)
                continue
            items = list(v)
            want = outcome(case, [observe(dump, x, E, **opts(env)) for x in items], "dump")
            if want is None or not settled(case, "dump", o, want):
                continue
            if type(o.value) is not list:
                case.bad("dump: the result is no list", got=repr(o))
            same_items(case, "dump", o.value, want[1])


def unhashable(xs):
    try:
        for x in xs:
            hash(x)
    except TypeError:
        return True
    return False


def wrong_kind(r, vs, need):
    k = r.randrange(9)
    try:
        if k < 5:
            return [list, tuple, set, collections.deque, frozenset][k](vs)
    except TypeError:
        pass
    return r.choice(["abc", "", b"ab", bytearray(b"ab"), memoryview(b"abc"), {"a": 1}, {}, array.array("i", [1, 2]), range(3), 5, None, types.MappingProxyType({}), collections.OrderedDict(a=1), {1: 2}.keys(), iter(vs), collections.UserList(vs)])


def tuples(case, u, d):
    r = case.rng
    case.count("tuple")
    es = [u.node(d) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 7]))]
    expr = f"{r.choice(['t.Tuple', 'tuple'])}[{', '.join(e.expr for e in es) or '()'}]"
    T, *Es = evaluate(case, u, None, wrap(case, u, expr), *[e.expr for e in es])
    for _ in range(6):
        env = M.Env(r.choice(gen.GLOBS))
        bad = bad_positions(r, len(es))
        k = r.random()
        direction = "load" if r.random() < 0.5 else "dump"
        fn = load if direction == "load" else dump
        try:
            xs = [(one if direction == "load" else value)(case, e, env, i in bad) for i, e in enumerate(es)]
        except Skip:
            raise
        except Exception:
            case.count("skipped: value cannot be built")
            continue
        if k < 0.25:
            # Too many or too few.
            case.count("wrong length of a tuple")
            if xs and r.random() < 0.5:
                del xs[r.randrange(len(xs))]
            else:
                xs.insert(r.randrange(len(xs) + 1), r.choice(xs) if xs and r.random() < 0.7 else r.choice([None, 1, "x"]))
        x = xs if direction == "load" else tuple(xs)
        no = r.random() < 0.1
        if no and direction == "load":
            x = r.choice(NOT)(r)
            case.count("no collection")
        elif no:
            x = r.choice([list(xs), set(), "ab", b"", {}, None, collections.deque(xs), frozenset()])
            case.count("wrong kind when serialized")
        case.note(input=x, direction=direction, settings=env.glob)
        o = observe(fn, x, T, **opts(env))
        case.ev((u.b.source(), expr, direction, canon(x), env.glob), trivial=not es, sample=lambda: {"type": expr[:150], "input": short(x, 100), "outcome": repr(o)[:100]})
        if no:
            case.count(f"{direction} refused")
            if not o.refused:
                case.bad(f"{direction}: what is no collection was not refused for a tuple", got=repr(o))
            continue
        if len(xs) != len(es):
            case.count(f"{direction} refused")
            if not o.refused:
                case.bad(f"{direction}: a tuple of another length was not refused", got=repr(o), expected_length=len(es), length=len(xs))
            continue
        want = outcome(case, [observe(fn, y, E, **opts(env)) for y, E in zip(xs, Es)], direction)
        if want is None or not settled(case, direction, o, want):
            continue
        if type(o.value) is not (tuple if direction == "load" else list):
            case.bad(f"{direction}: the result is not of the declared type", got=repr(o))
        same_items(case, direction, list(o.value), want[1])


def mappings(case, u, d):
    r = case.rng
    case.count("mapping")
    k, e = u.keyish(), u.node(d)
    kind = r.choice([*M.Map.KINDS, *M.Map.KINDS, "user", "generic", "generic2", "exotic", "userdict"])
    n = u.b.uid()
    if kind == "user":
        case.count("subclass")
        u.b.add(f"class Q{n}({r.choice(['t.Dict', 't.OrderedDict', 'dict', 'collections.OrderedDict'])}[{k.expr}, {e.expr}]):\n    pass" + (f"\n\nclass Q{n}b(Q{n}):\n    pass" if r.random() < 0.4 else ""))
        expr = f"Q{n}b" if f"Q{n}b" in u.b.chunks[-1] else f"Q{n}"
    elif kind == "generic":
        case.count("generic subclass")
        u.b.add(f"V{n} = t.TypeVar('V{n}')\n\nclass Q{n}(t.Dict[{k.expr}, V{n}]):\n    pass")
        expr = f"Q{n}[{e.expr}]"
    elif kind == "generic2":
        case.count("generic subclass")
        u.b.add(f"V{n} = t.TypeVar('V{n}')\nW{n} = t.TypeVar('W{n}')\n\nclass Q{n}(t.Dict[V{n}, W{n}], t.Generic[V{n}, W{n}]):\n    pass")
        expr = f"Q{n}[{k.expr}, {e.expr}]"
        if r.random() < 0.4:
            u.b.add(f"class Q{n}b(Q{n}[{k.expr}, {e.expr}]):\n    pass")
            expr = f"Q{n}b"
    elif kind == "exotic":
        case.count("subclass")
        u.b.add(CMAP.format(n=n, k=k.expr, v=e.expr))
        expr = f"CMap{n}"
    elif kind == "userdict":
        case.count("subclass")
        u.b.add(f"class Q{n}(collections.UserDict[{k.expr}, {e.expr}]):\n    pass")
        expr = f"Q{n}"
    else:
        expr = M.Map.KINDS[kind][0].format(k.expr, e.expr)
        if kind in ("Mapping", "MutableMapping"):
            case.count("abstract")
    try:
        T, Kt, E = evaluate(case, u, None, wrap(case, u, expr), k.expr, e.expr)
    except TypeError as exc:
        raise Skip(f"Python refuses the type: {str(exc)[:50]}")
    made = M.Map.KINDS[kind][1] if kind in M.Map.KINDS else u.b.ns[expr.split("[")[0]]
    for _ in range(6):
        env = M.Env(r.choice(gen.GLOBS))
        m = length(r)
        bad, badkeys = bad_positions(r, m), bad_positions(r, m) if r.random() < 0.3 else set()
        direction = "load" if r.random() < 0.5 else "dump"
        fn = load if direction == "load" else dump
        make = one if direction == "load" else value
        try:
            items = {}
            for i in range(m):
                x = make(case, e, env, i in bad)
                items[make(case, k, env, i in badkeys)] = x
        except Skip:
            raise
        except Exception:
            case.count("skipped: value cannot be built")
            continue
        if direction == "load" and r.random() < 0.4:
            # Another text of the same key.
            for q in [q for q in list(items) if isinstance(q, str)][:2]:
                y = observe(load, q, Kt, **opts(env))
                for q2 in r.sample([q.upper(), q.lower(), q + "0", "0" + q, "+" + q, q.replace("/", "//"), q + ".0", q + "/", q.replace("-", ""), q + "=", q.replace("T", " ")], 4):
                    z = observe(load, q2, Kt, **opts(env))
                    if q2 != q and y.ok and z.ok and type(y.value) is type(z.value) and not isinstance(y.value, str) and deep_eq(y.value, z.value):
                        items[q2] = items[q]
        x = items
        if r.random() < 0.12:
            x = r.choice([collections.OrderedDict, types.MappingProxyType, collections.UserDict])(items)
        no = r.random() < 0.1
        if no:
            case.count("no collection")
            x = r.choice([[], [("a", 1)], ["ab"], "", "ab", b"", 5, None, set(), (), ((1, 2),), items.items(), items.keys(), object(), True])
        elif direction == "dump" and made not in (dict,) and r.random() < 0.5:
            x = made(items)
        case.note(input=x, direction=direction, settings=env.glob)
        o = observe(fn, x, T, **opts(env))
        case.ev((u.b.source(), expr, direction, canon(x) if no else canon(items), env.glob), trivial=not items, sample=lambda: {"type": expr[:150], "input": short(x, 100), "outcome": repr(o)[:100]})
        if no:
            case.count(f"{direction} refused")
            if not o.refused:
                case.bad(f"{direction}: what is no mapping was not refused for a mapping", got=repr(o))
            continue
        ks = [observe(fn, y, Kt, **opts(env)) for y in items]
        if any(y.refused for y in ks):
            case.count("key refused")
        want = outcome(case, ks + [observe(fn, y, E, **opts(env)) for y in items.values()], direction)
        if want is None:
            continue
        if want[0] == "ok" and unhashable(want[1][:len(items)]):
            case.count("key is not hashable")
            continue
        if want[0] == "ok":
            final = dict(zip(want[1], want[1][len(items):]))
            if any(a != a for a in final):
                case.count("keys unequal to themselves")
                continue
            if len(final) < len(items):
                case.count("keys collide")
                if not o.refused:
                    case.bad(f"{direction}: entries were lost as their keys are converted to the same", got=repr(o))
                continue
        if not settled(case, direction, o, want):
            continue
        if direction == "load" and type(o.value) is not made or direction == "dump" and type(o.value) is not dict:
            case.bad(f"{direction}: the result is not of the declared type", got=f"{type(o.value).__name__}: {o!r}")
        keys, vals = want[1][: len(items)], want[1][len(items):]
        same_items(case, direction + " of keys", list(o.value), keys)
        same_items(case, direction + " of values", list(o.value.values()), vals)
