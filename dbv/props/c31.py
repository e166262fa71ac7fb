"""What is still alive after conversions: reference counts of inputs, weak references to results, errors and types, allocated blocks."""

import collections
import datetime
import decimal
import enum
import gc
import json
import pickle
import sys
import typing
import weakref

from databind.core import ObjectMapper, Settings
from databind.json import JsonModule, dump, dumps, load, loads
from databind.json import get_object_mapper

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C31"
CASES = {"quick": 800, "thorough": 24000}
RULE = "one conversion (or one type's conversions, or one series of repetitions) whose inputs, results, errors, types and memory were looked at afterwards; trivial if there was nothing to look at"
MINIMA = {"conversions": 2000, "accepted": 1000, "refused": 900, "input objects watched": 6000, "result objects watched": 400, "errors watched": 900, "contexts watched": 2000, "types watched": 500,
          "series of repetitions": 250, "repetitions": 15000, "series with fresh inputs": 80, "mapper kept": 500, "types converted and thrown away": 110, "generic aliases thrown away": 50}
ASSUMPTIONS = ["typing's own bounded caches are emptied before looking", "reference cycles may take the garbage collector"]
WATCH = (list, dict, set, frozenset, collections.deque, str, float, bytes, decimal.Decimal, datetime.date, datetime.time)
frozen = False


def clean():
    for f in typing._cleanups:
        f()
    gc.collect()


def parts(x, out, seen, structs, depth=0):
    """All objects of interest in a value."""
    if depth > 30 or id(x) in seen or isinstance(x, (enum.Enum, type)):
        return
    seen.add(id(x))
    if isinstance(x, WATCH) and not (isinstance(x, (str, bytes)) and len(x) < 2) and not (isinstance(x, (frozenset, tuple)) and not x) or type(x) in structs:
        out.append(x)
    if isinstance(x, dict):
        for k, v in x.items():
            parts(k, out, seen, structs, depth + 1)
            parts(v, out, seen, structs, depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for v in x:
            parts(v, out, seen, structs, depth + 1)
    elif type(x) in structs:
        for v in list(vars(x).values()) if hasattr(x, "__dict__") else []:
            parts(v, out, seen, structs, depth + 1)


def weak(objs):
    out = []
    for x in objs:
        try:
            out.append(weakref.ref(x))
        except TypeError:
            pass
    return out


def gone():
    return None


def contexts(exc, out, depth=0):
    ctx = getattr(exc, "context", None)
    if ctx is not None:
        for c in ctx.iter_hierarchy_up():
            out.extend(weak([c]) or [gone])  # (It may be made without support for weak references; its value is watched anyway.)
    for _, e in getattr(exc, "errors", ()) or ():
        out.extend(weak([e]))
        if depth < 5:
            contexts(e, out, depth + 1)
    if exc.__cause__ is not None or exc.__context__ is not None:
        for e in (exc.__cause__, exc.__context__):
            if e is not None and depth < 5:
                out.extend(weak([e]))


def structs_of(u):
    return {x for x in u.b.ns.values() if isinstance(x, type) and x.__module__ == u.b.name}


def once(case, call, what, objs, structs, held):
    """One conversion; nothing of it is referred to from here when this returns."""
    o = observe(call)
    case.count("conversions")
    if o.ok:
        case.count("accepted")
        res = []
        parts(o.value, res, set(map(id, held)), structs)
        refs = [("result", w) for w in weak(res)]
        # What was part of the input, or of a default, is not the library's.
        mine = set(map(id, objs)) | held
        refs = [(k, w) for k, w in refs if id(w()) not in mine]
        case.count("result objects watched", len(refs))
    else:
        case.count("refused" if o.refused else "leaked")
        ctx = []
        contexts(o.exc, ctx)
        refs = [("error", w) for w in weak([o.exc])] + [("context of an error", w) for w in ctx]
        case.count("errors watched")
        case.count("contexts watched", len(ctx))
    return o.kind, refs


def holders(obj):
    """A description of what refers to an object, for the report."""
    out = []
    for x in gc.get_referrers(obj):
        if type(x).__name__ in ("frame", "list_iterator", "cell") or isinstance(x, list) and len(x) > 200:
            continue
        out.append(f"{type(x).__name__} {short(x, 200) if not isinstance(x, dict) else sorted(map(str, list(x)[:12]))}")
    return out[:6]


def calls(case, n, T, env, mapper, fresh_source):
    """Ways to do one conversion: a thunk that returns a call together with the objects it is given."""
    r = case.rng
    kw = opts(env)
    if r.random() < 0.6:
        kind, p = payload(case, n, env)
        try:
            txt = json.dumps(p)
        except Exception:
            raise Skip("payload is no JSON text")
        make = lambda: json.loads(txt)
        how = r.randrange(4)
        what = f"load/{how}"
        fn = [lambda x: load(x, T, **kw), lambda x: load(x, T, filename="f.json", **kw), lambda x: mapper.deserialize(x, T, **kw), lambda x: loads(json.dumps(x), T, **kw)][how]
    else:
        try:
            with M.Sabotage(r.choice([1, 2, 3, 99, 99, 99]), lambda node: foreign(r)):
                v = n.gen(r, env)
            data = pickle.dumps(v)
        except Exception:
            raise Skip("value cannot be built or copied")
        del v
        make = lambda: pickle.loads(data)
        how = r.randrange(4)
        what = f"dump/{how}"
        fn = [lambda x: dump(x, T, **kw), lambda x: dump(x, T, filename="f.json", **kw), lambda x: mapper.serialize(x, T, **kw), lambda x: dumps(x, T, **kw)][how]
    if how == 2:
        case.count("mapper kept")
    return what, make, fn


def run(case):
    global frozen
    if not frozen:
        gc.collect()
        gc.freeze()
        frozen = True
    r = case.rng
    mode = r.random()
    if mode < 0.25:
        return types_die(case)
    u, (n,), (T,) = gen.make(case, depth=r.choice([0, 1, 2, 2, 3, 3]))
    structs = structs_of(u)
    held = set()
    keep = []
    for d in u.b.defaults:
        parts(d, keep, held, structs)
    mapper = get_object_mapper()
    if r.random() < 0.3:
        m2 = ObjectMapper(Settings())
        m2.module.register(JsonModule())
        mapper = m2
    series = []
    for _ in range(5):
        env = M.Env(r.choice(gen.GLOBS))
        try:
            what, make, fn = calls(case, n, T, env, mapper, None)
        except Skip:
            continue
        x = make()
        objs = []
        parts(x, objs, set(held), structs)
        case.note(input=short(x, 1500), settings=env.glob, direction=what)
        before = [sys.getrefcount(o) for o in objs]
        kind, refs = once(case, lambda: fn(x), what, objs, structs, held)
        after = [sys.getrefcount(o) for o in objs]
        if before != after or any(w() is not None for _, w in refs):
            clean()
            after = [sys.getrefcount(o) for o in objs]
        case.count("input objects watched", len(objs))
        case.ev((n.expr, u.b.source(), what, canon(x), env.glob), trivial=not objs and not refs, sample=lambda: {"type": n.expr[:120], "input": short(x, 100), "direction": what, "outcome": kind, "input objects": len(objs), "other objects": len(refs)})
        for o, a, b in zip(objs, before, after):
            if b > a and type(o) is str and f"{o!r}: (lambda" in case.notes["module"]:
                case.count("identifier of an evaluated union member")
            elif b > 2**30 > a:
                case.count("string made immortal by pathlib")  # (It interns the parts of paths.)
            elif b > a:
                case.bad(f"{what}: something still refers to a part of the input after the conversion", part=short(o, 400), references_before=a, references_after=b, holders=holders(o))
        for k, w in refs:
            if w() is not None:
                case.bad(f"{what}: something still refers to the {k} after it was dropped", object=short(w(), 400), holders=holders(w()))
        del x, objs, refs
        series.append((what, make, fn, env))
    for what, make, fn, env in r.sample(series, min(1, len(series))) if r.random() < 0.75 else []:
        repeat(case, n, what, make, fn, env)


def repeat(case, n, what, make, fn, env):
    """The number of memory blocks in use over many repetitions."""
    r = case.rng
    fresh = r.random() < 0.4
    case.count("series of repetitions")
    if fresh:
        case.count("series with fresh inputs")
    x = make()
    K = 12
    case.note(input=short(x, 1500), settings=env.glob, direction=what)

    def rounds(k):
        for _ in range(k):
            y = make() if fresh else x
            try:
                fn(y)
            except Exception:
                pass
        case.count("repetitions", k)
        gc.collect()
        return sys.getallocatedblocks()

    def measure(K=K, n=6):
        rounds(3)
        got = [0] * n
        for i in range(n):
            got[i] = rounds(K)
        return [b - a for a, b in zip(got, got[1:])]

    grown = measure()
    for longer in (50, 200):
        if min(grown) < K:
            break
        # Free lists and the interpreter's specialisation of code take a while to settle; what is left behind goes on for ever.
        case.count("series looked at for longer")
        K = longer
        grown = measure(longer, 6)
    case.ev((n.expr, what, canon(x), env.glob, "series", fresh), sample=lambda: {"type": n.expr[:120], "direction": what, "blocks grown by": grown})
    if min(grown) >= K:
        case.bad(f"{what}: every repetition leaves something behind in memory", blocks_more_after_each=f"{K} repetitions: {grown}", fresh_inputs=fresh)


def types_die(case):
    """Types that were converted and are thrown away."""
    r = case.rng
    refs, src = use_types(case)
    case.cleanup.clear()
    alive = [(k, w) for k, w in refs if w() is not None]
    if alive:
        clean()
    case.count("types watched", len(refs))
    case.ev((src,), trivial=not refs, sample=lambda: {"module": src[:300], "types watched": len(refs)})
    for k, w in refs:
        if w() is not None:
            case.bad("something still refers to a type after its conversions", type=k, holders=holders(w()))


def use_types(case):
    r = case.rng
    u, nodes, Ts = gen.make(case, n=2, only=r.choice([None, "dc", "td", "nt", "tagged", "gen", "union", "ann", "usercoll"]))
    mapper = get_object_mapper()
    done = 0
    for n, T in zip(nodes, Ts):
        for _ in range(4):
            env = M.Env(r.choice(gen.GLOBS))
            try:
                what, make, fn = calls(case, n, T, env, mapper, None)
            except Skip:
                continue
            x = make()
            o = observe(lambda: fn(x))
            done += 1
            del o, x
    if r.random() < 0.5:
        # Aliases made for the occasion.
        case.count("generic aliases thrown away")
        S = next((c for c in structs_of(u)), int)
        for A in (typing.List[S], typing.Dict[str, S], typing.Optional[S], typing.Annotated[S, "x"]):
            observe(load, {"zz": 1}, A)
            observe(load, [1], A)
            observe(dump, [object()], A)
        del A, S
    if done:
        case.count("types converted and thrown away")
    refs = [(c.__name__, weakref.ref(c)) for c in structs_of(u)] if done else []
    src = u.b.source()
    u.b.close()
    u.b.ns = {}
    return refs, src
