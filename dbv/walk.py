"""Walking a payload or value along the reference model: every place with its node and the steps that lead to it."""

import collections
import typing as t

from dbv import model as M


class Place:
    __slots__ = ("node", "env", "ann", "value", "path", "where", "set", "owner")

    def __init__(self, node: M.Node, env: M.Env, ann: t.Any, value: t.Any, path: t.Tuple[t.Any, ...], where: t.Tuple[t.Any, ...],
                 set_: t.Any = None, owner: t.Any = None) -> None:
        self.node, self.env, self.ann, self.value, self.path, self.where = node, env, ann, value, path, where
        self.set = set_  # how to replace the value found here, if possible
        self.owner = owner


def core(node: M.Node, env: M.Env, ann: t.Any = M.NOANN) -> t.Tuple[M.Node, M.Env, t.Any]:
    """The node behind annotations, type parameters and forward references (not behind optionals)."""
    while True:
        if isinstance(node, M.Ann):
            node, ann = node.inner, {**ann, **node.anns}
        elif isinstance(node, M.Param):
            node, env = env.tp[node.name]
        elif isinstance(node, M.Gen_):
            env = node.env(env)
            node = node.struct
        elif isinstance(node, M.Rec):
            node = node.struct  # type: ignore
        else:
            return node, env, ann


def decode_places(node: M.Node, p: t.Any, env: M.Env, ann: t.Any = M.NOANN, path: t.Any = (), where: t.Any = ()) -> t.Iterator[Place]:
    """Places of a valid payload: *path* has the steps a context reports, *where* those of the payload."""
    node, env, ann = core(node, env, ann)
    yield Place(node, env, ann, p, path, where)
    if isinstance(node, M.Opt):
        if p is not None:
            n, e, a = core(node.inner, env, ann)
            for x in decode_places(n, p, e, a, path, where):
                if x.where != where:
                    yield x
                else:
                    yield Place(x.node, x.env, x.ann, x.value, x.path, x.where, owner="optional")
    elif isinstance(node, (M.Coll, M.UserColl)):
        for i, x in enumerate(p):
            yield from decode_places(node.item, x, env, M.NOANN, path + (i,), where + (i,))
    elif isinstance(node, M.Tup):
        for i, (n, x) in enumerate(zip(node.items, p)):
            yield from decode_places(n, x, env, M.NOANN, path + (i,), where + (i,))
    elif isinstance(node, M.Map):
        for k, x in p.items():
            yield from decode_places(node.v, x, env, M.NOANN, path + (k,), where + (k,))
    elif isinstance(node, M.DesAs):
        for x in decode_places(node.sub, p, env, ann, path, where):
            if x.where != where:
                yield x
    elif isinstance(node, M.Struct):
        for f, fe in node.all_fields(env):
            if f.flat or f.remainder:
                continue
            for k in f.keys:
                if k in p:
                    yield from decode_places(f.node, p[k], fe, f.anns, path + (f.name,), where + (k,))
                    break
    elif isinstance(node, M.Tagged):
        if node.style == "keyed":
            ((tag, w),) = p.items()
            yield from decode_places(node.members[tag], w, env, M.NOANN, path + (tag,), where + (tag,))
        elif node.style == "nested":
            tag = p[node.disc]
            key = tag if node.nest is None else node.nest
            yield from decode_places(node.members[tag], p[key], env, M.NOANN, path + (key,), where + (key,))
        else:
            tag = p[node.disc]
            inner = {k: v for k, v in p.items() if k != node.disc}
            for x in decode_places(node.members[tag], inner, env, M.NOANN, path, where):
                if x.where != where:
                    yield x


def value_places(node: M.Node, v: t.Any, env: M.Env, ann: t.Any = M.NOANN, path: t.Any = (), set_: t.Any = None) -> t.Iterator[Place]:
    """Places of a value to serialize; those in mutable containers can be replaced."""
    node, env, ann = core(node, env, ann)
    yield Place(node, env, ann, v, path, (), set_)
    if isinstance(node, M.Opt):
        if v is not None:
            for x in value_places(node.inner, v, env, ann, path, set_):
                if x.path != path:
                    yield x
    elif isinstance(node, (M.Coll, M.UserColl)):
        if isinstance(v, (list, tuple, collections.deque)):
            for i, x in enumerate(v):
                s = None if isinstance(v, tuple) else (lambda new, i=i: v.__setitem__(i, new))
                yield from value_places(node.item, x, env, M.NOANN, path + (i,), s)
    elif isinstance(node, M.Tup):
        for i, (n, x) in enumerate(zip(node.items, v)):
            yield from value_places(n, x, env, M.NOANN, path + (i,), None)
    elif isinstance(node, M.Map):
        for k, x in v.items():
            yield from value_places(node.v, x, env, M.NOANN, path + (k,), lambda new, k=k: v.__setitem__(k, new))
    elif isinstance(node, M.DesAs):
        for x in value_places(node.sub, v, env, ann, path, set_):
            if x.path != path:
                yield x
    elif isinstance(node, M.Struct):
        for f, fe in node.all_fields(env):
            if f.flat or f.remainder:
                continue
            if node.kind == "td":
                if f.name in v:
                    yield from value_places(f.node, v[f.name], fe, f.anns, path + (f.name,), lambda new, k=f.name: v.__setitem__(k, new))
            else:
                s = None if node.kind == "nt" else (lambda new, k=f.name: object.__setattr__(v, k, new))
                yield from value_places(f.node, getattr(v, f.name), fe, f.anns, path + (f.name,), s)
    elif isinstance(node, M.Tagged):
        for n in node.members.values():
            if node.type_of(n) is type(v):
                for x in value_places(n, v, env, M.NOANN, path, set_):
                    if x.path != path:
                        yield x
                break
