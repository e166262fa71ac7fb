"""Accepted payloads and the values they denote against a reference decoder."""

import typing as t

from databind.json import load

from dbv import gen
from dbv.common import *

ID = "C03"
CASES = {"quick": 6000, "thorough": 240000}
RULE = "a generated type, a payload (valid, mutated or arbitrary) and a choice of settings; non-trivial if the reference decoder has an opinion"
MINIMA = {"accepted": 3000, "refused": 5000}
ASSUMPTIONS = ["payloads about which the documentation says nothing (such as non-canonical base64 padding or unusual ISO 8601 variants) are skipped"]


def run(case):
    u, (n,), (T,) = gen.make(case, gen.Profile(disjoint=case.rng.random() < 0.5))
    src = case.notes["module"]
    for _ in range(7):
        env = M.Env(case.rng.choice(gen.GLOBS))
        try:
            kind, p = payload(case, n, env)
        except Skip:
            continue
        want = expect(n.dec, p, env)
        if want[0] == "unspecified":
            case.count("unspecified")
            continue
        case.note(payload=p, settings=env.glob, type=n.expr)
        o = observe(load, p, T, **opts(env))
        case.ev((n.expr, src, canon(p), env.glob), sample=lambda: {"type": n.expr, "payload": short(p, 160), "outcome": repr(o)[:160]})
        case.count("accepted" if want[0] == "ok" else "refused")
        case.count("payload: " + kind)
        check_load(case, o, want)


def probe_defaultdict():
    v = load({"a": 1}, t.DefaultDict[str, int])
    return None if type(v).__name__ == "defaultdict" else f"a plain {type(v).__name__}"


FINDINGS = {"defaultdict-read-as-dict": probe_defaultdict}
