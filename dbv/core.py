"""Running the cases of a check in parallel, collecting what the monitors observed, verdict and evidence."""

import hashlib
import importlib
import json
import os
import pickle
import random
import re
import signal
import sys
import tempfile
import time
import traceback
import typing as t

from dbv import env
from dbv.util import short

WORKERS = min(8, os.cpu_count() or 1)
TIME_CAP = {"quick": 200.0, "thorough": 700.0}


class Violation(Exception):
    def __init__(self, message: str, /, **details: t.Any) -> None:
        super().__init__(message)
        self.message = message
        self.details = details


class Skip(Exception):
    """The case turned out to be outside of the domain."""


class Case:
    def __init__(self, prop: str, index: int, seed: int, tier: str, agg: "Agg") -> None:
        self.prop, self.index, self.seed, self.tier, self.agg = prop, index, seed, tier, agg
        self.rng = random.Random(f"{prop}:{seed}:{index}")
        self.notes: t.Dict[str, t.Any] = {}
        self.cleanup: t.List[t.Callable[[], t.Any]] = []

    def note(self, **kw: t.Any) -> None:
        """Context shown in the replay file if this case turns into a violation."""
        self.notes.update(kw)

    def ev(self, key: t.Any, trivial: bool = False, sample: t.Any = None) -> None:
        """One evaluation of the oracle. *key* identifies the case for counting distinct ones."""
        a = self.agg
        a.evaluations += 1
        if not trivial:
            a.distinct.add(int.from_bytes(hashlib.blake2b(str(key).encode("utf8", "replace"), digest_size=8).digest(), "big"))
            if sample is not None and len(a.samples) < 3 and (a.evaluations % 7 == 1 or not a.samples):
                a.samples.append(sample() if callable(sample) else sample)

    def count(self, name: str, n: int = 1) -> None:
        self.agg.counters[name] = self.agg.counters.get(name, 0) + n

    def bad(self, message: str, /, **details: t.Any) -> t.NoReturn:
        raise Violation(message, **details)


class Agg:
    def __init__(self) -> None:
        self.evaluations = 0
        self.distinct: t.Set[int] = set()
        self.counters: t.Dict[str, int] = {}
        self.samples: t.List[t.Any] = []
        self.lines: t.Set[t.Tuple[str, int]] = set()
        self.violations: t.List[t.Dict[str, t.Any]] = []
        self.errors: t.List[str] = []
        self.cases = 0
        self.truncated = False

    def merge(self, o: "Agg") -> None:
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += o.samples
        self.lines |= o.lines
        self.violations += o.violations
        self.errors += o.errors
        self.cases += o.cases
        self.truncated |= o.truncated


class LineMonitor:
    """Which lines of the library were executed at all (sys.monitoring; each line reports once)."""

    TOOL = 4

    def __init__(self, sink: t.Set[t.Tuple[str, int]]) -> None:
        self.sink = sink
        self.on = False

    def start(self) -> None:
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "dbv-lines")
        except ValueError:
            return
        prefix = env.SRC + os.sep + "databind" + os.sep
        n = len(prefix)
        sink = self.sink
        disable = mon.DISABLE

        def on_line(code: t.Any, line: int) -> t.Any:
            f = code.co_filename
            if f.startswith(prefix) and "/tests/" not in f:
                sink.add((f[n:], line))
            return disable

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def stop(self) -> None:
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False


def library_lines() -> int:
    """Number of executable lines inside functions of the library's modules."""
    total = 0
    base = os.path.join(env.SRC, "databind")
    for root, dirs, files in os.walk(base):
        if "tests" in dirs:
            dirs.remove("tests")
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                try:
                    code = compile(open(p, encoding="utf8").read(), p, "exec")
                except SyntaxError:
                    continue
                seen: t.Set[int] = set()
                stack = [c for c in code.co_consts if hasattr(c, "co_code")]
                while stack:
                    c = stack.pop()
                    if c.co_flags & 0x2:  # CO_NEWLOCALS: functions, not class bodies
                        seen |= {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
                    stack += [x for x in c.co_consts if hasattr(x, "co_code")]
                total += len(seen)
    return total


def in_library(tb: t.Any) -> bool:
    """Whether an exception came out of the library (its innermost non-stdlib frame is library code)."""
    files = [f.filename for f in traceback.extract_tb(tb)]
    for f in reversed(files):
        if f.startswith(env.SRC):
            return True
        if f.startswith(env.VERIF) or f.startswith("<dbv"):
            return False
    return False


def run_case(mod: t.Any, index: int, seed: int, tier: str, agg: Agg) -> None:
    case = Case(mod.ID, index, seed, tier, agg)
    before = agg.evaluations
    try:
        mod.run(case)
    except Skip as exc:
        case.count("skipped: " + (str(exc) or "outside of the domain"))
    except Violation as v:
        agg.violations.append(
            {"property": mod.ID, "index": index, "seed": seed, "tier": tier, "message": v.message,
             "details": {**{k: _txt(x) for k, x in case.notes.items()}, **{k: _txt(x) for k, x in v.details.items()}}}
        )
    except Exception as exc:
        if in_library(exc.__traceback__):
            agg.violations.append(
                {"property": mod.ID, "index": index, "seed": seed, "tier": tier,
                 "message": f"the library raised {type(exc).__name__} in a legitimate operation: {exc}",
                 "details": {**{k: _txt(x) for k, x in case.notes.items()}, "traceback": traceback.format_exc()}}
            )
        else:
            agg.errors.append(f"case {index}: {traceback.format_exc()}")
    finally:
        for fn in reversed(case.cleanup):
            fn()
    agg.cases += 1
    if agg.evaluations == before:
        case.count("cases without an evaluation")


def _txt(x: t.Any) -> str:
    if isinstance(x, str):
        return x.encode("utf8", "backslashreplace").decode("utf8")
    return short(x, 4000)


def worker(mod: t.Any, w: int, n: int, total: int, seed: int, tier: str, cap: float, out: str) -> None:
    import gc

    agg = Agg()
    mon = LineMonitor(agg.lines)
    if getattr(mod, "LINES", True):
        mon.start()
    t0 = time.monotonic()
    try:
        for k, i in enumerate(range(w, total, n)):
            if time.monotonic() - t0 > cap:
                agg.truncated = True
                break
            run_case(mod, i, seed, tier, agg)
            if len(agg.violations) >= 2 or len(agg.errors) >= 3:
                break
            if k % 200 == 199:
                gc.collect()
    finally:
        mon.stop()
        with open(out, "wb") as fp:
            pickle.dump(agg, fp)


def run_parallel(mod: t.Any, seed: int, tier: str) -> Agg:
    total = mod.CASES[tier]
    n = max(1, min(getattr(mod, "WORKERS", WORKERS), total))
    cap = TIME_CAP[tier]
    agg = Agg()
    tmp = tempfile.mkdtemp(prefix="dbv-")
    try:
        pids = {}
        for w in range(n):
            out = os.path.join(tmp, f"{w}.pkl")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(mod, w, n, total, seed, tier, cap, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = out
        deadline = time.monotonic() + cap + 60
        left = dict(pids)
        while left:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in left:
                out = left.pop(pid)
                if status == 0 and os.path.exists(out):
                    with open(out, "rb") as fp:
                        agg.merge(pickle.load(fp))
                else:
                    agg.errors.append(f"worker ended with status {status}")
            elif time.monotonic() > deadline:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                for p in left:
                    os.waitpid(p, 0)
                agg.errors.append(f"{len(left)} worker(s) did not finish in time")
                left = {}
            else:
                time.sleep(0.01)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return agg


def known_findings(prop: str) -> t.Dict[str, str]:
    out = {}
    with open(os.path.join(env.VERIF, "known_findings.txt"), encoding="utf8") as fp:
        for line in fp:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(argv: t.List[str]) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="the library and all checks can be imported")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--case", type=int, default=None, help="run one case in this process")
    ap.add_argument("--replay", default=None, help="replay file of a violation")
    args = ap.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in CAP_TIERS:
        tier = "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    env.setup()
    if args.selftest:
        import glob

        names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(env.VERIF, "dbv", "props", "c*.py")))
        for n in names:
            importlib.import_module(f"dbv.props.{n}")
        print(f"{len(names)} checks can be imported")
        return 0
    t0 = time.monotonic()
    mod = importlib.import_module(f"dbv.props.{args.property.lower()}")
    if args.replay:
        rec = json.load(open(args.replay))
        args.case, seed, tier = rec["index"], rec["seed"], rec["tier"]
    findings = known_findings(mod.ID)
    probes = getattr(mod, "FINDINGS", {})
    found: t.List[str] = []
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    if args.case is not None:
        agg = Agg()
        run_case(mod, args.case, seed, tier, agg)
    else:
        agg = run_parallel(mod, seed, tier)
    for key, probe in probes.items():
        failing = probe()
        if failing and key in findings:
            found.append(key)
            print(f"KNOWN-FINDING: property={mod.ID} {findings[key]}")
        elif failing:
            agg.violations.append({"property": mod.ID, "index": -1, "seed": seed, "tier": tier,
                                   "message": f"{key}: {failing}", "details": {}})
    if hasattr(mod, "finish") and args.case is None and not agg.violations and not agg.errors:
        mod.finish(agg)
    agg.violations.sort(key=lambda v: v["index"])
    inconclusive = []
    if args.case is None:
        for name, minimum in getattr(mod, "MINIMA", {}).items():
            if agg.counters.get(name, 0) < minimum:
                inconclusive.append(f"{name}: observed {agg.counters.get(name, 0)}, need {minimum}")
        if not agg.evaluations:
            inconclusive.append("the oracle was never evaluated")
        if len(agg.errors) == 0 and agg.truncated:
            agg.counters["stopped early by the time cap"] = 1
    wall = time.monotonic() - t0
    if args.case is None:
        write_evidence(mod, agg, seed, tier, wall, found)
    print(
        f"{mod.ID} tier={tier} seed={seed}: {agg.cases} cases, {agg.evaluations} evaluations, "
        f"{len(agg.distinct)} distinct non-trivial, {len(agg.lines)} library lines reached, {wall:.1f} s"
    )
    for k in sorted(agg.counters):
        print(f"  {k}: {agg.counters[k]}")
    if agg.violations:
        v = agg.violations[0]
        d = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{mod.ID}-{v['seed']}-{v['tier']}-{v['index']}.json")
        with open(path, "w") as fp:
            json.dump(v, fp, indent=1)
        print(f"VIOLATION property={mod.ID} replay={path}")
        print(f"  {v['message']}")
        for k, x in v["details"].items():
            print(f"  {k}: " + x.replace("\n", "\n    ")[:3000])
        print(f"  replay with: {sys.executable} run_check.py {mod.ID} --replay {path}")
        return 1
    for e in agg.errors[:3]:
        print("ERROR of the check:", e)
    if agg.errors:
        return 3
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        return 4
    return 0


CAP_TIERS = TIME_CAP


def write_evidence(mod: t.Any, agg: Agg, seed: int, tier: str, wall: float, found: t.List[str]) -> None:
    cov = {
        "evaluations": agg.evaluations,
        "distinct_nontrivial": len(agg.distinct),
        "rule": mod.RULE,
        "samples": [(_txt(s) if not isinstance(s, (dict, list)) else s) for s in agg.samples[:6]],
        "cases": agg.cases,
        "observed": dict(sorted(agg.counters.items())),
        "library_lines_reached": len(agg.lines),
        "library_lines_total": library_lines(),
    }
    if found:
        cov["known_findings_seen"] = found
    if getattr(mod, "EXHAUSTIVE", False):
        cov["exhaustive"] = True
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(agg.violations),
    }
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{mod.ID}.json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)
