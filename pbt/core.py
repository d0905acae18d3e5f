"""Driver: runs the generated-input search for one property and writes its evidence.

A property is a list of `Sub`s.  A Sub has a Hypothesis strategy producing a JSON-able case and a
`run(case, ctx)` function which exercises the real code and raises `Violation` when the oracle
disagrees.  All random choices are Hypothesis'; each shard's seed is derived from VERIF_SEED only.
"""
import os

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")

import contextlib
import hashlib
import json
import multiprocessing as mp
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

REPO = os.environ.get("PBT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(os.path.realpath(REPO), "pytimize") + os.sep


SHRINK_SECONDS = 45  # minimising a failure stops here: only the size of the replay depends on it


class StopShrinking(BaseException):
    """The failure found is reported as minimised so far."""


class Violation(Exception):
    """The real code's behaviour contradicts the oracle."""


class StepBudget(BaseException):
    """The code under test executed more interpreter steps than any terminating run could."""


def require(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


# ---------------------------------------------------------------- deterministic non-termination
class Steps:
    """Counts calls and jumps executed inside /repo/pytimize (sys.monitoring), so that a loop that
    never ends is reported by a deterministic step count and never by the wall clock."""

    TOOL = 4

    def __init__(self):
        self.count = 0
        self.limit = None
        self.max_seen = 0
        self.overspent = 0
        self.on = False

    def install(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pbt")

        def hit(code, *_):
            if not code.co_filename.startswith(PKG):
                return m.DISABLE
            self.count += 1
            if self.limit is not None and self.count > self.limit:
                self.limit = None
                raise StepBudget()

        m.register_callback(self.TOOL, m.events.PY_START, hit)
        m.register_callback(self.TOOL, m.events.JUMP, hit)
        m.set_events(self.TOOL, m.events.PY_START | m.events.JUMP)
        self.on = True

    def begin(self, limit):
        self.count = 0
        self.limit = limit

    def end(self):
        self.limit = None
        self.max_seen = max(self.max_seen, self.count)

    @contextlib.contextmanager
    def within(self, share):
        """A part of the case that may spend only so many of its steps; going over ends that part alone."""
        outer, before = self.limit, self.count
        if self.overspent > 1:
            share = 10_000
        self.limit = before + share
        try:
            yield
        except StepBudget:
            self.overspent += 1
            self.count = before
        finally:
            self.limit = outer


STEPS = Steps()


class Cpu:
    """A loop that never ends while each of its steps gets slower (a list that keeps growing at the front) would
    take hours to spend its steps.  One case that has used this much processor time (not wall time) and is inside
    the library is stopped as well; the unchanged library needs a few seconds for the largest case."""

    SECONDS = 60
    shrinking = False

    def begin(self):
        signal.signal(signal.SIGVTALRM, self.over)
        signal.setitimer(signal.ITIMER_VIRTUAL, 10 if self.shrinking else self.SECONDS, 1)

    def end(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def over(self, _, frame):
        if "hypothesis" in frame.f_code.co_filename:  # its callback for the garbage collector: try again at the next tick
            return
        while frame is not None:
            if frame.f_code.co_filename.startswith(PKG):
                raise StopShrinking() if self.shrinking else StepBudget()
            frame = frame.f_back


CPU = Cpu()


class Ctx:
    """Per-case bookkeeping handed to the property function."""

    def __init__(self):
        self.labels = set()
        self.trivial = True
        self.excluded = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, steps=12_000_000):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.steps = steps


class Prop:
    def __init__(self, pid, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = pid, rule, subs, list(assumptions)


def thin_mutations():
    """Hypothesis follows every fresh case by about five near copies of it.  Copies find bugs that need
    repeated values, but five in six is too many for these checks: every fourth case keeps its copies."""
    from hypothesis.internal.conjecture import engine

    cls = engine.ConjectureRunner
    inner = getattr(cls, "generate_mutations_from", None)
    if inner is None or getattr(cls, "_pbt_thin", False):
        return
    turn = {}

    def thinned(self, data):
        turn[id(self)] = turn.get(id(self), 0) + 1
        if turn[id(self)] % 4 == 0:
            return inner(self, data)

    cls.generate_mutations_from = thinned
    cls._pbt_thin = True


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def execute(sub, case, ctx):
    """Runs one case.  Anything the code under test raises that the property function did not ask
    for is a violation; so is a result the oracle cannot even interpret."""
    STEPS.begin(sub.steps)
    CPU.begin()
    try:
        sub.run(case, ctx)
    except Violation:
        raise
    except StepBudget:
        raise Violation(f"did not terminate: more than {sub.steps} interpreter steps (calls+jumps) or {CPU.SECONDS} s of processor time in pytimize") from None
    except SystemExit as e:
        raise Violation(f"the library called exit(): {e!r}") from None
    except Exception as e:
        from .exact import OracleError

        if isinstance(e, (OracleError, MemoryError)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(PKG) for f in tb)
        where = next((f"{f.filename}:{f.name}" for f in reversed(tb) if f.filename.startswith(PKG)), None)
        if inside:
            raise Violation(f"unexpected {type(e).__name__} from the library ({where}): {e}") from e
        if isinstance(e, (TypeError, AttributeError, IndexError, KeyError, ValueError)):
            raise Violation(f"result could not be interpreted: {type(e).__name__}: {e}") from e
        raise
    finally:
        CPU.end()
        STEPS.end()


# ---------------------------------------------------------------------------- known findings
def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def known_match(known, pid, sub, message):
    for k in known:
        if k.get("status") == "known" and k["property"] == pid and k["sub"] == sub and k["signature"] in message:
            return k
    return None


# ------------------------------------------------------------------------------------ shards
def shard(args):
    pid, subname, n, seed = args
    from . import registry

    prop = registry.get(pid)
    sub = next(s for s in prop.subs if s.name == subname)
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    thin_mutations()
    known = load_known()
    out = {
        "sub": subname, "evals": 0, "hashes": set(), "labels": Counter(), "samples": [],
        "failure": None, "error": None, "known": Counter(), "trivial": 0, "steps": 0,
    }
    state = {"case": None, "msg": None, "shrinking": False, "since": 0.0}

    def body(case):
        ctx = Ctx()
        if state["shrinking"] and time.monotonic() - state["since"] > SHRINK_SECONDS:
            raise StopShrinking()
        try:
            execute(sub, case, ctx)
        except Violation as v:
            k = known_match(known, pid, subname, str(v))
            if k is not None:
                out["known"][k["id"]] += 1
                return
            if not state["shrinking"]:
                state["shrinking"], state["since"] = True, time.monotonic()
                CPU.shrinking = True
            if state["case"] is None or len(canonical(case)) <= len(canonical(state["case"])):
                state["case"], state["msg"] = case, str(v)
            raise
        finally:
            if not state["shrinking"]:
                out["evals"] += 1
                for l in ctx.labels:
                    out["labels"][l] += 1
                if ctx.trivial:
                    out["trivial"] += 1
                else:
                    text = canonical(case)
                    h = hashlib.blake2b(text.encode(), digest_size=8).digest()
                    if h not in out["hashes"]:
                        out["hashes"].add(h)
                        if len(out["samples"]) < 2 and len(out["hashes"]) > 8:
                            out["samples"].append(case)

    test = hypothesis.seed(seed)(
        settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, print_blob=False,
            phases=[Phase.generate, Phase.shrink],
        )(given(sub.strategy())(body))
    )
    try:
        test()
    except (Violation, StopShrinking) as v:
        out["failure"] = {"case": state["case"], "message": state["msg"] or str(v)}
    except BaseException as e:  # Flaky, harness defects, ...
        if state["case"] is not None and isinstance(e, hypothesis.errors.Flaky):
            out["failure"] = {"case": state["case"], "message": (state["msg"] or "") + " [history-dependent]"}
        elif isinstance(e, KeyboardInterrupt):
            raise
        else:
            out["error"] = traceback.format_exc()
    out["steps"] = STEPS.max_seen
    CPU.shrinking = False
    return out


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    STEPS.install()


def derive(seed, *parts):
    text = "|".join(map(str, (seed,) + parts))
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def load_target():
    sys.dont_write_bytecode = True
    import hypothesis  # noqa: F401  (third parties first: only pytimize must bypass .pyc caches)
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401

    # the checks judge /repo's current sources: never a stale .pyc
    sys.pycache_prefix = tempfile.mkdtemp(prefix="pbt-pyc-")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pytimize

    if not os.path.realpath(pytimize.__file__).startswith(PKG):
        raise RuntimeError(f"pytimize imported from {pytimize.__file__}, expected {PKG}")


def write_replay(pid, sub, failure, seed):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "sub": sub, "seed": seed, "message": failure["message"], "case": failure["case"]}
    name = f"{pid}-{sub}-{hashlib.sha256(canonical(failure['case']).encode()).hexdigest()[:12]}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_property(pid, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    from . import registry

    prop = registry.get(pid)
    workers = int(os.environ.get("PBT_WORKERS", "8"))
    jobs = []
    for sub in prop.subs:
        if only and sub.name != only:
            continue
        total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
        # several short campaigns per worker diversify better than one long one
        shards = max(1, min(workers if tier == "quick" else workers * 8, total // 25 or 1))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            jobs.append((pid, sub.name, n, derive(seed, pid, sub.name, i)))
    results, failure, error = [], None, None
    pool = mp.get_context("fork").Pool(workers, initializer=init_worker)
    try:
        for r in pool.imap_unordered(shard, jobs):
            results.append(r)
            if r["failure"] and failure is None:
                failure = (r["sub"], r["failure"])
                break
            if r["error"] and error is None:
                error = r["error"]
    finally:
        pool.terminate()
        pool.join()

    hashes, labels, persub, known, samples = set(), Counter(), {}, Counter(), []
    for r in results:
        hashes |= {r["sub"].encode() + h for h in r["hashes"]}
        for k, v in r["labels"].items():
            labels[f"{r['sub']}/{k}"] += v
        p = persub.setdefault(r["sub"], {"evaluations": 0, "trivial": 0, "max_steps": 0})
        p["evaluations"] += r["evals"]
        p["trivial"] += r["trivial"]
        p["max_steps"] = max(p["max_steps"], r["steps"])
        known.update(r["known"])
    seen = Counter()
    for r in sorted(results, key=lambda r: r["sub"]):
        for s in r["samples"]:
            if seen[r["sub"]] < 2:
                seen[r["sub"]] += 1
                samples.append({"sub": r["sub"], "case": s})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in persub.values()),
            "distinct_nontrivial": len(hashes),
            "rule": prop.rule,
            "samples": samples[:10],
            "per_sub": persub,
            "labels": dict(sorted(labels.items())),
            "excluded_known": dict(known),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in load_known():
        if k.get("status") == "known" and k["property"] == pid and not only:
            replay_known(prop, k)
    if failure:
        sub, fl = failure
        path = write_replay(pid, sub, fl, seed)
        print(f"[{pid}/{sub}] {fl['message']}")
        print(f"[{pid}/{sub}] minimal case: {canonical(fl['case'])[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if error:
        print(error, file=sys.stderr)
        print(f"[{pid}] harness error (no verdict)", file=sys.stderr)
        return 3
    c = evidence["coverage"]
    print(f"[{pid}] ok: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']}s")
    return 0


def replay_known(prop, k):
    """A listed finding is re-run as a plain regression; it prints its line whether it still fails or not
    only when it does (a repaired finding goes quiet)."""
    sub = next(s for s in prop.subs if s.name == k["sub"])
    try:
        execute(sub, k["case"], Ctx())
    except Violation as v:
        if k["signature"] in str(v):
            print(f"KNOWN-FINDING: property={prop.id} {k['what']}")


def replay(path):
    with open(path) as f:
        body = json.load(f)
    from . import registry

    prop = registry.get(body["property"])
    sub = next(s for s in prop.subs if s.name == body["sub"])
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    STEPS.install()
    try:
        execute(sub, body["case"], Ctx())
    except Violation as v:
        print(f"[{prop.id}/{sub.name}] {v}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print(f"[{prop.id}/{sub.name}] replay: holds")
    return 0
