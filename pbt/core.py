"""
Core of the checker: sub-checks, the Hypothesis driver, shrinking, replay, evidence.

A *sub-check* is a pair (strategy, run):
  * the strategy generates a plain JSON-able case;
  * run(case, st) executes the case against the real code and raises Violation when the
    oracle is contradicted.  `st` collects event labels and whether the case was
    non-trivial.
An exception that is raised inside PyConform's own code on a case the generator calls valid
is a violation as well; an exception raised in harness code is an error of the check.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from pbt.bootstrap import REPO, VERIF

CASE_TIMEOUT = int(os.environ.get("PBT_CASE_TIMEOUT", "90"))


class Violation(AssertionError):
    """The oracle contradicts what the code did"""


class HarnessError(Exception):
    """Something is wrong with the check itself"""


class Hang(BaseException):
    """A case did not end (BaseException: nothing in the code under test may swallow it)"""


class Discard(Exception):
    """The case turned out not to be a case of this property (counted, not judged)"""


class Stats(object):
    """Per-case statistics"""

    def __init__(self):
        self.events = Counter()
        self.nontrivial = False

    def event(self, label, n=1):
        self.events[label] += n

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


class Sub(object):
    """One sub-check of a property"""

    def __init__(self, name, strategy, run, quick=200, thorough=None, desc=""):
        self.name = name
        self.strategy = strategy  # strategy or zero-argument callable giving one
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.desc = desc


class Prop(object):
    """A property: an id, its sub-checks, the rule that says what is non-trivial"""

    def __init__(self, pid, subs, rule, assumptions=()):
        self.pid = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def through_repo(exc):
    """True if the traceback of exc has a frame of PyConform's own code"""
    tb = exc.__traceback__
    root = os.path.join(os.path.realpath(REPO), "pyconform") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _alarm(_sig, _frm):
    raise Hang()


class quiet(object):
    """Silence stdout of the code under test (it prints its progress)"""

    def __enter__(self):
        self._o = sys.stdout
        self._f = open(os.devnull, "w")
        sys.stdout = self._f
        return self

    def __exit__(self, *a):
        sys.stdout = self._o
        self._f.close()
        return False


def unjudgeable(err):
    """an error of the comparison itself, which the result caused (not of the harness' set-up)"""
    if isinstance(err, AttributeError):
        obj = getattr(err, "obj", None)
        return not isinstance(obj, (type(os), type))
    return isinstance(err, (TypeError, ValueError, LookupError, FileNotFoundError))


def run_case(sub, case, st):
    """
    Run one case.  Returns None (held), or a message (violated).
    Raises HarnessError when the harness itself failed.
    """
    # the case is copied through JSON: an executor can not depend on object identity, and
    # what is saved as replay file is exactly what was run
    case = json.loads(json.dumps(case, allow_nan=True))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                sub.run(case, st)
        return None
    except Violation as err:
        return "{}".format(err)
    except Discard as err:
        st.event("discarded:" + str(err))
        return None
    except Hang:
        raise
    except Exception as err:
        if through_repo(err):
            tb = traceback.extract_tb(err.__traceback__)
            loc = [f for f in tb if "/pyconform/" in f.filename][-1]
            return "unexpected {}: {} (at {}:{} in {})".format(
                type(err).__name__,
                err,
                os.path.basename(loc.filename),
                loc.lineno,
                loc.name,
            )
        if unjudgeable(err):
            # what came back is not even of the kind that can be compared
            return "the result can not be judged: {}: {}".format(type(err).__name__, err)
        raise HarnessError(
            "{}\ncase: {}".format(traceback.format_exc(), canon(case)[:20000])
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_shard(sub, seed, nexamples, known_hashes=()):
    """Drive one sub-check with Hypothesis for nexamples examples from one seed"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 25

    out = {
        "evals": 0,
        "hashes": set(),
        "events": Counter(),
        "samples": [],
        "failure": None,
        "error": None,
        "failing_evals": 0,
    }
    state = {"failing": None}
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(seed)
    @settings(
        max_examples=nexamples,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(strategy)
    def test(case):
        st = Stats()
        try:
            msg = run_case(sub, case, st)
        except Hang:
            state["failing"] = (
                case,
                "the case did not end within {} s".format(CASE_TIMEOUT),
            )
            raise
        out["evals"] += 1
        out["events"].update(st.events)
        h = case_hash(case)
        if st.nontrivial and h not in out["hashes"]:
            out["hashes"].add(h)
            if len(out["samples"]) < 3 and len(canon(case)) < 1500:
                out["samples"].append(case)
        if msg is not None:
            out["failing_evals"] += 1
            state["failing"] = (case, msg)
            raise Violation(msg)

    try:
        test()
    except Hang:
        pass
    except HarnessError as err:
        out["error"] = str(err)
    except Violation:
        pass
    except BaseException as err:  # hypothesis' own errors (Flaky, ...)
        if isinstance(err, KeyboardInterrupt):
            raise
        if state["failing"] is None:
            out["error"] = traceback.format_exc()
    if state["failing"] is not None:
        case, msg = state["failing"]
        out["failure"] = {"sub": sub.name, "case": case, "message": msg}
    return out


def _worker(prop, tasks, inq, outq):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)  # (UDUNITS complains there; errors of the check travel in the queue)
    while True:
        k = inq.get()
        if k is None:
            break
        isub, seed, n, deep = tasks[k]
        try:
            from pbt import world

            world.DEEP = deep
            res = run_shard(prop.subs[isub], seed, n)
        except BaseException:
            res = {"error": traceback.format_exc()}
        outq.put((k, res))
    outq.put((None, None))


def derive_seed(seed, pid, subname, shard):
    h = hashlib.sha256("{}/{}/{}/{}".format(seed, pid, subname, shard).encode())
    return int.from_bytes(h.digest()[:6], "big")


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {"known": [], "fixed": []}
    with open(path) as f:
        return json.load(f)


def save_replay(pid, failure):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, "{}-{}-{}.json".format(pid, failure["sub"], case_hash(failure["case"]))
    )
    with open(path, "w") as f:
        json.dump(dict(failure, property=pid), f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.rename(tmp, os.path.join(d, pid + ".json"))


def drive(prop, tier, seed, nworkers=8, budget=None, scale=1.0, only=None):
    """Run a property.  Returns the exit code."""
    import multiprocessing as mp

    t0 = time.time()
    if budget is None:
        budget = 500 if tier == "quick" else 6 * 3600
    tasks = []
    per = {}
    for isub, sub in enumerate(prop.subs):
        if only and sub.name not in only:
            continue
        n = int((sub.quick if tier == "quick" else sub.thorough) * scale)
        nsh = nworkers if tier == "quick" else nworkers * max(1, n // 20000)
        nsh = max(1, min(nsh, n // 5))
        for k in range(nsh):
            cnt = n // nsh + (1 if k < n % nsh else 0)
            if cnt:
                deep = tier != "quick" and k % 2 == 1
                tasks.append((isub, derive_seed(seed, prop.pid, sub.name, k), cnt, deep))
        per[sub.name] = {"planned": n, "evaluations": 0, "distinct_nontrivial": 0}
    # interleave so that every sub-check gets going early; big ones first
    tasks.sort(key=lambda t: -t[2])
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    for k in range(len(tasks)):
        inq.put(k)
    nworkers = min(nworkers, len(tasks))
    for _ in range(nworkers):
        inq.put(None)
    procs = [
        ctx.Process(target=_worker, args=(prop, tasks, inq, outq), daemon=True)
        for _ in range(nworkers)
    ]
    for p in procs:
        p.start()

    evals = 0
    hashes = {}
    events = Counter()
    samples = []
    failures = {}
    errors = []
    alive = nworkers
    truncated = False
    import queue

    done = set()
    first_failure = None
    while alive > 0:
        try:
            k, res = outq.get(timeout=2)
        except queue.Empty:
            if time.time() - t0 > budget:
                truncated = True
                break
            # enough is known: other shards get a short grace to finish their shrinking
            if first_failure and time.time() - first_failure > 5:
                break
            if not any(p.is_alive() for p in procs):
                if len(done) < len(tasks):
                    errors.append("worker processes ended early")
                break
            continue
        if k is None:
            alive -= 1
            continue
        done.add(k)
        if res.get("error"):
            errors.append(res["error"])
        if "evals" not in res:
            continue
        name = prop.subs[tasks[k][0]].name
        evals += res["evals"]
        per[name]["evaluations"] += res["evals"]
        hashes.setdefault(name, set()).update(res["hashes"])
        for e, c in res["events"].items():
            events[name + ":" + e] += c
        if len([s for s in samples if s["sub"] == name]) < 2:
            for s in res["samples"][:2]:
                samples.append({"sub": name, "case": s})
        if res["failure"] is not None:
            old = failures.get(name)
            if old is None or len(canon(res["failure"]["case"])) < len(
                canon(old["case"])
            ):
                failures[name] = res["failure"]
            if first_failure is None:
                first_failure = time.time()
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    # known findings: replay each, report
    code = 0
    known_lines = []
    subs = {s.name: s for s in prop.subs}
    for kf in load_known()["known"]:
        if kf["property"] != prop.pid:
            continue
        st = Stats()
        msg = run_case(subs[kf["sub"]], kf["case"], st)
        if msg is not None:
            known_lines.append(
                "KNOWN-FINDING: property={} {}".format(prop.pid, kf["what"])
            )
        else:
            known_lines.append(
                "note: known finding {} of {} no longer occurs".format(
                    kf["id"], prop.pid
                )
            )
    for line in known_lines:
        print(line)

    for name in hashes:
        per[name]["distinct_nontrivial"] = len(hashes[name])
    ndn = sum(len(h) for h in hashes.values())
    ev = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": ndn,
            "rule": prop.rule,
            "samples": samples[:12],
            "per_subcheck": per,
            "events": dict(sorted(events.items())),
            "truncated_by_budget": truncated,
            "known_findings_replayed": len(known_lines),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    write_evidence(prop.pid, ev)
    if failures:
        for name in sorted(failures):
            path = save_replay(prop.pid, failures[name])
            print("VIOLATION property={} replay={}".format(prop.pid, path))
            print("  sub-check {}: {}".format(name, failures[name]["message"][:1500]))
        code = 1
    elif errors:
        print("ERROR in check {}:".format(prop.pid))
        for e in errors[:1]:
            print(e[:4000])
        code = 2
    else:
        print(
            "{}: held on {} cases ({} distinct non-trivial), {:.1f} s{}".format(
                prop.pid,
                evals,
                ndn,
                time.time() - t0,
                " [budget reached]" if truncated else "",
            )
        )
    sys.stdout.flush()
    return code


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    sub = {s.name: s for s in prop.subs}[rec["sub"]]
    st = Stats()
    try:
        msg = run_case(sub, rec["case"], st)
    except Hang:
        msg = "the case did not end within {} s".format(CASE_TIMEOUT)
    if msg is None:
        print("{}: replay of {} holds".format(prop.pid, path))
        return 0
    print("VIOLATION property={} replay={}".format(prop.pid, path))
    print("  sub-check {}: {}".format(rec["sub"], msg[:3000]))
    return 1
