"""C20: a file under its final name is complete, whatever happens during the run"""
import json
import os
import signal
import sys
import warnings

from hypothesis import strategies as st

from pbt import fakempi
from pbt import named as N
from pbt import world as W
from pbt.core import Discard, HarnessError, Prop, Sub, check


@st.composite
def cases(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3, "nvars": (1, 3)},
                      out={"nvars": (1, 3), "depth": 1, "functions": False, "reduce": False}))
    ds = sorted({d for o in w["outvars"] if o["file"] for d in o["dims"]})
    if ds and draw(st.booleans()):
        w["exec"]["chunks"] = [[draw(st.sampled_from(ds)), 1]]
    for o in w["outvars"]:
        if o["file"]:
            o["file"]["filename"] = o["file"]["filename"][:-3] + draw(st.sampled_from([".nc", ".nc", "", ".nc4", ".tmp", "_tmp.nc", ".nc.nc"]))
        if o["file"] and draw(st.booleans()):
            o["file"]["filename"] = "sub/" + o["file"]["filename"]
    # where the fault strikes (per mille of all calls), and what it is
    # or which call to the file system it follows (or precedes) at which distance
    w["faults"] = draw(st.lists(st.tuples(
        st.one_of(st.integers(0, 1050), st.tuples(st.integers(0, 19), st.integers(-2, 3))),
        st.sampled_from(["exit", "kill", "raise", "oserror"])), min_size=2, max_size=5))
    w["previous"] = draw(st.booleans())
    return w


SYSTEM = ("rename", "replace", "renames", "link", "symlink", "unlink", "remove", "open", "sendfile", "copy_file_range",
          "truncate", "fsync", "mkdir", "rmdir", "chmod", "utime")

PROBES = ("genericpath.py", "<frozen genericpath>")


def fault(n, marks, at, kind):
    """a profiler that counts calls, and in which the fault strikes"""
    me, done = os.getpid(), []

    def prof(frame, event, arg):
        if event in ("call", "c_call", "c_return"):
            n[0] += 1
            if event == "c_call" and getattr(arg, "__name__", None) in SYSTEM and \
                    getattr(arg, "__module__", None) in ("posix", "os"):
                marks.append(n[0])
            # (an error within os.path.exists and the like is an answer, no error)
            if at is not None and n[0] >= at and not done and \
                    frame.f_code.co_filename.rsplit("/", 1)[-1] not in PROBES:
                done.append(1)
                if kind == "exit":
                    os._exit(9)
                elif kind == "kill":
                    os.kill(me, signal.SIGKILL)
                elif kind == "raise":
                    raise MemoryError("injected")
                raise OSError(28, "No space left on device")

    return prof


def child(w, root, out, at=None, kind=None):
    """run in a process of its own; returns (exit status, [number of calls, those that change the file system])"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            warnings.simplefilter("ignore")
            flow = W.make_flow(w, root, out=out)
            n, marks = [0], []
            prof = fault(n, marks, at, kind)

            chunks = dict((w.get("exec") or {}).get("chunks", []))
            from collections import OrderedDict

            sys.setprofile(prof)
            try:
                flow.execute(chunks=OrderedDict(chunks), serial=True)
                code = 0
            except BaseException:
                code = 3
            finally:
                sys.setprofile(None)
            os.write(wr, json.dumps(n + marks[:200]).encode())
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(wr)
    data = b""
    while True:
        x = os.read(r, 100)
        if not x:
            break
        data += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return status, json.loads(data or b"[0]")


def run(w, stt):
    env = W.env_of(w)
    try:
        for o in w["outvars"]:
            W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused")
    with W.scratch() as root:
        W.write_inputs(w, root)
        ref = os.path.join(root, "ref")
        status, (total, *marks) = child(w, root, ref)
        if status != 0 or not total:
            # (what is wrong with it is judged elsewhere)
            raise Discard("does not run: {}".format(status))
        finals = {o["name"]: o["file"]["filename"] for o in w["outvars"] if o["file"]}
        good = {n: W.read_file(os.path.join(ref, f)) for n, f in finals.items()}
        old = None
        prev = w
        if w["previous"]:
            # an earlier run with other data left its files there
            prev = dict(w, outvars=[dict(o, attrs=dict(o["attrs"], comment="an earlier run"))
                                    for o in w["outvars"]])
            op = os.path.join(root, "old")
            child(prev, root, op)
            old = {n: W.read_file(os.path.join(op, f)) for n, f in finals.items()}
        for k, (pm, kind) in enumerate(w["faults"]):
            out = os.path.join(root, "out%d" % k)
            if old is not None:
                st_, _ = child(prev, root, out)
                if st_ != 0:
                    raise HarnessError("the earlier run failed: {}".format(st_))
            if isinstance(pm, int):
                at = max(1, total * pm // 1000)
            elif not marks:
                continue
            else:
                at = max(1, marks[pm[0] % len(marks)] + pm[1])
                stt.event("at a call to the file system")
            status, _ = child(w, root, out, at, kind)
            what = "{} at call {} of {}".format(kind, at, total)
            # what is there under the final names is complete
            there = 0
            for n, f in finals.items():
                p = os.path.join(out, f)
                if not os.path.exists(p):
                    check(old is None, "{}: the file {} of an earlier run is gone", what, f)
                    check(status != 0, "{}: the run succeeded but {} is not there", what, f)
                    continue
                try:
                    got = W.read_file(p)
                except Exception as err:
                    check(False, "{}: {} can not be read: {}", what, f, err)
                try:
                    W.same_files(good[n], got, "{}, {}".format(what, f))
                    there += 1
                except AssertionError:
                    if old is None or status == 0:
                        raise
                    W.same_files(old[n], got, "{}, {} (of the earlier run)".format(what, f))
            if status != 0:
                stt.event("failed ({})".format(kind))
                if 0 < there < len(finals):
                    stt.event("some files finished")
                stt.nt()
            else:
                stt.event("finished")
            # nothing that is left behind is in the way of another run
            status, _ = child(w, root, out)
            check(status == 0, "{}: the next run fails: {}", what, status)
            left = []
            for d, _, fs in os.walk(out):
                left += [os.path.relpath(os.path.join(d, x), out) for x in fs]
            check(sorted(left) == sorted(finals.values()), "{}: files after the next run: {} instead of {}",
                  what, sorted(left), sorted(finals.values()))
            for n, f in finals.items():
                W.same_files(good[n], W.read_file(os.path.join(out, f)), "next run after {}, {}".format(what, f))


@st.composite
def rank_cases(draw):
    w = draw(cases())
    n = draw(st.integers(2, 4))
    w["ranks"] = list(draw(st.permutations(range(n))))
    w["bad"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True))
    return w


def run_ranks(w, stt):
    """some of several ranks die or fail while the others write"""
    env = W.env_of(w)
    try:
        for o in w["outvars"]:
            W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused")
    with W.scratch() as root:
        W.write_inputs(w, root)
        ref, out = os.path.join(root, "ref"), os.path.join(root, "out")
        status, (total, *_) = child(w, root, ref)
        if status != 0 or not total:
            raise Discard("does not run: {}".format(status))
        finals = [o["file"]["filename"] for o in w["outvars"] if o["file"]]
        good = {f: W.read_file(os.path.join(ref, f)) for f in finals}
        old = {}
        if w["previous"]:
            prev = dict(w, outvars=[dict(o, attrs=dict(o["attrs"], comment="an earlier run")) for o in w["outvars"]])
            status, _ = child(prev, root, out)
            if status != 0:
                raise HarnessError("the earlier run failed: {}".format(status))
            old = {f: W.read_file(os.path.join(out, f)) for f in finals}
        faults = [f for f in w["faults"] if isinstance(f[0], int)] or [(500, "kill")]

        def work(rank):
            flow = W.make_flow(w, root, out=out)
            if rank in w["bad"]:
                pm, kind = faults[w["bad"].index(rank) % len(faults)]
                sys.setprofile(fault([0], [], max(1, total * pm // 1000), kind))
            try:
                W.execute(w, root, flow=flow, serial=False)
            finally:
                sys.setprofile(None)

        errs = fakempi.run_ranks(len(w["ranks"]), work, os.path.join(root, "logs"), w["ranks"])
        what = "ranks {} of {} with faults {}".format(w["bad"], len(w["ranks"]), faults)
        check("does not end" not in errs.values(), "{}: ranks do not end", what)
        done = 0
        for f in finals:
            p = os.path.join(out, f)
            if not os.path.exists(p):
                check(f not in old, "{}: the file {} of an earlier run is gone", what, f)
                check(errs, "{}: the run succeeded but {} is not there", what, f)
                continue
            got = W.read_file(p)
            try:
                W.same_files(good[f], got, "{}, {}".format(what, f))
                done += 1
            except AssertionError:
                if f not in old or not errs:
                    raise
                W.same_files(old[f], got, "{}, {} (of the earlier run)".format(what, f))
        if errs:
            stt.nt()
            stt.event("some files finished" if 0 < done < len(finals) else "all or no files finished")
        status, _ = child(w, root, out)
        check(status == 0, "{}: the next run fails: {}", what, status)
        for f in finals:
            W.same_files(good[f], W.read_file(os.path.join(out, f)), "next run after {}, {}".format(what, f))


PROP = Prop(
    "C20",
    [Sub("fault", cases, run, quick=110), Sub("ranks", rank_cases, run_ranks, quick=60)],
    rule="each specification is executed in a process of its own that is ended (exit, SIGKILL) or made "
    "to fail (MemoryError, no space left) at 2-5 calls of the run (arbitrary ones, or next to those that change the file system), into an empty directory or "
    "one with the files of an earlier run; then executed again; the same for one or two of 2-4 ranks that "
    "exchange messages; non-trivial: the fault ended the run",
)
