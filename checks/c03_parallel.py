"""C03: ranks divide the files among them and write what a serial run writes"""
import os
import shutil
import traceback

from hypothesis import strategies as st

from pbt import fakempi
from pbt import named as N
from pbt import rankserver
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check


class Captured(Exception):
    pass


def make_comm(rank, size, parts, barrier=None):
    from asaptools.simplecomm import SimpleComm

    class Comm(SimpleComm):
        """One rank of a parallel run: what the manager partitioned is handed to every rank"""

        def get_size(self):
            return size

        def get_rank(self):
            return rank

        def is_manager(self):
            return rank == 0

        def sync(self):
            if barrier is not None:
                barrier()

        def partition(self, data=None, func=None, involved=False, tag=0):
            op = func if func else lambda *x: x[0][x[1]::x[2]]
            if parts is None:
                raise Captured(data, op, involved)
            data, op, inv = parts
            if involved != inv:
                raise AssertionError("ranks call partition differently")
            if involved:
                return op(data, rank, size)
            return None if rank == 0 else op(data, rank - 1, size - 1)

    return Comm()


@st.composite
def cases(draw, maxvars=6):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3},
                      out={"nvars": (1, maxvars), "depth": 1, "refuse": False, "directions": True}))
    for o in w["outvars"]:
        if o["file"]:
            # (names that are the same in part)
            f = o["file"]["filename"]
            o["file"]["filename"] = draw(st.sampled_from(["", "p/", "p/q/", "r/"])) + draw(st.sampled_from(
                [f, f, "f." + f, f[:-3] + ".x.nc", "f_" + f, f[:-3] + "/same.nc", f[:-3], "f." + f[:-3]]))
    n = draw(st.integers(1, 6))
    w["order"] = draw(st.permutations(list(range(n))))
    return w


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            s = os.stat(p)
            out[os.path.relpath(p, root)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


def prepare(w, root):
    try:
        for o in w["outvars"]:
            W.expected(w, o)
    except N.Refuse:
        raise Discard("has to be refused")
    W.write_inputs(w, root)
    a = os.path.join(root, "a")
    W.execute(w, root, out=a)
    size = len(w["order"])
    try:
        W.execute(w, root, out=os.path.join(root, "b"), scomm=make_comm(0, size, None))
    except Captured as c:
        return a, c.args
    # (the ranks divide the files without the communicator)
    shutil.rmtree(os.path.join(root, "b"), ignore_errors=True)
    return a, None


def compare(w, a, b, writers):
    fa, fb = sorted(listing(a)), sorted(listing(b))
    check(fa == fb, "serial run wrote {}, ranks wrote {}", fa, fb)
    for fn in fa:
        if writers is not None:
            who = writers.get(fn, [])
            check(len(who) == 1, "file {} was written by the ranks {}", fn, who)
        W.same_files(W.read_file(os.path.join(a, fn)), W.read_file(os.path.join(b, fn)),
                     "{} serial / parallel".format(fn))


def run(w, stt):
    size = len(w["order"])
    with W.scratch() as root:
        a, parts = prepare(w, root)
        b = os.path.join(root, "b")
        os.makedirs(b, exist_ok=True)
        writers = {}
        for rank in w["order"]:
            before = listing(b)
            W.execute(w, root, out=b, scomm=make_comm(rank, size, parts))
            for fn, s in listing(b).items():
                if before.get(fn) != s:
                    writers.setdefault(fn, []).append(rank)
        compare(w, a, b, writers)
        n = len(W.own_files(w))
        stt.nt(size > 1 and n > 1)
        if size > n:
            stt.event("more ranks than files")


def run_concurrent(w, stt):
    """real processes that write at the same time"""
    size = len(w["order"])
    with W.scratch() as root:
        a, parts = prepare(w, root)
        b = os.path.join(root, "b")
        logs = os.path.join(root, "logs")
        os.makedirs(logs)
        flows = {r: W.make_flow(w, root, out=b) for r in range(size)}
        go_r, go_w = os.pipe()
        pids = []
        for rank in w["order"]:
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(go_w)
                    state = []

                    def barrier():
                        if not state:
                            os.read(go_r, 1)  # ends when the parent closes the pipe
                            state.append(1)

                    W.execute(w, root, flow=flows[rank], scomm=make_comm(rank, size, parts, barrier))
                    code = 0
                except BaseException:
                    with open(os.path.join(logs, "%d.err" % rank), "w") as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(go_r)
        os.close(go_w)
        codes = [os.waitpid(p, 0)[1] for p in pids]
        errs = [open(os.path.join(logs, f)).read() for f in os.listdir(logs) if f.endswith(".err")]
        check(not any(codes), "a rank failed: {} {}", codes, errs)
        compare(w, a, b, None)
        stt.nt(size > 1 and len(W.own_files(w)) > 1)


SERVERS = rankserver.Servers()


def run_interpreters(w, stt):
    """every rank is an interpreter of its own, with its own order of sets"""
    size = min(3, max(2, len(w["order"])))
    with W.scratch() as root:
        a, _ = prepare(w, root)
        b = os.path.join(root, "b")
        ans = SERVERS.ask([(w, root, b, 0, size, None)])
        check(ans and ans[0][0] != "failed", "rank 0 failed: {}", ans)
        parts = ans[0][1]
        shutil.rmtree(b, ignore_errors=True)
        ans = SERVERS.ask([(w, root, b, r, size, parts) for r in range(size)])
        check(ans and all(x[0] == "done" for x in ans), "a rank failed: {}", ans)
        compare(w, a, b, None)
        stt.nt(len(W.own_files(w)) > 1)


def run_messages(w, stt):
    """ranks that get their part by messages of the communicator the library creates"""
    size = len(w["order"])
    with W.scratch() as root:
        try:
            for o in w["outvars"]:
                W.expected(w, o)
        except N.Refuse:
            raise Discard("has to be refused")
        W.write_inputs(w, root)
        a, b, mine = (os.path.join(root, x) for x in ("a", "b", "mine"))
        W.execute(w, root, out=a)
        flow = W.make_flow(w, root, out=b) if w["shared"] else None
        os.makedirs(b, exist_ok=True)

        def work(rank):
            W.execute(w, root, flow=flow, out=b, serial=False)

        errs = fakempi.run_ranks(size, work, os.path.join(root, "logs"), w["order"])
        check(not errs, "ranks failed: {}", {r: e.strip().splitlines()[-1] for r, e in errs.items()})
        compare(w, a, b, None)
        stt.nt(size > 1 and len(W.own_files(w)) > 1)


@st.composite
def message_cases(draw):
    w = draw(cases())
    w["shared"] = draw(st.booleans())
    return w


PROP = Prop(
    "C03",
    [Sub("ranks", cases, run, quick=350),
     Sub("processes", cases, run_concurrent, quick=160),
     Sub("interpreters", cases, run_interpreters, quick=100),
     Sub("messages", message_cases, run_messages, quick=120)],
    rule="random worlds with 1-6 output files in shared new directories, 1-6 ranks; each rank "
    "builds its own flow and executes it with a communicator that hands out the manager's "
    "partition, one after the other in random order, or as concurrent processes, or as concurrent interpreters with different hash seeds, or as processes that send each other messages (a stand-in for mpi4py "
    "below asaptools' own communicator); written files "
    "compared with a serial run and attributed to ranks; non-trivial: several ranks and files",
    assumptions=["in three of the four sub-checks, asaptools' MPI communicator is replaced by one that hands every rank its "
                 "part of the manager's partition; MPI itself is not exercised"],
)
