"""Ranks of a parallel run without MPI: processes that send each other pickled messages, like mpi4py does

asaptools' SimpleCommMPI imports mpi4py, which is not installed here; in the processes started by run_ranks there
is a stand-in for it, so that the communicator is the real one.  A rank that waits for a message of a rank that
has ended gets an error instead of waiting forever.
"""
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback
import types


class RankEnded(Exception):
    pass


class World(object):
    """the communicator of all ranks (the part of mpi4py's interface that asaptools uses)"""

    def __init__(self, rank, size, socks):
        self.rank, self.size, self.socks, self.queue = rank, size, socks, []

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def send(self, obj, dest=0, tag=0):
        if dest == self.rank:
            self.queue.append((dest, tag, pickle.dumps(obj)))
            return
        x = pickle.dumps((tag, pickle.dumps(obj)))
        try:
            self.socks[dest].sendall(struct.pack("<I", len(x)) + x)
        except OSError:
            raise RankEnded("rank {} sends to rank {}, which has ended".format(self.rank, dest))

    def _take(self, source):
        def read(n):
            b = b""
            while len(b) < n:
                c = self.socks[source].recv(n - len(b))
                if not c:
                    raise RankEnded("rank {} waits for rank {}, which has ended".format(self.rank, source))
                b += c
            return b

        try:
            tag, x = pickle.loads(read(struct.unpack("<I", read(4))[0]))
        except OSError:
            raise RankEnded("rank {} waits for rank {}, which has ended".format(self.rank, source))
        self.queue.append((source, tag, x))

    def recv(self, source=-1, tag=-1):
        while True:
            for k, (s, t, x) in enumerate(self.queue):
                if source in (-1, s) and tag in (-1, t):
                    del self.queue[k]
                    return pickle.loads(x)
            if source >= 0:
                self._take(source)
            else:
                ready = select.select([s for s in self.socks.values()], [], [])[0]
                self._take([r for r, s in self.socks.items() if s in ready][0])

    def bcast(self, obj=None, root=0):
        if self.rank == root:
            for r in range(self.size):
                if r != root:
                    self.send(obj, r, -99)
            return obj
        return self.recv(root, -99)

    def gather(self, obj, root=0):
        if self.rank != root:
            self.send(obj, root, -98)
            return None
        return [obj if r == root else self.recv(r, -98) for r in range(self.size)]

    def allgather(self, obj):
        return self.bcast(self.gather(obj))

    def allreduce(self, obj, op=None):
        xs = self.allgather(obj)
        out = xs[0]
        for x in xs[1:]:
            out = op(out, x)
        return out

    def Barrier(self):
        self.allgather(None)

    barrier = Barrier


def install(world):
    mod, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD, mpi.ANY_SOURCE, mpi.ANY_TAG = world, -1, -1
    mpi.SUM, mpi.PROD, mpi.MAX, mpi.MIN = (lambda a, b: a + b), (lambda a, b: a * b), max, min
    mod.MPI = mpi
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mod, mpi


def run_ranks(size, work, logs, order=None, limit=240):
    """work(rank) in processes of their own; {rank: error} of those that fail"""
    pairs = {(i, j): socket.socketpair() for j in range(size) for i in range(j)}
    os.makedirs(logs, exist_ok=True)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for rank in order or range(size):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                mine = {}
                for (i, j), (a, b) in pairs.items():
                    if rank == i:
                        mine[j] = a
                        b.close()
                    elif rank == j:
                        mine[i] = b
                        a.close()
                    else:
                        a.close()
                        b.close()
                install(World(rank, size, mine))
                work(rank)
                code = 0
            except BaseException:
                with open(os.path.join(logs, "rank%d" % rank), "w") as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(code)
        pids[rank] = pid
    for a, b in pairs.values():
        a.close()
        b.close()
    left, errors, end = dict(pids), {}, time.time() + limit
    while left:
        for rank, pid in list(left.items()):
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                del left[rank]
                if status:
                    log = os.path.join(logs, "rank%d" % rank)
                    errors[rank] = open(log).read() if os.path.exists(log) else "status %d" % status
        if left and time.time() > end:
            for rank, pid in left.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                errors[rank] = "does not end"
            break
        if left:
            time.sleep(0.002)
    return errors
