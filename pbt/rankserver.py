"""One rank of a parallel run, in an interpreter of its own (with its own hash seed)

Reads requests (pickles with a length in front) from standard input and answers on the descriptor given.
"""
import os
import pickle
import struct
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def recv(f):
    n = f.read(4)
    return pickle.loads(f.read(struct.unpack("<I", n)[0])) if len(n) == 4 else None


def send(f, x):
    x = pickle.dumps(x)
    f.write(struct.pack("<I", len(x)) + x)
    f.flush()


class Servers:
    """ranks with different hash seeds, started when they are needed and ended with this process"""

    def __init__(self):
        self.ranks = []
        self.owner = None

    def get(self, n):
        import subprocess

        if self.owner != os.getpid():
            self.ranks, self.owner = [], os.getpid()
        while len(self.ranks) < n:
            r, w = os.pipe()
            p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), str(w)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, pass_fds=[w], env=dict(os.environ, PYTHONHASHSEED=str(len(self.ranks) + 11)))
            os.close(w)
            self.ranks.append((p, os.fdopen(r, "rb")))
        return self.ranks[:n]

    def ask(self, requests):
        """every rank gets its request; the answers (at the same time)"""
        rs = self.get(len(requests))
        for (p, _), x in zip(rs, requests):
            send(p.stdin, x)
        out = []
        for _, f in rs:
            a = recv(f)
            if a is None:
                self.ranks = []
                return None
            out.append(a)
        return out


def serve(fd):
    from pbt import bootstrap

    bootstrap.setup()
    from checks import c03_parallel as C
    from pbt import world as W

    out = os.fdopen(fd, "wb")
    while True:
        x = recv(sys.stdin.buffer)
        if x is None:
            return
        w, root, b, rank, size, parts = x
        try:
            W.execute(w, root, out=b, scomm=C.make_comm(rank, size, parts))
            ans = ("done", None)
        except C.Captured as c:
            ans = ("parts", c.args)
        except BaseException:
            ans = ("failed", traceback.format_exc())
        send(out, ans)


if __name__ == "__main__":
    serve(int(sys.argv[1]))
