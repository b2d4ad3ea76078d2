"""fork-based map over the cores: fn(worker, workers) runs in forked children, results come back pickled."""
import os
import pickle
import struct
import time
import traceback

from sa.project import AnalysisBroken


def fork_map(fn, n=None):
    n = n or min(8, os.cpu_count() or 1)
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = pickle.dumps((True, fn(w, n)))
                except BaseException:
                    out = pickle.dumps((False, traceback.format_exc()))
                with os.fdopen(wr, "wb") as f:
                    f.write(out)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            raise AnalysisBroken("a worker died")
        ok, v = pickle.loads(raw)
        if not ok:
            raise AnalysisBroken("worker failed: " + v)
        res.append(v)
    return res


def run_jobs(rep, jobs, seconds=500, deadline=600):
    """jobs: functions of a Book, handed out to the cores one after another; their findings go to rep, the undecided obligations
    are returned.  What has not been started by the deadline (seconds) is undecided."""
    from sa import terms as tm
    from .common import Report
    from .p06 import Book
    queue, fill = os.pipe()
    for k in range(len(jobs)):
        os.write(fill, struct.pack("I", k))
    os.close(fill)
    began = time.monotonic()

    def work(w, n):
        out = []
        while True:
            raw = os.read(queue, 4)
            if len(raw) < 4:
                return out
            book = Book(Report())
            if time.monotonic() - began > deadline:
                book.undecided.append(f"no time left for job {struct.unpack(chr(73), raw)[0]}")
            else:
                tm.allow_whole(seconds)
                jobs[struct.unpack("I", raw)[0]](book)
            out.append((struct.unpack("I", raw)[0], book.rep, book.undecided))
    und = []
    for _, r, u in sorted((x for res in fork_map(work) for x in res), key=lambda x: x[0]):
        rep.absorb(r)
        und += u
    os.close(queue)
    return und
