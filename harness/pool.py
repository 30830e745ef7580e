"""Forked workers that run the real code, one case at a time, under a parent-side watchdog.

Each case runs on its worker's main thread (the code under test uses SIGALRM there); nothing in the
worker uses signals, so a case that never returns is ended from the parent and reported as a hang.
"""
import ctypes, os, resource, sys, time, traceback
import multiprocessing as mp
from multiprocessing.connection import wait

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def _child(conn, fn, mem):
    ctypes.CDLL(None).prctl(1, 9)                      # end with the parent, also when it is killed
    sys.stdin = open(os.devnull)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        t = time.time()
        try:
            out = fn(job)
        except BaseException as e:
            out = "harness exception %s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        conn.send((out, time.time() - t))


class Worker:
    def __init__(self, fn, mem):
        ctx = mp.get_context("fork")
        self.conn, theirs = ctx.Pipe()
        self.p = ctx.Process(target=_child, args=(theirs, fn, mem), daemon=True)
        self.p.start()
        theirs.close()
        self.job, self.t0 = None, 0

    def give(self, job):
        self.job, self.t0 = job, time.time()
        self.conn.send(job[1])

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
            self.conn.close()
        except Exception:
            pass


def run(fn, cases, nproc=None, hang=120.0, mem=6 << 30, deadline=None):
    """Yield (index, outcome, seconds); outcome None = conforms, otherwise a description."""
    n = max(1, min(nproc or NPROC, len(cases)))
    ws = [Worker(fn, mem) for _ in range(n)] if cases else []
    todo = list(enumerate(cases))[::-1]
    busy = []
    for w in ws:
        if todo:
            w.give(todo.pop())
            busy.append(w)
    while busy:
        ready = wait([w.conn for w in busy], timeout=1.0)
        now = time.time()
        for w in list(busy):
            res = None
            if w.conn in ready:
                try:
                    out, dt = w.conn.recv()
                    res = (w.job[0], out, dt)
                except (EOFError, OSError):
                    res = (w.job[0], "the process running the case died", now - w.t0)
                    i = ws.index(w)
                    w.kill()
                    busy.remove(w)
                    w = Worker(fn, mem)
                    ws[i] = w
                    busy.append(w)
            elif now - w.t0 > hang:
                res = (w.job[0], "did not return within %d s" % hang, now - w.t0)
                i = ws.index(w)
                w.kill()
                busy.remove(w)
                w = Worker(fn, mem)
                ws[i] = w
                busy.append(w)
            if res is not None:
                if todo and not (deadline and now > deadline):
                    w.give(todo.pop())
                else:
                    busy.remove(w)
                yield res
    for w in ws:
        w.kill()
