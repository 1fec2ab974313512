"""Deterministic interleavings of Python code in several threads.

`run(jobs, steps)` runs every job (a callable) in a thread of its own, but lets only one of them execute at a time: a
thread hands over after the number of lines of the code under test (src/aws/osml) that `steps` - a generator of
(thread index hint, lines) - grants it.  The same jobs and steps give the same interleaving, so a failing schedule can be
shrunk and replayed.  A thread that does not come back within a while (it waits for a lock another one holds) is left
to itself and the others carry on, so code that protects itself with locks is not stuck.
"""

import os
import sys
import threading

HERE = os.sep + os.path.join("src", "aws", "osml") + os.sep
SKIP = os.sep + "formats" + os.sep
PATIENCE_S = 5.0


class Stop(BaseException):
    pass


class _Worker:
    def __init__(self, control, job):
        self.control, self.job = control, job
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.left = 0
        self.lines = 0
        self.done = False
        self.result = None
        self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            if not self.control["stop"]:
                self.result = self.job()
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if HERE not in name or SKIP in name:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.left -= 1
            if self.left <= 0:
                self.back.release()
                self.go.acquire()
                if self.control["stop"]:
                    raise Stop()
        return self.line


def run(jobs, steps):
    """results of the jobs as [(result, error)], and how many times another thread was let on in the middle of a job"""
    control = {"stop": False}
    workers = [_Worker(control, j) for j in jobs]
    switches = 0
    last = None
    try:
        for w in workers:
            w.thread.start()
        away = set()  # threads that were let on and have not come back
        while True:
            alive = [w for w in workers if not w.done]
            if not alive:
                break
            ready = [w for w in alive if w not in away]
            if not ready:
                for w in list(away):
                    if w.back.acquire(timeout=PATIENCE_S):
                        away.discard(w)
                continue
            hint, lines = next(steps)
            w = ready[hint % len(ready)]
            if last is not None and w is not last and not last.done:
                switches += 1
            last = w
            w.left = lines
            w.go.release()
            if not w.back.acquire(timeout=PATIENCE_S):
                away.add(w)
            for v in list(away):
                if v.back.acquire(blocking=False):
                    away.discard(v)
    finally:
        control["stop"] = True
        for w in workers:
            if not w.done:
                w.go.release()
        for w in workers:
            if w.thread.ident is not None:
                w.thread.join(timeout=PATIENCE_S)
    return [(w.result, w.error) for w in workers], switches
