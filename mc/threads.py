"""A controlled scheduler: two calls run in two threads, one at a time, switched at chosen source lines of bfit."""
import os
import sys
import threading

import bfit

ROOT = os.path.dirname(os.path.abspath(bfit.__file__)) + os.sep


class _Sched:
    def __init__(self, plan, first):
        self.plan = list(plan)                # lines each segment may execute before the next switch
        self.left = self.plan.pop(0) if self.plan else None
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.events = 0
        self.waiting = [True, True]
        self.turn = first
        self.finished = threading.Semaphore(0)
        self.out = [None, None]
        self.trail = [[], []]

    def line(self, i, where):
        self.trail[i].append(where)
        self.events += 1
        if self.left is None or self.turn != i:
            return
        if self.left > 0:
            self.left -= 1
            return
        self.left = self.plan.pop(0) if self.plan else None
        if not self.done[1 - i]:
            self.give(1 - i)
            self.wait(i)

    def give(self, i):
        self.turn = i
        self.go[i].release()

    def wait(self, i):
        self.waiting[i] = True
        self.go[i].acquire()
        self.waiting[i] = False

    def thread(self, i, fn):
        def local(frame, event, arg):
            if event == "line":
                self.line(i, (frame.f_code.co_filename, frame.f_lineno))
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        self.wait(i)
        sys.settrace(trace)
        try:
            self.out[i] = (True, fn())
        except BaseException as e:  # noqa: B902 - reported by the caller
            self.out[i] = (False, e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.events += 1
            self.left = self.plan.pop(0) if self.plan else None
            self.give(1 - i)
            self.finished.release()


def interleave(fns, plan=(), first=0, stall=5.0):
    """Run both calls: `first` executes plan[0] lines, then the other plan[1] lines, and so on; the last segment runs to
    its end, then the other. Returns [(ok, value or exception)] and the lines each executed."""
    s = _Sched(plan, first)
    ts = [threading.Thread(target=s.thread, args=(i, f), daemon=True) for i, f in enumerate(fns)]
    for t in ts:
        t.start()
    s.give(first)
    n = 0
    seen = -1
    while n < 2:
        if s.finished.acquire(timeout=stall):
            n += 1
        elif s.events == seen:                # the running call waits for the suspended one (a lock): let both run
            s.left, s.plan = None, []
            for i in (0, 1):
                if s.waiting[i]:
                    s.go[i].release()
            seen = -1
        else:
            seen = s.events
    for t in ts:
        t.join()
    return s.out, s.trail


def alone(fn):
    """Result and lines of a call by itself."""
    out, trail = interleave([fn, lambda: None])
    return out[0], trail[0]


def points(trail, most):
    """Where to switch: before every line of a call of up to `most` lines, else before the first, second and last
    arrival at each distinct line."""
    if len(trail) <= most:
        return list(range(len(trail)))
    seen = {}
    for k, where in enumerate(trail):
        seen.setdefault(where, []).append(k)
    return sorted({k for ks in seen.values() for k in (*ks[:2], ks[-1])})
