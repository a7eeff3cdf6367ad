"""Calls that take turns in the middle (spec/MC_Turns.tla).

Every call runs in a thread of its own, under a trace function which stops it
before chosen lines of the library and goes on when it is its turn.  Only one
thread moves at a time, so a schedule is a list of callers, as in the model.
"""
import sys
import threading

PATIENCE = 5       # seconds: a caller that waits for a lock of a stopped one cannot follow the schedule


def lines(fn, root):
    """The lines of the library that fn() goes through, in order."""
    seen = []

    def local(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    sys.settrace(enter)
    try:
        res = fn()
    finally:
        sys.settrace(None)
    return seen, res


class Turns:
    def __init__(self, fns, cuts, root):
        """cuts[i]: before which of its lines (as counted) call i stops."""
        self.root = root
        self.cv = threading.Condition()
        self.turn = None
        self.free = False
        self.resting = [False] * len(fns)
        self.done = [False] * len(fns)
        self.res = [None] * len(fns)
        self.cuts = cuts
        self.threads = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]

    def rest(self, i):
        with self.cv:
            if self.free:
                return
            self.resting[i] = True
            self.cv.notify_all()
            while self.turn != i and not self.free:
                self.cv.wait()
            self.turn = None
            self.resting[i] = False

    def body(self, i, fn):
        count, cuts = 0, set(self.cuts[i])

        def local(frame, event, arg):
            nonlocal count
            if event == "line":
                if count in cuts:
                    self.rest(i)
                count += 1
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        self.rest(i)
        sys.settrace(enter)
        try:
            self.res[i] = fn()
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                self.cv.notify_all()

    def run(self, schedule):
        """The results, in the order in which the calls ended; None if the schedule could not be followed."""
        for t in self.threads:
            t.start()
        order, followed = [], True
        with self.cv:
            for i in schedule:
                if self.done[i]:
                    continue
                if not self.cv.wait_for(lambda: self.resting[i] or self.done[i], PATIENCE):
                    followed = False
                    break
                self.turn = i
                self.cv.notify_all()
                if not self.cv.wait_for(lambda: self.done[i] or (self.resting[i] and self.turn is None), PATIENCE):
                    followed = False
                    break
                if self.done[i]:
                    order.append(i)
            self.free = True
            self.cv.notify_all()
        for t in self.threads:
            t.join(60)
        return [self.res[i] for i in order + [i for i in range(len(self.res)) if i not in order]], followed
