"""Runs several activities in threads of which exactly one is ever running; the baton is handed over at points of the library chosen by a seeded schedule.

mode "public": at the entry of library functions called from outside the library (a sequential interleaving of public calls)
mode "line":   at any line of library code (preemption)
"""
import os
import sys
import threading


class Baton:
    def __init__(self, rng, prob, mode, base):
        self.rng, self.prob, self.mode, self.base = rng, prob, mode, base
        self.cond = threading.Condition()
        self.live, self.turn = [], None
        self.switches = 0
        self.points = set()
        self.schedule = []

    def _lib(self, frame):
        return frame.f_code.co_filename.startswith(self.base)

    def hand_over(self, me, where):
        if len(self.live) < 2 or self.rng.random() >= self.prob:
            return
        nxt = self.rng.choice(self.live)
        if nxt == me:
            return
        self.switches += 1
        self.points.add(where)
        self.schedule.append(nxt)
        with self.cond:
            self.turn = nxt
            self.cond.notify_all()
            while self.turn != me:
                self.cond.wait()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.hand_over(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def trace(frame, event, arg):
            if event != "call" or not self._lib(frame):
                return None
            if self.mode == "public":
                if frame.f_back is None or not self._lib(frame.f_back):
                    self.hand_over(me, (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
                return None
            return local
        return trace

    def run(self, activities):
        """activities: callables. Returns their results (or the exception each ended with)."""
        out = [None] * len(activities)
        self.live = list(range(len(activities)))
        self.turn = self.rng.randrange(len(activities))

        def body(me):
            with self.cond:
                while self.turn != me:
                    self.cond.wait()
            sys.settrace(self.tracer(me))
            try:
                out[me] = activities[me]()
            except BaseException as e:
                out[me] = e
            finally:
                sys.settrace(None)
                with self.cond:
                    self.live.remove(me)
                    if self.live:
                        self.turn = self.rng.choice(self.live)
                    self.cond.notify_all()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(activities))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out
