"""
Deterministic schedules of two threads running the library.

Each thread counts its scheduling points (trace events inside of the library: lines, or calls and returns) and hands
over to the other thread when the budget given by the schedule is used up.  The schedule [k1, k2, ...] means: the
first thread runs for k1 points, then the second one for k2 points, then the first one again...; after the last
budget each thread runs to its end (and is not traced any more).
"""
import sys
import threading

BLOCKED = 1.0           # seconds after which a thread that was given the turn is considered blocked


class Schedule:
    def __init__(self, functions, budgets, points, blocked=BLOCKED, record=False):
        self.functions = functions
        self.budgets = list(budgets)
        self.points = points
        self.turns = [threading.Semaphore(0), threading.Semaphore(0)]
        self.finished = [False, False]
        self.results = [None, None]
        self.counts = [0, 0]
        self.blocked = blocked
        self.timeouts = 0
        self.left = None
        self.places = ([], []) if record else None      # source lines of the scheduling points

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in threads:
            t.start()
        self.left = self.next_budget()
        self.turns[0].release()
        for t in threads:
            t.join()
        return self.results

    def next_budget(self):
        return self.budgets.pop(0) if self.budgets else None

    def body(self, me):
        self.turns[me].acquire()
        if self.left is not None or self.places:
            sys.settrace(lambda frame, event, arg: self.enter(me, frame))
        try:
            res = ('answer', self.functions[me]())
        except Exception as e:      # pylint: disable=broad-except
            res = ('exception', repr(e))
        sys.settrace(None)
        self.results[me] = res
        self.finished[me] = True
        self.left = None
        self.turns[1 - me].release()

    def enter(self, me, frame):
        if 'spylls' not in frame.f_code.co_filename:
            return None
        if self.points != 'line':
            frame.f_trace_lines = False
        frame.f_trace_opcodes = self.points == 'opcode'

        def local(frame, event, _arg):
            if self.points != 'call' or event == 'return':
                self.point(me, frame)
            return local
        self.point(me, frame)
        return local

    def point(self, me, frame):
        self.counts[me] += 1
        if self.places:
            self.places[me].append((frame.f_code.co_filename, frame.f_lineno))
            return
        if self.left is None or self.finished[1 - me]:
            sys.settrace(None)
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.next_budget()
        self.turns[1 - me].release()
        # the other thread may wait for a lock held here: then it is not able to run, and this one goes on
        if not self.turns[me].acquire(timeout=self.blocked):
            self.timeouts += 1
            self.left = None
