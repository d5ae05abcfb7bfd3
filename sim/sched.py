"""
Deterministic scheduling of caller threads.

Each task runs in a real thread, but exactly one thread runs at any time: the
others are parked on their own lock.  The running one gives up control only at
statement boundaries inside the package's files (seen by a trace function),
after the number of statements the schedule grants it.  The schedule is a list
of [task, statements]; when it is used up the tasks run to completion in order.
Interleavings are therefore a function of the spec alone.
"""
import sys
import threading

from .core import PKG

SKIP = PKG + 'tests'


class Task(object):
    def __init__(self, idx, fn, kill_at=None, exc=None):
        self.idx = idx
        self.fn = fn
        self.lock = threading.Semaphore(0)
        self.budget = 0
        self.done = False
        self.result = None
        self.error = None
        self.nlines = 0
        self.kill_at = kill_at
        self.exc = exc
        self.killed = False


class Scheduler(object):
    def __init__(self, fns, schedule, kills=None):
        """kills: {task: (statement number, exception class)}"""
        kills = kills or {}
        self.tasks = [Task(i, f, *kills.get(i, (None, None)))
                      for i, f in enumerate(fns)]
        self.schedule = [list(s) for s in schedule]
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.order = []
        self.overlapped = False

    def _body(self, task):
        task.lock.acquire()

        def local(frame, event, arg):
            if event == 'line':
                task.nlines += 1
                if task.kill_at is not None and task.nlines == task.kill_at:
                    task.killed = True
                    raise task.exc('injected by the simulator')
                task.budget -= 1
                if task.budget <= 0:
                    # hand control back, wait to be resumed
                    self.main.release()
                    task.lock.acquire()
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(PKG) and not fn.startswith(SKIP):
                return local
            return None

        sys.settrace(glob)
        try:
            task.result = task.fn()
        except BaseException as e:
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            self.main.release()

    def _resume(self, task, n):
        task.budget = n
        self.switches += 1
        self.order.append(task.idx)
        self.overlapped = self.overlapped or any(
            t.nlines and not t.done for t in self.tasks if t is not task)
        task.lock.release()
        self.main.acquire()

    def run(self):
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        for i, n in self.schedule:
            t = self.tasks[i % len(self.tasks)]
            if not t.done:
                self._resume(t, max(1, n))
        for t in self.tasks:
            while not t.done:
                self._resume(t, 1 << 60)
        for th in threads:
            th.join()
        return self.tasks
