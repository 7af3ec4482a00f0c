"""Controlled execution of two real threads.

Both threads run real provider code.  A thread can be descheduled before any source line of the traced files (line-level
trace events) and when it waits for a lock; nothing else is a scheduling point.  A schedule is the starting thread plus
the global step numbers at which the running thread is preempted; the rest of the execution is determined.
"""
import logging
import os
import sys
import threading
import traceback

_RealLock = threading.Lock
_RealRLock = threading.RLock
_CUR = None


class Divergence(Exception):
    pass


class Deadlock(Exception):
    pass


class CoopLock:
    """Replacement for threading.Lock / RLock that hands the processor over instead of blocking the process."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if _CUR is None:
                raise Deadlock("lock held and no other thread")
            _CUR.blocked()
        self.owner = me
        self.count = 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


def install_locks():
    """Locks created by anybody but the threading module itself are from now on under the control of the scheduler."""
    if not logging.root.handlers:
        logging.root.addHandler(logging.NullHandler())  # else logging.debug() makes one with a lock of ours
    def pick(real, coop):
        def make():
            return real() if sys._getframe(1).f_globals.get("__name__") == "threading" else coop()
        return make

    threading.Lock = pick(_RealLock, CoopLock)
    threading.RLock = pick(_RealRLock, CoopRLock)


def restore_locks():
    threading.Lock = _RealLock
    threading.RLock = _RealRLock


class Run:
    """One execution of bodies[0] and bodies[1] under one schedule."""

    def __init__(self, bodies, files, start, switches):
        self.bodies = bodies
        self.files = files
        self.switch_at = set(switches)
        self.sems = [threading.Semaphore(0), threading.Semaphore(0)]
        self.cur = start
        self.step = 0
        self.done = [False, False]
        self.res = [None, None]
        self.steps_while_both = 0
        self.taken = 0
        self.spin = 0
        self.trace = []

    def point(self, me, where):
        if self.done[1 - me]:
            return
        s = self.step
        self.step += 1
        self.steps_while_both = self.step
        self.spin = 0
        if s in self.switch_at:
            self.taken += 1
            self.trace.append((me, s, where))
            self.hand_over(me)

    def hand_over(self, me):
        self.cur = 1 - me
        self.sems[1 - me].release()
        self.sems[me].acquire()

    def blocked(self):
        me = self.cur
        if self.done[1 - me]:
            raise Deadlock("blocked on a lock that nobody will release")
        self.spin += 1
        if self.spin > 4:
            raise Deadlock("both threads blocked")
        self.hand_over(me)

    def _tracer(self, me):
        files = self.files

        def local(frame, event, arg):
            if event == "line":
                self.point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename in files:
                return local
            return None
        return glob

    def _thread(self, me):
        self.sems[me].acquire()
        sys.settrace(self._tracer(me))
        try:
            self.res[me] = self.bodies[me]()
        except BaseException as e:
            self.res[me] = e
            if isinstance(e, (Deadlock, Divergence)):
                pass
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.cur = 1 - me
            self.sems[1 - me].release()

    def go(self):
        global _CUR
        _CUR = self
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in ths:
            t.start()
        self.sems[self.cur].release()
        for t in ths:
            t.join(60)
            if t.is_alive():
                raise Deadlock("threads did not finish")
        _CUR = None
        for r in self.res:
            if isinstance(r, (Deadlock, Divergence)):
                raise r
            if isinstance(r, BaseException):
                raise r
        # A preemption point past the end of the overlap (random values make executions differ by a few lines) is the
        # same schedule without it.
        self.short = self.taken != len(self.switch_at)
        return self.res


def run_forked(make, files, start, switches, judge):
    """Runs one schedule in a copy of this process.  Returns (steps, outcome).  judge(results, state) -> outcome str or
    raises Violation, evaluated in the copy."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                bodies, state = make()
                run = Run(bodies, files, start, switches)
                res = run.go()
                out = ("ok", run.steps_while_both, judge(res, state) + (" short" if run.short else ""), run.trace)
            except Exception as e:
                from mc.explore import Violation
                if isinstance(e, Violation):
                    out = ("violation", e.msg, e.sig, [t for t in run.trace])
                else:
                    out = ("exc", "".join(traceback.format_exception(e))[-1500:], None, [])
            os.write(w, pickle.dumps(out))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("schedule process died")
    return pickle.loads(data)


def explore_from(make, files, start, first, bound, judge, count):
    """All schedules that begin with the preemption points `first` and have at most `bound` preemptions."""
    from mc.explore import Violation
    outs = {}

    def rec(prefix):
        r = run_forked(make, files, start, prefix, judge)
        count(1)
        if r[0] == "violation":
            raise Violation(r[1], sig=r[2], schedule={"start": start, "preempt_before": r[3], "switches": list(prefix)})
        if r[0] == "exc":
            raise Violation("unexpected failure under schedule: " + r[1], sig="schedule exception",
                            schedule={"start": start, "switches": list(prefix)})
        outs[r[2]] = outs.get(r[2], 0) + 1
        if len(prefix) < bound:
            lo = prefix[-1] + 1 if prefix else 0
            for s in range(lo, r[1]):
                rec(prefix + (s,))

    rec(tuple(first))
    return outs
