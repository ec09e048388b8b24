"""Deterministic stand-ins for the threads of the batch processors: a worker that runs until it would wait."""
import os
import threading
from pyvc.lib import *


class Parked(BaseException):
    """The worker has reached a wait nobody ends."""


class Sched:
    def __init__(self):
        self.timeouts = 0  # how many waits of the worker end by timeout or wake-up
        self.worker = None
        self.flush = None
        self.waited = []  # events somebody waited for
        self.told = []  # (event, what report() said when it was set)
        self.report = None
        self.during_wait = None  # what other threads do while the worker waits
        self.started = []  # threads
        self.timeouts_given = []  # for how long events were waited for


class XCondition:
    sched = None

    def __init__(self, lock=None):
        self.held = False
        self.notified = 0

    def acquire(self, *a, **k):
        check(not self.held, "no self deadlock")
        self.held = True
        return True

    def release(self):
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        check(self.held, "waits only with the lock held")
        s = XCondition.sched
        if s.timeouts <= 0:
            raise Parked()
        s.timeouts -= 1
        if s.during_wait is not None:
            self.held = False
            s.during_wait()
            self.held = True
        return False

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        check(self.held, "notifies only with the lock held")
        self.notified += 1

    notify_all = notify


class XEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        s = XCondition.sched
        if s.report is not None:
            s.told.append((self, s.report()))
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        s = XCondition.sched
        s.waited.append(self)
        s.timeouts_given.append(timeout)
        if not self.flag and s.flush is not None:
            s.flush()
        return self.flag


class XThread:
    """A thread that gets its turn when somebody waits for it."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.started = False
        self.ran = False

    def start(self):
        self.started = True
        XCondition.sched.started.append(self)

    def is_alive(self):
        return self.started and not self.ran

    def join(self, timeout=None):
        if self.started and not self.ran:
            self.ran = True
            try:
                self.target(*self.args, **self.kwargs)
            except Parked:
                fail("the worker ends after shutdown")


class ExportFailed(Exception):
    """Whatever an exporter may raise."""


def fake_threads():
    """Replace threads, conditions and events for this run; returns the schedule."""
    s = Sched()
    stub(XCondition, "sched", s)
    stub(threading, "Thread", XThread)
    stub(threading, "Condition", XCondition)
    stub(threading, "Event", XEvent)
    return s


def check_told(s, least):
    """Whoever waited for a flush was told once `least` items had been exported (report() counts them)."""
    for e in s.waited:
        check(e.flag, "whoever waits for a flush is told")
    for e, n in s.told:
        if any(e is w for w in s.waited):
            check(n >= least, "a flush is reported only after everything queued has been exported")


def fork():
    """Write down who asks to be told of a fork; returns what runs in the child after one."""
    handlers, pid = [], [7]
    stub(os, "register_at_fork", lambda **kw: handlers.append(kw.get("after_in_child")))
    stub(os, "getpid", lambda: pid[0])

    def child():
        pid[0] = 8
        for h in handlers:
            if h is not None:
                h()
    return child


def run_worker(worker):
    """One turn of the worker: until it would wait."""
    try:
        worker()
    except Parked:
        pass
