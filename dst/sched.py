"""Deterministic scheduling of threads, and interruption of code at arbitrary points.

The code under test is traced at the granularity of its source lines: at every line executed in the package the
scheduler can hand over to another thread (real threads, of which exactly one runs at any time), or can raise an
exception as an asynchronous interruption or a failed allocation would do.
"""

import _thread
import sys
import threading

from .core import PACKAGE_DIR

_real_lock = _thread.allocate_lock
_current = None     # The scheduler which is running, if any
_in_package = {}


def in_package(code):
    name = code.co_filename
    result = _in_package.get(name)
    if result is None:
        import os
        result = os.path.realpath(name).startswith(PACKAGE_DIR)
        _in_package[name] = result
    return result


class SimLock():
    """A lock for the code under test: contention hands over to another thread instead of blocking."""

    def __init__(self):
        self._owner = None
        self._count = 0

    _reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            scheduler = _current
            if scheduler is None or not scheduler.managed():
                raise RuntimeError('deadlock: acquiring a lock which nobody can release')
            if not scheduler.blocked():
                if timeout is not None and timeout >= 0:
                    return False
                raise RuntimeError('deadlock: every thread is waiting for a lock')

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()
        return False

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # What conditions need
    def _is_owned(self):
        return self._owner == _thread.get_ident()


class SimRLock(SimLock):
    _reentrant = True


class patched_locks():
    """Locks created in this context by the code under test are simulated ones."""
    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, SimRLock
        return self

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.saved
        return False


class Scheduler():
    """Run functions in threads, switching at the given event numbers (a list of [event number, choice]), and raising
    in whatever thread is running at other ones (a dictionary of event numbers and exceptions)."""

    def __init__(self, switches, ctx=None, interrupts=None):
        self.switches = {}
        for at, choice in switches:
            self.switches[at] = choice
        self.interrupts = interrupts or {}
        self.interrupted = []
        self.on_interrupt = None
        self.places = []
        self.ctx = ctx
        self.events = 0
        self.switched = 0
        self.threads = {}

    def managed(self):
        return _thread.get_ident() in self.idents

    # The trace function
    def _global_trace(self, frame, event, arg):
        if in_package(frame.f_code):
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == 'line':
            n = self.events
            self.events += 1
            choice = self.switches.get(n)
            if choice is not None:
                self.places.append(frame.f_code.co_name)
                self._switch(choice)
            elif n in self.interrupts:
                self.interrupted.append(self.running)
                if self.on_interrupt is not None:
                    self.on_interrupt(self.running)
                raise self.interrupts[n]('simulated')
        return self._local_trace

    def _switch(self, choice):
        me = self.running
        others = [i for i in sorted(self.alive) if i != me]
        if not others:
            return False
        target = others[choice % len(others)]
        self.switched += 1
        if self.ctx is not None:
            self.ctx.log('switch', me, target)
        self.running = target
        self.gates[target].release()
        self.gates[me].acquire()
        return True

    def blocked(self):
        """The running thread cannot proceed: run another one. False if no thread can."""
        me = self.running
        others = [i for i in sorted(self.alive) if i != me]
        if not others:
            return False
        self.spins += 1
        if self.spins > 100000:
            return False
        # Round robin
        target = min([i for i in others if i > me] or others)
        self.running = target
        self.gates[target].release()
        self.gates[me].acquire()
        return True

    def run(self, functions):
        """Returns the list of ('ok', result) or ('exc', exception)."""
        global _current
        self.gates = [_real_lock() for _ in functions]
        for gate in self.gates:
            gate.acquire()
        self.alive = set(range(len(functions)))
        self.results = [None] * len(functions)
        self.idents = set()
        self.spins = 0
        self.running = 0
        ready, ended = threading.Semaphore(0), threading.Semaphore(0)

        def body(i, f):
            # The interpreter cannot cope with the tracing being switched on and off by a thread while another one is in the
            # middle of something: it is switched on by all before starting, and off by all once everything is done
            self.idents.add(_thread.get_ident())
            sys.settrace(self._global_trace)
            ready.release()
            self.gates[i].acquire()
            try:
                self.results[i] = ('ok', f())
            except BaseException as e:
                self.results[i] = ('exc', e)
            self.alive.discard(i)
            if self.alive:
                self.running = min(self.alive)
                self.gates[self.running].release()
                self.gates[i].acquire()
            else:
                for gate in self.gates[:i] + self.gates[i+1:]:
                    gate.release()
            self.idents.discard(_thread.get_ident())
            sys.settrace(None)
            ended.release()

        _current = self
        try:
            for i, f in enumerate(functions):
                t = threading.Thread(target=body, args=(i, f), daemon=True)
                t.start()
            for _ in functions:
                ready.acquire()
            self.gates[0].release()
            # Interruptible, for the wall limit
            for _ in functions:
                while not ended.acquire(True, 0.5):
                    pass
        finally:
            _current = None
        return self.results


class Interrupter():
    """Count the lines executed in the package, or raise at one of them."""

    def __init__(self, at=None, exception=KeyboardInterrupt):
        self.at = at
        self.exception = exception
        self.events = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if in_package(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            n = self.events
            self.events += 1
            if self.at is not None and n == self.at and self.fired is None:
                self.fired = '{}:{}'.format(frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
                raise self.exception('simulated')
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def count_lines(f):
    """The number of lines of the package executed by a call, and its outcome."""
    counter = Interrupter()
    with counter:
        try:
            result = ('ok', f())
        except Exception as e:
            result = ('exc', e)
    return counter.events, result


def interrupted(f, at, exception=KeyboardInterrupt):
    """Call, interrupting at a given line. Returns (fired location or None, outcome)."""
    interrupter = Interrupter(at, exception)
    try:
        with interrupter:
            result = ('ok', f())
    except (KeyboardInterrupt, MemoryError, Exception) as e:
        result = ('exc', e)
    return interrupter.fired, result
