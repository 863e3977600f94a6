"""Two-thread scheduler: the main program and a handler thread run the real code one at a time; a context switch can
happen before every bytecode of the traced source files that touches anything but the thread's own locals.  The switch
points are inputs of the harness (symbolic integers that the explorer forks over)."""
import sys, dis, threading, _thread
import multiprocessing, multiprocessing.pool

LOCAL = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "LOAD_CONST", "POP_TOP", "RESUME", "COPY", "SWAP",
         "PUSH_NULL", "CACHE", "NOP", "PRECALL", "KW_NAMES", "EXTENDED_ARG", "LOAD_GLOBAL", "BUILD_TUPLE", "BUILD_LIST",
         "BUILD_MAP", "JUMP_FORWARD", "JUMP_BACKWARD", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE",
         "POP_JUMP_IF_NOT_NONE", "RETURN_CONST", "RETURN_VALUE", "MAKE_FUNCTION", "LOAD_CLOSURE", "LOAD_DEREF", "COPY_FREE_VARS",
         "MAKE_CELL", "UNPACK_SEQUENCE", "FOR_ITER", "END_FOR", "GET_ITER", "IS_OP", "LOAD_NAME", "RETURN_GENERATOR"}

_points = {}


def points(code):
    p = _points.get(code)
    if p is None:
        # conditions on values of container types look at shared state: keep jumps whose test is on a plain local out,
        # every access to shared state goes through an attribute, a subscript, an operator or a call anyway
        p = _points[code] = {i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL}
    return p


class Deadlock(Exception):
    pass


class Sched:
    """plan = [(main_steps, handler_steps), ...]; handler_steps None = until the current task is done"""

    def __init__(self, files, plan, tasks):
        self.files = tuple(files)
        self.plan = list(plan)
        self.tasks = tasks          # callable: next task (callable) or None
        self.main_count = 0
        self.h_count = 0
        self.h_quota = None
        self.active = False
        self.cur = None             # 'main' | 'h'
        self.h_busy = False
        self.h_exc = None
        self.main_lock = _thread.allocate_lock()
        self.h_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.h_lock.acquire()
        self.stop = False
        self.h_done = _thread.allocate_lock()
        self.h_done.acquire()
        self.total_h = 0

    # ---- main side
    def trace_main(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_filename.endswith(self.files):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self.trace_main
            return None
        if event == "opcode" and self.cur == "main" and frame.f_lasti in points(frame.f_code):
            self.main_count += 1
            self.maybe_switch()
        return self.trace_main

    def maybe_switch(self):
        while self.plan and self.plan[0][0] <= self.main_count:
            _, quota = self.plan.pop(0)
            self.run_h(quota)

    def run_h(self, quota):
        """hand over to the handler: it runs quota points (None: to the end of its task) and comes back"""
        self.h_quota = None if quota is None else self.total_h + quota
        self.cur = "h"
        self.h_lock.release()
        self.main_lock.acquire()
        self.cur = "main"

    def finish_h(self):
        """handler completes its pending task and all others"""
        for _ in range(1000):
            self.run_h(None)
            if not self.h_busy and not self.more():
                return

    def more(self):
        return self.tasks(peek=True)

    # ---- handler side
    def trace_h(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_filename.endswith(self.files):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self.trace_h
            return None
        if event == "opcode" and self.cur == "h" and frame.f_lasti in points(frame.f_code):
            self.total_h += 1
            if self.h_quota is not None and self.total_h > self.h_quota:
                self.back()
        return self.trace_h

    def back(self):
        self.main_lock.release()
        self.h_lock.acquire()

    def h_main(self):
        try:
            while True:
                self.h_lock.acquire()
                if self.stop:
                    return
                t = self.tasks()
                if t is not None:
                    self.h_busy = True
                    try:
                        t(self)
                    except BaseException as e:      # would kill the pool's result handler thread
                        self.h_exc = e
                        sys.settrace(None)
                        self.h_busy = False
                        self.main_lock.release()
                        while True:
                            self.h_lock.acquire()
                            if self.stop:
                                return
                            self.main_lock.release()
                    self.h_busy = False
                self.main_lock.release()
        finally:
            self.h_done.release()

    def block(self):
        """current thread cannot proceed (lock held by the other one)"""
        if self.cur == "main":
            if not self.h_busy:
                raise Deadlock("main thread waits for a lock nobody will release")
            self.run_h(None)
        else:
            self.back()

    def run(self, program):
        # the interpreter turns bytecode events on in settrace() only if some frame asked for them before
        f = sys._getframe()
        f.f_trace_opcodes = True
        _thread.start_new_thread(self.h_main, ())
        self.cur = "main"
        old = sys.gettrace()
        sys.settrace(self.trace_main)
        try:
            program(self)
        finally:
            sys.settrace(old)
            if self.h_busy and self.h_exc is None:
                for _ in range(100):
                    if not self.h_busy:
                        break
                    try:
                        self.run_h(None)
                    except Exception:
                        break
            self.stop = True
            self.h_lock.release()
            self.h_done.acquire()

    def untraced(self, fn):
        old = sys.gettrace()
        sys.settrace(None)
        try:
            return fn()
        finally:
            sys.settrace(old)


current = [None]


class CoopLock:
    def __init__(self):
        self.owner = None

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        while self.owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if current[0] is None:
                raise Deadlock("lock already held")
            current[0].block()
        self.owner = self._me()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    def __init__(self):
        super().__init__()
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner == self._me():
            self.depth += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.depth = 1
        return r

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            super().release()

    __enter__ = acquire

    def _is_owned(self):
        return self.owner == self._me()


class FakeResult:
    def get(self, timeout=None):
        raise NotImplementedError("result of a submitted task")


class FakePool:
    """stand-in for multiprocessing pools: records submitted tasks; their callbacks are run by the scheduler"""
    instances = []

    def __init__(self, *a, **k):
        self.tasks = []
        FakePool.instances.append(self)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self.tasks.append((func, args, dict(kwds), callback, error_callback))
        return FakeResult()

    def close(self):
        pass
    join = terminate = close


def install(I, sp):
    FakePool.instances = []
    I.patch(multiprocessing, "Pool", FakePool)
    I.patch(multiprocessing.pool, "Pool", FakePool)
    I.patch(multiprocessing.pool, "ThreadPool", FakePool)
    if hasattr(sp, "ProcPool"):
        I.patch(sp, "ProcPool", FakePool)
    I.patch(threading, "Lock", CoopLock)
    I.patch(threading, "RLock", CoopRLock)
