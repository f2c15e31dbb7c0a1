"""A controlled scheduler for real threads running the real code.

Threads run one at a time.  Every executed line of the traced source files is a scheduling
point; a schedule is the list of preemptions [thread, point number of that thread, next
thread], everything else is the default (run until finished or blocked, then the next
thread in order).  Locks that the library and the logging module own are replaced by
controlled ones, so that blocking is a scheduling decision and a deadlock is detected.
A thread that blocks anywhere else (inside C++ code) is recognised by a time limit.
"""
import logging
import sys
import threading
import time
import types

_RLOCK = type(threading.RLock())
_LOCK = type(threading.Lock())
CURRENT = None  # active scheduler
ACTIVE = threading.local()


class Abort(BaseException):
    pass


class CLock:
    """A lock whose contention is a scheduling decision."""

    def __init__(self, reentrant):
        self.real = threading.RLock() if reentrant else threading.Lock()

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            return self.real.acquire(False)
        s, tid = CURRENT, getattr(ACTIVE, 'tid', None)
        if s is None or tid is None:
            return self.real.acquire(True, timeout)
        while not self.real.acquire(False):
            if s.block(tid, self) is False and timeout >= 0:
                return False
        return True

    def release(self):
        self.real.release()
        s = CURRENT
        if s is not None:
            s.unblock(self)

    def locked(self):
        if self.real.acquire(False):
            self.real.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        pass

    def _is_owned(self):
        return self.real._is_owned()


def control(lock):
    if isinstance(lock, _RLOCK):
        return CLock(True)
    if isinstance(lock, _LOCK):
        return CLock(False)
    return lock


class Library:
    """The process-wide state of the library: found by inspection, reset before every schedule."""

    CONT = (dict, list, set)

    def __init__(self, package):
        self.package = package
        mods = [m for n, m in sorted(sys.modules.items()) if m is not None and (n == package or n.startswith(package + '.'))]
        self.mods = mods
        self.files = {m.__file__ for m in mods if getattr(m, '__file__', None)}
        own = lambda o: getattr(o, '__module__', '').split('.')[0] == package
        self.holders = list(mods)
        for m in mods:
            for v in list(vars(m).values()):
                if isinstance(v, type) and own(v) and v not in self.holders:
                    self.holders.append(v)
        self.funcs = {}
        for h in self.holders:
            for v in list(vars(h).values()):
                self._collect(v)
        for h in self.holders:
            for n, v in list(vars(h).items()):
                if isinstance(v, (_RLOCK, _LOCK)):
                    setattr(h, n, control(v))
        self.initial = [(h, {n: v for n, v in vars(h).items() if self.data(n, v)}) for h in self.holders]
        self.copies = [(v, v.copy()) for h, d in self.initial for v in d.values() if isinstance(v, self.CONT)]
        self.critical = set()
        for code, fn, cls in self.funcs.values():
            if self._critical(code, fn, cls):
                self.critical.add(code)

    def data(self, n, v):
        # (tables of named tuples and enumerations are no state)
        return not n.startswith(('__', '_field_defaults', '_member', '_value2member', '_unhashable')) and not isinstance(v, (types.ModuleType, types.FunctionType, type, classmethod, staticmethod, property))

    def _collect(self, v, cls=None):
        if isinstance(v, (classmethod, staticmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                self._collect(f, cls)
            return
        if isinstance(v, type) and getattr(v, '__module__', '').split('.')[0] == self.package:
            for w in list(vars(v).values()):
                if not isinstance(w, type):
                    self._collect(w, v)
            return
        f = v
        while f is not None and not isinstance(f, types.FunctionType):
            f = getattr(f, '__wrapped__', None)
        while f is not None:
            if f.__code__.co_filename in self.files:
                self._codes(f.__code__, f, cls)
            for c in f.__closure__ or ():
                try:
                    w = c.cell_contents
                except ValueError:
                    continue
                if isinstance(w, types.FunctionType) and w.__code__ not in self.funcs and w is not f:
                    self._collect(w, cls)
            f = getattr(f, '__wrapped__', None)

    def _codes(self, code, fn, cls):
        if code in self.funcs and self.funcs[code][2] is not None:
            return
        self.funcs[code] = (code, fn, cls)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                self._codes(c, fn, cls)

    def _critical(self, code, fn, cls):
        """touches mutable process-wide state"""
        import dis

        g = fn.__globals__
        state = {n for n, v in g.items() if self.data(n, v) and isinstance(v, self.CONT + (CLock, threading.local))}
        for i in dis.get_instructions(code):
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                return True
            if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME') and i.argval in state:
                return True
            if i.opname in ('STORE_ATTR', 'LOAD_ATTR', 'LOAD_METHOD') and i.argval in (
                'handlers', 'stdout', 'stderr', 'environ', 'setLevel', 'addHandler', 'removeHandler', 'setFormatter',
            ):
                return True
            if i.opname == 'STORE_ATTR' and i.argval not in ('__name__', '__doc__') and any(
                i.argval in vars(h) for h in self.holders if isinstance(h, type) and self.data(i.argval, vars(h).get(i.argval))
            ):
                return True
        if cls is not None and any(self.data(n, v) and isinstance(v, self.CONT + (CLock,)) for n, v in vars(cls).items()):
            return True
        for q in (fn.__defaults__ or ()) + tuple((fn.__kwdefaults__ or {}).values()):
            if isinstance(q, self.CONT):
                return True
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                w = c.cell_contents
            except ValueError:
                continue
            if isinstance(w, self.CONT) and (n in code.co_freevars):
                return True
        return False

    def reset(self):
        for h, d in self.initial:
            now = vars(h)
            for n, v in list(now.items()):
                if self.data(n, v) and n not in d and not n.startswith('_abc'):
                    delattr(h, n)
            for n, v in d.items():
                if now.get(n, self) is not v:
                    setattr(h, n, v)
        for v, c in self.copies:
            if isinstance(v, list):
                v[:] = c
            else:
                v.clear()
                v.update(c)
        for h in self.holders:
            for v in list(vars(h).values()):
                if hasattr(v, 'cache_clear') and getattr(v, '__module__', '').split('.')[0] == self.package:
                    v.cache_clear()

    def registries(self):
        return [(h, {n: (v, dict(v) if isinstance(v, dict) else None) for n, v in d.items()}) for h, d in self.initial]


MON = sys.monitoring
TOOL = 4
_FILES = set()
_CRIT = set()


def _line(code, line):
    s = getattr(ACTIVE, 'sched', None)
    if s is not None:
        s.point(ACTIVE.tid, code in _CRIT, (code.co_filename, line))


def _start(code, offset):
    if code.co_filename in _FILES:
        MON.set_local_events(TOOL, code, MON.events.LINE)
    return MON.DISABLE


def monitor(files, lib):
    """line events of the given files only: everything else runs at full speed"""
    _CRIT.clear()
    _CRIT.update(lib.critical)
    if set(files) == _FILES:
        return
    _FILES.clear()
    _FILES.update(files)
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'mc')
        MON.register_callback(TOOL, MON.events.LINE, _line)
        MON.register_callback(TOOL, MON.events.PY_START, _start)
    for code in lib.funcs:
        MON.set_local_events(TOOL, code, MON.events.LINE)
    MON.set_events(TOOL, MON.events.PY_START)
    MON.restart_events()


class Sched:
    def __init__(self, lib, bodies, order, pre, files=(), patience=1.0, deadline=40.0):
        self.lib, self.bodies = lib, bodies
        self.n = len(bodies)
        self.order = order
        self.pre = [tuple(p) for p in pre]
        self.files = lib.files | set(files)
        self.patience, self.deadline = patience, deadline
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.mu = threading.Lock()
        self.status = ['ready'] * self.n  # ready, lock, extern, done
        self.waiting = [None] * self.n
        self.holder = None
        self.count = [0] * self.n
        self.result = [None] * self.n
        self.trace = []  # (tid, k, critical, file:line)
        self.used = 0
        self.beat = 0
        self.over = threading.Event()
        self.aborted = ''
        self.extern = 0

    # -- called by the threads
    def point(self, tid, critical, loc):
        with self.mu:
            self.beat += 1
            if self.aborted:
                raise Abort
            if self.holder != tid:  # was blocked in foreign code while others went on
                self.status[tid] = 'ready'
                if self.holder is None:
                    self.holder = tid
                    wait = False
                else:
                    wait = True
            else:
                wait = False
        if wait:
            self._wait(tid)
        k = self.count[tid]
        self.count[tid] = k + 1
        self.trace.append((tid, k, critical, loc))
        if self.used < len(self.pre):
            t, kk, to = self.pre[self.used]
            if t == tid and kk == k:
                self.used += 1
                with self.mu:
                    if self.status[to] != 'ready':
                        return
                    self.holder = to
                    self.sem[to].release()
                self._wait(tid)

    def _wait(self, tid):
        self.sem[tid].acquire()
        if self.aborted:
            raise Abort

    def _next(self):
        """hands over to the next runnable thread (mu held)"""
        for t in self.order:
            if self.status[t] == 'ready':
                self.holder = t
                self.sem[t].release()
                return True
        self.holder = None
        return False

    def block(self, tid, lock):
        with self.mu:
            self.beat += 1
            if self.aborted:
                raise Abort
            if self.holder != tid:
                self.status[tid] = 'ready'  # late arrival from foreign code
                late = True
            else:
                late = False
                self.status[tid], self.waiting[tid] = 'lock', lock
                if not self._next() and 'extern' not in self.status:
                    self._abort('deadlock: every unfinished thread waits for a lock')
        if late:
            with self.mu:
                if self.holder is None:
                    self.holder = tid
                    return True
        self._wait(tid)
        return True

    def unblock(self, lock):
        with self.mu:
            for t in range(self.n):
                if self.status[t] == 'lock' and self.waiting[t] is lock:
                    self.status[t], self.waiting[t] = 'ready', None

    def _abort(self, why):
        self.aborted = why
        for s in self.sem:
            s.release()
        self.over.set()

    def _thread(self, tid):
        ACTIVE.tid = tid
        ACTIVE.sched = None
        try:
            self.sem[tid].acquire()
            if self.aborted:
                return
            ACTIVE.sched = self
            try:
                self.result[tid] = ('ok', self.bodies[tid]())
            except Abort:
                self.result[tid] = ('aborted', None)
            except BaseException as e:
                self.result[tid] = ('raised', type(e).__name__ + ': ' + str(e)[:200])
            finally:
                ACTIVE.sched = None
        finally:
            with self.mu:
                self.beat += 1
                self.status[tid] = 'done'
                if self.holder == tid:
                    more = self._next()
                    if not more and 'lock' in self.status and 'extern' not in self.status and not self.aborted:
                        self._abort('deadlock: the remaining threads wait for a lock')
                if all(s == 'done' for s in self.status):
                    self.over.set()

    def run(self):
        global CURRENT
        CURRENT = self
        monitor(self.files, self.lib)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1.0)
        threads = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(self.n)]
        try:
            for t in threads:
                t.start()
            with self.mu:
                self._next()
            beat, last, start = -1, time.time(), time.time()
            while not self.over.wait(0.05):
                now = time.time()
                with self.mu:
                    if self.beat != beat:
                        beat, last = self.beat, now
                    elif now - last > self.patience:
                        h = self.holder
                        if h is not None and self.status[h] == 'ready' and any(
                            self.status[t] == 'ready' for t in range(self.n) if t != h
                        ):
                            self.status[h] = 'extern'
                            self.extern += 1
                            self._next()
                            last = now
                        elif h is None and self._next():
                            last = now
                        elif now - last > self.deadline:
                            self._abort('no thread makes progress any more')
            for t in threads:
                t.join(5)
        finally:
            CURRENT = None
            sys.setswitchinterval(old)
        return self


def control_logging():
    """Locks of logging handlers become controlled locks."""

    def createLock(self):
        self.lock = CLock(True)

    logging.Handler.createLock = createLock
    if isinstance(getattr(logging, '_lock', None), _RLOCK):
        logging._lock = CLock(True)
    for h in list(logging.getLogger().handlers):
        h.lock = CLock(True)
