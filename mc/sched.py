"""A controlled scheduler for real threads: stateless exploration of all
interleavings up to a number of preemptions.

While a Sched is active, threads started through ``threading`` run one at a
time.  Locks, and with them conditions, events and queues, are replaced by
virtual ones.  A thread may be preempted before each line of the code under
test (the first time a frame executes the line), when it has to wait, and
wherever ``point()`` is called.  A wait with a timeout may time out at any
moment.  Time itself is virtual.
"""
import dis
import queue
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_ident = _thread.get_ident

ACTIVE = None


class Abort(BaseException):
    """Unwinds the threads of an execution that is given up."""


class Deadlock(Exception):
    pass


class Endless(Exception):
    pass


class Stalled(Exception):
    """A thread waits for something the scheduler does not know."""


class Task(object):
    def __init__(self, n):
        self.n = n
        self.sem = _real_lock()
        self.sem.acquire()
        self.wait = None        # a function that says whether it can go on
        self.timeout = None
        self.timed_out = False
        self.done = False


class VLock(object):
    """A lock under control of the scheduler."""

    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or _ident() not in s.tasks:
            ok = not self.held
            self.held = True
            return ok
        # no point here: the line before has one, and what a library does
        # under its lock is atomic for all others that take it
        if self.held:
            if not blocking or timeout == 0:
                return False
            if not s.block(lambda: not self.held,
                           timeout if timeout > 0 else None):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.held = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


LOCKS = {_thread.allocate_lock: VLock, _thread.LockType: VLock,
         _thread.RLock: threading._PyRLock}


def replace_locks(package):
    """Names and objects the package got from threading at import time.
    Returns what has to be restored."""
    undo = []

    def visit(owner, deep):
        for k, v in list(vars(owner).items()):
            new = None
            if isinstance(v, _thread.LockType):
                new = VLock()
            elif isinstance(v, _thread.RLock):
                new = threading._PyRLock()
            else:
                try:
                    new = LOCKS.get(v)
                except TypeError:
                    pass
            if new is not None:
                undo.append((owner, k, v))
                setattr(owner, k, new)
            elif deep and isinstance(v, type) and \
                    v.__module__.split('.')[0] == package:
                visit(v, False)
    for name, m in list(sys.modules.items()):
        if m is not None and name.split('.')[0] == package:
            visit(m, True)
    return undo


SHARED = {}


def shared_lines(code):
    """Lines that may touch what other threads see: self, closures, files."""
    if code not in SHARED:
        lines, cur = set(), None
        for i in dis.get_instructions(code):
            if i.starts_line:
                cur = i.starts_line
            if i.opname.startswith('LOAD_FAST') and i.argval == 'self' or \
                    i.opname.startswith('LOAD_DEREF') or \
                    i.opname == 'STORE_GLOBAL' or \
                    i.opname == 'LOAD_GLOBAL' and i.argval in ('open', 'os'):
                lines.add(cur)
        SHARED[code] = lines
    return SHARED[code]


class Sched(object):

    def __init__(self, prefix=(), files=(), atomic=(), package=None,
                 reduced=False, max_steps=20000):
        self.prefix = list(prefix)
        self.files = tuple(files)
        self.atomic = tuple(atomic)
        self.package = package
        self.reduced = reduced
        self.trace = []         # (number of options, costs, chosen)
        self.tasks = {}
        self.order = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.clock = 0.0
        self.failure = None
        self.aborting = False
        self.all_done = None
        self.back = _real_lock()
        self.back.acquire()

    # ---- scheduling ---------------------------------------------------------
    def options(self):
        """[(task, cost, is timeout)], the default first."""
        cur = self.cur
        ready = [t for t in self.order if not t.done and
                 (t.wait is None or t.wait())]
        n = len(self.order)
        rot = sorted(ready, key=lambda t: (t.n - (cur.n if cur else 0)) % n)
        stays = cur in ready
        out = [(t, 0 if t is cur or not stays else 1, False) for t in rot]
        timers = [t for t in self.order if not t.done and t not in ready and
                  t.timeout is not None]
        out += [(t, 1 if ready else 0, True) for t in timers]
        return out

    def choose(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail(Endless('no end after {} steps'.format(self.steps)))
        opts = self.options()
        if not opts:
            if all(t.done for t in self.order):
                return None
            self.fail(Deadlock('all threads wait'))
        k = 0
        if len(opts) > 1:
            i = len(self.trace)
            if i < len(self.prefix):
                k = self.prefix[i]
                if k >= len(opts):
                    self.fail(RuntimeError('replay diverges'))
            self.trace.append(([c for t, c, o in opts], k))
        t, cost, timed = opts[k]
        if timed:
            self.clock += t.timeout
            t.timed_out = True
        t.wait = None
        t.timeout = None
        return t

    def fail(self, e):
        if self.failure is None:
            self.failure = e
        self.stop()
        raise Abort()

    def stop(self):
        self.aborting = True

    def hand(self, me):
        """Pick who goes on; return when it is me."""
        nxt = self.choose()
        if nxt is me:
            return
        if nxt is None:
            self.back.release()
            return
        self.cur = nxt
        nxt.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def point(self):
        me = self.tasks.get(_ident())
        if me is None or self.aborting:
            if self.aborting and me is not None:
                raise Abort()
            return
        self.hand(me)

    def block(self, cond, timeout=None):
        me = self.tasks[_ident()]
        if self.aborting:
            raise Abort()
        me.wait = cond
        me.timeout = timeout
        me.timed_out = False
        self.hand(me)
        return not me.timed_out

    # ---- threads ------------------------------------------------------------
    def spawn(self, func, args=(), kwargs=None):
        t = Task(len(self.order))
        self.order.append(t)

        def body():
            self.tasks[_ident()] = t
            t.sem.acquire()
            try:
                if not self.aborting:
                    sys.settrace(self.tracer)
                    func(*args, **(kwargs or {}))
            except Abort:
                pass
            except SystemExit:
                pass
            finally:
                sys.settrace(None)
                t.done = True
                try:
                    if self.aborting:
                        self.drain(t)
                    else:
                        self.hand(t)
                except Abort:
                    self.drain(t)
                self.tasks.pop(_ident(), None)
        _real_start(body, ())
        return t

    def drain(self, me):
        """Unwind the other threads one after the other."""
        for t in self.order:
            if not t.done:
                self.cur = t
                t.sem.release()
                return
        self.back.release()

    def start_new_thread(self, func, args=(), kwargs=None):
        if _ident() not in self.tasks:
            return _real_start(func, args, kwargs or {})
        self.spawn(func, args, kwargs)
        return 0

    def tracer(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.files) or name.endswith(self.atomic):
            return None
        seen = set()
        lines = shared_lines(frame.f_code) if self.reduced else None

        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno not in seen and (
                    lines is None or frame.f_lineno in lines):
                seen.add(frame.f_lineno)
                self.point()
            return local
        return local

    def time(self):
        return self.clock

    # ---- one execution ------------------------------------------------------
    def run(self, main):
        """Run main() and all threads it starts to the end."""
        global ACTIVE
        box = {}

        def entry():
            try:
                box['value'] = main()
            except Abort:
                raise
            except BaseException as e:
                box['error'] = e
        saved = (threading.Lock, threading.RLock, threading._allocate_lock,
                 threading._start_new_thread, threading.Thread.join,
                 queue.time, queue.SimpleQueue)
        sched = self

        def join(self, timeout=None):
            me = sched.tasks.get(_ident())
            if me is None:
                return saved[4](self, timeout)
            sched.block(lambda: self._mc_done, timeout)

        def bootstrap_start(func, args=(), kwargs=None):
            thread = getattr(func, '__self__', None)
            if thread is not None:
                thread._mc_done = False

            def wrapped(*a, **k):
                try:
                    func(*a, **k)
                finally:
                    if thread is not None:
                        thread._mc_done = True
            return sched.start_new_thread(wrapped, args, kwargs)
        ACTIVE = self
        threading.Lock = VLock
        threading.RLock = threading._PyRLock
        threading._allocate_lock = VLock
        threading._start_new_thread = bootstrap_start
        threading.Thread.join = join
        queue.time = self.time
        queue.SimpleQueue = queue._PySimpleQueue
        hook = threading.excepthook
        threading.excepthook = lambda a: None
        undo = replace_locks(self.package) if self.package else []
        try:
            self.spawn(entry)
            first = self.order[0]
            self.cur = first
            first.sem.release()
            last = -1
            while not self.back.acquire(True, 5):
                if self.steps == last:
                    self.aborting = True
                    self.failure = Stalled('after step {}'.format(last))
                    break
                last = self.steps
        finally:
            for owner, k, v in undo:
                setattr(owner, k, v)
            (threading.Lock, threading.RLock, threading._allocate_lock,
             threading._start_new_thread, threading.Thread.join, queue.time,
             queue.SimpleQueue) = saved
            threading.excepthook = hook
            ACTIVE = None
        return box


def children(sched, bound):
    """The prefixes one step beyond what this execution has shown."""
    out = []
    cost = 0
    choice = []
    n = len(sched.prefix)
    for i, (costs, k) in enumerate(sched.trace):
        if i >= n:
            for j, c in enumerate(costs):
                if j != k and cost + c <= bound:
                    out.append(choice + [j])
        cost += costs[k]
        choice.append(k)
    return out


def explore(execute, bound, prefix=(), limit=None, fan=False):
    """Depth first over all schedules that extend prefix.  execute(prefix)
    runs one schedule and returns its Sched.  With fan, only the first
    execution is run and the prefixes below it are returned."""
    todo = [list(prefix)]
    n = 0
    while todo:
        p = todo.pop()
        s = execute(p)
        n += 1
        kids = children(s, bound)
        if fan:
            return n, kids
        todo += kids
        if limit is not None and n >= limit:
            return n, todo
    return n, []
