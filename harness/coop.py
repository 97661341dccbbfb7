"""Deterministic stand-in for multiprocessing: every process / thread of the
code under test becomes a thread that only runs when the scheduler says so.

A *task* yields at each operation on a shared object (queue, event, lock, value,
HDF store, thread or process start/join).  The scheduler picks the next enabled
task.  Waiting operations with a time-out may also be resumed by letting the
time-out fire (always legal: a time-out is just time passing).

Processes get a pickled copy of their target, like `spawn` does.  Nothing here
knows how the code under test is organised; it only replaces the primitives.
"""
import io
import pickle
from multiprocessing.reduction import ForkingPickler
import queue as _queue
import random
import signal as _signal
import sys
import threading
import multiprocessing as mp
import multiprocessing.pool  # noqa

_REAL = dict(Thread_start=threading.Thread.start, Thread_join=threading.Thread.join,
             Thread_is_alive=threading.Thread.is_alive, Event_wait=threading.Event.wait,
             get_context=mp.get_context, current_process=mp.current_process,
             signal=_signal.signal)

_CURRENT = threading.local()
_ACTIVE = None  # the World being run


class Killed(BaseException):
    """raised inside tasks when the world ends (crash / abort of the run)"""


def cur():
    return getattr(_CURRENT, "task", None)


class Task:
    def __init__(self, world, name, role, fn, proc=None):
        self.world, self.name, self.role, self.fn = world, name, role, fn
        self.proc = proc or self           # process-task this thread belongs to
        self.sem = threading.Semaphore(0)
        self.guard = None                  # callable -> bool, None: ready
        self.timeout = False               # may the pending wait time out?
        self.op = ("start",)
        self.fired = None                  # 'go' | 'timeout' | 'signal'
        self.done = False
        self.exc = None
        self.idle = 0
        self.pending_signal = None
        self.nsteps = 0

    def _boot(self):
        _CURRENT.task = self
        self.sem.acquire()
        try:
            if self.world.dead:
                raise Killed()
            self.fn()
        except Killed:
            pass
        except SystemExit as e:
            self.exc = e
        except BaseException as e:  # noqa
            self.exc = e
            self.world.note("task_error", task=self.name, error=repr(e)[:300])
        finally:
            self.done = True
            self.world.mut += 1
            self.world.note("exit", task=self.name, role=self.role)
            self.world.back.release()

    def ready(self):
        if self.done:
            return False
        return self.guard is None or bool(self.guard())


class World:
    def __init__(self, chooser, max_steps=60000, stall=400):
        self.chooser = chooser
        self.tasks = []
        self.back = threading.Semaphore(0)
        self._mut = 0         # bumped by every operation that changes shared state
        self.events = []      # recorded trace
        self.objs = {}
        self.dead = False
        self.max_steps, self.stall = max_steps, stall
        self.steps = 0
        self.hung = None
        self.handlers = {}
        self.nobj = 0
        self.npool = 0
        self.queues = []
        self.hooks = {}       # name -> callable(world, **kw), called at operations
        self.divergence = 0

    @property
    def mut(self):
        return self._mut

    @mut.setter
    def mut(self, v):
        t = cur()
        if t is None or t.role != "aux":   # progress reporting is no progress
            self._mut = v

    # -- trace -------------------------------------------------------------
    def note(self, ev, **kw):
        t = cur()
        kw["ev"] = ev
        kw.setdefault("task", t.name if t else "-")
        kw["n"] = len(self.events)
        self.events.append(kw)
        h = self.hooks.get(ev)
        if h:
            h(self, kw)

    def register(self, obj):
        self.nobj += 1
        self.objs[self.nobj] = obj
        return self.nobj

    # -- tasks -------------------------------------------------------------
    def spawn(self, name, role, fn, proc=None):
        t = Task(self, name, role, fn, proc)
        self.tasks.append(t)
        th = threading.Thread(target=t._boot, name=name, daemon=True)
        th._coop_native = True
        _REAL["Thread_start"](th)
        t.native = th
        self.mut += 1
        return t

    def switch(self, op, guard=None, timeout=False):
        """yield point, called by the running task"""
        t = cur()
        if self.dead:
            raise Killed()
        t.op, t.guard, t.timeout = op, guard, timeout
        t.fired = None
        self.back.release()
        t.sem.acquire()
        t.guard = None
        if self.dead:
            raise Killed()
        if t.fired == "signal":
            sig, t.pending_signal = t.pending_signal, None
            t.op = ("signal",)
            h = self.handlers.get(sig)
            if callable(h):
                self.note("signal")
                h(sig, None)
            t.fired = "go"
        return t.fired

    def _resume(self, t, how):
        t.fired = how
        t.nsteps += 1
        self.steps += 1
        t.sem.release()
        self.back.acquire()

    def run(self, main_fn):
        """run main_fn as the main task until everything is finished or stuck"""
        global _ACTIVE
        _ACTIVE = self
        main = self.spawn("main", "main", main_fn)
        self.main = main
        last_mut, since = self.mut, 0
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                if main.done and all(t.role == "worker" for t in live):
                    break     # pool workers are daemons: they end with the main process
                if getattr(self, "crashed", False):
                    break     # the machine is gone
                if self.steps > self.max_steps:
                    self.hung = "step limit"
                    break
                if self.mut != last_mut:
                    last_mut, since = self.mut, 0
                    for t in live:
                        t.idle = 0
                opts = []
                for t in live:
                    if t.pending_signal is not None:
                        opts.append((t, "signal"))
                    if t.ready():
                        opts.append((t, "go"))
                    elif t.timeout:
                        opts.append((t, "timeout"))
                if not opts:
                    self.hung = "deadlock"
                    break
                since += 1
                if since > self.stall:
                    # nothing changes any more although everybody was given turns
                    self.hung = "no progress"
                    break
                if since > self.stall // 2:
                    t, how = min(opts, key=lambda o: (o[0].idle, o[0].nsteps))
                else:
                    t, how = self.chooser(self, opts)
                t.idle += 1
                self._resume(t, how)
            if self.hung:
                self.blocked = [(t.name, t.op) for t in self.tasks if not t.done]
                self.note("hung", why=self.hung, blocked=self.blocked, task="-")
        finally:
            self.kill()
            _ACTIVE = None
        return self

    def kill(self):
        self.dead = True
        for _ in range(3):
            for t in self.tasks:
                k = 0
                while not t.done and k < 200:
                    t.sem.release()
                    self.back.acquire(timeout=5)
                    k += 1


# ------------------------------------------------------------------ primitives
class _Shared:
    kind = "obj"

    def __init__(self, world, name=None):
        self.w = world
        self._oid = world.register(self)
        self.name = name or f"{self.kind}{self._oid}"

    mgr = None

    def __reduce__(self):
        return (_lookup, (self._oid,))

    def _sw(self, *a, **k):
        how = self.w.switch(*a, **k)
        if self.mgr is not None and self.mgr._down:
            raise ConnectionRefusedError("manager is shut down")
        return how


def _lookup(oid):
    return _ACTIVE.objs[oid]


class Queue(_Shared):
    kind = "queue"

    def __init__(self, world, maxsize=0):
        super().__init__(world)
        self.maxsize = maxsize
        self.items = []

    def put(self, item, block=True, timeout=None):
        data = pickle.dumps(item)
        full = lambda: self.maxsize > 0 and len(self.items) >= self.maxsize  # noqa
        if full() and not block:
            raise _queue.Full
        how = self._sw(("put", self.name), guard=lambda: not full(), timeout=timeout is not None)
        if how == "timeout" and full():
            raise _queue.Full
        self.items.append(data)
        self.w.mut += 1
        self.w.note("put", q=self.name, item=pickle.loads(data), size=len(self.items))

    def put_nowait(self, item):
        self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if not block:
            self._sw(("get", self.name))
            if not self.items:
                raise _queue.Empty
        else:
            self.w.note("getcall", q=self.name, size=len(self.items))
            how = self._sw(("get", self.name), guard=lambda: len(self.items) > 0,
                                timeout=timeout is not None)
            if how == "timeout" and not self.items:
                self.w.note("timeout", q=self.name)
                raise _queue.Empty
        data = self.items.pop(0)
        self.w.mut += 1
        item = pickle.loads(data)
        self.w.note("get", q=self.name, item=item, size=len(self.items))
        return item

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        self._sw(("peek", self.name))
        return len(self.items) == 0

    def full(self):
        self._sw(("peek", self.name))
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def qsize(self):
        self._sw(("peek", self.name))
        return len(self.items)

    def task_done(self):
        pass

    def join(self):
        self._sw(("qjoin", self.name), guard=lambda: not self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class Event(_Shared):
    kind = "event"

    def __init__(self, world):
        super().__init__(world)
        self.flag = False

    def _assign(self, v):
        self._sw(("event", self.name, v))
        if self.flag != v:
            self.flag = v
            self.w.mut += 1

    def set(self):
        self._assign(True)

    def clear(self):
        self._assign(False)

    def is_set(self):
        self._sw(("peek", self.name))
        return self.flag

    def wait(self, timeout=None):
        self._sw(("wait", self.name), guard=lambda: self.flag, timeout=timeout is not None)
        return self.flag


class Lock(_Shared):
    kind = "lock"
    reentrant = False

    def __init__(self, world):
        super().__init__(world)
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=None):
        me = cur()
        free = lambda: self.owner is None or (self.reentrant and self.owner is me)  # noqa
        if timeout is not None and timeout < 0:
            timeout = None
        if not blocking:
            self._sw(("lock", self.name))
            if not free():
                return False
        else:
            how = self._sw(("lock", self.name), guard=free, timeout=timeout is not None)
            if how == "timeout" and not free():
                return False
        self.owner = me
        self.depth += 1
        self.w.mut += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        self.w.mut += 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


class Semaphore(_Shared):
    kind = "sem"

    def __init__(self, world, value=1):
        super().__init__(world)
        self.n = value

    def acquire(self, blocking=True, timeout=None):
        how = self._sw(("lock", self.name), guard=lambda: self.n > 0,
                            timeout=timeout is not None or not blocking)
        if how == "timeout" and self.n <= 0:
            return False
        self.n -= 1
        self.w.mut += 1
        return True

    def release(self):
        self.n += 1
        self.w.mut += 1

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Value(_Shared):
    kind = "value"

    def __init__(self, world, typecode=None, value=None, *a, **k):
        super().__init__(world)
        self._v = value

    @property
    def value(self):
        self._sw(("peek", self.name))
        return self._v

    @value.setter
    def value(self, v):
        self._sw(("setval", self.name))
        if v != self._v:
            self.w.mut += 1
        self._v = v
        self.w.note("value", obj=self.name, v=v)

    def get(self):
        return self.value

    def set(self, v):
        self.value = v


class Manager:
    def __init__(self, world):
        self._world = world
        self._down = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def start(self, *a, **k):
        return self

    def _own(self, o):
        o.mgr = self
        return o

    def Queue(self, maxsize=0):
        return self._own(Queue(self._world, maxsize))

    JoinableQueue = Queue

    def Event(self):
        return self._own(Event(self._world))

    def Lock(self):
        return self._own(Lock(self._world))

    def RLock(self):
        return self._own(RLock(self._world))

    def Semaphore(self, value=1):
        return self._own(Semaphore(self._world, value))

    def Value(self, typecode=None, value=None, *a, **k):
        return self._own(Value(self._world, typecode, value))

    def list(self, it=()):
        return list(it)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def shutdown(self):
        self._world.switch(("shutdown",))
        self._down = True
        self._world.mut += 1
        self._world.note("shutdown")


class _ProcInfo:
    def __init__(self, name):
        self.name = name
        self.daemon = False
        self.pid = 1

    @property
    def ident(self):
        return self.pid


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._world = _ACTIVE
        self._payload = (target, args, kwargs or {})
        self._world.npool += 1
        self.name = name or f"Process-{self._world.npool}"
        self.daemon = daemon
        self._task = None
        self.pid = None

    def start(self):
        w = self._world
        # spawn semantics: the child works on a pickled copy
        data = _dumps(self._payload)
        role = w.role_of(self.name) if hasattr(w, "role_of") else "proc"

        def body():
            target, args, kwargs = pickle.loads(data)
            target(*args, **kwargs)

        self._task = w.spawn(self.name, role, body)
        self._task.pinfo = _ProcInfo(self.name)
        self.pid = self._task.pinfo.pid = 1000 + len(w.tasks)
        w.switch(("started", self.name))

    def run(self):
        t, a, k = self._payload
        t(*a, **k)

    def join(self, timeout=None):
        self._world.switch(("join", self.name), guard=lambda: self._task.done,
                           timeout=timeout is not None)

    def is_alive(self):
        self._world.switch(("peek", self.name))
        return self._task is not None and not self._task.done

    @property
    def exitcode(self):
        if self._task is None or not self._task.done:
            return None
        return 0 if self._task.exc is None else 1

    def terminate(self):
        self._world.mut += 1

    kill = terminate

    def close(self):
        pass


def _dumps(x):
    # (what multiprocessing itself uses: it pickles e.g. functools.partial differently)
    return bytes(ForkingPickler.dumps(x))


class AsyncResult:
    def __init__(self, world, n):
        self.w, self.n = world, n
        self.vals = [None] * n
        self.left = n
        self.err = None

    def ready(self):
        self.w.switch(("peek", "result"))
        return self._ready()

    def _ready(self):
        return self.left == 0

    def wait(self, timeout=None):
        self.w.switch(("result",), guard=self._ready, timeout=timeout is not None)

    def successful(self):
        return self.err is None

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._ready():
            raise mp.TimeoutError
        if self.err is not None:
            raise self.err
        return self.vals


class _One(AsyncResult):
    def get(self, timeout=None):
        return super().get(timeout)[0]


def _star(func_args):
    func, args, kw = func_args
    return func(*args, **kw)


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **kw):
        self._world = w = _ACTIVE
        self._jobs = []          # (pickled chunk, result, offset)
        self._closed = False
        self._workers = []
        n = processes or 2
        self._pool = self._workers
        init = _dumps((initializer, tuple(initargs)))
        for i in range(n):
            name = f"SpawnPoolWorker-{i + 1}"

            def body(init=init):
                f, a = pickle.loads(init)
                if f is not None:
                    f(*a)
                while True:
                    w.switch(("job",), guard=lambda: self._jobs or self._closed)
                    if not self._jobs:
                        break
                    data, res, off = self._jobs.pop(0)
                    w.mut += 1
                    try:
                        func, chunk, star = pickle.loads(data)
                        out = []
                        for a in chunk:
                            out.append(func(*a[0], **a[1]))
                        for k, o in enumerate(out):
                            res.vals[off + k] = pickle.loads(_dumps(o))
                    except Exception as e:  # like mapstar: first error fails the chunk
                        res.err = res.err or e
                    res.left -= len(chunk)
                    w.mut += 1
            t = w.spawn(name, "worker", body)
            t.pinfo = _ProcInfo(name)
            t.pinfo.pid = 2000 + i
            self._workers.append(t)
        w.switch(("pool",))

    def _submit(self, func, argkw, chunksize=None, cls=AsyncResult):
        w = self._world
        argkw = list(argkw)
        res = cls(w, len(argkw))
        if chunksize is None:
            chunksize, extra = divmod(len(argkw), len(self._workers) * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        for off in range(0, len(argkw), chunksize):
            self._jobs.append((_dumps((func, argkw[off:off + chunksize], True)), res, off))
        w.mut += 1
        w.switch(("submit",))
        return res

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(a), {}) for a in iterable], chunksize)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [((a,), {}) for a in iterable], chunksize)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), kwds or {})], 1, _One)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        return iter(self._submit(func, [((a,), {}) for a in iterable], chunksize).get())

    imap_unordered = imap

    def close(self):
        self._closed = True
        self._world.mut += 1
        self._world.switch(("close",))

    def terminate(self):
        self._jobs.clear()
        self.close()

    def join(self):
        self._world.switch(("pooljoin",), guard=lambda: all(t.done for t in self._workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Context:
    Process = Process

    def __init__(self, world):
        self._w = world

    def Manager(self):
        return Manager(self._w)

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return Pool(processes, initializer, initargs)

    def Queue(self, maxsize=0):
        return Queue(self._w, maxsize)

    SimpleQueue = JoinableQueue = Queue

    def Event(self):
        return Event(self._w)

    def Lock(self):
        return Lock(self._w)

    def RLock(self):
        return RLock(self._w)

    def Semaphore(self, value=1):
        return Semaphore(self._w, value)

    def Value(self, typecode=None, value=None, *a, **k):
        return Value(self._w, typecode, value)

    def get_start_method(self, *a, **k):
        return "spawn"

    def cpu_count(self):
        return 8

    def current_process(self):
        return _current_process()


# --------------------------------------------------------------------- patches
def _current_process():
    t = cur()
    if t is None:
        return _REAL["current_process"]()
    p = t.proc
    if not hasattr(p, "pinfo"):
        p.pinfo = _ProcInfo("MainProcess")
    return p.pinfo


def _get_context(method=None):
    if cur() is not None:
        return Context(_ACTIVE)
    return _REAL["get_context"](method)


def _thread_start(self):
    t = cur()
    if t is None or getattr(self, "_coop_native", False):
        return _REAL["Thread_start"](self)
    w = t.world
    # threads that only report progress must not keep the run alive
    role = "aux" if _is_timer(self) else "thread"

    def body():
        threading._active[threading.get_ident()] = self
        try:
            self.run()
        finally:
            threading._active.pop(threading.get_ident(), None)
    self._coop = w.spawn(self.name, role, body, proc=t.proc)
    self._coop.parent = t
    self._started._flag = True
    w.switch(("tstart", self.name))


def _is_timer(th):
    return hasattr(th, "interval") and hasattr(th, "finished")


def _thread_join(self, timeout=None):
    c = getattr(self, "_coop", None)
    if c is None or cur() is None:
        return _REAL["Thread_join"](self, timeout)
    c.world.switch(("tjoin", self.name), guard=lambda: c.done, timeout=timeout is not None)


def _thread_is_alive(self):
    c = getattr(self, "_coop", None)
    if c is None:
        return _REAL["Thread_is_alive"](self)
    if cur() is not None:
        c.world.switch(("peek", self.name))
    return not c.done


def _event_wait(self, timeout=None):
    t = cur()
    if t is None or t.world.dead:
        return _REAL["Event_wait"](self, timeout)
    if self._flag:
        return True
    t.world.switch(("wait", "threading.Event"), guard=lambda: self._flag, timeout=timeout is not None)
    return self._flag


def _signal_signal(sig, handler):
    t = cur()
    if t is None:
        return _REAL["signal"](sig, handler)
    old = t.world.handlers.get(sig, _signal.SIG_DFL)
    t.world.handlers[sig] = handler
    return old


def install():
    """patch the primitives (before the code under test is imported)"""
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_is_alive
    threading.Event.wait = _event_wait
    _signal.signal = _signal_signal
    mp.get_context = _get_context
    mp.current_process = _current_process
    mp.Manager = lambda: Context(_ACTIVE).Manager() if cur() else _REAL["get_context"]().Manager()
    real_proc, real_pool = mp.Process, mp.Pool
    mp.Process = lambda *a, **k: (Process if cur() else real_proc)(*a, **k)
    mp.Pool = lambda *a, **k: (Pool if cur() else real_pool)(*a, **k)
    import multiprocessing.context as mc
    for nm in ("get_context",):
        pass
    return mc


def quiet():
    """a sink for everything the code prints"""
    class _Null(io.StringIO):
        def write(self, s):
            return len(s)
    return _Null()
