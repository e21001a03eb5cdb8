"""A deterministic stand-in for the process library: every process is a coroutine (a thread which only runs when it is given
the turn); at each operation on something shared, the next coroutine to run is a symbolic choice (bounded number of preemptions).
Messages are copied, shared arrays, values, locks, conditions, queues and events behave as documented."""
import threading
import traceback

from vsym.engine import CheckFailed


class Killed(BaseException):
    pass


class Co:
    def __init__(self, sched, name, fn=None, daemon=False):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = threading.Semaphore(0)
        self.blocked = None          # predicate to become true, or None
        self.done = False
        self.error = None
        self.daemon = daemon
        self.locks = 0
        self.spun = 0
        self.thread = None

    def start(self):
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.sem.acquire()
        try:
            if not self.sched.dead:
                self.fn()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
            self.trace = traceback.format_exc()
        self.done = True
        if not self.sched.dead:
            self.sched.finished(self)


class Sched:
    SPIN = 16

    def __init__(self, ctx, preemptions=0):
        self.ctx, self.budget = ctx, preemptions
        self.dead = False
        self.main = Co(self, "main")
        self.cos = [self.main]
        self.cur = self.main
        self.idle = 0
        self.trace = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.dead = True
        for c in self.cos[1:]:
            if c.thread is not None:
                c.sem.release()
        for c in self.cos[1:]:
            if c.thread is not None and c.thread is not threading.current_thread():
                c.thread.join(5)

    def spawn(self, name, fn):
        c = Co(self, name, fn)
        self.cos.append(c)
        c.start()
        return c

    def ready(self, c):
        return not c.done and (c.blocked is None or bool(c.blocked()))

    def enabled(self, but=None):
        return [c for c in self.cos if c is not but and c.name != "new" and self.ready(c)]

    def give(self, c):
        """pass the turn to c and wait for it to come back"""
        me = self.cur
        if c is me:
            return
        self.cur = c
        c.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Killed()
        if me is self.main:
            for x in self.cos[1:]:
                if x.error is not None:
                    e, x.error = x.error, None
                    raise e

    def finished(self, me):
        if me.error is not None:
            nxt = self.main
        else:
            en = self.enabled(me)
            nxt = en[0] if en else self.main
            if not en:
                self.main.blocked = None
                self.deadlock = True
                self.main_error = CheckFailed("no process waits forever", [c.name for c in self.cos if not c.done])
                me.error = self.main_error
        self.cur = nxt
        nxt.sem.release()

    def point(self, progress=False):
        """an operation on something shared is about to happen: others may run first"""
        if self.dead:
            raise Killed()
        self.idle = 0 if progress else self.idle + 1
        self.cur.spun = 0 if progress else self.cur.spun + 1
        if self.idle > 20 * self.SPIN:
            self.fail()
        if self.cur.spun > self.SPIN and not self.cur.locks:
            # waiting in a loop: the others get their turn
            self.cur.spun = 0
            en = self.enabled(self.cur)
            if not en:
                self.fail()
            k = self.cos.index(self.cur)
            self.give(sorted(en, key=lambda c: (self.cos.index(c) - k) % len(self.cos))[0])
            return
        if self.budget > 0:
            en = self.enabled(self.cur)
            if en:
                k = self.ctx.index("next", len(en) + 1)
                if k:
                    self.budget -= 1
                    self.give(en[k - 1])

    def fail(self):
        raise CheckFailed("no process waits forever", [c.name for c in self.cos if not c.done])

    def block(self, pred):
        """wait until pred() holds"""
        if self.dead:
            raise Killed()
        me = self.cur
        while not bool(pred()):
            me.blocked = pred
            en = self.enabled(me)
            if not en:
                me.blocked = None
                self.fail()
            k = self.ctx.index("next", len(en)) if len(en) > 1 else 0
            self.give(en[k])
            me.blocked = None
        self.idle = 0


def copied(x):
    """what arrives at the other end of a pipe"""
    if type(x) is tuple:
        return tuple(copied(v) for v in x)
    if type(x) is list:
        return [copied(v) for v in x]
    if type(x) is dict:
        return {k: copied(v) for k, v in x.items()}
    return x


class Lock:
    def __init__(self, s):
        self.s, self.owner, self.n = s, None, 0

    def acquire(self, block=True, timeout=None):
        self.s.point()
        if self.owner is not None and self.owner is not self.s.cur:
            if not block:
                return False
            self.s.block(lambda: self.owner is None)
        self.owner = self.s.cur
        self.n += 1
        self.owner.locks += 1
        return True

    def release(self):
        assert self.owner is self.s.cur, "lock released by another process"
        self.owner.locks -= 1
        self.n -= 1
        if not self.n:
            self.owner = None
        self.s.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if self.s.dead or self.owner is not self.s.cur:
            return
        self.owner.locks -= 1
        self.n -= 1
        if not self.n:
            self.owner = None


class Shared:
    """one lock per shared object, as multiprocessing gives it"""

    def get_lock(self):
        return self.lock

    def get_obj(self):
        return self

    def acquire(self, *a):
        return self.lock.acquire(*a)

    def release(self):
        return self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait_lock(self):
        if self.lock.owner is not None and self.lock.owner is not self.s.cur:
            self.s.block(lambda: self.lock.owner is None)


class Array(Shared):
    def __init__(self, s, kind, items):
        self.s, self.kind, self.lock = s, kind, Lock(s)
        self.v = [0] * items if isinstance(items, int) else list(items)
        self.vis = kind == "b"

    def one(self, x):
        return bytes([x]) if self.kind == "c" and isinstance(x, int) else (int(x) if self.kind in "biI" and isinstance(x, bool) else x)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        if self.vis:
            self.s.point()
        self.wait_lock()
        if isinstance(k, slice):
            return bytes(x if isinstance(x, int) else x[0] for x in self.v[k]) if self.kind == "c" else [self.one(x) for x in self.v[k]]
        return self.one(self.v[k])

    def __setitem__(self, k, x):
        if self.vis:
            self.s.point(True)
        self.wait_lock()
        if isinstance(k, slice):
            x = list(x)
            assert len(range(*k.indices(len(self.v)))) == len(x), "wrong size"
            self.v[k] = x
        else:
            self.v[k] = x

    def __iter__(self):
        for k in range(len(self.v)):
            yield self[k]

    @property
    def value(self):
        b = self[:]
        return b.split(b"\0")[0]

    @property
    def raw(self):
        return self[:]


class Value(Shared):
    def __init__(self, s, kind, v):
        object.__setattr__(self, "s", s)
        self.kind, self.lock, self._v = kind, Lock(s), v
        self.vis = kind == "b"

    @property
    def value(self):
        if self.vis:
            self.s.point()
        self.wait_lock()
        return int(self._v) if isinstance(self._v, bool) else self._v

    @value.setter
    def value(self, x):
        if self.vis:
            self.s.point(True)
        self.wait_lock()
        self._v = x


class Condition:
    def __init__(self, s):
        self.s, self.lock, self.waiting = s, Lock(s), []

    def acquire(self, *a):
        return self.lock.acquire(*a)

    def release(self):
        return self.lock.release()

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        assert self.lock.owner is self.s.cur, "wait without the lock"
        me, n = object(), self.lock.n
        self.waiting.append(me)
        self.lock.owner, self.lock.n = None, 0
        self.s.block(lambda: me not in self.waiting and self.lock.owner is None)
        self.lock.owner, self.lock.n = self.s.cur, n
        return True

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait()
        return True

    def notify(self, n=1):
        assert self.lock.owner is self.s.cur, "notify without the lock"
        del self.waiting[:n]

    def notify_all(self):
        self.notify(len(self.waiting))


class Event:
    def __init__(self, s):
        self.s, self.f = s, False

    def set(self):
        self.s.point(True)
        self.f = True

    def clear(self):
        self.s.point(True)
        self.f = False

    def is_set(self):
        self.s.point()
        return self.f

    def wait(self, timeout=None):
        self.s.point()
        self.s.block(lambda: self.f)
        return True


class Semaphore:
    def __init__(self, s, n=1):
        self.s, self.n = s, n

    def acquire(self, block=True, timeout=None):
        self.s.point()
        if not self.n and not block:
            return False
        self.s.block(lambda: self.n > 0)
        self.n -= 1
        return True

    def release(self):
        self.n += 1
        self.s.point(True)

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.n += 1


class Queue:
    def __init__(self, s):
        self.s, self.q = s, []

    def put(self, x, *a):
        self.s.point(True)
        self.q.append(copied(x))

    def get(self, *a):
        self.s.point()
        self.s.block(lambda: bool(self.q))
        return self.q.pop(0)

    def empty(self):
        self.s.point()
        return not self.q


class Connection:
    def __init__(self, s):
        self.s, self.q, self.other, self.closed = s, [], None, False

    def send(self, x):
        self.s.point(True)
        if self.closed:
            raise OSError("handle is closed")
        if self.other.closed:
            raise BrokenPipeError("the other end is closed")
        self.other.q.append(copied(x))

    def recv(self):
        self.s.point()
        if self.closed:
            raise OSError("handle is closed")
        self.s.block(lambda: bool(self.q) or self.other.closed)
        if not self.q:
            raise EOFError()
        return self.q.pop(0)

    def poll(self, timeout=0):
        self.s.point()
        return bool(self.q)

    def close(self):
        self.closed = True


class ProxyList:
    """a list held by a manager: items are copied in and out"""

    def __init__(self, s, items):
        self.s, self.v = s, list(items)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        self.s.point()
        return copied(self.v[k])

    def __setitem__(self, k, x):
        self.s.point(True)
        self.v[k] = copied(x)

    def __iter__(self):
        return iter([copied(x) for x in self.v])

    def append(self, x):
        self.v.append(copied(x))


class Manager:
    def __init__(self, s):
        self.s = s

    def list(self, items=()):
        return ProxyList(self.s, items)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def Queue(self):
        return Queue(self.s)

    def Lock(self):
        return Lock(self.s)

    RLock = Lock

    def Event(self):
        return Event(self.s)

    def shutdown(self):
        pass


class Process:
    def __init__(self, s, target, args=(), kwargs=None):
        self.s, self.target, self.args, self.kwargs = s, target, args, kwargs or {}
        self.co, self.closed = None, False

    def start(self):
        s, t, a, k = self.s, self.target, self.args, self.kwargs
        self.co = s.spawn("process%d" % len(s.cos), lambda: t(*a, **k))
        s.point(True)

    def join(self, timeout=None):
        self.s.point()
        self.s.block(lambda: self.co.done)

    def is_alive(self):
        return self.co is not None and not self.co.done

    def terminate(self):
        raise AssertionError("the process was terminated")

    kill = terminate

    def close(self):
        assert self.co.done, "closed while running"
        self.closed = True


class MP:
    """stands for the multiprocessing module"""

    def __init__(self, s):
        self.s = s
        self.processes = []

    def Array(self, kind, items, lock=True):
        return Array(self.s, kind, items)

    def Value(self, kind, v=0, lock=True):
        return Value(self.s, kind, v)

    def Condition(self, lock=None):
        return Condition(self.s)

    def Lock(self):
        return Lock(self.s)

    RLock = Lock

    def Event(self):
        return Event(self.s)

    def Semaphore(self, n=1):
        return Semaphore(self.s, n)

    BoundedSemaphore = Semaphore

    def Queue(self, *a):
        return Queue(self.s)

    SimpleQueue = JoinableQueue = Queue

    def Manager(self):
        return Manager(self.s)

    def Pipe(self, duplex=True):
        a, b = Connection(self.s), Connection(self.s)
        a.other, b.other = b, a
        return a, b

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        p = Process(self.s, target, args, kwargs)
        self.processes.append(p)
        return p
