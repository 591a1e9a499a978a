"""A ZooKeeper in memory, clients of it for kazoo's own recipes, and a scheduler
that decides which thread performs its next ZooKeeper operation.

Threads run one at a time.  A managed thread stops before each operation and
wherever it would block; an unmanaged one (no Scheduler) runs straight through,
and where it would block the pending notifications are delivered instead.
"""
import collections
import functools
import inspect
import threading as _threading

from kazoo import exceptions, security
from kazoo.protocol.states import (
    Callback, EventType, KazooState, KeeperState, WatchedEvent, ZnodeStat)
from kazoo.recipe.lock import Lock, ReadLock, Semaphore, WriteLock
from kazoo.recipe.watchers import ChildrenWatch, DataWatch
from kazoo.retry import KazooRetry

RealEvent, RealLock, RealRLock = _threading.Event, _threading.Lock, _threading.RLock
current = _threading.local()


class Kill(BaseException):
    pass


class Stuck(BaseException):
    """An unmanaged thread waits for something that never comes."""


class Task(object):
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.go, self.back = _threading.Semaphore(0), _threading.Semaphore(0)
        self.done = self.killed = False
        self.waiting = None             # what it waits for, a predicate
        self.fuel = 0
        self.thread = _threading.Thread(target=self.main)
        self.thread.daemon = True
        self.thread.start()

    def main(self):
        current.task = self
        self.go.acquire()
        try:
            if not self.killed:
                self.fn()
        except Kill:
            pass
        finally:
            self.done = True
            self.back.release()

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Kill()

    def runnable(self):
        return not self.done and (self.waiting is None or self.waiting())


class Scheduler(object):
    def __init__(self):
        self.tasks = []

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def run(self, task, fuel):
        """Lets a task perform up to fuel operations; True if it moved."""
        if not task.runnable():
            return False
        task.fuel = fuel
        task.go.release()
        task.back.acquire()
        if task.done:
            self.tasks.remove(task)
        return True

    def finish(self):
        for t in list(self.tasks):
            t.killed = True
            t.go.release()
            t.thread.join(5)
        self.tasks = []


def step():
    """An operation is about to happen."""
    t = getattr(current, "task", None)
    if t is None:
        return
    if t.killed:
        raise Kill()
    while t.fuel <= 0:
        t.pause()
    t.fuel -= 1


pumps = []                              # for unmanaged threads


def wait_for(pred):
    t = getattr(current, "task", None)
    if t is None:
        while not pred():
            if not any([p() for p in pumps]):
                raise Stuck()
        return
    while not pred():
        t.waiting = pred
        try:
            t.pause()
        finally:
            t.waiting = None


def watched():
    return getattr(current, "task", None) is not None or bool(pumps)


class Event(object):
    def __init__(self):
        self._real = RealEvent()

    def __getattr__(self, name):
        return getattr(self._real, name)

    isSet = property(lambda self: self._real.is_set)

    def wait(self, timeout=None):
        if not watched():
            return self._real.wait(timeout)
        if timeout is None:
            wait_for(self._real.is_set)
        else:
            step()
        return self._real.is_set()


class _Lock(object):
    make = RealLock

    def __init__(self):
        self._real = self.make()

    def __getattr__(self, name):
        return getattr(self._real, name)

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout >= 0 or not watched():
            return self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        while not self._real.acquire(False):
            wait_for(self.free)
        return True

    def free(self):
        # asked by the scheduler's thread, which owns none
        if self._real.acquire(False):
            self._real.release()
            return True
        return False

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Lock_(_Lock):
    make = staticmethod(RealLock)


class RLock_(_Lock):
    make = staticmethod(RealRLock)


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock or RLock_()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._told = 0

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        seen = self._told
        self.release()
        if timeout is None:
            wait_for(lambda: self._told != seen)
        else:
            step()
        self.acquire()
        return self._told != seen

    def notify(self, n=1):
        self._told += 1

    notify_all = notifyAll = notify


def patch_threading(prefix="kiel."):
    """What the code under test waits on is known to the scheduler."""
    import sys
    import types
    shim = types.ModuleType("threading")
    shim.__dict__.update(_threading.__dict__)
    new = {RealEvent: Event, RealLock: Lock_, RealRLock: RLock_, _threading.Condition: Condition}
    shim.Event, shim.Lock, shim.RLock, shim.Condition = Event, Lock_, RLock_, Condition
    for name, mod in list(sys.modules.items()):
        if not name.startswith(prefix):
            continue
        for k, v in list(vars(mod).items()):
            if v is _threading:
                setattr(mod, k, shim)
            elif isinstance(v, (type, types.BuiltinFunctionType, types.FunctionType)) and v in new:
                setattr(mod, k, new[v])


class Node(object):
    def __init__(self, data, owner, zxid):
        self.data, self.owner = data, owner
        self.czxid = self.mzxid = zxid
        self.version = 0
        self.seq = 0


def observed(cls, call):
    """A watch recipe whose callbacks are reported."""
    class Observed(cls):
        def __init__(self, client, path, func=None, *a, **k):
            self._where = path
            cls.__init__(self, client, path, self._report(func) if func else None, *a, **k)

        def __call__(self, func):
            cls.__call__(self, self._report(func))
            return func

        def _report(self, func):
            return call(self, func)
    Observed.__name__ = cls.__name__
    return Observed


def report_children(watch, func):
    def told(children, *event):
        server = watch._client.server
        server.observe("told", by=watch._client, path=watch._where, value=children)
        func(children, *event)
        server.observe("toldend", by=watch._client, path=watch._where)
    return told


def report_data(watch, func):
    try:
        inspect.signature(func).bind(1, 2, 3)
        n = 3
    except TypeError:
        n = 2

    def told(data, stat, event):
        server = watch._client.server
        server.observe("told", by=watch._client, path=watch._where, value=data)
        func(*(data, stat, event)[:n])
        server.observe("toldend", by=watch._client, path=watch._where)
    return told


ObservedData = observed(DataWatch, report_data)
ObservedChildren = observed(ChildrenWatch, report_children)


class Handler(object):
    """What the recipes ask of kazoo's handler."""
    name = "fake"
    timeout_exception = exceptions.SessionExpiredError

    def __init__(self, client):
        self.client = client

    def lock_object(self):
        return Lock_()

    def rlock_object(self):
        return RLock_()

    def event_object(self):
        return Event()

    def sleep_func(self, seconds):
        step()

    def spawn(self, fn, *args, **kw):
        self.client.server.spawned(self.client, functools.partial(fn, *args, **kw))


class Server(object):
    """The tree, the sessions and the watches."""

    def __init__(self):
        self.nodes = {"/": Node(b"", 0, 0)}
        self.zxid = 0
        self.sessions = {}              # id -> client or None
        self.last_session = 100
        self.watches = collections.defaultdict(list)     # (kind, path) -> [(client, fn)]
        self.clients = []
        self.sched = None
        self.observe = lambda what, **kw: None

    # -- sessions
    def open(self, client=None):
        self.last_session += 1
        self.sessions[self.last_session] = client
        return self.last_session

    def expire(self, sid):
        if sid not in self.sessions:
            return
        del self.sessions[sid]
        self.observe("lost", s=sid)
        for path in sorted(p for p, n in self.nodes.items() if n.owner == sid):
            self.remove(path, None)

    # -- the tree
    @staticmethod
    def parent(path):
        return path.rsplit("/", 1)[0] or "/"

    def children(self, path):
        pre = path.rstrip("/") + "/"
        return [p[len(pre):] for p in self.nodes
                if p.startswith(pre) and p != "/" and "/" not in p[len(pre):]]

    def stat(self, path):
        n = self.nodes[path]
        kids = len(self.children(path))
        return ZnodeStat(n.czxid, n.mzxid, 0, 0, n.version, 0, 0, n.owner, len(n.data), kids, 0)

    def watch(self, kind, path, client, fn):
        if (client, fn) not in self.watches[(kind, path)]:
            self.watches[(kind, path)].append((client, fn))

    def fire(self, kind, path, what):
        for client, fn in self.watches.pop((kind, path), []):
            if client.alive():
                client.notify(fn, WatchedEvent(what, KeeperState.CONNECTED, path))

    def add(self, path, data, owner, by):
        self.zxid += 1
        self.nodes[path] = Node(data, owner, self.zxid)
        self.observe("create", path=path, data=data, owner=owner, by=by)
        self.fire("data", path, EventType.CREATED)
        self.fire("child", self.parent(path), EventType.CHILD)

    def change(self, path, data, by):
        self.zxid += 1
        n = self.nodes[path]
        n.data, n.mzxid, n.version = data, self.zxid, n.version + 1
        self.observe("set", path=path, data=data, by=by)
        self.fire("data", path, EventType.CHANGED)

    def remove(self, path, by):
        self.zxid += 1
        del self.nodes[path]
        self.observe("delete", path=path, by=by)
        self.fire("data", path, EventType.DELETED)
        self.fire("child", path, EventType.DELETED)
        self.fire("child", self.parent(path), EventType.CHILD)

    def check_new(self, path, owner):
        if path in self.nodes:
            raise exceptions.NodeExistsError()
        if self.parent(path) not in self.nodes:
            raise exceptions.NoNodeError()
        if self.nodes[self.parent(path)].owner:
            raise exceptions.NoChildrenForEphemeralsError()

    def check_old(self, path, version):
        if path not in self.nodes:
            raise exceptions.NoNodeError()
        if version not in (-1, self.nodes[path].version):
            raise exceptions.BadVersionError()

    def spawned(self, client, fn):
        if self.sched is not None:
            self.sched.spawn(("spawn", client), fn)
        else:
            client.queue.append(fn)

    def pump(self):
        """Delivers one notification to someone (without a scheduler)."""
        for c in self.clients:
            if c.deliver_one():
                return True
        return False


class Transaction(object):
    def __init__(self, client):
        self.client, self.ops, self.committed = client, [], False

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False, include_data=False):
        self.ops.append(("create", path, need_bytes(value), ephemeral))

    def delete(self, path, version=-1):
        self.ops.append(("delete", path, version))

    def set_data(self, path, value, version=-1):
        self.ops.append(("set", path, need_bytes(value), version))

    def check(self, path, version):
        self.ops.append(("check", path, version))

    def commit(self):
        c, s = self.client, self.client.server
        with c.op("transaction"):
            names = set(s.nodes)
            results = []
            for op in self.ops:         # as it would go, one by one
                path = op[1]
                if op[0] == "create" and (path in names or s.parent(path) not in names):
                    bad = (exceptions.NodeExistsError if path in names else exceptions.NoNodeError)()
                elif op[0] != "create" and path not in names:
                    bad = exceptions.NoNodeError()
                elif op[0] in ("delete", "check", "set") and op[-1] not in (-1, s.nodes[path].version):
                    bad = exceptions.BadVersionError()
                elif op[0] == "delete" and s.children(path):
                    bad = exceptions.NotEmptyError()
                else:
                    (names.discard if op[0] == "delete" else names.add)(path)
                    results.append(path)
                    continue
                return ([exceptions.RolledBackError() for _ in results] + [bad]
                        + [exceptions.RuntimeInconsistency() for _ in self.ops[len(results) + 1:]])
            for op in self.ops:
                if op[0] == "create":
                    s.add(op[1], op[2], c.sid if op[3] else 0, c)
                elif op[0] == "delete":
                    s.remove(op[1], c)
                elif op[0] == "set":
                    s.change(op[1], op[2], c)
            return results

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if not exc_type:
            self.commit()


def need_bytes(value):
    if not isinstance(value, bytes):
        raise TypeError("Invalid type for 'value' (must be a byte string)")
    return value


class Op(object):
    def __init__(self, client, name):
        self.client, self.name = client, name

    def __enter__(self):
        c = self.client
        step()
        sid = c.sid
        if not c.connected:
            wait_for(lambda: c.connected or c.stopped or c.sid != sid)
        if c.stopped:
            raise exceptions.ConnectionClosedError("Connection has been closed")
        if c.sid != sid and sid:
            raise exceptions.SessionExpiredError()
        if c.fail == "before" and getattr(current, "task", None) is c.fail_task:
            c.fail = None
            raise exceptions.ConnectionLoss()

    def __exit__(self, exc_type, exc, tb):
        c = self.client
        if c.fail == "after" and exc_type is None and getattr(current, "task", None) is c.fail_task:
            c.fail = None
            raise exceptions.ConnectionLoss()


class Client(object):
    """Stands for kazoo.client.KazooClient."""
    server = None                       # set per run

    def __init__(self, hosts="127.0.0.1:2181", **kw):
        self.server = type(self).server
        self.hosts = hosts
        self.handler = Handler(self)
        self.state = KazooState.LOST
        self.listeners = set()
        self.order = []
        self.sid = 0
        self.connected = self.stopped = self.starting = False
        self.queue = collections.deque()
        self.fail = self.fail_task = None
        self.worker = None
        self.busy = False
        self.retry = KazooRetry(max_tries=-1, sleep_func=self.handler.sleep_func)
        for name, cls in (("Lock", Lock), ("ReadLock", ReadLock), ("WriteLock", WriteLock),
                          ("Semaphore", Semaphore), ("DataWatch", ObservedData),
                          ("ChildrenWatch", ObservedChildren)):
            setattr(self, name, functools.partial(cls, self))
        self.server.clients.append(self)

    # -- connection
    def alive(self):
        return not self.stopped

    def add_listener(self, fn):
        if fn not in self.order:
            self.order.append(fn)

    def remove_listener(self, fn):
        if fn in self.order:
            self.order.remove(fn)

    def become(self, state):
        if state == self.state:
            return
        self.state = state
        for fn in list(self.order):
            if fn(state) is True:
                self.remove_listener(fn)

    @property
    def client_id(self):
        return (self.sid, b"") if self.sid else None

    @property
    def client_state(self):
        return "CONNECTED" if self.connected else "CLOSED"

    def start_async(self):
        self.starting = True
        self.server.observe("starting", by=self)
        return self._live()

    def _live(self):
        event = Event()
        return event

    def start(self, timeout=15):
        self.start_async()
        wait_for(lambda: self.connected)

    def come_up(self):
        """(Re)connected, with a new session if there is none."""
        if self.stopped or self.connected or not self.starting:
            return False
        if self.sid not in self.server.sessions:
            self.sid = self.server.open(self)
            self.server.observe("session", by=self, s=self.sid)
        self.connected = True
        self.become(KazooState.CONNECTED)
        return True

    def suspend(self):
        if not self.connected:
            return False
        self.connected = False
        self.become(KazooState.SUSPENDED)
        return True

    def lose(self):
        """The session expires."""
        if not self.sid or self.stopped:
            return False
        self.connected = False
        self.server.expire(self.sid)
        # kazoo drops the watches of a lost session, telling them so
        for key in list(self.server.watches):
            self.server.watches[key] = [(c, f) for c, f in self.server.watches[key] if c is not self]
        self.become(KazooState.LOST)
        return True

    def stop(self):
        step()
        if self.stopped:
            return
        self.stopped, self.connected = True, False
        sid, self.sid = self.sid, 0
        self.server.expire(sid)
        self.become(KazooState.LOST)

    def close(self):
        pass

    def restart(self):
        self.stop()
        self.stopped = False
        self.start()

    # -- notifications
    def notify(self, fn, event):
        self.queue.append(functools.partial(fn, event))

    def deliver_one(self):
        """Without a scheduler."""
        if not self.queue or self.stopped or not self.connected or self.busy:
            return False
        fn = self.queue.popleft()
        self.busy = True
        try:
            fn()
        except Exception:
            pass                        # kazoo logs it
        finally:
            self.busy = False
        return True

    def work(self):
        """The main loop of the thread that runs the callbacks."""
        while True:
            wait_for(lambda: bool(self.queue) and self.connected)
            fn = self.queue.popleft()
            self.busy = True
            try:
                fn()
            except Exception:
                pass                    # kazoo logs it
            finally:
                self.busy = False

    # -- operations
    def op(self, name):
        return Op(self, name)

    def ensure_path(self, path, acl=None):
        with self.op("ensure_path"):
            self._ensure(path)
        return True

    def _ensure(self, path):
        at = ""
        for part in path.strip("/").split("/"):
            at += "/" + part
            if at not in self.server.nodes:
                self.server.add(at, b"", 0, self)

    def exists(self, path, watch=None):
        with self.op("exists"):
            if watch:
                self.server.watch("data", path, self, watch)
            return self.server.stat(path) if path in self.server.nodes else None

    def get(self, path, watch=None):
        with self.op("get"):
            if path not in self.server.nodes:
                raise exceptions.NoNodeError()
            if watch:
                self.server.watch("data", path, self, watch)
            return self.server.nodes[path].data, self.server.stat(path)

    def get_children(self, path, watch=None, include_data=False):
        with self.op("get_children"):
            if path not in self.server.nodes:
                raise exceptions.NoNodeError()
            if watch:
                self.server.watch("child", path, self, watch)
            kids = self.server.children(path)
            return (kids, self.server.stat(path)) if include_data else kids

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False,
               makepath=False, include_data=False):
        need_bytes(value)
        with self.op("create"):
            s = self.server
            if makepath and s.parent(path) not in s.nodes:
                self._ensure(s.parent(path))
            if sequence:
                up = s.nodes.get(s.parent(path))
                if up is None:
                    raise exceptions.NoNodeError()
                path = "%s%010d" % (path, up.seq)
                up.seq += 1
            s.check_new(path, ephemeral)
            s.add(path, value, self.sid if ephemeral else 0, self)
            return (path, s.stat(path)) if include_data else path

    def set(self, path, value, version=-1):
        need_bytes(value)
        with self.op("set"):
            self.server.check_old(path, version)
            self.server.change(path, value, self)
            return self.server.stat(path)

    def delete(self, path, version=-1, recursive=False):
        with self.op("delete"):
            self.server.check_old(path, version)
            if self.server.children(path):
                if not recursive:
                    raise exceptions.NotEmptyError()
                for p in sorted((p for p in self.server.nodes if p.startswith(path + "/")),
                                key=len, reverse=True):
                    self.server.remove(p, self)
            self.server.remove(path, self)
            return True

    def transaction(self):
        return Transaction(self)
