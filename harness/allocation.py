"""Drives real PartitionAllocators over a ZooKeeper in memory and records what they did."""
import asyncio
import json

from . import simnet, zk          # noqa: F401 (simnet puts kiel on the path)

import kazoo.client
kazoo.client.KazooClient = zk.Client

import kiel.zookeeper.allocator as allocator_module      # noqa: E402
from kiel.zookeeper.allocator import PartitionAllocator  # noqa: E402
import kiel.clients.grouped as grouped                   # noqa: E402

zk.patch_threading()


def heard(fn):
    """The set's change callback, reported."""
    def on_change(content):
        p = Process.by_thread()
        if p is not None and content is not None:
            p.run.log("heard", m=p.m, v=sorted(rank(ITEMS, x) for x in content))
        return fn(content)
    return on_change


if hasattr(allocator_module, "SharedSet"):
    class SharedSet(allocator_module.SharedSet):
        def __init__(self, *args, **kw):
            if callable(kw.get("on_change")):
                kw["on_change"] = heard(kw["on_change"])
            elif args and callable(args[-1]):
                args = args[:-1] + (heard(args[-1]),)
            super(SharedSet, self).__init__(*args, **kw)
            Process.building.heard = True
    allocator_module.SharedSet = SharedSet

NAMES = ["Alpha:77", "alpha:12", "alpha:5"]
ITEMS = ["a:0", "a:1", "a:10", "a:2", "b.x:0", "b.x:3"]
GROUP = "workers"
SET = "/kiel/groups/%s/partitions" % GROUP
MEMBERS = "/kiel/groups/%s/members" % GROUP


def rank(names, x):
    return names.index(x) + 1 if x in names else 0


def items_of(allocation):
    return sorted(rank(ITEMS, "%s:%d" % (t, p)) for t, ps in allocation.items() for p in ps)


def parse(data):
    """(readable, ranks)"""
    try:
        got = json.loads(data.decode("utf-8")) if data else []
        assert isinstance(got, list) and all(isinstance(x, str) for x in got)
        assert len(set(got)) == len(got)
        return True, sorted(rank(ITEMS, x) for x in got)
    except Exception:
        return False, []


def by_topic(items):
    out = {}
    for i in items:
        t, p = ITEMS[i - 1].split(":")
        out.setdefault(t, []).append(int(p))
    return out


def greedy(members, partitions):
    """Someone's own allocator: the last member gets everything but one."""
    mapping = {}
    for i, x in enumerate(partitions):
        t, p = x.split(":")
        m = members[0 if i == 1 else -1] if members else None
        if m is not None:
            mapping.setdefault(m, {}).setdefault(t, []).append(int(p))
    return mapping


class Process(object):
    building = None
    heard = False                       # are the set's callbacks reported?

    @staticmethod
    def by_thread():
        t = getattr(zk.current, "task", None)
        return getattr(t.name[1], "process", None) if t is not None else None

    def __init__(self, run, m, n):
        self.run, self.m, self.n = run, m, n
        Process.building = self
        self.task = self.worker = None
        self.started = self.stopping = self.dead = False
        zk.Client.server = run.server
        self.alloc = PartitionAllocator(
            ["zk1:2181", "zk2"], GROUP, NAMES[n - 1],
            allocator_fn=self.allocate, on_rebalance=self.rebalanced)
        run.log("proc", m=m, n=n, h=self.heard)
        self.client = run.server.clients[-1]
        self.client.process = self

    def thread(self):
        t = getattr(zk.current, "task", None)
        return run_id(t)

    def allocate(self, members, partitions):
        fn = greedy if self.run.script["custom"] else grouped.naive_allocator
        res = fn(members, partitions)
        self.run.log("fn", m=self.m, th=self.thread(),
                     ms=[rank(NAMES, x) for x in members], **{
                         "is": [rank(ITEMS, x) for x in partitions],
                         "res": [[rank(NAMES, k), items_of(v)] for k, v in res.items() if v]})
        zk.step()
        zk.step()
        return res

    def rebalanced(self):
        self.run.log("reb", m=self.m, th=self.thread(), own=items_of(self.alloc.allocation))
        zk.step()


def run_id(task):
    return getattr(task, "number", 0)


class Run(object):
    def __init__(self, script):
        self.script = script
        self.ev = []
        self.loop = asyncio.new_event_loop()
        self.sched = zk.Scheduler()
        self.server = zk.Server()
        self.server.sched = self.sched
        self.procs, self.all = {}, []
        self.calls = self.tasks = 0
        self.open = {}                   # call -> (process, task)
        self.saved_spawn = self.sched.spawn
        self.sched.spawn = self.spawn
        zk.Client.server = self.server
        base = zk.Client(hosts="")       # whoever was here before
        self.server.clients.remove(base)
        if script["node"] != "absent":
            base._ensure(SET)
            if script["node"] == "list":
                self.server.nodes[SET].data = json.dumps(
                    [ITEMS[i - 1] for i in script["items"]]).encode()
        self.server.observe = self.observe

    def spawn(self, name, fn):
        def main():
            asyncio.set_event_loop(self.loop)
            fn()
        t = self.saved_spawn(name, main)
        self.tasks += 1
        t.number = self.tasks
        return t

    def log(self, ev, **kw):
        self.ev.append(dict(kw, ev=ev))
        if len(self.ev) > 3000:
            raise simnet.Livelock()

    # -- what happens in ZooKeeper
    def observe(self, what, path="", by=None, **kw):
        p = getattr(by, "process", None)
        m = p.m if p else 0
        task = getattr(zk.current, "task", None)
        if what == "session":
            self.log("session", m=m, s=kw["s"])
        elif what == "lost":
            self.log("lost", s=kw["s"])
        elif what in ("create", "delete") and zk.Server.parent(path) == MEMBERS:
            n = rank(NAMES, path.rsplit("/", 1)[1])
            if what == "create":
                self.log("mk", m=m, n=n, s=kw["owner"])
            else:
                self.log("rm", m=m, n=n)
        elif what in ("create", "set") and path == SET:
            if what == "create" and not kw["data"]:
                self.log("made", m=m)
                return
            ok, items = parse(kw["data"])
            self.log("write", m=m, c=getattr(task, "call", 0), ok=ok, items=items)
        elif what == "told":
            th = run_id(task)
            if path == MEMBERS:
                self.log("told", m=m, th=th, k="m", none=False,
                         v=sorted(rank(NAMES, x) for x in kw["value"]))
            elif path == SET:
                self.log("told", m=m, th=th, k="p", none=kw["value"] is None,
                         v=parse(kw["value"])[1])
        elif what == "toldend":
            k = "m" if path == MEMBERS else "p" if path == SET else ""
            if k:
                self.log("toldend", m=m, th=run_id(task), k=k)

    # -- calls
    def call(self, p, op, items, fn):
        self.calls += 1
        c = self.calls
        self.log("call", c=c, m=p.m, op=op, items=items)

        def main():
            exc = ""
            try:
                f = fn()
                if hasattr(f, "exception"):
                    if not f.done():
                        exc = "unfinished"
                    elif f.exception() is not None:
                        exc = type(f.exception()).__name__
            except Exception as e:
                exc = type(e).__name__
            self.open.pop(c, None)
            p.task = None
            p.started = p.started or (op == "start" and not exc)
            self.log("ret", c=c, exc=exc)
        p.task = self.sched.spawn(("call", p.client), main)
        p.task.call = c
        self.open[c] = p

    def holding(self, client):
        kids = [k for k in self.server.children(SET + "/lock") if "__lock__" in k]
        kids.sort(key=lambda k: k[-10:])
        return bool(kids) and self.server.nodes[SET + "/lock/" + kids[0]].owner == client.sid

    def crash(self, p):
        p.dead = True
        for t in list(self.sched.tasks):
            if t.name[1] is p.client:
                t.killed = True
                t.go.release()
                t.thread.join(5)
                self.sched.tasks.remove(t)
        for c in [c for c, q in self.open.items() if q is p]:
            del self.open[c]
        p.task = None
        self.log("crash", m=p.m)
        p.client.stopped, p.client.connected = True, False
        self.procs.pop(p.n)

    def expire_dead(self):
        for p in self.all:
            if p.dead and p.client.sid:
                self.server.expire(p.client.sid)
                p.client.sid = 0

    def tasks_of(self, kind, p=None):
        return [t for t in self.sched.tasks if t.name[0] == kind and (p is None or t.name[1] is p.client)]

    def do(self, cmd):
        op = cmd[0]
        p = self.procs.get(cmd[1]) if len(cmd) > 1 and op not in "z" else None
        if op == "S":
            if p is not None and (p.task or not p.stopping):
                return
            self.all.append(Process(self, len(self.all) + 1, cmd[1]))
            p = self.procs[cmd[1]] = self.all[-1]
            p.worker = self.sched.spawn(("work", p.client), p.client.work)
            seed = by_topic(cmd[2])
            self.call(p, "start", cmd[2], lambda: p.alloc.start(seed))
        elif op in ("A", "R"):
            if p is None or p.task or p.stopping or not p.client.sid:
                return
            self.call(p, "add" if op == "A" else "remove", cmd[2], lambda: (
                p.alloc.add_partitions if op == "A" else p.alloc.remove_partitions)(by_topic(cmd[2])))
        elif op == "T":
            if p is None or p.task or p.stopping:
                return
            p.stopping = True
            self.call(p, "stop", [], p.alloc.stop)
        elif op == "s":
            if p is not None and p.task:
                self.sched.run(p.task, cmd[2])
        elif op == "w":
            if p is not None:
                self.sched.run(p.worker, cmd[2])
        elif op == "z":
            for t in self.tasks_of("spawn")[:1]:
                self.sched.run(t, cmd[1])
        elif op == "U":
            if p is not None:
                p.client.come_up()
        elif op == "P":
            if p is not None:
                p.client.suspend()
        elif op == "L":
            if p is not None and p.client.sid and not self.holding(p.client):
                p.client.lose()
        elif op == "CR":
            if p is not None:
                self.crash(p)
        elif op == "F":
            if p is not None and p.task and not p.stopping:
                p.client.fail, p.client.fail_task = cmd[2], p.task
        elif op == "X":
            self.expire_dead()
        elif op == "D":
            if SET in self.server.nodes and not self.open and not self.server.children(SET + "/lock"):
                for path in (SET + "/lock", SET):
                    if path in self.server.nodes:
                        self.server.remove(path, None)
                self.log("wiped")
        elif op == "Q":
            self.quiesce()

    def quiesce(self):
        spent, moved = 0, True
        while moved and spent < 4000:
            moved = False
            for p in self.procs.values():
                if p.client.come_up():
                    moved = True
            for t in list(self.sched.tasks):
                while t in self.sched.tasks and self.sched.run(t, 5) and spent < 4000:
                    moved = True
                    spent += 5
                    if t.name[0] == "work":
                        break
        if spent >= 4000 or (self.open and not self.dead_locks()):
            for c in self.open:
                self.log("hang", c=c)
            return False
        if not self.open:
            own, errs = [], []
            for n, p in sorted(self.procs.items()):
                if p.started and not p.stopping:
                    try:
                        own.append([p.m, items_of(p.alloc.allocation)])
                    except Exception as e:
                        own.append([p.m, []])
                        errs.append("%d %s" % (p.m, type(e).__name__))
            self.log("settle", own=own, errs=errs)
        return True

    def dead_locks(self):
        """Is the lock held by a process that is no more?"""
        sids = [p.client.sid for p in self.all if p.dead]
        return any(self.server.nodes[SET + "/lock/" + k].owner in sids
                   for k in self.server.children(SET + "/lock"))

    def trace(self):
        s = self.script
        try:
            for cmd in s["script"]:
                self.do(cmd)
            self.expire_dead()
            self.quiesce()
            self.do(["S", 2, [1]])
            self.quiesce()
        except simnet.Livelock:
            self.log("hang", c=0)
        finally:
            self.sched.finish()
            self.loop.close()
        items = s["items"] if s["node"] == "list" else []
        return dict(cfg=dict(custom=s["custom"], has=s["node"] != "absent", items=items), ev=self.ev)


def record(script):
    from . import env
    run = Run(script)
    try:
        with env.watchdog(20):
            return run.trace()
    except env.Hung:
        run.ev.append(dict(ev="hang", c=0))
    return dict(cfg=dict(custom=script["custom"], has=False, items=[]), ev=run.ev)
