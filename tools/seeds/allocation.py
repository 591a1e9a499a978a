HEAD = '''
import asyncio
import json
import kazoo.client
from kit import simnet, zk
kazoo.client.KazooClient = zk.Client
from kiel.zookeeper.allocator import PartitionAllocator
from kiel.clients import grouped
zk.patch_threading()
asyncio.set_event_loop(asyncio.new_event_loop())
SET, MEMBERS = "/kiel/groups/g/partitions", "/kiel/groups/g/members"

class World(object):
    def __init__(self):
        self.server = zk.Client.server = zk.Server()
        self.members = []
        zk.pumps[:] = [self.pump]
    def pump(self):
        return any([m.conn.come_up() for m in self.members]) or self.server.pump()
    def settle(self):
        while self.pump():
            pass
    def member(self, name, fn=None):
        m = PartitionAllocator(["zk"], "g", name, fn or grouped.naive_allocator, lambda: self.called(m))
        m.calls = 0
        self.members.append(m)
        return m
    def called(self, m):
        m.calls += 1
    def start(self, m, parts):
        m.start(parts).result()
        self.settle()
    def stored(self):
        return sorted(json.loads(self.server.nodes[SET].data.decode()))
'''
SEEDS = [
dict(id="alloc-numeric-order", property="C19",
     needs="a topic with more than ten partitions",
     what_it_breaks="partitions are given to the allocator in numeric order, not sorted",
     edits=[("kiel/zookeeper/allocator.py", "        partitions = sorted(self.partitions)\n",
             '''        partitions = sorted(
            self.partitions,
            key=lambda p: (p.split(":")[0], int(p.split(":")[-1]))
        )
''')],
     demo=HEAD + '''
w = World()
got = []
def fn(members, partitions):
    got.append(list(partitions))
    return grouped.naive_allocator(members, partitions)
a = w.member("a:1", fn)
w.start(a, {"t": list(range(12))})
assert all(g == sorted(g) for g in got) and got, got
'''),
dict(id="alloc-folded-names", property="C19",
     needs="members whose names differ in case order (Zeta before alpha)",
     what_it_breaks="members are sorted ignoring case: the allocator is not called with the sorted members",
     edits=[("kiel/zookeeper/allocator.py", "        members = sorted(self.members)\n",
             "        members = sorted(self.members, key=str.lower)\n")],
     demo=HEAD + '''
w = World()
got = []
def fn(members, partitions):
    got.append(list(members))
    return grouped.naive_allocator(members, partitions)
a, b = w.member("Zeta:1", fn), w.member("alpha:2", fn)
w.start(a, {"t": [0, 1]})
w.start(b, {})
assert all(g == sorted(g) for g in got) and got, got
'''),
dict(id="alloc-remove-all-or-none", property="C20",
     needs="a removal of several partitions of which one is not (or no longer) in the set",
     what_it_breaks="nothing is removed then",
     edits=[("kiel/zookeeper/shared_set.py", "            if old_items.isdisjoint(existing_items):\n",
             "            if not old_items.issubset(existing_items):\n")],
     demo=HEAD + '''
w = World()
a = w.member("a:1")
w.start(a, {"t": [0, 1]})
a.remove_partitions({"t": [1, 2]})
assert w.stored() == ["t:0"], w.stored()
'''),
dict(id="alloc-read-before-lock", property="C20",
     needs="two members adding at once, one reading the set before the other wrote it",
     what_it_breaks="the set is read before the lock is taken, so the other's addition vanishes",
     edits=[("kiel/zookeeper/shared_set.py", '''        with self.client.Lock(self.lock_path):
            existing_items = self.deserialize(self.client.get(self.path)[0])
            if not existing_items:
''', '''        existing_items = self.deserialize(self.client.get(self.path)[0])
        with self.client.Lock(self.lock_path):
            if not existing_items:
''')],
     demo=HEAD + '''
for first in range(1, 12):
    w = World()
    a, b = w.member("a:1"), w.member("b:2")
    w.start(a, {"t": [0]})
    w.start(b, {})
    sched = w.server.sched = zk.Scheduler()
    work = [sched.spawn(("work", m.conn), m.conn.work) for m in (a, b)]
    calls = [sched.spawn(("call", a.conn), lambda: a.add_partitions({"t": [1]})),
             sched.spawn(("call", b.conn), lambda: b.add_partitions({"t": [2]}))]
    sched.run(calls[0], first)
    for i in range(400):
        for t in list(sched.tasks)[::-1]:
            sched.run(t, 1)
    assert all(t.done for t in calls)
    sched.finish()
    assert w.stored() == ["t:0", "t:1", "t:2"], w.stored()
'''),
dict(id="alloc-empty-party", property="C21",
     needs="a member that lost its session and was the only one left",
     what_it_breaks="nobody being left is not reported, so the member goes on with partitions that are not its own",
     edits=[("kiel/zookeeper/party.py", "            self.on_change(members)\n",
             "            if members:\n                self.on_change(members)\n")],
     demo=HEAD + '''
w = World()
a = w.member("a:1")
w.start(a, {"t": [0, 1]})
a.conn.delete(MEMBERS + "/a:1")
w.settle()
assert a.members == set() and a.allocation == {}, (a.members, a.allocation)
'''),
dict(id="alloc-quiet-when-idle", property="C21",
     needs="a rebalance that takes a member's last partition",
     what_it_breaks="the callback is not invoked when nothing is left to the member",
     edits=[("kiel/zookeeper/allocator.py", "        if self.on_rebalance:\n",
             "        if self.on_rebalance and self.allocation:\n")],
     demo=HEAD + '''
w = World()
a = w.member("m:1")
w.start(a, {"t": [0]})
n = a.calls
b = w.member("a:0")
w.start(b, {})
assert a.allocation == {} and a.calls > n, (a.allocation, a.calls, n)
'''),
dict(id="alloc-emptied-set", property="C20",
     needs="the last partition removed from the set",
     what_it_breaks="members are not told that the set became empty",
     edits=[("kiel/zookeeper/shared_set.py", "            self.on_change(data)\n",
             "            if data is None or data or not self.client.get(self.path)[0]:\n                self.on_change(data)\n")],
     demo=HEAD + '''
w = World()
a = w.member("a:1")
w.start(a, {"t": [0]})
a.remove_partitions({"t": [0]})
w.settle()
assert w.stored() == [] and a.allocation == {}, a.allocation
'''),
]
for x in SEEDS:
    x["kit"] = ["zk"]
