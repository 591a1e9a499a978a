HEAD = '''
from kit import consumer, env, group, wire, simnet
from kiel import exc

class Net(group.GroupEnv):
    def __init__(self, lead=(("a", 0, 1), ("a", 1, 2)), auto=True, coord=1, joined=True):
        group.GroupEnv.__init__(self, dict(
            lead=list(lead), auto=auto, coord=coord, wait=1000, min=1, maxb=1 << 20,
            com=[0, 0, 0, 0], custom=False, reverse=False, big=False, again=False, conc=True))
        if joined:
            c = self.begin_op("connect", self.client.connect)
            self.finish_up(c)
            assert c.done and not c.exc, c.exc
            self.notify_all()
    def finish_up(self, call, code=0):
        for _ in range(60):
            self.run()
            self.prune()
            if call.done or not self.outstanding:
                break
            self.answer(self.outstanding[0], [code])
        self.run()
        return call
    def consume(self, t):
        c = self.begin_op("consume", self.client.consume, t, t=t)
        self.run()
        return c
    def commit(self, *args):
        c = self.begin_op("commit", self.client.commit_offsets, *args)
        self.run()
        return c
    def next(self, api, codes, **kw):
        """Answers the first request of the api, whatever comes before with success."""
        self.answer_first(api, codes)
        self.run()
    def sent(self, ev):
        return [e for e in self.ev if e["ev"] == ev]
'''
G = "kiel/clients/grouped.py"
SEEDS = [
dict(id="group-never-back", property="C16",
     needs="a partition taken over again whose committed offset is behind the position this member once had",
     what_it_breaks="offsets looked up after a rebalance never move a position back, so the committed offset is not resumed from",
     edits=[(G, "                self.offsets[topic][partition.partition_id] = partition.offset\n",
'''                self.offsets[topic][partition.partition_id] = max(
                    partition.offset, self.offsets[topic][partition.partition_id]
                )
''')],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(auto=False)
net.finish_up(net.consume("a"))
assert [e["parts"][0][2] for e in net.sent("freq")] == [0, 10]
n = len(net.sent("freq"))
net.toggle_member("~late"); net.run()
net.toggle_member("~late"); net.run()
net.finish_up(net.consume("a"))
got = sorted(e["parts"][0][2] for e in net.sent("freq")[n:])
assert got == [0, 10], got
'''),
dict(id="group-rebalance-same-topics", property="C16",
     needs="a rebalance that changes the partitions owned, but not their topics",
     what_it_breaks="the consumer is only told of rebalances that change the set of topics it owns",
     edits=[("kiel/zookeeper/allocator.py", "        self.mapping = self.allocator_fn(members, partitions)\n",
'''        topics = set(self.allocation)
        self.mapping = self.allocator_fn(members, partitions)
'''), ("kiel/zookeeper/allocator.py", "            self.on_rebalance()\n",
'''            if topics != set(self.allocation):
                self.on_rebalance()
''')],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(auto=False)
net.finish_up(net.consume("a"))
net.committed[("a", 1)] = 11
n = len(net.sent("lreq"))
net.toggle_member("!early"); net.run()
net.finish_up(net.consume("a"))
assert len(net.sent("lreq")) == n + 1, net.sent("lreq")
assert net.sent("lreq")[-1]["parts"] == [["a", 1]]
assert net.sent("freq")[-1]["parts"][0][2] == 11
'''),
dict(id="group-metadata-after-retry", property="C17",
     needs="a commit answered with a retriable error for one partition and an over-long metadata error for a later one",
     what_it_breaks="the metadata is not emptied for the retry when another partition already called for one",
     edits=[(G, "                    retry = True\n                    adjust_metadata = True\n",
                "                    adjust_metadata = not retry\n                    retry = True\n")],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(auto=False)
net.finish_up(net.consume("a"))
c = net.commit("mine")
net.next("offset_commit", [14, 12])
net.finish_up(c)
assert [p[3] for p in net.sent("kreq")[1]["parts"]] == ["", ""], net.sent("kreq")
'''),
dict(id="group-metadata-lost", property="C17",
     needs="commit_offsets() with metadata of the caller's own, retried after a retriable error",
     what_it_breaks="the retry carries the default metadata in place of the caller's",
     edits=[(G, "            yield self.commit_offsets(metadata=metadata)\n",
                "            yield self.commit_offsets(\n                metadata=metadata if adjust_metadata else None\n            )\n")],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(auto=False)
net.finish_up(net.consume("a"))
c = net.commit("mine")
net.next("offset_commit", [0, 14])
net.finish_up(c)
assert [[p[3] for p in e["parts"]] for e in net.sent("kreq")] == [["mine"] * 2] * 2, net.sent("kreq")
'''),
dict(id="group-brokers-listed-once", property="C18",
     needs="a cluster that changes while the coordinator is being looked for",
     what_it_breaks="the brokers to ask are listed once: those that joined meanwhile are never asked",
     edits=[(G, '''        while not determined:
            broker_ids = list(self.cluster)
            if not broker_ids:
                raise exc.NoBrokersError
''', '''        broker_ids = list(self.cluster)
        if not broker_ids:
            raise exc.NoBrokersError
        while not determined:
''')],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(joined=False, lead=[("a", 0, 1)], coord=2)
net.member = {1}
c = net.begin_op("connect", net.client.connect); net.run()
assert [e["b"] for e in net.sent("creq")] == [1]
net.member.add(2)
for _ in range(4):
    if c.done:
        break
    net.answer(net.outstanding[0], [15 if net.outstanding[0][1].b == 1 else 0])
    net.run()
assert {e["b"] for e in net.sent("creq")} == {1, 2}, net.sent("creq")
assert c.done and not c.exc
'''),
dict(id="group-three-rounds", property="C18",
     needs="all brokers answering retriable errors for three rounds, as while the group's topic is being created",
     what_it_breaks="the lookup of the coordinator gives up after three rounds",
     edits=[(G, '''        determined = False
        while not determined:
            broker_ids''', '''        determined = False
        for _ in range(3):
            if determined:
                break
            broker_ids''')],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(joined=False)
c = net.begin_op("connect", net.client.connect)
for _ in range(12):
    net.run()
    assert not c.done
    net.answer(net.outstanding[0], [15])
net.finish_up(c)
assert c.done and not c.exc and net.client.coordinator_id == 1
'''),
dict(id="group-idle-member-stays", property="C25",
     needs="close() of a member that owns no partitions",
     what_it_breaks="a member owning nothing does not leave the group when it closes",
     edits=[(G, "        yield self.allocator.stop()\n", "        if self.allocation:\n            yield self.allocator.stop()\n")],
     kit=["zk", "consumer", "group"], demo=HEAD + '''
net = Net(lead=[("a", 0, 1)])
net.toggle_member("!early"); net.run()
path = group.MEMBERS + "/" + net.client.name
assert path in net.zk.nodes
c = net.begin_op("close", net.client.close); net.run()
assert c.done and not c.exc
assert path not in net.zk.nodes, "still a member"
'''),
]
