HEAD = '''
import json
from kit import env, wire, simnet
from kiel.clients import SingleConsumer

class Net(env.Env):
    """Brokers that hold messages 1, 2, ... at offsets first, first + 1, ..."""
    def __init__(self, lead, logs, **kw):
        env.Env.__init__(self, [1, 2, 3], lead)
        self.logs, self.codes, self.fetched, self.looked, self.budget = logs, {}, [], [], {}
        self.client = SingleConsumer(["boot:9999"], **kw)
        assert self.call(self.client.connect).done
    def on_data(self, peer, request):
        body = []
        for t, ps in request["topics"]:
            row = []
            for x in ps:
                p = x[0]
                first, values = self.logs[t][p]
                code = self.codes.pop((request["api"], t, p), 0)
                if request["api"] == "offset":
                    self.looked.append((t, p))
                    row.append((p, code, [] if code else [first if x[1] == -2 else first + len(values)]))
                else:
                    self.fetched.append((t, p, x[1]))
                    self.budget[(t, p)] = x[2]
                    if not code and not first <= x[1] <= first + len(values):
                        code = 1
                    raw = b"" if code else b"".join(
                        wire.encode_set([(first + i, None, json.dumps(v).encode())])
                        for i, v in enumerate(values) if first + i >= x[1])
                    row.append((p, code, first + len(values), raw))
            body.append((t, row))
        peer.reply(request, (wire.offset_body if request["api"] == "offset" else wire.fetch_body)(body))
    def consume(self, t, start=-2):
        c = self.call(self.client.consume, t, start)
        assert c.done, "consume() does not return"
        if c.exc:
            raise c.exc
        return c.result
'''
SEEDS = [
dict(id="consumer-zero-start", property="C14",
     needs="a lookup that answers 0 after positions beyond 0 were held: the topic was made anew",
     what_it_breaks="a partition whose start is offset 0 keeps its old position, which is out of range again and again",
     edits=[("kiel/clients/single.py", "                if offset>=0:\n", "                if offset > 0:\n")],
     demo=HEAD + '''
net = Net({"a": {0: 1}}, {"a": {0: (7, [1, 2, 3])}})
assert net.consume("a") == [1, 2, 3]
net.logs["a"][0] = (0, [4, 5])
assert net.consume("a") == []
assert net.consume("a") == [4, 5], net.fetched
'''),
dict(id="consumer-new-topic-missed", property="C14",
     needs="a topic that came into being after the last refresh, consumed by a client that does know others",
     what_it_breaks="the refresh for a topic not known is only made while no topic is known at all, so a new one is given up at once",
     edits=[("kiel/clients/consumer.py", """            log.debug("Consuming unknown topic %s, reloading metadata", topic)
            yield self.cluster.heal()
""", """            log.debug("Consuming unknown topic %s, reloading metadata", topic)
            if not self.allocation or not self.synced_offsets:
                yield self.cluster.heal()
""")],
     demo=HEAD + '''
net = Net({"a": {0: 1}}, {"a": {0: (7, [1])}, "b": {0: (0, [2])}})
assert net.consume("a") == [1]
net.lead["b"] = {0: 2}
assert net.consume("b") == [2]
'''),
dict(id="consumer-range-all-topics", property="C13",
     needs="two topics consumed by one consumer, one of which falls out of range while the other has unread messages",
     what_it_breaks="an offset out of range makes the positions of every topic unknown, so unread messages of the other topics are skipped",
     edits=[("kiel/clients/consumer.py", '''                log.warn("Offset out of range for topic %s", topic)
                self.synced_offsets.discard(topic)
''', '''                log.warn("Offset out of range for topic %s", topic)
                self.synced_offsets.clear()
''')],
     demo=HEAD + '''
net = Net({"a": {0: 1}, "b": {0: 2}}, {"a": {0: (7, [1])}, "b": {0: (0, [2])}})
assert net.consume("a") == [1]
assert net.consume("b") == [2]
net.logs["b"][0] = (0, [2, 3])
net.logs["a"][0] = (20, [4])
assert net.consume("a") == []
assert net.consume("b", -1) == [3], net.looked
'''),
dict(id="consumer-budget-rounding", property="C15",
     needs="max_bytes that the number of partitions asked of one broker does not divide",
     what_it_breaks="the share of max_bytes is rounded to the nearest instead of down, so the shares add up to more than max_bytes",
     edits=[("kiel/clients/consumer.py", "int(self.max_bytes / len(partitions))",
             "int(round(\n                self.max_bytes / float(len(partitions))\n            ))")],
     demo=HEAD + '''
net = Net({"a": {0: 1, 1: 1, 2: 1}}, {"a": {0: (0, [1]), 1: (0, [2]), 2: (0, [3])}}, max_bytes=3002)
assert sorted(net.consume("a")) == [1, 2, 3]
assert net.budget == {("a", p): 1000 for p in range(3)}, net.budget
'''),
dict(id="consumer-moved-after-messages", property="C15",
     needs="a fetch answered with messages for one partition and then with not_leader for another",
     what_it_breaks="the new leader is not looked for when the same answer brought messages",
     edits=[("kiel/clients/consumer.py", '''            elif code in errors.retriable:
                self.heal_cluster = True
''', '''            elif code in errors.retriable:
                self.heal_cluster = self.heal_cluster or not messages
''')],
     demo=HEAD + '''
net = Net({"a": {0: 1, 1: 1}}, {"a": {0: (0, [1]), 1: (0, [2])}})
net.codes[("fetch", "a", 1)] = 6
n = net.metas
assert net.consume("a") == [1]
assert net.metas > n, "no refresh"
'''),
dict(id="consumer-lookup-partial", property="C14",
     needs="a lookup answered with a retriable code for a partition that precedes one answered without an error",
     what_it_breaks="the lookup is repeated only when the last partition of an answer asked for it, so messages are fetched from a position never looked up",
     edits=[("kiel/clients/single.py", '''                if offset>=0:
''', '''                retry = False
                if offset>=0:
''')],
     demo=HEAD + '''
net = Net({"a": {0: 1, 1: 1}}, {"a": {0: (5, [1]), 1: (5, [2])}})
net.codes[("offset", "a", 0)] = 5
assert sorted(net.consume("a")) == [1, 2], net.fetched
'''),
]
