HEAD = '''
import sys
from kit import env, wire, simnet
from kiel.clients import Producer

class Net(env.Env):
    """Brokers that note what is produced and answer with given codes."""
    def __init__(self, lead, brokers=(1, 2, 3), **kw):
        env.Env.__init__(self, list(brokers), lead)
        self.codes, self.got, self.waiting, self.auto = [], [], [], True
        kw.setdefault("serializer", lambda m: m[1])
        kw.setdefault("key_maker", lambda m: m[0])
        kw.setdefault("partitioner", lambda k, ps: sorted(ps)[int(k or 0) % len(ps)])
        self.client = Producer(["boot:9999"], **kw)
        assert self.call(self.client.connect).done
    def on_data(self, peer, request):
        sets = {(t, p): [v for _, _, k, v in wire.decode_set(raw)]
                for t, ps in request["topics"] for p, raw in ps}
        self.got.append((peer.b, sets))
        self.waiting.append((peer, request))
        if self.auto:
            self.answer()
    def answer(self, codes=None):
        peer, request = self.waiting.pop(0)
        codes = codes if codes is not None else (self.codes.pop(0) if self.codes else {})
        peer.reply(request, wire.produce_body(
            [(t, [(p, codes.get((t, p), 0), 7) for p, _ in ps]) for t, ps in request["topics"]]))
    def produce(self, t, k, v):
        return self.call(self.client.produce, t, (k, v))
    def values(self, t, p):
        return [v for _, s in self.got for v in s.get((t, p), [])]
'''
SEEDS = [
dict(id="producer-unkeyed-last", property="C04",
     needs="a message without a key queued before one with a key that goes to the same partition",
     what_it_breaks="messages without a key come after all others of the flush",
     edits=[("kiel/clients/producer.py", "            for msg in msgs:\n", "            for msg in sorted(msgs, key=lambda msg: msg.key is None):\n")],
     demo=HEAD + '''
net = Net({"a": {0: 1}}, batch_size=3)
for k, v in ((None, b"one"), (b"0", b"two"), (b"0", b"three")):
    net.produce("a", k, v)
assert [s[("a", 0)] for _, s in net.got] == [[b"one", b"two", b"three"]], net.got
'''),
dict(id="producer-retriable-code", property="C01",
     needs="a broker that answers with not_enough_replicas_after_append (20)",
     what_it_breaks="that code no longer counts as retriable, so the message is dropped",
     edits=[("kiel/constants.py", '''    "not_enough_replicas_after_append",
    "offsets_load''', '''    "offsets_load''')] if False else
           [("kiel/protocol/errors.py", "    if error in RETRIABLE_CODES:",
             "    if error in RETRIABLE_CODES and code < 20:")],
     demo=HEAD + '''
net = Net({"a": {0: 1}})
net.codes = [{("a", 0): 20}]
net.produce("a", b"0", b"x")
net.call(net.client.flush)
assert net.values("a", 0) == [b"x", b"x"], net.got
'''),
dict(id="producer-batch-count", property="C05",
     needs="a batch size above 1 and messages queued for two different topics",
     what_it_breaks="the queue is counted per topic, so a full batch spread over topics is not sent",
     edits=[("kiel/clients/producer.py", "return sum([len(unsent) for unsent in self.unsent.values()])",
             "return max([len(unsent) for unsent in self.unsent.values()] or [0])")],
     demo=HEAD + '''
net = Net({"a": {0: 1}, "b": {0: 2}}, batch_size=3)
net.produce("a", b"0", b"1"); net.produce("b", b"0", b"2")
assert not net.got
net.produce("a", b"0", b"3")
assert sorted(net.values("a", 0) + net.values("b", 0)) == [b"1", b"2", b"3"], net.got
'''),
dict(id="producer-stale-leaders", property="C03",
     needs="a partition leader that moves between two live brokers while topics and partitions stay the same, then a retry",
     what_it_breaks="the leader table is only replaced when the partition lists changed, so retries keep going to the old leader",
     edits=[("kiel/cluster.py", "        self.topics = topics\n        self.leaders = leaders\n",
             "        if topics != self.topics or missing:\n            self.topics = topics\n            self.leaders = leaders\n")],
     demo=HEAD + '''
net = Net({"a": {0: 1, 1: 2}})
net.codes = [{("a", 0): 6}]
net.lead["a"][0] = 3
net.produce("a", b"0", b"x")
net.call(net.client.flush)
assert [b for b, s in net.got if ("a", 0) in s] == [1, 3], net.got
'''),
dict(id="producer-mixed-reply-resend", property="C02",
     needs="one request with two partitions of the same topic, the first in the reply acknowledged, the second to be retried",
     what_it_breaks="the messages of the acknowledged partition are queued again together with those to be retried",
     edits=[("kiel/clients/producer.py", '''                    msgs = self.sent[response.correlation_id][topic.name].pop(
                        partition.partition_id
                    )
                    self.queue_retries(topic.name, msgs)''',
'''                    sent = self.sent[response.correlation_id]
                    for msgs in sent.pop(topic.name, {}).values():
                        self.queue_retries(topic.name, msgs)''')],
     demo=HEAD + '''
net = Net({"a": {0: 1, 1: 1}}, batch_size=2)
net.codes = [{("a", 1): 7}]
net.produce("a", b"0", b"x"); net.produce("a", b"1", b"y")
net.call(net.client.flush)
assert net.values("a", 0) == [b"x"] and net.values("a", 1) == [b"y", b"y"], net.got
'''),
]
