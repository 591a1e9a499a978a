HEAD = '''
from kit import env, wire, simnet
from kiel.clients.client import Client
from kiel.clients import Producer
from kiel.protocol import offset
from tornado import gen

class Net(env.Env):
    def __init__(self, lead, brokers=(1, 2, 3), client=None):
        env.Env.__init__(self, list(brokers), lead)
        self.waiting, self.seen = [], []
        net = self
        class Subject(Client):
            def handle_offset_response(self, response):
                net.seen.append(response.topics[0].name)
                return response.topics[0].name
            @gen.coroutine
            def wind_down(self):
                pass
        self.client = client() if client else Subject(["boot:9999"])
        assert self.call(self.client.connect).done
    def on_data(self, peer, request):
        self.waiting.append((peer, request))
    def send(self, brokers):
        c = self.start(self.client.send, {b: offset.OffsetRequest(replica_id=-1, topics=[
            offset.TopicRequest(name="to-%d" % b, partitions=[offset.PartitionRequest(
                partition_id=0, time=-1, max_offsets=1)])]) for b in brokers})
        self.run()
        return c
    def reply(self, b, junk=False):
        for peer, request in list(self.waiting):
            if peer.b == b:
                self.waiting.remove((peer, request))
                if junk:
                    peer.send(wire.frame(request["corr"], b"\\0\\0\\0\\1\\0"))
                else:
                    peer.reply(request, wire.offset_body([(request["topics"][0][0], [(0, 0, [5])])]))
        self.run()
'''
SEEDS = [
dict(id="client-none-known", property="C12",
     needs="a send() all of whose brokers are unknown to the cluster",
     what_it_breaks="send() returns at once when there is nobody to send to, without the refresh the missing brokers call for",
     edits=[("kiel/clients/client.py", "        results = {}\n", "        if not known:\n            raise gen.Return({})\n\n        results = {}\n")],
     demo=HEAD + '''
net = Net({"a": {0: 1}})
n = net.metas
c = net.send([7])
assert c.done and c.result == {} and net.metas == n + 1, (c.exc, net.metas)
'''),
dict(id="client-closing-late", property="C25",
     needs="a message produced while close() is still waiting for the replies to its last flush",
     what_it_breaks="close() marks the client as closing only after winding down, so produce() goes on accepting messages",
     edits=[("kiel/clients/client.py", '''        self.closing = True

        try:
            yield self.wind_down()
        finally:
''', '''        try:
            yield self.wind_down()
        finally:
            self.closing = True
''')],
     demo=HEAD + '''
def producer():
    return Producer(["boot:9999"], batch_size=2, serializer=lambda m: m,
                    key_maker=lambda m: None, partitioner=lambda k, ps: ps[0])
net = Net({"a": {0: 1}}, client=producer)
net.call(net.client.produce, "a", b"one")
x = net.start(net.client.close); net.run()
assert len(net.waiting) == 1
net.start(net.client.produce, "a", b"two")
net.start(net.client.produce, "a", b"three"); net.run()
assert len(net.waiting) == 1, "sent after close() began"
'''),
]
