HEAD = '''
from kit import env, wire, simnet
from kiel import connection
from kiel.exc import BrokerConnectionError
from kiel.protocol import metadata, offset, coordinator

class Net(simnet.Net):
    def __init__(self):
        simnet.Net.__init__(self)
        self.conn = connection.Connection("h", 1)
        self.frames = []
        assert self.call(self.conn.connect).done
        self.peer = self.peers[0]
    def admit(self, host, port):
        return "accept"
    def on_request(self, peer, request):
        self.frames.append(request)
    def send(self, r):
        f = self.conn.send(r)
        self.run()
        return f

def topic(name):
    return metadata.MetadataRequest(topics=[name])
def group(name):
    return coordinator.GroupCoordinatorRequest(group=name)
'''
SEEDS = [
dict(id="conn-kind-by-position", property="C08",
     needs="two outstanding requests of different kinds whose replies come back in the other order",
     what_it_breaks="the reply is decoded as the kind of the oldest outstanding request",
     edits=[("kiel/connection.py", "        api = self.api_correlation.pop(correlation_id)\n",
             "        api = self.api_correlation.pop(min(self.api_correlation))\n")],
     demo=HEAD + '''
net = Net()
a, b = net.send(topic("t")), net.send(group("g"))
fa, fb = net.frames
net.peer.reply(fb, wire.coordinator_body(0, 4, "host", 9)); net.run()
net.peer.reply(fa, wire.metadata_body([(1, "h", 2)], [(0, "t", [])])); net.run()
assert b.done() and b.result().api == "group_coordinator" and b.result().coordinator_host == "host"
assert a.done() and a.result().api == "metadata" and a.result().topics[0].name == "t"
'''),
dict(id="conn-skip-undecodable", property="C09",
     needs="a reply to an outstanding request that is too short for its kind",
     what_it_breaks="the reply is skipped, its request waits for ever and the connection stays up",
     edits=[("kiel/connection.py", '''                message = yield self.read_message()
''', '''                try:
                    message = yield self.read_message()
                except struct.error:
                    log.exception("Could not decode a message.")
                    continue
''')],
     demo=HEAD + '''
net = Net()
a = net.send(topic("t"))
net.peer.send(wire.frame(net.frames[0]["corr"], b"\\0\\0\\0\\1\\0")); net.run()
assert a.done() and a.exception() is not None
assert net.peer.eof
'''),
]
