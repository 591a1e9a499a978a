HEAD = '''
from kit import env, wire, simnet
from kiel.cluster import Cluster

class Net(env.Env):
    """A cluster whose bootstrap host is boot:9999, and more as given."""
    def __init__(self, lead, brokers=(1, 2, 3), hosts=("boot:9999",), start=True):
        env.Env.__init__(self, list(brokers), lead)
        self.bad, self.tried, self.then = {}, [], None
        self.cluster = Cluster(list(hosts))
        if start:
            c = self.call(self.cluster.start)
            assert c.done and c.exc is None
    def admit(self, host, port):
        if host.startswith("boot"):
            self.tried.append(host)
            return "refuse" if self.bad.get(host) == "refuse" else "accept"
        return env.Env.admit(self, host, port)
    def on_request(self, peer, request):
        how = self.bad.get(peer.broker[0])
        if how == "junk":
            peer.send(wire.frame(request["corr"], b"\\0\\0\\0\\1\\0"))
        elif how == "drop":
            peer.close()
        else:
            env.Env.on_request(self, peer, request)
    def metadata(self):
        out = env.Env.metadata(self)
        if self.then:
            then, self.then = self.then, None
            then()
        return out
    def view(self):
        c = self.cluster
        return {t: {p: c.get_leader(t, p) for p in ps} for t, ps in c.topics.items() if ps}
'''
SEEDS = [
dict(id="cluster-departed-leader-kept", property="C10",
     needs="a broker that leaves the cluster and led a partition until then",
     what_it_breaks="the connection to it is kept until yet another refresh",
     edits=[("kiel/cluster.py", "        to_drop = set(self.conns.keys()) - set([b.broker_id for b in brokers])\n",
             """        leading = set(
            leader for partitions in self.leaders.values()
            for leader in partitions.values()
        )
        to_drop = set(self.conns.keys()) - leading
        to_drop -= set([b.broker_id for b in brokers])
""")],
     demo=HEAD + '''
net = Net({"a": {0: 3, 1: 1}})
net.lead["a"][0] = 1
net.member.discard(3)
c = net.call(net.cluster.heal)
assert c.done and c.exc is None
assert sorted(net.cluster) == [1, 2] and net.live() == [1, 2], (list(net.cluster), net.live())
'''),
dict(id="cluster-stale-leader", property="C10",
     needs="a partition reported as leader-not-available that still names its old leader",
     what_it_breaks="the old leader is taken for the current one and the election is not waited for",
     edits=[("kiel/cluster.py", "if partition.error_code == errors.leader_not_available:",
             "if partition.error_code == errors.leader_not_available and (\n                        partition.leader not in self.conns):")],
     demo=HEAD + '''
class Stale(Net):
    left = 0
    def metadata(self):
        out = []
        for e, t, ps in Net.metadata(self):
            if self.left:
                self.left -= 1
                ps = [(5, p, 1) for _, p, _ in ps]
            out.append((e, t, ps))
        return out
net = Stale({"a": {0: 1}})
net.lead["a"][0] = 2
net.left = 1
c = net.call(net.cluster.heal)
assert net.view() == {"a": {0: 2}}, net.view()
'''),
dict(id="cluster-boot-shuffled", property="C11",
     needs="bootstrap hosts that are not listed in alphabetical order",
     what_it_breaks="duplicate hosts are removed through a sorted set, which loses the given order",
     edits=[("kiel/cluster.py", "        for host in self.bootstrap_hosts:", "        for host in sorted(set(self.bootstrap_hosts)):")],
     demo=HEAD + '''
net = Net({"a": {0: 1}}, hosts=["boot-z:1", "boot-a:2"], start=False)
c = net.call(net.cluster.start)
assert c.done and c.exc is None and net.tried == ["boot-z"], net.tried
'''),
dict(id="cluster-lookup-gives-up", property="C11",
     needs="a refresh whose first broker loses its connection on the metadata request while others are fine",
     what_it_breaks="the lookup stops at the first lost connection instead of going on to the next broker",
     edits=[("kiel/cluster.py", '''                break
            except (iostream.StreamClosedError, BrokerConnectionError):
                continue
''', '''                break
            except iostream.StreamClosedError:
                continue
            except BrokerConnectionError:
                break
''')],
     demo=HEAD + '''
net = Net({"a": {0: 1}})
net.bad["h1"] = "drop"
c = net.call(net.cluster.heal)
assert c.done and c.exc is None, c.exc
'''),
dict(id="cluster-address-remembered", property="C10",
     needs="a broker that comes back at another address under its old id",
     what_it_breaks="addresses are remembered by broker id, so the broker is dialled at the old one for ever",
     edits=[("kiel/cluster.py", "        self.conns = {}\n", "        self.conns = {}\n        self.addresses = {}\n"),
            ("kiel/cluster.py", "                conn = Connection(broker.host, broker.port)\n",
             """                conn = Connection(*self.addresses.setdefault(
                    broker.broker_id, (broker.host, broker.port)
                ))
""")],
     demo=HEAD + '''
net = Net({"a": {0: 1}})
net.mishap(("D", 2)); net.run()
net.brokers[2] = ("elsewhere", 7)
net.at["elsewhere", 7] = 2
net.mishap(("U", 2))
c = net.call(net.cluster.heal)
assert c.done and c.exc is None and net.live() == [1, 2, 3], net.live()
'''),
dict(id="cluster-cull-only-departed", property="C10",
     needs="a broker whose connection died but which is still named by the metadata, before a refresh",
     what_it_breaks="the dead connection is kept instead of being replaced",
     edits=[("kiel/cluster.py", '''            if self.conns[broker_id].closing:
''', '''            if self.conns[broker_id].closing and broker_id not in [
                    b.broker_id for b in response.brokers
                    if (b.host, b.port) == (
                        self.conns[broker_id].host, self.conns[broker_id].port)
            ]:
''')],
     demo=HEAD + '''
net = Net({"a": {0: 1}})
net.mishap(("D", 2)); net.run()
c = net.call(net.cluster.heal)
assert net.live() == [1, 2, 3], net.live()
'''),
]
