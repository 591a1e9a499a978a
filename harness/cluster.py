"""Drives one real Cluster and records what it did."""
from . import env, simnet, wire

from kiel.clients import Producer, SingleConsumer
from kiel.cluster import Cluster


class ClusterEnv(env.Env):
    def __init__(self, script):
        lead = {}
        for t, p, b in script["lead"]:
            lead.setdefault(t, {})[p] = b
        env.Env.__init__(self, [1, 2, 3], lead)
        self.script = script
        self.hosts, self.how, named = {}, list(script["hosts"]), []
        for k in range(1, len(self.how) + 1):
            port = 9092 if (k + script.get("ports", 0)) % 2 else 7000 + k
            host = "boot-%s" % "qaz"[k - 1]     # not in alphabetical order
            self.hosts[(host, port)] = k
            named.append(host if port == 9092 else "%s:%d" % (host, port))
        self.ghost = {}
        self.refusals = 0
        self.junk = set()
        self.perr = set()
        self.later = []            # (answers to go, command)
        self.garbled = set()
        self.open = []
        client = {"producer": Producer, "consumer": SingleConsumer}.get(script.get("of"))
        self.client = client and client(named)      # connects its cluster
        self.cluster = self.client.cluster if client else Cluster(named)

    def admit(self, host, port):
        k = self.hosts.get((host, port))
        if k is not None:
            how = self.how[k - 1]
            if how == "refused":
                self.log("boot", k=k, how="refused", n=0)
                return "refuse"
            return "accept"
        return env.Env.admit(self, host, port)

    def on_connect(self, peer):
        k = self.hosts.get(peer.broker)
        peer.k = k
        if k is not None:
            peer.b = 0
            self.log("boot", k=k, how="open", n=peer.number)
        else:
            env.Env.on_connect(self, peer)

    def _refuse(self, stream, host, port, f):
        self.refusals += 1
        if self.refusals % 3:
            env.Env._refuse(self, stream, host, port, f)
        else:           # what a socket says to a name that cannot be encoded
            self.on_refused(host, port)
            f.set_exception(UnicodeError("label empty or too long"))

    def on_refused(self, host, port):
        b = self.at.get((host, port))
        if b is not None:
            self.log("refused", b=b)

    def on_eof(self, peer):
        if peer.b:
            self.log("eof", b=peer.b, n=peer.number, garbled=peer.number in self.garbled)
        else:
            self.log("booteof", n=peer.number)

    def peer_junk(self, peer, request, k):
        self.garbled.add(peer.number)
        body = [b"\x00\x00", b"\x00\x00\x00\x05\x00", b"\x00\x00\x00\x01" + b"\x01" * 5][k % 3]
        corr = request["corr"] if k % 4 else request["corr"] + 1000
        peer.send(wire.frame(corr, body))

    def on_request(self, peer, request):
        if request["api"] != "metadata":
            self.log("malformed", why=request["api"])
            return
        if peer.k is not None:
            how = self.how[peer.k - 1]
            if how == "drop":
                self.log("bootfail", k=peer.k)
                self.log("booteof", n=peer.number)
                peer.close()
                return
            if how == "junk":
                self.log("bootfail", k=peer.k)
                self.peer_junk(peer, request, peer.k + len(self.how))
                return
        elif peer.b in self.junk and not self.metas_in_call and len(self.live()) > 1:
            self.junk.discard(peer.b)
            self.peer_junk(peer, request, self.metas + peer.b)
            return
        env.Env.on_request(self, peer, request)

    def withdraw(self, b):
        """b leaves the metadata, but stays up: its connection is to be closed."""
        if b in self.member and self.member - self.down - {b}:
            self.member.discard(b)
            for t in self.lead:
                for p, l in self.lead[t].items():
                    if l == b:
                        self.lead[t][p] = min(self.member - self.down)

    def answer_metadata(self, peer, request):
        env.Env.answer_metadata(self, peer, request)
        later, self.later = self.later, []
        for k, cmd in later:
            if k > 1:
                self.later.append((k - 1, cmd))
            elif cmd[0] == "W":
                self.withdraw(cmd[1])
            else:
                self.mishap(cmd)

    def metadata(self):
        out = []
        for e, t, ps in env.Env.metadata(self):
            row = []
            for pe, p, l in ps:
                if pe == 0 and self.ghost.get((t, p), 0) > 0:
                    self.ghost[(t, p)] -= 1
                    l = 99
                if pe == 0 and (t, p) in self.perr:
                    pe = 9
                if pe == env.LEADER_NOT_AVAILABLE and self.script.get("stale"):
                    l = self.lead[t][p]     # the leader there used to be
                row.append((pe, p, l))
            out.append((e, t, row))
        return out

    def log_meta(self, peer, brokers, topics, request):
        self.log("meta", b=peer.b, asked=list(request["topics"]), brokers=brokers, topics=[
            dict(t=t, err=e, parts=[[p, -1 if pe == env.LEADER_NOT_AVAILABLE else l]
                                    for pe, p, l in ps]) for e, t, ps in topics])

    def view(self, call):
        c = self.cluster
        tops, leads = [], []
        for t in list(c.topics):
            for p in c.topics[t]:
                tops.append([t, p])
        for t in list(c.leaders):
            for p in list(c.leaders[t]):
                leads.append([t, p, c.get_leader(t, p)])
        return dict(topics=tops, leaders=leads, members=list(c))

    def begin_call(self, op):
        starting = self.client and op == "start"
        call = self.begin(self.client.connect if starting else getattr(self.cluster, op), event=dict(op=op),
                          describe=self.view)
        self.open.append(call)
        self.run()
        self.open = [c for c in self.open if not c.done]

    def settle_calls(self):
        for _ in range(40):
            self.run()
            if not self.release_meta():
                break
        self.open = [c for c in self.open if not c.done]
        for c in self.open:
            self.log("hang", c=c.c)
        return not self.open

    def do(self, cmd):
        op = cmd[0]
        if op == "heal":
            self.begin_call("heal")
        elif op == "H":
            self.hold_meta = True
        elif op == "K":
            self.hold_conns = True
        elif op == "M":
            self.hold_meta = self.hold_conns = False
            if not self.settle_calls():
                return False
            self.log("quiet")
        elif op == "GL":
            self.ghost[(cmd[1], cmd[2])] = cmd[3]
        elif op == "J":
            self.junk.add(cmd[1])
        elif op == "PE":
            self.perr ^= {(cmd[1], cmd[2])}
        elif op == "W":
            self.withdraw(cmd[1])
        elif op == "AT":
            self.later.append((cmd[1], cmd[2]))
        else:
            self.mishap(cmd)
            self.run()
        return True

    def trace(self):
        cfg = dict(hosts=len(self.how))
        try:
            self.hold_conns = self.script.get("slow", False)
            self.begin_call("start")
            self.hold_conns = False
            ok = self.settle_calls()
            self.log("quiet")
            for cmd in self.script["script"] if ok else ():
                if not self.live() and self.metas == 0:
                    break
                if not self.do(cmd):
                    ok = False
                    break
            self.hold_meta = self.hold_conns = False
            if ok and self.settle_calls() and self.metas:
                self.log("quiet")
                self.begin_call("heal")
                if self.settle_calls():
                    self.make_healthy()
                    self.begin_call("heal")
                    self.settle_calls()
                self.pump()
                self.log("quiet")
        except simnet.Livelock:
            self.log("hang", c=self.calls)
        finally:
            self.finish()
        return dict(cfg=cfg, ev=self.ev)


def record(script):
    net = ClusterEnv(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang", c=net.calls)
        return dict(cfg=dict(hosts=len(net.how)), ev=net.ev)
