"""Drives Client.send() and close() and records what they did."""
from . import env, simnet, wire

from tornado import gen
from kiel.clients.client import Client
from kiel.protocol import coordinator, offset


def request_for(c, b, kind):
    name = "c%d-b%d" % (c, b)
    if kind == 2:
        return coordinator.GroupCoordinatorRequest(group=name)
    return offset.OffsetRequest(replica_id=-1, topics=[offset.TopicRequest(
        name=name, partitions=[offset.PartitionRequest(
            partition_id=0, time=-1, max_offsets=1)])])


def parse(name):
    c, b = name.split("-")
    return int(c[1:]), int(b[1:])


class ClientEnv(env.Env):
    def __init__(self, script):
        lead = {}
        for t, p, b in script["lead"]:
            lead.setdefault(t, {})[p] = b
        env.Env.__init__(self, [1, 2, 3], lead)
        self.script = script
        self.waiting, self.open = [], []
        self.closing = False
        net = self

        class Subject(Client):
            def handle_offset_response(self, response):
                name = response.topics[0].name
                heal = response.topics[0].partitions[0].error_code != 0
                c, b = parse(name)
                net.log("handled", c=c, b=net.broker_of(response), **{"from": b, "heal": heal})
                if heal:
                    self.heal_cluster = True
                    return name
                return net.slowly(name) if b == 2 else name

            def wind_down(self):
                return net.wind_down()

        self.ids = {}           # correlation id -> broker it was sent to
        self.client = Subject(["boot:9999"])

    def broker_of(self, response):
        return self.ids.get(response.correlation_id, 0)

    @gen.coroutine
    def slowly(self, name):
        yield gen.moment
        raise gen.Return(name)

    @gen.coroutine
    def wind_down(self):
        if self.script["wind"] == "raise":
            yield gen.moment
            raise RuntimeError("wind_down failed")
        if self.script["wind"] == "send":
            yield self.send(self.calls, [1, 1, 1, 0])

    def send(self, c, to):
        requests = {}
        for b, kind in zip((1, 2, 3, 7), to):
            if kind:
                requests[b] = request_for(c, b, kind)
                self.ids[requests[b].correlation_id] = b
        return self.client.send(requests)

    def on_request(self, peer, request):
        if request["api"] == "metadata":
            self.log("mreq", b=peer.b)
        env.Env.on_request(self, peer, request)

    def on_data(self, peer, request):
        name = request["group"] if request["api"] == "group_coordinator" \
            else request["topics"][0][0]
        try:
            c, b = parse(name)
        except ValueError:
            c, b = 0, 0
        self.log("req", c=c, b=peer.b if b == peer.b else 0, n=peer.number)
        self.waiting.append((c, peer, request))

    def take(self, b):
        self.waiting = [w for w in self.waiting if w[1].alive]
        for w in self.waiting:
            if w[1].b == b:
                self.waiting.remove(w)
                return w

    def answer(self, w, flag):
        c, peer, request = w
        if request["api"] == "group_coordinator":
            self.log("reply", c=c, b=peer.b, kind="none")
            peer.reply(request, wire.coordinator_body(0, 1, "h", 1))
        else:
            self.log("reply", c=c, b=peer.b, kind="heal" if flag else "plain")
            name = request["topics"][0][0]
            peer.reply(request, wire.offset_body([(name, [(0, 6 if flag else 0, [5])])]))

    def results(self, call):
        out = []
        if call.exc is None and isinstance(call.result, dict):
            for b, name in sorted(call.result.items()):
                c, frm = parse(name) if isinstance(name, str) else (0, 0)
                out.append([b, c, frm])
        return dict(results=out)

    def resolve(self):
        for _ in range(60):
            self.run()
            self.open = [c for c in self.open if not c.done]
            if self.release_meta():
                continue
            self.waiting = [w for w in self.waiting if w[1].alive]
            if self.waiting:
                self.answer(self.waiting.pop(0), 0)
                continue
            break
        for c in self.open:
            self.log("hang", c=c.c)
        return not self.open

    def do(self, cmd):
        op = cmd[0]
        if op == "S":
            to = [b for b, k in zip((1, 2, 3, 7), cmd[1]) if k]
            if to:
                c = self.calls + 1
                self.open.append(self.begin(
                    self.send, c, cmd[1], describe=self.results,
                    event=dict(op="send", to=to)))
        elif op == "C":
            if not self.closing:
                self.closing = True
                to = [1, 2, 3] if self.script["wind"] == "send" else []
                self.open.append(self.begin(
                    self.client.close, describe=lambda c: dict(results=[]),
                    event=dict(op="close", to=to)))
        elif op == "R":
            w = self.take(cmd[1])
            if w:
                self.answer(w, cmd[2])
        elif op == "RJ":
            w = self.take(cmd[1])
            if w:
                self.log("junk", b=w[1].b, n=w[1].number)
                w[1].send(wire.frame(w[2]["corr"], b"\x00\x00\x00\x02\x00"))
        elif op == "H":
            self.hold_meta = True
        elif op == "K":
            self.hold_conns = True
        elif op == "M":
            self.hold_meta = self.hold_conns = False
            self.release_meta()
        else:
            self.mishap(cmd)
        self.run()

    def trace(self):
        try:
            call = self.call(self.client.connect)
            if not call.done or call.exc:
                self.log("hang", c=0)
                return dict(cfg=dict(x=0), ev=self.ev)
            for cmd in self.script["script"]:
                self.do(cmd)
            self.hold_meta = self.hold_conns = False
            if self.resolve() and not self.closing and self.live():
                self.do(("S", [1, 1, 1, 0]))
                self.resolve()
            self.pump()
            self.log("end")
        except simnet.Livelock:
            self.log("hang", c=self.calls)
        finally:
            self.finish()
        return dict(cfg=dict(x=0), ev=self.ev)


def record(script):
    net = ClientEnv(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang", c=net.calls)
        return dict(cfg=dict(x=0), ev=net.ev)
