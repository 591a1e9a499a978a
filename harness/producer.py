"""Drives the real Producer through scripts and records what it did."""
import json

from . import env, simnet, wire

from kiel.clients import Producer


class ProducerEnv(env.Env):
    def __init__(self, script):
        lead = {}
        for t, p, b in script["lead"]:
            lead.setdefault(t, {})[p] = b
        env.Env.__init__(self, [1, 2, 3], lead)
        self.script = script
        self.conc = bool(script.get("conc"))
        self.codec = script.get("codec", 0)
        self.payload = {}          # value bytes -> (id, key bytes)
        self.count = 0
        self.outstanding = []      # (request number, peer, request)
        self.reqs = 0
        self.open = []
        self.closing = False
        self.plain = bool(script.get("plain"))
        plugs = {} if self.plain else dict(
            serializer=self.serialize, key_maker=self.key_of, partitioner=self.partition)
        self.client = Producer(
            ["boot:9999"], batch_size=script["batch"],
            compression=self.codec or None, required_acks=script.get("acks", -1),
            ack_timeout=script.get("timeout", 500), **plugs)

    # -- what the application plugs into the producer
    def serialize(self, message):
        return message["bytes"]

    def key_of(self, message):
        return None if message["k"] < 0 else b"key-%d" % message["k"]

    def partition(self, key, partitions):
        ps = sorted(partitions)
        if key is None:
            return ps[0]
        if isinstance(key, str):
            key = key.encode()
        return ps[int(key[4:]) % len(ps)]

    @staticmethod
    def canonical(value):
        try:
            if isinstance(value, bytes):
                value = value.decode("utf-8")
            return json.dumps(json.loads(value), sort_keys=True)
        except ValueError:
            return None

    def message(self, k):
        self.count += 1
        i = self.count
        if self.plain:                     # as JSON, without a key
            m = [i, u"\u00e9 %d" % i, {"z": i, "a": [None, 1.5, u"\u20ac"]}, [i, {}]][i % 4]
            self.payload[self.canonical(json.dumps(m))] = (i, None)
            return i, m
        value = (u"\u00e9\u20ac-%d-" % i).encode("utf-8") + bytes(bytearray(
            (i * 37 + j) % 256 for j in range((i * 13) % 50))) + b"!%d" % i
        key = None if k < 0 else b"key-%d" % k
        self.payload[value] = (i, key)
        return i, dict(bytes=value, k=k)

    # -- the brokers
    def on_data(self, peer, request):
        if request["api"] != "produce":
            self.log("malformed", b=peer.b, why=request["api"])
            return
        parts = []
        for t, ps in request["topics"]:
            for p, raw in ps:
                try:
                    msgs = wire.decode_set(raw)
                except Exception as e:
                    self.log("malformed", b=peer.b, why="message set: %s" % e)
                    msgs = []
                ids, codecs = [], set()
                for offset, codec, key, value in msgs:
                    codecs.add(codec)
                    i, k = self.payload.get(self.canonical(value) if self.plain else value, (0, None))
                    ids.append(i if i and k == key else 0)
                parts.append(dict(t=t, p=p, codec=sorted(codecs), ids=ids))
        self.reqs += 1
        self.log("req", r=self.reqs, b=peer.b, n=peer.number, acks=request["acks"],
                 timeout=request["timeout"], parts=parts)
        self.outstanding.append((self.reqs, peer, request))

    def answer(self, item, codes):
        """codes: list to cycle over, or {(t, p): code}."""
        self.outstanding.remove(item)
        r, peer, request = item
        if not peer.alive:
            return
        out, topics, i = [], [], 0
        for t, ps in request["topics"]:
            row = []
            for p, _ in ps:
                if isinstance(codes, dict):
                    c = codes.get((t, p), 0)
                else:
                    c = codes[i % len(codes)]
                i += 1
                row.append((p, c, 1000 + r))
                out.append(dict(t=t, p=p, code=c))
            topics.append((t, row))
        if self.script.get("reverse"):
            topics = [(t, row[::-1]) for t, row in topics[::-1]]
        self.log("reply", r=r, codes=out)
        peer.reply(request, wire.produce_body(topics))
        peer._flush()

    def prune(self):
        self.outstanding = [x for x in self.outstanding if x[1].alive]
        self.open = [c for c in self.open if not c.done]

    def resolve(self):
        """Answers everything until no call is under way."""
        for _ in range(60):
            self.run()
            self.prune()
            if self.release_meta():
                continue
            if self.outstanding:
                self.answer(self.outstanding[0], [0])
                continue
            break
        for call in self.open:
            self.log("hang", c=call.c)
        stuck, self.open = bool(self.open), []
        return not stuck

    def do(self, cmd):
        op = cmd[0]
        if op in "PFC":
            if not self.conc:
                if not self.resolve():
                    return False
            if op == "P":
                i, message = self.message(cmd[2])
                self.open.append(self.begin(
                    self.client.produce, cmd[1], message,
                    event=dict(op="P", id=i, t=cmd[1], k=cmd[2])))
            elif op == "F":
                self.open.append(self.begin(
                    self.client.flush, event=dict(op="F", id=0, t="", k=0)))
            elif not self.closing:
                self.closing = True
                self.open.append(self.begin(
                    self.client.close, event=dict(op="C", id=0, t="", k=0)))
            self.run()
        elif op == "R":
            self.prune()
            mine = [x for x in self.outstanding if x[1].b == cmd[1]] or self.outstanding
            if mine:
                codes = {(t, p): c for t, p, c in cmd[2]}
                have = {(t, p) for t, ps in mine[0][2]["topics"] for p, _ in ps}
                if not have & set(codes):
                    codes = [c for _, _, c in cmd[2]]
                self.answer(mine[0], codes)
                self.run()
        elif op == "H":
            self.hold_meta = True
        elif op == "K":
            self.hold_conns = True
        elif op == "M":
            self.hold_meta = self.hold_conns = False
            self.release_meta()
            self.run()
        else:
            self.mishap(cmd)
            self.prune()
            self.run()
        return True

    def trace(self):
        s = self.script
        cfg = dict(batch=s["batch"], acks=s.get("acks", -1),
                   timeout=s.get("timeout", 500), codec=self.codec, conc=self.conc)
        ok = True
        current = None
        try:
            call = self.call(self.client.connect)
            if not call.done or call.exc:
                self.log("malformed", b=0, why="connect: %r" % (call.exc,))
                ok = False
            for cmd in s["script"] if ok else ():
                current = cmd
                if not self.do(cmd):
                    ok = False
                    break
            self.hold_meta = self.hold_conns = False
            if ok:
                ok = self.resolve()
            drained = ok and bool(self.live()) and not self.closing
            if drained:
                self.make_healthy()
                for _ in range(4):
                    if not self.do(("F",)) or not self.resolve():
                        break
            self.pump()
            self.log("end", drained=drained)
        except simnet.Livelock:
            for call in self.open or [None]:
                if call is None or not call.done:
                    self.log("hang", c=call.c if call else 0)
        finally:
            self.finish()
        return dict(cfg=cfg, ev=self.ev)


def record(script):
    net = ProducerEnv(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang", c=net.calls)
        return dict(cfg=dict(batch=script["batch"], acks=script.get("acks", -1),
                             timeout=script.get("timeout", 500),
                             codec=script.get("codec", 0), conc=net.conc), ev=net.ev)
