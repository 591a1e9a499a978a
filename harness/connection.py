"""Drives one real Connection and records what it did."""
import socket
import struct

from . import env, simnet, wire

from kiel import connection
from kiel.exc import BrokerConnectionError
from kiel.protocol import (metadata, coordinator, produce, fetch, offset,
                           offset_commit, offset_fetch, messages)

APIS = ["metadata", "produce", "fetch", "offset", "offset_commit",
        "offset_fetch", "group_coordinator"]


def make_request(api, token, size):
    if api == "metadata":
        return metadata.MetadataRequest(topics=[token])
    if api == "produce":
        return produce.ProduceRequest(required_acks=1, timeout=5, topics=[
            produce.TopicRequest(name=token, partitions=[produce.PartitionRequest(
                partition_id=0, message_set=messages.MessageSet([(0, messages.Message(
                    magic=0, attributes=0, key=None, value=b"x" * size))]))])])
    if api == "fetch":
        return fetch.FetchRequest(replica_id=-1, max_wait_time=1, min_bytes=1, topics=[
            fetch.TopicRequest(name=token, partitions=[fetch.PartitionRequest(
                partition_id=0, offset=3, max_bytes=9)])])
    if api == "offset":
        return offset.OffsetRequest(replica_id=-1, topics=[
            offset.TopicRequest(name=token, partitions=[offset.PartitionRequest(
                partition_id=0, time=-1, max_offsets=1)])])
    if api == "offset_commit":
        return offset_commit.OffsetCommitV0Request(group=token, topics=[
            offset_commit.TopicRequest(name=token, partitions=[
                offset_commit.PartitionRequest(partition_id=0, offset=3, metadata="")])])
    if api == "offset_fetch":
        return offset_fetch.OffsetFetchRequest(group_name=token, topics=[
            offset_fetch.TopicRequest(name=token, partitions=[0])])
    return coordinator.GroupCoordinatorRequest(group=token)


def reply_body(api, token, size):
    if api == "metadata":
        return wire.metadata_body([(1, "h", 2)], [(0, token, [])])
    if api == "produce":
        return wire.produce_body([(token, [(0, 0, 5)])])
    if api == "fetch":
        raw = wire.encode_set([(3, None, b"y" * size)])
        return wire.fetch_body([(token, [(0, 0, 9, raw)])])
    if api == "offset":
        return wire.offset_body([(token, [(0, 0, [4])])])
    if api == "offset_commit":
        return wire.offset_commit_body([(token, [(0, 0)])])
    if api == "offset_fetch":
        return wire.offset_fetch_body([(token, [(0, 7, "", 0)])])
    return wire.coordinator_body(0, 1, token, 9)


def token_of_request(r):
    if r["api"] == "metadata":
        return r["topics"][0]
    if r["api"] == "group_coordinator":
        return r["group"]
    return r["topics"][0][0]


def token_of_response(r):
    if r.api == "group_coordinator":
        return r.coordinator_host
    return r.topics[0].name


class ConnectionNet(simnet.Net):
    def __init__(self, script):
        simnet.Net.__init__(self)
        self.script = script
        self.ev = []
        self.reqs = {}          # i -> (api, request object)
        self.arrived = {}       # i -> decoded request
        self.given = set()      # replies queued
        self.outq = []          # [kind, i, bytes left]
        self.batch = False
        self.over = False
        self.dead = False       # nothing can be written to the client any more

    def log(self, ev, **f):
        f["ev"] = ev
        self.ev.append(f)

    def admit(self, host, port):
        return "accept"

    def on_request(self, peer, request):
        try:
            tok = token_of_request(request)
            i = int(tok[1:]) if tok.startswith("r") else 0
        except Exception:
            i = 0
        if i in self.arrived or i not in self.reqs:
            i = i if i not in self.reqs else 0
        if i:
            self.arrived[i] = request
        self.log("arrive", i=i, corr=request["corr"])

    def on_malformed(self, peer, why):
        self.log("malformed", why=why)

    def on_eof(self, peer):
        self.log("eof")

    def quiet(self):
        if self.batch:
            return
        if self.over:
            self.peer.stalled = False
        self.run()
        self.log("quiet", reading=not self.peer.stalled)

    def send(self, api, size):
        i = len(self.reqs) + 1
        name = APIS[api]
        r = make_request(name, "r%d" % i, size)
        self.reqs[i] = (name, r)
        try:
            f = self.conn.send(r)
        except Exception as e:
            self.log("send", i=i, now="raised " + type(e).__name__)
            return
        now = "pending"
        if f.done():
            now = "refused" if isinstance(f.exception(), BrokerConnectionError) else "other"
        self.log("send", i=i, now=now)
        if now == "pending":
            f.add_done_callback(lambda f: self.resolved(i, f))

    def resolved(self, i, f):
        name, r = self.reqs[i]
        if f.cancelled() or f.exception() is not None:
            self.log("resolve", i=i, how="error", of=i, fit=True)
            return
        m = f.result()
        try:
            of = int(str(token_of_response(m))[1:])
            fit = m.api == name and m.correlation_id == r.correlation_id
        except Exception:
            of, fit = 0, False
        self.log("resolve", i=i, how="reply", of=of, fit=bool(fit))

    def deliver(self, n):
        """Writes the next n bytes of the reply stream."""
        while n > 0 and self.outq and not self.dead:
            kind, i, data = self.outq[0]
            part, rest = data[:n], data[n:]
            sent = 0
            while sent < len(part):
                try:
                    sent += self.peer.sock.send(part[sent:])
                except (BlockingIOError, InterruptedError):
                    self.settle()       # let the client read
                    self.peer.pump()
                    if not self.peer.alive:
                        self.dead = True
                        return
                except OSError:
                    self.dead = True
                    return
            n -= len(part)
            if rest:
                self.outq[0][2] = rest
            else:
                self.outq.pop(0)
                if kind == "answer":
                    self.log("answer", i=i)
                else:
                    self.log("garble")
                    self.over = True

    def pending(self):
        return [i for i in sorted(self.arrived) if i not in self.given]

    def do(self, cmd):
        op = cmd[0]
        if op == "S":
            self.send(cmd[1], self.script["size"])
        elif op == "A":
            todo = self.pending()
            if todo:
                i = cmd[1] if cmd[1] in todo else todo[cmd[1] % len(todo)]
                self.given.add(i)
                self.outq.append(["answer", i, wire.frame(
                    self.arrived[i]["corr"],
                    reply_body(self.reqs[i][0], "r%d" % i, self.script["size"]))])
        elif op == "X":
            self.garble(cmd[1])
        elif op == "B":
            self.deliver(cmd[1])
        elif op == "Z":
            self.batch = not self.batch
        elif op == "N":
            self.peer.stalled = True
        elif op == "W":
            self.peer.stalled = False
        elif op == "Q":
            self.batch = False
            self.deliver(1 << 30)
        elif op == "E":
            if not self.dead:
                self.dead = self.over = True
                self.log("end", how=cmd[1])
                if cmd[1] == "orderly":
                    self.peer.sock.shutdown(socket.SHUT_WR)
                else:
                    self.peer.close()
        elif op == "L":
            self.log("local")
            self.over = True
            getattr(self.conn, cmd[1])()
        self.quiet()

    def garble(self, k):
        todo = self.pending()
        corr = self.arrived[todo[0]]["corr"] if todo else 0x7ffffff0
        done = [i for i in self.given if i not in [x[1] for x in self.outq]]
        if k == 1 or (k == 2 and not done):
            data = wire.frame(0x7ffffff1, b"\x00" * 8)
        elif k == 2:
            i = done[0]
            data = wire.frame(self.arrived[i]["corr"],
                              reply_body(self.reqs[i][0], "r%d" % i, 1))
        elif k == 3:
            body = reply_body(self.reqs[todo[0]][0], "r%d" % todo[0], 1) if todo else b""
            data = wire.frame(corr, body[:9])
        elif k == 4:
            data = struct.pack("!i", 2) + b"\x00" * 4
        elif k == 5:
            data = wire.frame(corr, b"\x7f" * 9)
        else:
            data = struct.pack("!i", -7) + b"\x00" * 8
        self.outq.append(["garble", 0, data])

    def trace(self):
        try:
            self.conn = connection.Connection("h1", 9001)
            call = self.call(self.conn.connect)
            if not call.done or call.exc or not self.peers:
                self.log("malformed", why="connect %r" % (call.exc,))
                return dict(cfg=dict(x=0), ev=self.ev)
            self.peer = self.peers[0]
            for cmd in self.script["script"]:
                self.do(cmd)
            self.batch = False
            self.peer.stalled = False
            self.quiet()
            self.deliver(1 << 30)
            self.quiet()
            # every request still waiting is answered, in some order
            for _ in range(20):
                if not self.pending() or self.dead or self.over:
                    break
                self.do(("A", self.script["size"]))
                self.deliver(1 << 30)
                self.quiet()
            if not self.over and self.script["size"] % 2:
                self.do(("S", self.script["size"] % 7))
                self.do(("L", "close"))
            if self.over:
                self.do(("S", self.script["size"] % 7))
        except simnet.Livelock:
            self.log("hang")
        finally:
            self.finish()
        return dict(cfg=dict(x=0), ev=self.ev)


def record(script):
    net = ConnectionNet(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang")
        return dict(cfg=dict(x=0), ev=net.ev)
