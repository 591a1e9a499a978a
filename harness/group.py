"""Drives the real GroupedConsumer over a ZooKeeper in memory and records what it did."""
import json

from . import consumer, env, simnet, wire, zk

import kazoo.client
kazoo.client.KazooClient = zk.Client

from kiel.clients import GroupedConsumer       # noqa: E402
import kiel.clients.grouped as grouped         # noqa: E402
import kiel.zookeeper.allocator                # noqa: E402,F401

zk.patch_threading()

SET = "/kiel/groups/workers/partitions"
MEMBERS = "/kiel/groups/workers/members"
OTHERS = ["!early", "~late"]                   # sort before and after any host name
ITEMS = ["a:0", "a:1", "a:2", "b:0", "b:1", "c:0"]


def greedy(members, partitions):
    """Someone's own allocator: all to the last member but the second one."""
    mapping = {}
    for i, x in enumerate(partitions):
        t, p = x.split(":")
        mapping.setdefault(members[0 if i == 1 else -1], {}).setdefault(t, []).append(int(p))
    return mapping


class GroupEnv(consumer.ConsumerEnv):
    def make(self):
        s = self.script
        self.zk = zk.Server()
        zk.Client.server = self.zk
        self.zk.observe = self.observe
        zk.pumps[:] = [self.zk.pump, self.come_up]
        self.coord = s["coord"]
        self.member -= set(s.get("absent", ()))
        for ps in self.lead.values():
            for p, b in ps.items():
                if b not in self.member:
                    ps[p] = min(self.member)
        self.committed = {}
        self.sessions = {}
        c = GroupedConsumer(
            ["boot:9999"], "workers", ["zk1:2181"], autocommit=s["auto"],
            partition_allocator=self.allocate, max_wait_time=s["wait"],
            min_bytes=s["min"], max_bytes=s["maxb"])
        self.zkc = self.zk.clients[0]
        return c

    def on_refused(self, host, port):
        consumer.ConsumerEnv.on_refused(self, host, port)
        self.log("refused", b=self.at.get((host, port), 0))

    # -- the group
    def come_up(self):
        return any([c.come_up() for c in self.zk.clients])

    def notify_all(self):
        while any([p() for p in zk.pumps]):
            pass

    def allocate(self, members, partitions):
        fn = greedy if self.script["custom"] else grouped.naive_allocator
        got = fn(members, partitions)
        self.log("own", own=sorted([t, p] for t, ps in got.get(self.client.name, {}).items() for p in ps))
        return got

    def observe(self, what, path="", by=None, **kw):
        if what == "delete" and path == MEMBERS + "/" + self.client.name:
            self.log("left")

    def toggle_member(self, name):
        path = MEMBERS + "/" + name
        if path in self.zk.nodes:
            self.zk.remove(path, None)
        elif MEMBERS in self.zk.nodes:
            self.zk.add(path, b"", self.zk.open(), None)
        self.notify_all()

    def toggle_item(self, item):
        if SET not in self.zk.nodes:
            return
        items = set(json.loads(self.zk.nodes[SET].data.decode() or "[]"))
        items ^= {item}
        self.zk.change(SET, json.dumps(sorted(items)).encode(), None)
        self.notify_all()

    # -- the brokers
    def at_commit(self, t, p):
        if (t, p) not in self.committed:
            self.committed[(t, p)] = self.store(t, p).start + self.script["com"][(ord(t) + p) % 4]
        return self.committed[(t, p)]

    def on_data(self, peer, request):
        api = request["api"]
        if api not in ("group_coordinator", "offset_fetch", "offset_commit"):
            if api == "offset":
                self.log("malformed", b=peer.b, why=api)
                return
            return consumer.ConsumerEnv.on_data(self, peer, request)
        self.reqs += 1
        if self.reqs > 400:
            raise simnet.Livelock("requests without end")
        if request["group"] != "workers":
            self.log("malformed", b=peer.b, why="group %r" % request["group"])
        if api == "group_coordinator":
            self.log("creq", r=self.reqs, b=peer.b, n=peer.number)
        elif api == "offset_fetch":
            self.log("lreq", r=self.reqs, b=peer.b, n=peer.number,
                     parts=[[t, p] for t, ps in request["topics"] for p in ps])
        else:
            self.log("kreq", r=self.reqs, b=peer.b, n=peer.number,
                     parts=[[t, p, self.rel(o), "" if m is None else m]
                            for t, ps in request["topics"] for p, o, m in ps])
        self.outstanding.append((self.reqs, peer, request))

    def move_coordinator(self):
        ok = [b for b in sorted(self.member) if b not in self.down]
        if self.coord not in ok and ok:
            self.coord = ok[0]
            return True
        return False

    def answer(self, item, codes, cut=0, most=99):
        r, peer, request = item
        api = request["api"]
        if api not in ("group_coordinator", "offset_fetch", "offset_commit"):
            return consumer.ConsumerEnv.answer(self, item, codes, cut, most)
        self.outstanding.remove(item)
        if not peer.alive:
            return
        codes = [0 if c == -100 else c for c in codes]
        if api == "group_coordinator":
            code = 15 if self.move_coordinator() else codes[0]
            b = self.coord if code == 0 else -1
            host, port = self.brokers[b] if b > 0 else ("", -1)
            self.log("crep", r=r, code=code, id=max(b, 0))
            peer.reply(request, wire.coordinator_body(code, b, host, port))
            peer._flush()
            return
        if peer.b != self.coord:
            codes = [16]
        body, parts, i = [], [], 0
        for t, ps in request["topics"]:
            row = []
            for x in ps:
                code = codes[i % len(codes)]
                i += 1
                if api == "offset_fetch":
                    off = self.at_commit(t, x) if code == 0 else -1
                    row.append((x, off, "", code))
                    parts.append(dict(t=t, p=x, code=code, off=self.rel(off) if code == 0 else -1))
                else:
                    p, off, _ = x
                    if code == 0:
                        self.committed[(t, p)] = off
                    row.append((p, code))
                    parts.append(dict(t=t, p=p, code=code))
            body.append((t, row[::-1] if self.script["reverse"] else row))
        self.log("lrep" if api == "offset_fetch" else "krep", r=r, parts=parts)
        peer.reply(request, (wire.offset_fetch_body if api == "offset_fetch"
                             else wire.offset_commit_body)(body))
        peer._flush()

    # -- calls
    def begin_op(self, op, fn, *args, **kw):
        t, m = kw.get("t", ""), kw.get("m", "*")
        call = self.begin(fn, *args, describe=self.returned, event=dict(op=op, t=t, m=m))
        call.topic = t
        call.op = op
        self.open.append(call)
        return call

    def begin_consume(self, t, kind):
        self.begin_op("consume", self.client.consume, t, t=t)

    def answer_first(self, api, codes):
        """Answers what has to be answered until there is such a request."""
        for _ in range(12):
            self.run()
            self.prune()
            mine = [x for x in self.outstanding if x[2]["api"] == api]
            if mine:
                return self.answer(mine[0], codes)
            if self.outstanding:
                self.answer(self.outstanding[0], [0])
            elif not self.release_meta():
                return

    def do(self, cmd):
        op = cmd[0]
        if op == "Q":
            if not self.conc and not self.resolve():
                return False
            self.prune()
            if not self.live() and not self.open and not self.closing and self.script["again"]:
                # all brokers lost: the application connects again
                self.make_healthy()
                self.begin_op("connect", self.client.connect)
                self.run()
                if not self.resolve():
                    return False
            if all(c.topic != cmd[1] for c in self.open):
                self.begin_consume(cmd[1], 0)
        elif op == "Y":
            if not self.conc and not self.resolve():
                return False
            self.prune()
            if not self.closing and not any(c.op == "commit" for c in self.open):
                if cmd[1]:
                    m = ["", "x", "", u"caf\u00e9"][cmd[1]]
                    self.begin_op("commit", self.client.commit_offsets, m, m=m)
                else:
                    self.begin_op("commit", self.client.commit_offsets)
        elif op == "C":
            if not self.conc and not self.resolve():
                return False
            if not self.closing:
                self.closing = True
                self.begin_op("close", self.client.close)
        elif op == "RU":
            self.answer_first(cmd[1], cmd[2])
        elif op == "J":
            self.toggle_member(OTHERS[cmd[1] % 2])
        elif op == "P":
            self.toggle_item(ITEMS[cmd[1] % len(ITEMS)])
        elif op == "O":
            t, p = cmd[1], cmd[2]
            self.committed[(t, p)] = self.store(t, p).start + cmd[3]
        elif op == "CM":
            self.coord = cmd[1]
        elif op == "U":
            self.zkc.suspend()
        else:
            return consumer.ConsumerEnv.do(self, cmd)
        self.run()
        return True

    def cfg(self):
        s = self.script
        return dict(wait=s["wait"], min=s["min"], maxb=s["maxb"], conc=self.conc, auto=s["auto"])

    def trace(self):
        ok = True
        try:
            call = self.begin_op("connect", self.client.connect)
            self.run()
            for cmd in self.script["early"]:
                if not call.done:
                    self.do(cmd)
            ok = self.resolve() and not call.exc
            for cmd in self.script["script"] if ok else ():
                if not self.do(cmd):
                    ok = False
                    break
            self.hold_meta = self.hold_conns = False
            ok = ok and self.resolve()
            if ok and self.live() and not self.closing:
                self.make_healthy()
                for t in sorted(self.lead) * 2:
                    if not self.do(("Q", t, 2)) or not self.resolve():
                        break
            self.pump()
            self.log("end")
        except simnet.Livelock:
            for call in self.open or [None]:
                if call is None or not call.done:
                    self.log("hang", c=call.c if call else 0)
        finally:
            zk.pumps[:] = []
            self.finish()
        return dict(cfg=self.cfg(), ev=self.ev)


def record(script):
    net = GroupEnv(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang", c=net.calls)
        return dict(cfg=net.cfg(), ev=net.ev)
    except zk.Stuck:
        net.log("hang", c=net.calls)
        return dict(cfg=net.cfg(), ev=net.ev)
