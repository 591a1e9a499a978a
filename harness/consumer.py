"""Drives the real SingleConsumer through scripts and records what it did."""
import calendar
import datetime
import json
import time

from . import env, simnet, wire

from kiel.clients import SingleConsumer

FALSY = [b"null", b"0", b'""', b"[]", b"{}", b"false"]
BAD = [b"{broken", b"\xff\xfe\x00", b"", None, b"nul"]


def value_of(i, kind):
    """The bytes of message i: 0 fine, 1 cannot be deserialized, 2 empty."""
    if kind == 1:
        return BAD[i % len(BAD)]
    if kind == 2:
        return FALSY[i % len(FALSY)]
    return [b"%d" % i, b'{"id": %d}' % i, b"[%d]" % i,
            u'"caf\u00e9 {}"'.format(i).encode("utf-8")][i % 4]


def id_of(value):
    try:
        if isinstance(value, bool):
            return 0
        if isinstance(value, int):
            return value
        if isinstance(value, dict):
            return int(value["id"])
        if isinstance(value, list):
            return int(value[0])
        return int(value.split(" ")[1])
    except Exception:
        return 0


class Log(object):
    """One partition as the brokers store it."""

    def __init__(self, start):
        self.start = self.next = start
        self.batches = []          # (codec, [(offset, kind, id)])

    def append(self, codec, kinds, ids, gap):
        batch = []
        for k, i in zip(kinds, ids):
            batch.append((self.next, k, i))
            self.next += 1 + gap
        self.batches.append((codec, batch))

    def trim(self, n):
        self.batches = self.batches[n:]
        self.start = self.batches[0][1][0][0] if self.batches else self.next

    def read(self, pos, most, cut):
        """(bytes, complete entries) of a fetch at pos."""
        out, entries, last = b"", [], None
        for codec, batch in self.batches:
            if batch[-1][0] < pos or most <= 0:
                continue
            most -= 1
            if not codec:
                for o, k, i in batch:
                    if o >= pos:
                        last = wire.encode_set([(o, None, value_of(i, k))])
                        out += last
                        entries.append([(o, k, i)])
            else:
                last = wire.encode_set(
                    [(o, b"k%d" % i if i % 3 else None, value_of(i, k)) for o, k, i in batch], codec)
                out += last
                entries.append(batch)
        if cut and last:
            keep = [len(last) - 1, len(last) // 2, 13, 12, 8, 3, 27][cut % 7]
            keep = min(keep, len(last) - 1)
            out = out[:len(out) - len(last) + keep]
            entries.pop()
        return out, [e for es in entries for e in es]


class ConsumerEnv(env.Env):
    def __init__(self, script):
        lead = {}
        for t, p, b in script["lead"]:
            lead.setdefault(t, {})[p] = b
        env.Env.__init__(self, [1, 2, 3], lead)
        self.script = script
        self.conc = bool(script.get("conc"))
        self.base = (1 << 40) if script.get("big") else 0
        self.ids = 0
        self.logs = {}
        self.outstanding, self.open = [], []
        self.reqs = 0
        self.closing = False
        self.client = self.make()

    def make(self):
        s = self.script
        kw = {}
        if s.get("own"):
            kw["deserializer"] = self.deserialize
        return SingleConsumer(["boot:9999"], max_wait_time=s["wait"],
                              min_bytes=s["min"], max_bytes=s["maxb"], **kw)

    @staticmethod
    def deserialize(value):
        return json.loads(value)

    def store(self, t, p):
        if (t, p) not in self.logs:
            log = Log(self.base + p * 10)
            self.logs[(t, p)] = log
            self.write(t, p, [0, 0], 0, 0)
        return self.logs[(t, p)]

    def write(self, t, p, kinds, codec, gap):
        ids = [self.ids + i + 1 for i in range(len(kinds))]
        self.ids += len(kinds)
        self.store(t, p).append(codec, kinds, ids, gap)

    def rel(self, offset):
        """Offsets as the specification sees them."""
        n = offset - self.base
        return n if -(1 << 30) < n < (1 << 30) else -(1 << 30)

    # -- the brokers
    def on_data(self, peer, request):
        self.reqs += 1
        api = request["api"]
        if api == "fetch":
            self.log("freq", r=self.reqs, b=peer.b, n=peer.number, replica=request["replica"],
                     wait=request["wait"], min=request["min"],
                     parts=[[t, p, self.rel(o), m] for t, ps in request["topics"] for p, o, m in ps])
        elif api == "offset":
            self.log("oreq", r=self.reqs, b=peer.b, n=peer.number, replica=request["replica"],
                     parts=[[t, p, w if abs(w) < 1 << 31 else 0, m]
                            for t, ps in request["topics"] for p, w, m in ps])
        else:
            self.log("malformed", b=peer.b, why=api)
            return
        self.outstanding.append((self.reqs, peer, request))

    def lookup(self, t, p, when):
        log = self.store(t, p)
        if when == -1:
            return log.next
        if when == -2:
            return log.start
        return log.start + when % (log.next - log.start + 1)

    def answer(self, item, codes, cut=0, most=99):
        self.outstanding.remove(item)
        r, peer, request = item
        if not peer.alive:
            return
        body, parts, i = [], [], 0
        for t, ps in request["topics"]:
            row = []
            for x in ps:
                p, code = x[0], codes[i % len(codes)]
                i += 1
                if request["api"] == "offset":
                    offs = [self.lookup(t, p, x[1])] if code == 0 else []
                    row.append((p, max(code, 0) if code == -100 else code, offs))
                    parts.append(dict(t=t, p=p, code=max(code, 0) if code == -100 else code,
                                      offs=[self.rel(o) for o in offs]))
                else:
                    raw, entries = b"", []
                    log = self.store(t, p)
                    if code == -100:
                        code = 0
                    if code == 0 and not log.start <= x[1] <= log.next:
                        code = 1
                    if code == 0:
                        raw, entries = log.read(x[1], most, cut)
                    row.append((p, code, log.next, raw))
                    parts.append(dict(t=t, p=p, code=code,
                                      msgs=[[self.rel(o), k, m] for o, k, m in entries]))
            body.append((t, row[::-1] if self.script.get("reverse") else row))
        self.log("orep" if request["api"] == "offset" else "frep", r=r, parts=parts)
        peer.reply(request, (wire.offset_body if request["api"] == "offset"
                             else wire.fetch_body)(body))
        peer._flush()

    def prune(self):
        self.outstanding = [x for x in self.outstanding if x[1].alive]
        self.open = [c for c in self.open if not c.done]

    def resolve(self):
        for _ in range(80):
            self.run()
            self.prune()
            if self.release_meta():
                continue
            if not self.open:
                break
            if self.outstanding:
                self.answer(self.outstanding[0], [0])
                continue
            break
        for call in self.open:
            self.log("hang", c=call.c)
        stuck, self.open = bool(self.open), []
        return not stuck

    def start_of(self, kind):
        """(argument, lowest, highest time that it may turn into)"""
        n = self.calls
        if kind == 2:
            return SingleConsumer.BEGINNING, -2, -2
        if kind == 3:
            when = datetime.datetime(2015, 1 + n % 12, 1 + n % 28, n % 24, 59, n % 60,
                                     [0, 1, 999999, 500000][n % 4])
            at = calendar.timegm(when.timetuple())
            return when, at, at
        if kind == 4:
            delta = datetime.timedelta(days=n % 3, seconds=90 * (n + 1), microseconds=(n % 2) * 500000)
            now = int(time.time())
            back = (n % 3) * 86400 + 90 * (n + 1)
            return delta, now - back - 3, now - back + 25    # gmtime() may lag
        return (SingleConsumer.END if kind == 1 else None), -1, -1

    def consume(self, t, start):
        if start is None:
            return self.client.consume(t)
        return self.client.consume(t, start)

    def returned(self, call):
        r = call.result if call.exc is None else None
        return dict(vals=[id_of(v) for v in r] if isinstance(r, list) else [])

    def begin_consume(self, t, kind):
        start, lo, hi = self.start_of(kind)
        call = self.begin(self.consume, t, start, describe=self.returned,
                          event=dict(op="consume", t=t, lo=lo, hi=hi))
        call.topic = t
        self.open.append(call)

    def do(self, cmd):
        op = cmd[0]
        if op == "Q":
            if not self.conc and not self.resolve():
                return False
            self.prune()
            if not self.live() and not self.open and not self.closing and self.script.get("again"):
                # all brokers lost: the application connects again
                self.make_healthy()
                self.open.append(self.begin(
                    self.client.connect, describe=lambda c: dict(vals=[]),
                    event=dict(op="connect", t="", lo=0, hi=0)))
                self.run()
                if not self.resolve():
                    return False
            if all(getattr(c, "topic", "") != cmd[1] for c in self.open):
                self.begin_consume(cmd[1], cmd[2])
        elif op == "C":
            if not self.conc and not self.resolve():
                return False
            if not self.closing:
                self.closing = True
                self.open.append(self.begin(
                    self.client.close, describe=lambda c: dict(vals=[]),
                    event=dict(op="close", t="", lo=0, hi=0)))
        elif op == "R":
            self.prune()
            mine = [x for x in self.outstanding if x[1].b == cmd[1]] or self.outstanding
            if mine:
                self.answer(mine[0], cmd[2], cmd[3], cmd[4])
        elif op == "W":
            self.write(cmd[1], cmd[2], cmd[3], cmd[4], cmd[5])
        elif op == "B":
            self.store(cmd[1], cmd[2]).trim(cmd[3])
        elif op == "Z":
            self.logs.pop((cmd[1], cmd[2]), None)      # made anew
        elif op == "H":
            self.hold_meta = True
        elif op == "K":
            self.hold_conns = True
        elif op == "M":
            self.hold_meta = self.hold_conns = False
            self.release_meta()
        else:
            self.mishap(cmd)
            self.prune()
        self.run()
        return True

    def cfg(self):
        s = self.script
        return dict(wait=s["wait"], min=s["min"], maxb=s["maxb"], conc=self.conc)

    def trace(self):
        ok = True
        try:
            call = self.call(self.client.connect)
            if not call.done or call.exc:
                self.log("malformed", b=0, why="connect: %r" % (call.exc,))
                ok = False
            for cmd in self.script["script"] if ok else ():
                if not self.do(cmd):
                    ok = False
                    break
            self.hold_meta = self.hold_conns = False
            ok = ok and self.resolve()
            if ok and self.live() and not self.closing:
                self.make_healthy()
                for t in sorted(self.lead) * 2:
                    if not self.do(("Q", t, 2)) or not self.resolve():
                        break
            self.pump()
            self.log("end")
        except simnet.Livelock:
            for call in self.open or [None]:
                if call is None or not call.done:
                    self.log("hang", c=call.c if call else 0)
        finally:
            self.finish()
        return dict(cfg=self.cfg(), ev=self.ev)


def record(script):
    net = ConsumerEnv(script)
    try:
        with env.watchdog(20):
            return net.trace()
    except env.Hung:
        net.log("hang", c=net.calls)
        return dict(cfg=net.cfg(), ev=net.ev)
