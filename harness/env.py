"""Brokers played by the harness: metadata, crashes, elections, connects.

Everything a client sees of the cluster goes through here, and every
interaction is logged as an event of the specifications.
"""
import signal

from . import simnet, wire

LEADER_NOT_AVAILABLE, UNKNOWN_TOPIC = 5, 3


class Hung(KeyboardInterrupt):
    """Real time ran out: the code under test loops without yielding."""


class watchdog(object):
    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *_):
        raise Hung()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 5)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Env(simnet.Net):
    """A Kafka cluster.  Subclasses answer the data requests."""

    BOOT = ("boot", 9999)

    def __init__(self, brokers, lead):
        """brokers: ids; lead: {topic: {partition: broker}}"""
        simnet.Net.__init__(self)
        self.ev = []
        self.brokers = {b: ("h%d" % b, 9000 + b) for b in brokers}
        self.at = {addr: b for b, addr in self.brokers.items()}
        self.member = set(brokers)        # brokers the metadata names
        self.lead = {t: dict(ps) for t, ps in lead.items()}
        self.elect = {}                   # (t, p) -> metadata answers to go
        self.leaving = {}                 # crashed broker -> answers to go
        self.down = set()
        self.refuse = {}                  # broker -> connects to refuse
        self.dropmeta = set()             # drop at the next metadata request
        self.topicerr = {}                # topic -> (code, answers to go)
        self.metas_in_call = 0
        self.metas = 0
        self.calls = 0
        self.hold_meta = False
        self.hold_conns = False
        self.held_meta = []
        self.exhausted = False

    # -- logging
    def log(self, ev, **fields):
        fields["ev"] = ev
        self.ev.append(fields)

    # -- connections
    def admit(self, host, port):
        if (host, port) == self.BOOT:
            return "accept"
        b = self.at.get((host, port))
        if b is None or b in self.down or self.brokers[b] != (host, port):
            return "refuse"
        if self.refuse.get(b, 0) > 0:
            self.refuse[b] -= 1
            return "refuse"
        return "hold" if self.hold_conns else "accept"

    def on_connect(self, peer):
        peer.b = self.at.get(peer.broker, 0)
        if peer.b:
            self.log("conn", b=peer.b, n=peer.number)

    def on_refused(self, host, port):
        pass

    def on_eof(self, peer):
        if peer.b:
            self.log("eof", b=peer.b, n=peer.number)

    def on_malformed(self, peer, why):
        self.log("malformed", b=peer.b, why=why)

    def peers_of(self, b):
        return [p for p in self.peers if p.b == b and p.alive]

    def live(self):
        return sorted({p.b for p in self.peers if p.b and p.alive})

    def drop(self, peer):
        """The broker closes the connection."""
        if peer.alive:
            self.log("lost", b=peer.b, n=peer.number)
            peer.outbuf = b""
            peer.requests = []
            peer.close()

    # -- metadata
    def metadata(self):
        """The current answer, as (brokers, topics for the wire)."""
        topics = []
        for t in sorted(self.lead):
            err = 0
            if t in self.topicerr:
                err, left = self.topicerr[t]
                if left <= 1:
                    del self.topicerr[t]
                else:
                    self.topicerr[t] = (err, left - 1)
            parts = []
            for p in sorted(self.lead[t]):
                left = self.elect.get((t, p), 0)
                if left > 0:
                    self.elect[(t, p)] = left - 1
                    parts.append((LEADER_NOT_AVAILABLE, p, -1))
                else:
                    parts.append((0, p, self.lead[t][p]))
            topics.append((err, t, [] if err else parts))
        return topics

    def tick(self):
        """Called once per metadata answer, before it is made."""
        for b in list(self.leaving):
            if self.leaving[b] <= 0:
                del self.leaving[b]
                if not self.member - {b}:     # somebody has to be there
                    self.down.discard(b)
                    continue
                self.member.discard(b)
                others = sorted(self.member)
                for t in self.lead:
                    for p, l in list(self.lead[t].items()):
                        if l == b and others:
                            self.lead[t][p] = others[p % len(others)]
            else:
                self.leaving[b] -= 1

    def answer_metadata(self, peer, request):
        self.metas += 1
        if self.metas > 300:
            raise simnet.Livelock("metadata is asked for again and again")
        if peer.b:
            self.metas_in_call += 1
        self.tick()
        topics = self.metadata()
        if request["topics"]:
            have = {t: (e, t, ps) for e, t, ps in topics}
            topics = [have.get(t, (UNKNOWN_TOPIC, t, [])) for t in request["topics"]]
        brokers = sorted(self.member)
        self.log_meta(peer, brokers, topics, request)
        peer.reply(request, wire.metadata_body(
            [(b,) + self.brokers[b] for b in brokers],
            [(e, t, [(pe, p, l, [l], [l]) for pe, p, l in ps]) for e, t, ps in topics]))

    def log_meta(self, peer, brokers, topics, request):
        self.log("meta", brokers=brokers, topics=[
            dict(t=t, parts=[[p, l] for pe, p, l in ps if pe != LEADER_NOT_AVAILABLE])
            for e, t, ps in topics if e == 0])

    def on_request(self, peer, request):
        if request["api"] == "metadata":
            if peer.b in self.dropmeta and not self.metas_in_call \
                    and len(self.live()) > 1:
                self.dropmeta.discard(peer.b)
                self.drop(peer)
            elif self.hold_meta:
                self.held_meta.append((peer, request))
            else:
                self.answer_metadata(peer, request)
        else:
            self.on_data(peer, request)

    def release_meta(self):
        held, self.held_meta = self.held_meta, []
        for peer, request in held:
            if peer.alive:
                self.answer_metadata(peer, request)
        more = bool(self.held)
        if more:
            self.release()
        return bool(held) or more

    def on_data(self, peer, request):
        raise NotImplementedError

    def move(self, b):
        """A broker that comes (back) up may do so at another address."""
        if getattr(self, "script", {}).get("moves") and not self.peers_of(b):
            host, port = self.brokers[b]
            self.brokers[b] = ("%sx" % host, port) if port % 2 else (host, port + 11)
            self.at[self.brokers[b]] = b

    # -- things that happen to the cluster; True if the command applied
    def mishap(self, cmd):
        op = cmd[0]
        if op == "L":
            t, p, b = cmd[1:]
            if t in self.lead and p in self.lead[t] and b in self.member \
                    and b not in self.leaving and b not in self.down:
                self.lead[t][p] = b
                return True
        elif op == "E":
            t, p, k = cmd[1:]
            if t in self.lead and p in self.lead[t]:
                self.elect[(t, p)] = k
                return True
        elif op == "X":
            self.dropmeta.add(cmd[1])
            return True
        elif op == "U":
            self.refuse[cmd[1]] = self.refuse.get(cmd[1], 0) + 1 + cmd[1] % 2
            return True
        elif op == "G":
            b = cmd[1]
            rest = [x for x in self.live() if x != b and x in self.member
                    and x not in self.down]
            if b in self.member and b not in self.down and rest:
                self.down.add(b)
                self.leaving[b] = b % 3
                for peer in self.peers_of(b):
                    self.drop(peer)
                return True
        elif op == "V":
            b = cmd[1]
            if b in self.brokers and (b in self.down or b not in self.member):
                self.down.discard(b)
                self.leaving.pop(b, None)
                self.member.add(b)
                self.move(b)
                return True
        elif op == "T-":
            if cmd[1] in self.lead:
                self.gone = getattr(self, "gone", {})
                self.gone[cmd[1]] = self.lead.pop(cmd[1])
                return True
        elif op == "T+":
            t = cmd[1]
            if t not in self.lead:
                old = getattr(self, "gone", {}).get(t, {0: 1})
                ok = sorted(b for b in self.member if b not in self.down)
                self.lead[t] = {p: ok[p % len(ok)] for p in old} if ok else {}
                return bool(ok)
        elif op == "A":
            t, p, b = cmd[1:]
            p = p + 1
            if t in self.lead and p not in self.lead[t] and b in self.member \
                    and b not in self.down:
                self.lead[t][p] = b
                return True
        elif op == "N":
            t, p = cmd[1:]
            if t in self.lead and p in self.lead[t] and len(self.lead[t]) > 1:
                del self.lead[t][p]
                return True
        elif op == "TE":
            if cmd[1] in self.lead:
                self.topicerr[cmd[1]] = (cmd[2], cmd[3])
                return True
        elif op == "DA":
            for b in sorted(self.live()):
                for peer in self.peers_of(b):
                    self.drop(peer)
            return True
        elif op == "D":
            peers = self.peers_of(cmd[1])
            if peers and (len(self.live()) > 1 or len(cmd) > 2):
                for peer in peers:
                    self.drop(peer)
                self.move(cmd[1])
                return True
        return False

    def make_healthy(self):
        self.refuse.clear()
        self.dropmeta.clear()
        self.elect.clear()
        self.topicerr.clear()
        for b in list(self.down):
            if b in self.member:
                self.down.discard(b)
                self.leaving.pop(b, None)
        for t in self.lead:
            for p, l in self.lead[t].items():
                if l not in self.member:
                    self.lead[t][p] = sorted(self.member)[0]
        for t, ps in list(getattr(self, "gone", {}).items()):
            if t not in self.lead:
                self.mishap(("T+", t))

    # -- calls under test
    def begin(self, fn, *args, **kw):
        """Starts a call, logging its beginning and end; kw: event fields."""
        self.calls += 1
        c = self.calls
        net = self
        fields = kw.pop("event", {})
        describe = kw.pop("describe", None)
        name = fields.pop("ev", "call")

        def started(*a, **k):
            net.metas_in_call = 0
            net.log(name, c=c, **fields)
            return fn(*a, **k)

        def done(call):
            net.pump()
            call.label = type(call.exc).__name__ if call.exc else ""
            extra = describe(call) if describe else {}
            net.log("ret", c=c, exc=call.label, **extra)

        call = self.start(started, *args, on_done=done, **kw)
        call.c = c
        return call
