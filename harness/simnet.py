"""A simulated network under kiel's real connections.

kiel's Connection, Cluster and clients run unmodified on a real asyncio loop and
real tornado IOStreams; only IOStream.connect() is replaced, to plug one end of
a socketpair into the stream.  The harness holds the other ends and plays the
brokers.  The loop is stepped by hand until nothing is left to do ("settled"),
so a run is a deterministic function of its script.
"""
import asyncio
import errno
import logging
import os
import socket
import struct
import sys

REPO = os.environ.get("KIEL_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

logging.disable(logging.CRITICAL)

from tornado import iostream, concurrent  # noqa: E402

from . import wire  # noqa: E402


class Livelock(Exception):
    """The code under test never comes to rest."""


_current = None
_real_connect = iostream.IOStream.connect


def _sim_connect(stream, address, server_hostname=None):
    if _current is None:
        return _real_connect(stream, address, server_hostname)
    return _current._connect(stream, address)


iostream.IOStream.connect = _sim_connect


class Peer(object):
    """The broker's end of one connection."""

    def __init__(self, net, broker, sock):
        self.net, self.broker, self.sock = net, broker, sock
        self.inbuf, self.outbuf = b"", b""
        self.requests = []      # decoded requests not answered yet
        self.raw = b""          # everything ever received
        self.closed = False     # closed by us
        self.eof = False        # closed by the client
        self.stalled = False    # we do not read
        self.number = len(net.peers) + 1

    @property
    def alive(self):
        return not (self.closed or self.eof)

    def send(self, data):
        self.outbuf += data

    def reply(self, request, body):
        if request in self.requests:
            self.requests.remove(request)
        self.send(wire.frame(request["corr"], body))

    def close(self):
        """Closes once everything written so far is out."""
        self._flush()
        if not self.closed:
            self.closed = True
            try:
                self.sock.close()
            except OSError:
                pass

    def _flush(self):
        moved = False
        while self.outbuf and self.alive:
            try:
                n = self.sock.send(self.outbuf[:1 << 16])
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                self.outbuf = b""
                break
            self.outbuf = self.outbuf[n:]
            moved = True
        return moved

    def pump(self):
        """Moves bytes; returns True if anything happened."""
        if self.closed:
            return False
        moved, ended = self._flush(), False
        while not self.eof and not self.stalled:
            try:
                data = self.sock.recv(1 << 16)
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                data = b""
            moved = True
            if not data:
                self.eof = ended = True
                break
            self.raw += data
            self.inbuf += data
        while len(self.inbuf) >= 4 and not self.closed:
            size = struct.unpack_from("!i", self.inbuf)[0]
            if size < 0 or size > 1 << 27:
                self.net.on_malformed(self, "frame of %d bytes" % size)
                self.inbuf = b""
                break
            if len(self.inbuf) < 4 + size:
                break
            frame, self.inbuf = self.inbuf[4:4 + size], self.inbuf[4 + size:]
            try:
                request = wire.decode_request(frame)
            except (wire.Malformed, struct.error) as e:
                self.net.on_malformed(self, str(e))
                continue
            request["frame"] = frame
            self.requests.append(request)
            self.net.on_request(self, request)
            moved = True
        if ended:                  # after what came before it
            self.net.on_eof(self)
        return moved


class Call(object):
    """One call of an api under test."""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.done, self.result, self.exc = False, None, None

    def _start(self):
        try:
            f = self.fn(*self.args, **self.kwargs)
        except Exception as e:
            self._finish(None, e)
            return
        if concurrent.is_future(f):
            f.add_done_callback(self._completed)
        else:
            self._finish(f, None)

    def _completed(self, f):
        if f.cancelled():
            self._finish(None, asyncio.CancelledError())
        elif f.exception() is not None:
            self._finish(None, f.exception())
        else:
            self._finish(f.result(), None)

    def _finish(self, result, exc):
        self.done, self.result, self.exc = True, result, exc
        if self.on_done:
            self.on_done(self)

    on_done = None


class Net(object):
    """The network and the event loop of one run; subclass for the brokers."""

    MAX_STEPS = 4000      # loop iterations in one settle
    MAX_ROUNDS = 400      # settle/pump rounds in one run()
    TIMER_HORIZON = 5.0   # virtual seconds a settle may skip ahead

    def __init__(self):
        global _current
        self.peers = []
        self.held = []        # connects waiting for release()
        self.unhandled = []
        self.now = 1000.0
        self.loop = asyncio.new_event_loop()
        self.loop.time = lambda: self.now
        self.loop.set_exception_handler(
            lambda loop, ctx: self.unhandled.append(str(ctx.get("message"))))
        asyncio.set_event_loop(self.loop)
        _current = self

    # -- to be overridden
    def admit(self, host, port):
        """What a connect to this address does: 'accept', 'refuse' or 'hold'."""
        return "refuse"

    def on_connect(self, peer): pass
    def on_refused(self, host, port): pass
    def on_request(self, peer, request): pass
    def on_malformed(self, peer, why): pass
    def on_eof(self, peer): pass

    # -- connecting
    def _connect(self, stream, address):
        f = concurrent.Future()
        host, port = address[0], address[1]
        verdict = self.admit(host, port)
        if verdict == "hold":
            self.held.append((stream, host, port, f))
        elif verdict == "accept":
            self._accept(stream, host, port, f)
        else:
            self._refuse(stream, host, port, f)
        return f

    def release(self, accept=True):
        held, self.held = self.held, []
        for stream, host, port, f in held:
            if stream.closed():
                f.set_exception(iostream.StreamClosedError())
            elif accept:
                self._accept(stream, host, port, f)
            else:
                self._refuse(stream, host, port, f)

    def _accept(self, stream, host, port, f):
        ours, theirs = socket.socketpair()
        ours.setblocking(False)
        theirs.setblocking(False)
        stream.socket.close()
        stream.socket = theirs
        peer = Peer(self, (host, port), ours)
        peer.stream = stream
        self.peers.append(peer)
        self.on_connect(peer)
        f.set_result(stream)

    def _refuse(self, stream, host, port, f):
        stream.close()
        self.on_refused(host, port)
        f.set_exception(iostream.StreamClosedError(
            real_error=OSError(errno.ECONNREFUSED, "refused")))

    # -- running
    def settle(self):
        quiet = steps = 0
        start = self.now
        while quiet < 2:
            self.loop.call_soon(self.loop.stop)
            self.loop.run_forever()
            steps += 1
            if steps > self.MAX_STEPS:
                raise Livelock("event loop does not come to rest")
            if self.loop._ready or self.loop._selector.select(0):
                quiet = 0
                continue
            quiet += 1
            if quiet == 2:
                due = [h for h in self.loop._scheduled if not h._cancelled]
                if due and min(h._when for h in due) <= start + self.TIMER_HORIZON:
                    self.now = max(self.now, min(h._when for h in due)) + 1e-6
                    quiet = 0

    def pump(self):
        moved = False
        for peer in list(self.peers):
            moved = peer.pump() or moved
        return moved

    def run(self):
        """Lets client and brokers react to each other until all is quiet."""
        for _ in range(self.MAX_ROUNDS):
            self.settle()
            if not self.pump():
                return
        raise Livelock("requests never end")

    def start(self, fn, *args, **kwargs):
        on_done = kwargs.pop("on_done", None)
        call = Call(fn, args, kwargs)
        call.on_done = on_done
        self.loop.call_soon(call._start)
        return call

    def call(self, fn, *args, **kwargs):
        call = self.start(fn, *args, **kwargs)
        self.run()
        return call

    def finish(self):
        global _current
        _current = None
        for peer in self.peers:
            peer.close()
        for stream, _, _, f in self.held:
            stream.close()
        try:
            self.settle()
        except Livelock:
            pass
        for peer in self.peers:
            peer.stream.close()
        for task in asyncio.all_tasks(self.loop):
            task.cancel()
        try:
            self.settle()
        except Livelock:
            pass
        self.loop.close()
        asyncio.set_event_loop(None)
