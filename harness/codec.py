"""Has kiel write requests, read responses and compress, and records the bytes."""
import gzip
import importlib
import random
import struct

from . import env, simnet, wire

from kiel import connection                     # noqa: E402
from kiel.compression import gzip as kgzip, snappy as ksnappy   # noqa: E402
from kiel.protocol import messages              # noqa: E402


# ------------------------------------------------ values of the specification

def from_limbs(v, w):
    if w == 8:
        n = v[0]
    else:
        n = 0
        for x in v:
            n = n * 65536 + x
    return n - (1 << w) if n >> (w - 1) else n


def to_limbs(n, w):
    if isinstance(n, bool) or not isinstance(n, int) or not -(1 << (w - 1)) <= n < 1 << (w - 1):
        return [-1]
    n &= (1 << w) - 1
    if w == 8:
        return [n]
    return [(n >> s) & 0xffff for s in range(w - 16, -1, -16)]


def from_text(x):
    if x["n"]:
        return None
    if x["t"]:
        return u"".join(map(chr, x["v"]))
    return bytes(x["v"])


def to_text(x):
    if x is None:
        return dict(n=True, t=False, v=[])
    if isinstance(x, str):
        return dict(n=False, t=True, v=[ord(c) for c in x])
    if isinstance(x, (bytes, bytearray)):
        return dict(n=False, t=False, v=list(x))
    return dict(n=True, t=True, v=[])           # neither


def text_bytes(x):
    v = from_text(x)
    return v.encode("utf-8") if isinstance(v, str) else v


def build(mod, lay, val):
    k = lay["k"]
    if k == "int":
        return from_limbs(val, lay["w"])
    if k in ("str", "bytes"):
        return from_text(val)
    if k == "arr":
        return [build(mod, lay["fs"][0][1], x) for x in val]
    if k == "mset":
        return messages.MessageSet.compressed(val["codec"] or None, [
            messages.Message(magic=0, attributes=0, key=from_text(m[0]), value=from_text(m[1]))
            for m in val["msgs"]])
    return getattr(mod, lay["c"])(**{
        name: build(mod, sub, x) for (name, sub), x in zip(lay["fs"], val)})


MISSING = object()


def observe(lay, x):
    """What a decoded object holds, as a value of the specification."""
    k = lay["k"]
    if k == "int":
        return to_limbs(x, lay["w"])
    if k in ("str", "bytes"):
        return to_text(x)
    if k == "mset":
        return read_messages(x)
    if k == "arr":
        if not isinstance(x, (list, tuple)):
            return [wrong(lay["fs"][0][1])] * 7
        return [observe(lay["fs"][0][1], y) for y in x]
    return [observe(sub, getattr(x, name, MISSING)) for name, sub in lay["fs"]]


def wrong(lay):
    return observe(lay, MISSING)


def read_messages(x):
    out = []
    try:
        for off, m in x.messages:
            out.append([to_limbs(off, 64), to_text(m.key), to_text(m.value)])
    except Exception:
        return [[[-1], to_text(None), to_text(None)]]
    return out


# ------------------------------------------------------------------- the runs

class Net(simnet.Net):
    def admit(self, host, port):
        return "accept"


class Run(object):
    def __init__(self, script):
        self.script, self.ev = script, []
        self.net = Net()
        self.rnd = random.Random(repr(script)[:500])

    def log(self, ev, **kw):
        self.ev.append(dict(kw, ev=ev))

    def raw_of(self, request):
        """The bytes that reach the broker."""
        before = len(self.peer.raw)
        self.conn.send(request)
        self.net.run()
        return self.peer.raw[before:]

    def connect(self):
        self.conn = connection.Connection("h1", 9001)
        self.net.call(self.conn.connect)
        self.peer = self.net.peers[-1]

    # -- requests
    def req(self, c):
        mod = importlib.import_module("kiel.protocol." + c["mod"])
        try:
            raw = self.raw_of(build(mod, c["lay"], c["val"]))
        except Exception:
            raw = b""
        sets = []
        if c["mod"] == "produce":
            sets = self.sets(c, raw)
        val = c["val"]
        fix = c["lay"]["c"] not in ("OffsetCommitV1Request", "OffsetCommitV2Request")
        self.log("req", lay=c["lay"], val=strip(c["lay"], val), raw=list(raw), sets=sets,
                 api=c["api"], fix=fix)

    def sets(self, c, raw):
        given = [p[1] for t in c["val"][2] for p in t[1]]
        try:
            r = wire.decode_request(raw[4:])
            found = [p[1] for _, ps in r["topics"] for p in ps]
        except Exception:
            found = []
        out = []
        for i, g in enumerate(given):
            b = found[i] if i < len(found) else b""
            inner = b""
            if g["codec"]:
                try:
                    rd = wire.Reader(b)
                    rd.i64()
                    _, _, value = wire.decode_message(rd.take(rd.i32()))
                    inner = gzip.decompress(value) if g["codec"] == 1 else b"".join(wire.snappy_decode(value))
                except Exception:
                    pass
            try:
                got, end = messages.MessageSet.parse(struct.pack("!i", len(b)) + b, 0)
                back = read_messages(got)
            except Exception:
                back = [[[-1], to_text(None), to_text(None)]] * (len(g["msgs"]) + 1)
            out.append(dict(codec=g["codec"], msgs=g["msgs"], inner=list(inner), back=back))
        return out

    # -- responses
    def resp(self, c):
        mod = importlib.import_module("kiel.protocol." + c["mod"])
        got, exc = [], ""
        try:
            got = observe(c["lay"], getattr(mod, c["lay"]["c"]).deserialize(bytes(c["raw"])))
        except Exception as e:
            exc = type(e).__name__
        self.log("resp", lay=c["lay"], raw=c["raw"], got=got, exc=exc)

    def tree(self, nodes, packs):
        out = b""
        for n in nodes:
            off = from_limbs(n["off"], 64)
            if n["codec"] == 0:
                m = wire.encode_message(text_bytes(n["key"]), text_bytes(n["value"]))
            else:
                inner = self.tree(n["sub"], packs)
                packed = wire.gzip_encode(inner) if n["codec"] == 1 else wire.snappy_encode(
                    inner, self.rnd.choice([1 << 15, 1 << 15, 50, 7]))
                packs[packed] = inner
                m = wire.encode_message(text_bytes(n["key"]), packed, n["codec"])
            out += wire.encode_entry(off, m)
        return out

    def fetched(self, body, packs, cut):
        mod = importlib.import_module("kiel.protocol.fetch")
        got, exc = [], ""
        try:
            got = observe(FETCH, mod.FetchResponse.deserialize(body))
        except Exception as e:
            exc = type(e).__name__
        self.log("fetch", raw=list(body), got=got, exc=exc, cut=cut,
                 packs=[[list(a), list(b)] for a, b in packs.items()])

    def fetch(self, c):
        packs, topics, cut = {}, [], False
        for t in c["topics"]:
            parts = []
            for p in t["parts"]:
                b = self.tree(p["set"], packs)
                if p["cut"] < 1000:
                    n = len(b) * p["cut"] // 1000 if p["cut"] < 999 else max(0, len(b) - 1)
                    cut = cut or n < len(b)
                    b = b[:n]
                parts.append((from_limbs(p["part"], 32), from_limbs(p["code"], 16),
                              from_limbs(p["hw"], 64), b))
            topics.append((from_text(t["name"]), parts))
        self.fetched(wire.fetch_body(topics), packs, cut)

    def cuts(self, c):
        packs = {}
        b = self.tree(c["set"], packs)
        whole = self.tree(c["set"][:1], packs)
        every = max(1, len(b) // (150 if len(b) < 2000 else 20 if len(b) < 20000 else 4))
        for n in range(0, len(b), every):
            self.fetched(wire.fetch_body([
                (u"t", [(0, 0, 9, b[:n]), (1, 0, 9, whole)]), (u"u", [(7, 0, 8, b"")])]), packs, True)

    # -- compression
    def data(self, n, fill):
        if fill == 0:
            return b"\x00" * n
        if fill == 1:
            return self.rnd.randbytes(n)
        if fill == 2:
            return (b"the quick brown fox %d " * (n // 20 + 1))[:n]
        half = self.rnd.randbytes(n // 2 + 1)
        return (half + half)[:n]

    def comp(self, c):
        data, codec = self.data(c["size"], c["fill"]), c["codec"]
        mod = kgzip if codec == 1 else ksnappy
        head, blocks, left, ref, back, out = [], [], 0, False, False, b""
        try:
            out = mod.compress(data)
            back = mod.decompress(out) == data
        except Exception:
            pass
        try:
            if codec == 1:
                ref = gzip.decompress(out) == data
            else:
                head, pos, got = list(out[:16]), 16, []
                while pos + 4 <= len(out):
                    n = struct.unpack_from("!i", out, pos)[0]
                    if n < 0 or pos + 4 + n > len(out):
                        break
                    got.append(wire._snappy.uncompress(out[pos + 4:pos + 4 + n]))
                    blocks.append([n, len(got[-1])])
                    pos += 4 + n
                left = len(out) - pos
                ref = b"".join(got) == data
        except Exception:
            left = -1
        self.log("comp", codec=codec, size=c["size"], ref=ref, back=back, head=head, blocks=blocks, left=left)

    def decomp(self, c):
        parts = [self.data(n, c["fill"]) for n in c["sizes"]]
        raw = wire.SNAPPY_HEADER
        for p in parts:
            z = wire._snappy.compress(p)
            raw += struct.pack("!i", len(z)) + z
        try:
            back = ksnappy.decompress(raw) == b"".join(parts)
        except Exception:
            back = False
        self.log("decomp", codec=2, sizes=c["sizes"], back=back)

    def trace(self):
        try:
            self.connect()
            for c in self.script["script"]:
                getattr(self, c["k"])(c)
        except simnet.Livelock:
            self.log("hang")
        finally:
            self.net.finish()
        return dict(cfg=dict(x=0), ev=self.ev)


def strip(lay, val):
    """Message sets are judged for themselves."""
    k = lay["k"]
    if k == "mset":
        return []
    if k == "arr":
        return [strip(lay["fs"][0][1], x) for x in val]
    if k == "rec":
        return [strip(sub, x) for (_, sub), x in zip(lay["fs"], val)]
    return val


def _rec(c, *fs):
    return dict(k="rec", w=0, c=c, fs=[list(f) for f in fs])


def _num(w):
    return dict(k="int", w=w, c="", fs=[])


def _arr(t):
    return dict(k="arr", w=32, c="", fs=[["", t]])


_STR = dict(k="str", w=16, c="", fs=[])
FETCH = _rec("FetchResponse", ("topics", _arr(_rec(
    "TopicResponse", ("name", _STR), ("partitions", _arr(_rec(
        "PartitionResponse", ("partition_id", _num(32)), ("error_code", _num(16)),
        ("highwater_mark_offset", _num(64)),
        ("message_set", dict(k="mset", w=32, c="", fs=[])))))))))


def record(script):
    run = Run(script)
    try:
        with env.watchdog(60):
            return run.trace()
    except env.Hung:
        run.ev.append(dict(ev="hang"))
    return dict(cfg=dict(x=0), ev=run.ev)
