"""An independent codec for the Kafka v0 wire protocol, broker side.

Written from the protocol description; imports nothing from kiel.  Requests are
decoded strictly (every byte must be accounted for), responses are encoded from
plain python values, so that the harness can play the brokers.
"""
import gzip
import io
import struct
import zlib

try:
    import snappy as _snappy
except ImportError:  # pragma: no cover
    _snappy = None

API = {0: "produce", 1: "fetch", 2: "offset", 3: "metadata", 8: "offset_commit",
       9: "offset_fetch", 10: "group_coordinator", 11: "join_group",
       12: "heartbeat", 13: "leave_group", 14: "sync_group",
       15: "describe_groups", 16: "list_groups"}


class Malformed(Exception):
    pass


class Reader(object):
    def __init__(self, data, pos=0, end=None):
        self.data, self.pos = data, pos
        self.end = len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.pos + n > self.end:
            raise Malformed("need %d bytes at %d of %d" % (n, self.pos, self.end))
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return bytes(out)

    def num(self, fmt):
        return struct.unpack("!" + fmt, self.take(struct.calcsize("!" + fmt)))[0]

    def i8(self): return self.num("b")
    def i16(self): return self.num("h")
    def i32(self): return self.num("i")
    def i64(self): return self.num("q")

    def string(self):
        n = self.i16()
        if n == -1:
            return None
        try:
            return self.take(n).decode("utf-8")
        except UnicodeDecodeError:
            raise Malformed("string is not utf-8")

    def bytes(self):
        n = self.i32()
        return None if n == -1 else self.take(n)

    def array(self, item):
        n = self.i32()
        if n < 0 or n > 1000000:
            raise Malformed("array of %d" % n)
        return [item() for _ in range(n)]

    def done(self):
        if self.pos != self.end:
            raise Malformed("%d bytes left over" % (self.end - self.pos))


# --------------------------------------------------------------- message sets

SNAPPY_HEADER = b"\x82SNAPPY\x00" + struct.pack("!ii", 1, 1)


def snappy_decode(data):
    if not data.startswith(SNAPPY_HEADER):
        raise Malformed("no snappy stream header")
    out, pos = [], len(SNAPPY_HEADER)
    while pos < len(data):
        if pos + 4 > len(data):
            raise Malformed("snappy block length cut")
        n = struct.unpack_from("!i", data, pos)[0]
        pos += 4
        if n < 0 or pos + n > len(data):
            raise Malformed("snappy block cut")
        out.append(_snappy.uncompress(data[pos:pos + n]))
        pos += n
    return out


def snappy_encode(data, block=32 * 1024):
    out = [SNAPPY_HEADER]
    for i in range(0, len(data), block):
        c = _snappy.compress(data[i:i + block])
        out += [struct.pack("!i", len(c)), c]
    return b"".join(out)


def decode_message(raw):
    """Strictly decodes one message; returns (attributes, key, value)."""
    r = Reader(raw)
    crc = r.num("I")
    if zlib.crc32(raw[4:]) & 0xffffffff != crc:
        raise Malformed("bad crc")
    if r.i8() != 0:
        raise Malformed("magic is not 0")
    attributes = r.i8()
    key, value = r.bytes(), r.bytes()
    r.done()
    return attributes, key, value


def decode_set(raw):
    """Decodes a complete message set: list of (offset, codec, key, value).

    Compressed messages are replaced by what they hold; ``codec`` is the codec
    of the outermost wrapper.
    """
    out = []
    r = Reader(raw)
    while r.pos < r.end:
        offset = r.i64()
        attributes, key, value = decode_message(r.take(r.i32()))
        codec = attributes & 3
        if codec == 0:
            out.append((offset, 0, key, value))
        else:
            if codec == 1:
                inner = gzip.decompress(value)
            elif codec == 2:
                inner = b"".join(snappy_decode(value))
            else:
                raise Malformed("codec 3")
            out += [(o, codec, k, v) for o, _, k, v in decode_set(inner)]
    return out


def encode_bytes(b):
    return struct.pack("!i", -1) if b is None else struct.pack("!i", len(b)) + b


def encode_string(s):
    if s is None:
        return struct.pack("!h", -1)
    if not isinstance(s, bytes):
        s = s.encode("utf-8")
    return struct.pack("!h", len(s)) + s


def encode_array(items):
    items = list(items)
    return struct.pack("!i", len(items)) + b"".join(items)


def encode_message(key, value, attributes=0):
    body = struct.pack("!bb", 0, attributes) + encode_bytes(key) + encode_bytes(value)
    return struct.pack("!I", zlib.crc32(body) & 0xffffffff) + body


def encode_entry(offset, message):
    return struct.pack("!qi", offset, len(message)) + message


def gzip_encode(data):
    buff = io.BytesIO()
    with gzip.GzipFile(fileobj=buff, mode="wb", mtime=0) as fd:
        fd.write(data)
    return buff.getvalue()


def encode_set(entries, codec=0, wrapper_offset=None):
    """entries: list of (offset, key, value).  With a codec: one wrapper."""
    raw = b"".join(encode_entry(o, encode_message(k, v)) for o, k, v in entries)
    if not codec:
        return raw
    packed = gzip_encode(raw) if codec == 1 else snappy_encode(raw)
    if wrapper_offset is None:
        wrapper_offset = entries[-1][0] if entries else 0
    return encode_entry(wrapper_offset, encode_message(None, packed, codec))


# ------------------------------------------------------------------- requests

def _partitions(r, item):
    return r.array(lambda: (r.string(), r.array(item)))


def decode_request(frame):
    """Decodes a request frame (without the length).  Returns a dict."""
    r = Reader(frame)
    key, version, corr = r.i16(), r.i16(), r.i32()
    client = r.string()
    out = dict(api=API.get(key, "api%d" % key), version=version, corr=corr,
               client=client)
    api = out["api"]
    if api == "metadata":
        out["topics"] = r.array(r.string)
    elif api == "produce":
        out["acks"], out["timeout"] = r.i16(), r.i32()

        def part():
            pid = r.i32()
            return pid, r.take(r.i32())
        out["topics"] = _partitions(r, part)
    elif api == "fetch":
        out["replica"], out["wait"], out["min"] = r.i32(), r.i32(), r.i32()
        out["topics"] = _partitions(r, lambda: (r.i32(), r.i64(), r.i32()))
    elif api == "offset":
        out["replica"] = r.i32()
        out["topics"] = _partitions(r, lambda: (r.i32(), r.i64(), r.i32()))
    elif api == "offset_commit":
        out["group"] = r.string()
        out["topics"] = _partitions(r, lambda: (r.i32(), r.i64(), r.string()))
    elif api == "offset_fetch":
        out["group"] = r.string()
        out["topics"] = _partitions(r, r.i32)
    elif api == "group_coordinator":
        out["group"] = r.string()
    else:
        raise Malformed("unexpected api %r" % api)
    r.done()
    return out


# ------------------------------------------------------------------ responses

def i8(n): return struct.pack("!b", n)
def i16(n): return struct.pack("!h", n)
def i32(n): return struct.pack("!i", n)
def i64(n): return struct.pack("!q", n)


def frame(corr, body):
    return struct.pack("!ii", len(body) + 4, corr) + body


def topics_body(topics, part):
    """topics: list of (name, partitions); part encodes one partition."""
    return encode_array(
        encode_string(name) + encode_array(part(p) for p in parts)
        for name, parts in topics)


def metadata_body(brokers, topics):
    """brokers: (id, host, port); topics: (err, name, [(err, pid, leader, replicas, isrs)])"""
    return (
        encode_array(i32(b) + encode_string(h) + i32(p) for b, h, p in brokers) +
        encode_array(
            i16(err) + encode_string(name) + encode_array(
                i16(perr) + i32(pid) + i32(leader) +
                encode_array(map(i32, reps)) + encode_array(map(i32, isrs))
                for perr, pid, leader, reps, isrs in parts)
            for err, name, parts in topics))


def produce_body(topics):
    """topics: (name, [(pid, err, offset)])"""
    return topics_body(topics, lambda p: i32(p[0]) + i16(p[1]) + i64(p[2]))


def fetch_body(topics):
    """topics: (name, [(pid, err, highwater, raw_set)])"""
    return topics_body(
        topics, lambda p: i32(p[0]) + i16(p[1]) + i64(p[2]) + encode_bytes(p[3]))


def offset_body(topics):
    """topics: (name, [(pid, err, [offsets])])"""
    return topics_body(
        topics, lambda p: i32(p[0]) + i16(p[1]) + encode_array(map(i64, p[2])))


def offset_commit_body(topics):
    """topics: (name, [(pid, err)])"""
    return topics_body(topics, lambda p: i32(p[0]) + i16(p[1]))


def offset_fetch_body(topics):
    """topics: (name, [(pid, offset, metadata, err)])"""
    return topics_body(
        topics,
        lambda p: i32(p[0]) + i64(p[1]) + encode_string(p[2]) + i16(p[3]))


def coordinator_body(err, broker_id, host, port):
    return i16(err) + i32(broker_id) + encode_string(host) + i32(port)
