HEAD = '''
from kit import env, wire
import struct, zlib
from kiel.compression import gzip, snappy
from kiel.protocol import messages, fetch, offset, metadata, coordinator, join_group, offset_commit, sync_group
from kiel.protocol.messages import Message, MessageSet

def entry(off, key, value, attributes=0):
    return wire.encode_entry(off, wire.encode_message(key, value, attributes))
def fetched(*parts):
    body = wire.fetch_body([(u"t", [(i, 0, 9, p) for i, p in enumerate(parts)])])
    r = fetch.FetchResponse.deserialize(body)
    assert [p.partition_id for p in r.topics[0].partitions] == list(range(len(parts)))
    return [[(o, m.key, m.value) for o, m in p.message_set.messages] for p in r.topics[0].partitions]
def body(request):
    raw = request.serialize()
    return raw[2 + 2 + 4 + 2 + 4:]
'''
SEEDS = [
dict(id="wire-nothing-said", property="C06",
     needs="a fetched message with neither a key nor a value",
     what_it_breaks="the message is dropped",
     edits=[("kiel/protocol/messages.py", "            else:\n                messages.append(", "            elif message.key or message.value:\n                messages.append(")],
     demo=HEAD + '''
a, b = entry(3, b"k", b"v"), entry(4, None, None)
assert fetched(a + b, b, a) == [[(3, "k", "v"), (4, None, None)], [(4, None, None)], [(3, "k", "v")]]
'''),
dict(id="wire-checksum-of-start", property="C06",
     needs="a message of more than 64 KiB",
     what_it_breaks="its checksum covers the first 64 KiB only",
     edits=[("kiel/protocol/messages.py", "        crc = zlib.crc32(payload)\n", "        crc = zlib.crc32(payload[:65536])\n")],
     demo=HEAD + '''
for n in (0, 1, 65000, 65536, 66000):
    fmt, data = MessageSet.compressed(None, [Message(magic=0, attributes=0, key=None, value=b"v" * n)]).render()
    raw = struct.pack("!" + fmt, *data)
    assert struct.unpack("!I", raw[16:20])[0] == zlib.crc32(raw[20:]), n
'''),
dict(id="wire-wrapper-offsets", property="C06",
     needs="a compressed set with gaps between the offsets of its messages, as log compaction leaves them",
     what_it_breaks="the messages get consecutive offsets that end with the wrapper's",
     edits=[("kiel/protocol/messages.py", "                messages.extend(nested_set.messages)\n",
             '''                first = message_offset - len(nested_set.messages) + 1
                messages.extend([
                    (first + i if message_offset >= first > 0 else nested, msg)
                    for i, (nested, msg) in enumerate(nested_set.messages)
                ])
''')],
     demo=HEAD + '''
inner = entry(5, None, b"a") + entry(9, None, b"b")
assert fetched(entry(9, None, wire.gzip_encode(inner), 1)) == [[(5, None, "a"), (9, None, "b")]]
'''),
dict(id="wire-cut-in-header", property="C07",
     needs="a set, the last of its response, that is cut within the 12 bytes before a message",
     what_it_breaks="the whole response cannot be decoded",
     edits=[("kiel/protocol/messages.py", "            except struct.error:\n", "            except (IndexError, ValueError):\n")],
     demo=HEAD + '''
a, b = entry(3, b"k", b"v"), entry(4, b"l", b"w" * 30)
for n in range(len(b)):
    assert fetched(b, a + b[:n]) == [[(4, "l", "w" * 30)], [(3, "k", "v")]], n
'''),
dict(id="wire-cut-set-gives-none", property="C07",
     needs="a cut-off set with at least one compressed and complete wrapper before the cut",
     what_it_breaks="the messages within wrappers are dropped from cut-off sets",
     edits=[("kiel/protocol/messages.py", "                messages.extend(nested_set.messages)\n",
             "                if struct.calcsize('!q') + offset <= end or offset == end:\n                    messages.extend(nested_set.messages)\n")],
     demo=HEAD + '''
w = entry(4, None, wire.gzip_encode(entry(3, b"k", b"v") + entry(4, None, b"x")), 1)
b = entry(5, b"l", b"w" * 30)
for n in range(len(b)):
    assert fetched(w + b[:n], b) == [[(3, "k", "v"), (4, None, "x")], [(5, "l", "w" * 30)]], n
'''),
dict(id="wire-empty-is-null", property="C22",
     needs="an empty string or byte value that is not null",
     what_it_breaks="it is written as null",
     edits=[("kiel/protocol/primitives.py", "        if self.value is None:\n            return size_format, [-1]\n",
             "        if not self.value:\n            return size_format, [-1]\n")],
     demo=HEAD + '''
assert body(offset_commit.OffsetCommitV0Request(group=u"g", topics=[offset_commit.TopicRequest(name=u"t", partitions=[
    offset_commit.PartitionRequest(partition_id=1, offset=2, metadata=u"")])])) == (
    b"\\0\\1g" b"\\0\\0\\0\\1" b"\\0\\1t" b"\\0\\0\\0\\1" b"\\0\\0\\0\\1" b"\\0\\0\\0\\0\\0\\0\\0\\2" b"\\0\\0")
assert body(coordinator.GroupCoordinatorRequest(group=None)) == b"\\xff\\xff"
'''),
dict(id="wire-protocol-version", property="C22",
     needs="a JoinGroup request with a protocol",
     what_it_breaks="the version of the protocol takes 32 bits instead of 16",
     edits=[("kiel/protocol/join_group.py", '("version", Int16)', '("version", Int32)')],
     demo=HEAD + '''
assert body(join_group.JoinGroupRequest(group_id=u"g", session_timeout=1, member_id=u"", protocol_type=u"c", group_protocols=[
    join_group.GroupProtocol(name=u"r", version=3, subscription=[u"t"], user_data=None)])) == (
    b"\\0\\1g" b"\\0\\0\\0\\1" b"\\0\\0" b"\\0\\1c" b"\\0\\0\\0\\1" b"\\0\\1r" b"\\0\\3" b"\\0\\0\\0\\1" b"\\0\\1t" b"\\xff\\xff\\xff\\xff")
'''),
dict(id="wire-long-arrays", property="C23",
     needs="an offset response with two partitions (an array of 64-bit numbers followed by something)",
     what_it_breaks="what follows such an array is read from the wrong place",
     edits=[("kiel/protocol/primitives.py", '''        values = []
        for _ in range(count):
            value, new_offset''', '''        if cls.item_class.fmt == "q" if hasattr(cls.item_class, "fmt") else 0:
            values = struct.unpack_from("!%dq" % count, buff, offset)
            return list(values), offset + count * Int32.parse(buff, 0)[1]

        values = []
        for _ in range(count):
            value, new_offset''')],
     demo=HEAD + '''
b = wire.offset_body([(u"t", [(0, 0, [7, 5]), (1, 0, [8])])])
r = offset.OffsetResponse.deserialize(b)
assert [(p.partition_id, p.error_code, p.offsets) for p in r.topics[0].partitions] == [(0, 0, [7, 5]), (1, 0, [8])]
'''),
dict(id="wire-trailing-nul", property="C23",
     needs="a string or byte value that ends with a zero byte",
     what_it_breaks="the zero byte is dropped",
     edits=[("kiel/protocol/primitives.py", 'value = value.decode("utf-8")', 'value = value.decode("utf-8").rstrip("\\0")')],
     demo=HEAD + '''
r = coordinator.GroupCoordinatorResponse.deserialize(b"\\0\\0" b"\\0\\0\\0\\4" b"\\0\\3h1\\0" b"\\0\\0\\0\\7")
assert (r.error_code, r.coordinator_id, r.coordinator_host, r.coordinator_port) == (0, 4, "h1\\0", 7)
'''),
dict(id="wire-last-byte", property="C24",
     needs="data of one byte more than a whole number of snappy blocks",
     what_it_breaks="the last byte is not compressed",
     edits=[("kiel/compression/snappy.py", "range(0, len(data), BLOCK_SIZE)", "range(0, max(1, len(data) - 1), BLOCK_SIZE)")],
     demo=HEAD + '''
import os
for n in (0, 1, 2, 100, 32767, 32768, 32769, 65536, 65537):
    d = os.urandom(n)
    z = snappy.compress(d)
    assert snappy.decompress(z) == d and b"".join(wire.snappy_decode(z)) == d, n
'''),
dict(id="wire-short-block", property="C24",
     needs="a snappy stream with a block of less than 32 KiB that is not the last",
     what_it_breaks="what follows it is lost",
     edits=[("kiel/compression/snappy.py", "        output.write(snappy.uncompress(block))\n",
             '''        output.write(snappy.uncompress(block))

        if output.tell() % BLOCK_SIZE and output.tell() > BLOCK_SIZE:
            break
''')],
     demo=HEAD + '''
for d, n in ((b"abc" * 20000, 1000), (b"xyz" * 40000, 32768), (b"x" * 40000, 30000)):
    assert snappy.decompress(wire.snappy_encode(d, n)) == d, n
'''),
dict(id="wire-gzip-large", property="C24",
     needs="more than a megabyte of compressed data",
     what_it_breaks="only the first megabyte is restored",
     edits=[("kiel/compression/gzip.py", "        result = fd.read()\n", "        result = fd.read(1024 * 1024)\n")],
     demo=HEAD + '''
for n in (0, 5, 1 << 20, (1 << 20) + 1):
    assert gzip.decompress(gzip.compress(b"ab" * n)[:]) == b"ab" * n, n
'''),
]
