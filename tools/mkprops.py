"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "The producer never silently drops a message it accepted",
  "Once produce() has accepted a message for a known topic, the message stays the producer's responsibility until a broker acknowledges it or rejects it with a non-retriable error code. After a retriable error code, a missing or disconnected partition leader, or a connection lost before the reply, the next flush (explicit, by a full batch, or at close) sends the message again.",
  ["fault_sequences", "histories", "schedules"],
  "Every history of produce/flush/close calls, every reply code per partition, every broker disconnect point, leader move and metadata answer, including several produce calls in flight at once.",
  "The tests script a handful of single-fault replies on a mocked connection; loss needs a fault at a particular moment (a connection dying between request and reply, a leader vanishing between produce and flush) followed by the right later call.",
  ["kiel/clients/producer.py", "kiel/clients/client.py"],
  [("flush() requeues undeliverable messages", "kiel/clients/producer.py:Producer.flush"),
   ("handle_produce_response requeues on retriable codes", "kiel/clients/producer.py:Producer.handle_produce_response")],
  ["produce requests on the wire", "replies given by brokers"],
  [("unsent", "messages waiting to be sent", "producer.py"), ("sent", "messages in outstanding requests", "producer.py")])

p("C02", "A settled message is never sent again and nothing is fabricated",
  "Every message in a produce request is one that produce() accepted, with its exact topic, key and value. A message already acknowledged, or rejected with a non-retriable error, never appears in a later request, and a message is never in two outstanding requests, or twice in one request.",
  ["fault_sequences", "histories", "schedules"],
  "Every history of produce/flush/close calls with every mix of per-partition reply codes and disconnects, including overlapping flushes.",
  "Tests look at one request at a time; a duplicate needs a multi-partition reply with mixed codes, or a flush overlapping another, and then a look at a later request.",
  ["kiel/clients/producer.py"],
  [("drain() empties the queue as it is batched", "kiel/iterables.py:drain"),
   ("only retriable partitions are requeued", "kiel/clients/producer.py:Producer.handle_produce_response")],
  ["produce requests on the wire"])

p("C03", "Messages go to the partition their key selects, at its current leader",
  "Each produced message is placed in the partition that the partitioner returns for the message's key and the topic's currently known partitions, and the request carrying it is sent to the broker that the most recent metadata names as that partition's leader. This holds again after retries and leader changes.",
  ["histories", "configurations", "fault_sequences"],
  "Every cluster layout (topics, partitions, leaders, broker ids), every partitioner, every sequence of leader moves and retries.",
  "Tests use one fixed layout and never move a leader between a failed attempt and its retry with several topics and brokers involved.",
  ["kiel/clients/producer.py", "kiel/cluster.py"],
  [("ordering messages by leader", "kiel/clients/producer.py:Producer.flush"),
   ("leader table", "kiel/cluster.py:Cluster.process_topics")],
  ["partitioner arguments", "produce requests per broker"])

p("C04", "Per-partition order of produced messages is kept, across retries too",
  "When calls to the producer are awaited one after another, the messages of one partition appear in requests in the order in which they were produced. A message that has to be retried is not overtaken by a later message of the same partition.",
  ["histories", "fault_sequences"],
  "Every sequential history of produce/flush calls, batch size, compression setting and reply-code/disconnect sequence.",
  "Tests never retry a batch of several messages next to newer messages for the same partition and then compare order.",
  ["kiel/clients/producer.py", "kiel/protocol/messages.py"],
  [("FIFO unsent lists", "kiel/clients/producer.py:Producer.queue_retries")],
  ["message order inside and across produce requests"])

p("C05", "Batching holds messages back exactly until the batch is full",
  "No produce request is sent before batch_size messages are queued (a batch size of 0 or 1 sends at once) unless flush() or close() is called; when the batch is full or flush() is called every queued message is put into requests, at most one request per broker, carrying the configured acks, timeout and compression. When produce(), flush() or close() returns, every request it caused has been answered or lost its connection.",
  ["histories", "configurations"],
  "Every batch size, acks, timeout and compression setting and every history of produce/flush calls over several topics.",
  "Tests cover one batch size with one topic; counting mistakes across topics or after retries are not sampled.",
  ["kiel/clients/producer.py"],
  [("unsent_count threshold", "kiel/clients/producer.py:Producer.produce"), ("flush sends all", "kiel/clients/producer.py:Producer.flush")],
  ["timing of produce requests relative to API calls"])

p("C06", "Message sets survive encoding and decoding, with valid checksums",
  "Any list of messages with any null, empty or arbitrary-byte keys and values, under no compression, gzip or snappy, is encoded as a well-formed Kafka v0 message set whose sizes and CRC-32 checksums are correct, and decoding it gives back the same messages in the same order. Decoding any well-formed set, nested compressed sets included, yields each message with its own offset.",
  ["inputs"],
  "Every list of (offset, key, value), every codec, every nesting of compressed sets.",
  "Tests encode two or three short ASCII messages.",
  ["kiel/protocol/messages.py", "kiel/protocol/primitives.py", "kiel/protocol/part.py"],
  [("MessageSet.render/parse/compressed", "kiel/protocol/messages.py:MessageSet"), ("Message CRC", "kiel/protocol/messages.py:Message.render")],
  ["bytes of produce requests", "messages decoded from fetch responses"])

p("C07", "A cut-off message at the end of a fetched set harms nothing else",
  "When a broker truncates a partition's message set at any byte, decoding yields exactly the complete messages before the cut, in order, and every other partition and topic of the same response decodes as if nothing had been cut. No truncation makes the response undecodable.",
  ["inputs"],
  "Every message set, every cut position, every position of the cut partition within the response.",
  "The single test cuts the last message of a lone message set; nothing follows it in the buffer.",
  ["kiel/protocol/messages.py", "kiel/protocol/fetch.py"],
  [("MessageSet.parse end handling", "kiel/protocol/messages.py:MessageSet.parse")],
  ["decoded fetch responses"])

p("C08", "Each reply reaches exactly the request it answers",
  "On one connection, for any set of outstanding requests of any kinds, any order of the broker's replies and any fragmentation of the byte stream, each request's future resolves with the decoded reply carrying its own correlation id. Requests are written whole and in the order sent, and no two outstanding requests share a correlation id.",
  ["schedules", "inputs"],
  "Every interleaving of sends and replies, every reply order, every split of the byte stream into reads.",
  "Tests mock read_message; no test runs real bytes, reorders more than three replies or splits a frame.",
  ["kiel/connection.py", "kiel/protocol/request.py"],
  [("correlation tables", "kiel/connection.py:Connection.send"), ("read loop", "kiel/connection.py:Connection.read_loop")],
  ["futures returned by send()", "bytes on the socket"],
  [("pending", "correlation id -> future", "connection.py"), ("api_correlation", "correlation id -> api", "connection.py")])

p("C09", "No request is left hanging when a connection dies",
  "When a connection ends for any reason (peer close at any byte, undecodable or unexpected data, local close or abort) every request still outstanding on it resolves with an error, those already answered keep their answer, and the socket is closed. From then on sending on it fails at once with a broker connection error and writes nothing.",
  ["fault_sequences", "schedules", "crash_points"],
  "Every prefix of the reply stream at which the connection ends, every way of ending it, every set of outstanding requests.",
  "Two tests that touch this fail on the pinned tree; the others abort a mocked stream.",
  ["kiel/connection.py"],
  [("socket_error_handling", "kiel/connection.py:Connection.socket_error_handling"), ("abort", "kiel/connection.py:Connection.abort")],
  ["futures returned by send()", "peer side of the socket"])

p("C10", "After a refresh the cluster view equals the brokers' metadata",
  "After connecting or healing, the known topics, partitions and leaders are exactly those of the latest metadata (partitions without an available leader are retried until they have one, or left out if the topic is unknown), and there is one live connection to each broker in it and none to a departed broker. Every named leader is a connected broker, learning about one topic never forgets another, and no socket is leaked, also when several refreshes overlap.",
  ["histories", "fault_sequences", "schedules"],
  "Every sequence of metadata answers (brokers joining, leaving, refusing; leaders moving or electing; topics appearing, disappearing, erroring) and every overlap of refreshes.",
  "Tests feed two or three hand-written metadata answers to mocked connections; partial refreshes with several topics and concurrent refreshes are not sampled.",
  ["kiel/cluster.py"],
  [("heal loop", "kiel/cluster.py:Cluster.heal"), ("process_brokers", "kiel/cluster.py:Cluster.process_brokers"), ("process_topics", "kiel/cluster.py:Cluster.process_topics")],
  ["Cluster.topics / get_leader / membership", "sockets open at each broker"])

p("C11", "Bootstrap and metadata lookups fail over until a broker answers",
  "Starting a cluster tries the bootstrap hosts in the given order, moving on after any failure to connect or to answer, uses the first that answers, closes the bootstrap connection, and raises NoBrokersError exactly when none answers. A later refresh succeeds as long as any connected broker answers the metadata request, and otherwise raises NoBrokersError.",
  ["fault_sequences", "configurations"],
  "Every list of bootstrap hosts (with and without ports) and every assignment of outcomes to hosts: refuse, drop before answering, answer garbage, answer.",
  "Tests only fail at connect time, through mocks.",
  ["kiel/cluster.py"],
  [("start loop", "kiel/cluster.py:Cluster.start"), ("get_metadata loop", "kiel/cluster.py:Cluster.get_metadata")],
  ["connection attempts and metadata requests seen by brokers", "result of start/heal"])

p("C12", "One broker's failure does not affect replies from the others",
  "When a client sends requests to several brokers, every reply that arrives is handled exactly once and its handler's result is returned under the broker that sent it; brokers whose connection is lost, missing or broken are left out of the result without disturbing the others. The call returns only when every request has settled, the cluster is refreshed before it returns whenever a reply's handler asked for it or a connection error was reported, and a reply kind the client has no handler for raises UnhandledResponseError.",
  ["schedules", "fault_sequences"],
  "Every set of brokers, every order of replies, every subset failing at every point, and handlers that are plain functions or coroutines.",
  "Tests use one or two mocked connections resolving in fixed order.",
  ["kiel/clients/client.py"],
  [("WaitIterator loop", "kiel/clients/client.py:Client.send")],
  ["return value of send()", "handler calls", "metadata requests"])

p("C13", "Each partition is delivered in order, without gaps or duplicates",
  "Between two offset lookups, successive consume() calls return, for every partition, the deserialized values of consecutive offsets in order, each exactly once, skipping only values that cannot be deserialized or are empty; one bad message never blocks or hides its neighbours. The next fetch of a partition asks for the offset after the last message taken, and a failed, retriable or lost fetch leaves the position unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "Every log content, every split of it into fetch replies (truncation and compression included), every mix of error codes and disconnects between consume calls.",
  "Tests fetch one or two tiny batches; no test continues consuming across errors and checks the concatenation.",
  ["kiel/clients/consumer.py"],
  [("position update", "kiel/clients/consumer.py:BaseConsumer.deserialize_messages")],
  ["fetch requests on the wire", "lists returned by consume()"],
  [("offsets", "next offset per topic and partition", "consumer.py")])

p("C14", "A single consumer starts where the offset lookup says, nowhere else",
  "The first fetch of each partition known when a topic is first consumed uses the offset its leader returned for the requested start (end by default, beginning, or a datetime/timedelta turned into whole epoch seconds), and the topic's lookup is repeated on the next consume() after a broker reports a position out of range. While the lookup for a partition has not succeeded nothing is fetched for the topic: retriable errors and lost connections are retried, a non-retriable error makes consume() return an empty list. A topic not known is looked for with a metadata refresh before consume() gives up on it.",
  ["fault_sequences", "inputs", "configurations"],
  "Every start value, every assignment of codes to partitions and attempts, topic unknown at first, leaders moving between lookup and fetch.",
  "Tests cover one error on one partition each; unknown-topic-then-lookup and partial failures across brokers are not sampled.",
  ["kiel/clients/single.py", "kiel/clients/consumer.py"],
  [("determine_offsets", "kiel/clients/single.py:SingleConsumer.determine_offsets"), ("synced_offsets gate", "kiel/clients/consumer.py:BaseConsumer.consume")],
  ["offset and fetch requests on the wire"])

p("C15", "Every allocated partition is fetched once, from its leader, within budget",
  "Each consume() call on a ready topic asks for every allocated partition of the topic that has a known leader exactly once, in a request to that partition's current leader, with one request per leader, the configured wait time and minimum bytes, and max_bytes divided evenly (rounded down) among the partitions of that request. A retriable fetch error or lost leader triggers a metadata refresh so that a later call uses the new leader.",
  ["configurations", "fault_sequences", "histories"],
  "Every cluster layout, allocation, option setting, leader move and error sequence.",
  "Tests use two brokers with at most three partitions and never move a leader and consume again.",
  ["kiel/clients/consumer.py"],
  [("ordering by leader", "kiel/clients/consumer.py:BaseConsumer.consume"), ("heal on retriable", "kiel/clients/consumer.py:BaseConsumer.handle_fetch_response")],
  ["fetch requests per broker"])

p("C16", "A grouped consumer resumes each owned partition at the committed offset",
  "Before its first fetch of a topic after connecting or after any rebalance, a grouped consumer asks the group coordinator for the committed offsets of exactly the partitions it owns and fetches each from the offset reported. Retriable errors and a lost or moved coordinator are retried until an answer arrives; a non-retriable error makes consume() return an empty list without fetching. consume() refreshes the metadata before it gives up on a topic of which it owns no partition.",
  ["fault_sequences", "histories", "schedules"],
  "Every sequence of coordinator replies, rebalances at any point (also during the lookup), coordinator moves and disconnects.",
  "Tests give one retriable and one fatal reply, with a fixed allocation and no rebalance in between.",
  ["kiel/clients/grouped.py", "kiel/clients/consumer.py"],
  [("determine_offsets", "kiel/clients/grouped.py:GroupedConsumer.determine_offsets"), ("on_rebalance clears synced offsets", "kiel/clients/grouped.py:GroupedConsumer.__init__")],
  ["offset fetch and fetch requests on the wire"])

p("C17", "Commits never run ahead of delivery nor touch partitions not owned",
  "Every offset a grouped consumer commits, with autocommit or commit_offsets(), goes to the coordinator, names a partition it currently owns of a topic it has consumed, and equals its current position there: the offset it resumed from, or the one after the last message it took. Autocommit commits what consume() took before it returns. Retriable failures of any partition are retried until all are committed with the metadata the caller gave, an over-long metadata error is retried with empty metadata, and other errors end the commit without losing the consumed messages.",
  ["fault_sequences", "histories", "schedules"],
  "Every mix of per-partition commit reply codes over several topics, every rebalance point, coordinator loss, autocommit on and off.",
  "Tests use one topic, uniform codes and no rebalance between consume and commit.",
  ["kiel/clients/grouped.py"],
  [("commit_offsets", "kiel/clients/grouped.py:GroupedConsumer.commit_offsets"), ("handle_offset_commit_response", "kiel/clients/grouped.py:GroupedConsumer.handle_offset_commit_response")],
  ["offset commit requests on the wire"],
  [("topics_to_commit", "topics consumed since the last commit", "grouped.py")])

p("C18", "The group coordinator is found as long as some broker knows it",
  "Connecting a grouped consumer asks brokers for the coordinator until one names it, going on to other brokers after retriable errors and failed connections, raises NoBrokersError when no broker is left, and gives up when one answers with a non-retriable error (no offset request or commit is then sent until a coordinator is named). Offset fetches and commits are sent only to the broker last named, and a coordinator that disconnects or disowns the group is looked up again before the request is retried.",
  ["fault_sequences", "schedules"],
  "Every assignment of outcomes to brokers over successive attempts, and every later coordinator move or disconnect.",
  "Tests cover one retriable answer and one fatal answer from mocked brokers that never disconnect.",
  ["kiel/clients/grouped.py"],
  [("determine_coordinator", "kiel/clients/grouped.py:GroupedConsumer.determine_coordinator")],
  ["coordinator, offset fetch and commit requests per broker"])

p("C19", "Group members split the partitions disjointly, completely and evenly",
  "Once all pending ZooKeeper notifications are delivered, every member of a group has computed the same assignment, in which each partition of the shared set belongs to exactly one live member and (with the default allocator) members' counts differ by at most one. The allocator function is always called with the sorted members and sorted partitions, and a member's allocation is empty rather than an error when it owns nothing.",
  ["schedules", "histories", "configurations"],
  "Every interleaving of members joining, leaving and losing sessions, partitions being added and removed, and watch deliveries.",
  "Tests mock kazoo and call the allocator function on one example.",
  ["kiel/zookeeper/allocator.py", "kiel/clients/grouped.py"],
  [("rebalance", "kiel/zookeeper/allocator.py:PartitionAllocator.rebalance"), ("naive_allocator", "kiel/clients/grouped.py:naive_allocator")],
  ["PartitionAllocator.allocation of every member", "allocator_fn arguments"],
  [("members", "last seen members", "allocator.py"), ("partitions", "last seen partition set", "allocator.py")])

p("C20", "Concurrent changes to the shared partition set are never lost",
  "However add and remove calls of several members interleave, the set stored in ZooKeeper ends up as if the calls had run one after another: no added partition vanishes and no removed one survives. A call that changes nothing writes nothing, and every member is told the set's content after each change.",
  ["schedules", "histories"],
  "Every interleaving of the ZooKeeper operations of concurrent add/remove calls, from an absent, empty or filled node.",
  "No test runs two members against one store.",
  ["kiel/zookeeper/shared_set.py", "kiel/zookeeper/allocator.py"],
  [("lock around read-modify-write", "kiel/zookeeper/shared_set.py:SharedSet.add_items")],
  ["znode data", "sequence of ZooKeeper writes", "change callbacks"])

p("C21", "Membership follows sessions and every change triggers a rebalance",
  "Joining leaves exactly one member node, ephemeral and owned by the joining session, replacing a stale node of the same name; stopping removes it (already gone is no error) and a lost session removes it too. Every change of the members or of the shared partitions seen by a member recomputes its allocation and invokes its rebalance callback before the next partition decision, and starting completes only when both have been seen.",
  ["schedules", "histories", "crash_points"],
  "Every order of joins, leaves, session losses and watch deliveries; nodes left over from earlier sessions.",
  "Tests mock the ZooKeeper client and check single calls.",
  ["kiel/zookeeper/party.py", "kiel/zookeeper/allocator.py"],
  [("Party.join/leave", "kiel/zookeeper/party.py:Party"), ("on_group_members_change / on_partition_change", "kiel/zookeeper/allocator.py:PartitionAllocator")],
  ["znodes under the group path", "rebalance callbacks"])

p("C22", "Requests have the exact Kafka v0 wire layout",
  "Every request of every api the library implements is written as its 4-byte length, api key, version, correlation id and client id 'kiel' followed by a body with exactly the fields, widths, order, counts and big-endian values the protocol (as documented with each request class) prescribes for the given field values. Strings are UTF-8 with a 16-bit length, byte fields have a 32-bit length, and null is length -1.",
  ["inputs"],
  "Every api and every assignment of field values, including nulls, empty and nested arrays, non-ASCII text and extreme integers.",
  "The tests compare request objects with request objects; almost no test looks at bytes.",
  ["kiel/protocol/"],
  [("parts tables", "kiel/protocol/*.py"), ("Request.serialize", "kiel/protocol/request.py:Request.serialize"), ("render", "kiel/protocol/primitives.py")],
  ["bytes produced by serialize()", "bytes on the socket"])

p("C23", "Responses decode to exactly the values on the wire",
  "Every well-formed v0 response of every api the library implements (laid out as documented with its class) decodes to an object whose fields hold exactly the encoded values, in order, including nulls, empty and nested arrays, negative and extreme integers and text beyond ASCII. Bytes that are not valid UTF-8 are kept as bytes.",
  ["inputs"],
  "Every api and every response content.",
  "Tests hand ready-made response objects to mocked connections, so decoding is nearly untested.",
  ["kiel/protocol/"],
  [("parts tables", "kiel/protocol/*.py"), ("parse", "kiel/protocol/primitives.py")],
  ["fields of decoded responses"])

p("C24", "Compressed data of any size is framed correctly and restored",
  "For every byte string, gzip and snappy compression followed by decompression gives the identical bytes. Snappy output carries the standard SNAPPY stream header followed by length-prefixed blocks of at most 32 KiB of input each, and decompression accepts any sequence of such blocks.",
  ["inputs"],
  "Every length (empty, below, at and above block boundaries), content and block split.",
  "Tests compress one short string each and one canned three-block example.",
  ["kiel/compression/snappy.py", "kiel/compression/gzip.py"],
  [("block loop", "kiel/compression/snappy.py")],
  ["output bytes of compress/decompress"])

p("C25", "Closing a client sends what is queued, then goes silent",
  "close() sends every message a producer still has queued, has a grouped consumer leave its group, and only then closes every broker connection; a failure of one broker does not keep the other connections open. After close() has begun produce() accepts nothing and consume() returns without fetching, and after it finished no bytes are sent to any broker.",
  ["histories", "schedules", "fault_sequences"],
  "Every state of the client at close (queued messages, dead brokers, requests in flight) and every later or concurrent call.",
  "Tests close idle clients on mocks.",
  ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/grouped.py", "kiel/cluster.py"],
  [("close/wind_down", "kiel/clients/client.py:Client.close"), ("stop", "kiel/cluster.py:Cluster.stop")],
  ["sockets and requests seen by brokers", "ZooKeeper member node"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
