-------------------------------- MODULE Wire --------------------------------
(* Kafka's v0 wire format, as far as kiel speaks it.

   Layouts.  Every request and response is described by a type:
     Num(w)        a signed big-endian integer of w bits; as a value: its 16-bit
                   limbs, most significant first (one byte for w = 8)
     Str, Byt      length (16 bits, 32 bits) and bytes; -1 is null.  As a value:
                   [n |-> null?, t |-> text?, v |-> code points or bytes]
     Arr(t)        count (32 bits) and elements; as a value: a sequence
     Rec(c, fs)    fields in order; c is the name of the class; as a value: the
                   sequence of the fields' values
     MSet          size (32 bits) and messages.  A value that was read is the
                   sequence of the bytes.

   Encode writes a value, Parse reads one: [ok, v, p], p being the position
   after it.  Set reads a message set.

   Events:
     req(lay, val, raw, sets, api, fix)
                   the request with these values was written to the socket as
                   raw; sets: for each message set in it, in order,
                   [codec, msgs, inner, back]: what it was made of, what a wrapper's
                   value holds (unpacked), and what the code itself reads from
                   it.  fix: the request's version is fixed to 0
     resp(lay, raw, got, exc)
                   raw was decoded to got
     fetch(raw, got, packs, cut, exc)
                   the same for a fetch response, whose wrappers' values hold
                   packs = <<value, inner bytes>>...; cut: some sets are cut
     comp(codec, size, ref, back, head, blocks, left)
                   size bytes were compressed; ref: another decompressor finds
                   the same bytes; back: so does the code's own; snappy: the
                   header, <<length, unpacked length>> of each block, and the
                   number of bytes left over
     decomp(codec, sizes, back)
                   blocks of these sizes were decompressed to the same bytes  *)
EXTENDS Verdict, Bitwise, SequencesExt

Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)

Num(w) == [k |-> "int", w |-> w, c |-> "", fs |-> <<>>]
Str == [k |-> "str", w |-> 16, c |-> "", fs |-> <<>>]
Byt == [k |-> "bytes", w |-> 32, c |-> "", fs |-> <<>>]
MSet == [k |-> "mset", w |-> 32, c |-> "", fs |-> <<>>]
Arr(t) == [k |-> "arr", w |-> 32, c |-> "", fs |-> <<<<"", t>>>>]
Rec(c, fs) == [k |-> "rec", w |-> 0, c |-> c, fs |-> fs]

I8 == Num(8)
I16 == Num(16)
I32 == Num(32)
I64 == Num(64)

--------------------------------------------------------------------------
(* -- the apis.  <<module, class, api key, body>> *)
TopicOf(c, item) == Rec(c, <<<<"name", Str>>, <<"partitions", Arr(item)>>>>)

ProduceReq == Rec("ProduceRequest",
  <<<<"required_acks", I16>>, <<"timeout", I32>>,
    <<"topics", Arr(TopicOf("TopicRequest",
        Rec("PartitionRequest", <<<<"partition_id", I32>>, <<"message_set", MSet>>>>)))>>>>)
FetchReq == Rec("FetchRequest",
  <<<<"replica_id", I32>>, <<"max_wait_time", I32>>, <<"min_bytes", I32>>,
    <<"topics", Arr(TopicOf("TopicRequest",
        Rec("PartitionRequest", <<<<"partition_id", I32>>, <<"offset", I64>>, <<"max_bytes", I32>>>>)))>>>>)
OffsetReq == Rec("OffsetRequest",
  <<<<"replica_id", I32>>,
    <<"topics", Arr(TopicOf("TopicRequest",
        Rec("PartitionRequest", <<<<"partition_id", I32>>, <<"time", I64>>, <<"max_offsets", I32>>>>)))>>>>)
MetadataReq == Rec("MetadataRequest", <<<<"topics", Arr(Str)>>>>)
CommitPart == Rec("PartitionRequest", <<<<"partition_id", I32>>, <<"offset", I64>>, <<"metadata", Str>>>>)
CommitPart1 == Rec("PartitionV1Request",
  <<<<"partition_id", I32>>, <<"offset", I64>>, <<"timestamp", I64>>, <<"metadata", Str>>>>)
Commit0Req == Rec("OffsetCommitV0Request",
  <<<<"group", Str>>, <<"topics", Arr(TopicOf("TopicRequest", CommitPart))>>>>)
Commit1Req == Rec("OffsetCommitV1Request",
  <<<<"group", Str>>, <<"generation", I32>>, <<"consumer_id", I32>>,
    <<"topics", Arr(TopicOf("TopicV1Request", CommitPart1))>>>>)
Commit2Req == Rec("OffsetCommitV2Request",
  <<<<"group", Str>>, <<"generation", I32>>, <<"consumer_id", I32>>, <<"retention_time", I64>>,
    <<"topics", Arr(TopicOf("TopicRequest", CommitPart))>>>>)
OffsetFetchReq == Rec("OffsetFetchRequest",
  <<<<"group_name", Str>>, <<"topics", Arr(TopicOf("TopicRequest", I32))>>>>)
CoordinatorReq == Rec("GroupCoordinatorRequest", <<<<"group", Str>>>>)
JoinReq == Rec("JoinGroupRequest",
  <<<<"group_id", Str>>, <<"session_timeout", I32>>, <<"member_id", Str>>, <<"protocol_type", Str>>,
    <<"group_protocols", Arr(Rec("GroupProtocol",
        <<<<"name", Str>>, <<"version", I16>>, <<"subscription", Arr(Str)>>, <<"user_data", Byt>>>>))>>>>)
HeartbeatReq == Rec("HeartbeatRequest", <<<<"group_id", Str>>, <<"generation_id", I32>>, <<"member_id", Str>>>>)
LeaveReq == Rec("LeaveGroupRequest", <<<<"group_id", Str>>, <<"member_id", Str>>>>)
Assignment == Rec("Assignment",
  <<<<"version", I16>>, <<"topics", Arr(TopicOf("TopicAssignment", I32))>>, <<"user_data", Byt>>>>)
MemberAssignment == Rec("MemberAssignment", <<<<"member_id", Str>>, <<"assignment", Assignment>>>>)
SyncReq == Rec("SyncGroupRequest",
  <<<<"group_id", Str>>, <<"generation_id", I32>>, <<"member_id", Str>>,
    <<"assignments", Arr(MemberAssignment)>>>>)
DescribeReq == Rec("DescribeGroupsRequest", <<<<"groups", Arr(Str)>>>>)
ListReq == Rec("ListGroupsRequest", <<>>)

Requests ==
  << <<"produce", 0, ProduceReq>>, <<"fetch", 1, FetchReq>>, <<"offset", 2, OffsetReq>>,
     <<"metadata", 3, MetadataReq>>, <<"offset_commit", 8, Commit0Req>>,
     <<"offset_commit", 8, Commit1Req>>, <<"offset_commit", 8, Commit2Req>>,
     <<"offset_fetch", 9, OffsetFetchReq>>, <<"coordinator", 10, CoordinatorReq>>,
     <<"join_group", 11, JoinReq>>, <<"heartbeat", 12, HeartbeatReq>>,
     <<"leave_group", 13, LeaveReq>>, <<"sync_group", 14, SyncReq>>,
     <<"describe_groups", 15, DescribeReq>>, <<"list_groups", 16, ListReq>> >>

PartRes(fs) == Rec("PartitionResponse", <<<<"partition_id", I32>>>> \o fs)
TopicsRes(c, part) == Rec(c, <<<<"topics", Arr(TopicOf("TopicResponse", part))>>>>)
ProduceRes == TopicsRes("ProduceResponse", PartRes(<<<<"error_code", I16>>, <<"offset", I64>>>>))
FetchRes == TopicsRes("FetchResponse",
  PartRes(<<<<"error_code", I16>>, <<"highwater_mark_offset", I64>>, <<"message_set", MSet>>>>))
OffsetRes == TopicsRes("OffsetResponse", PartRes(<<<<"error_code", I16>>, <<"offsets", Arr(I64)>>>>))
MetadataRes == Rec("MetadataResponse",
  <<<<"brokers", Arr(Rec("Broker", <<<<"broker_id", I32>>, <<"host", Str>>, <<"port", I32>>>>))>>,
    <<"topics", Arr(Rec("TopicMetadata",
        <<<<"error_code", I16>>, <<"name", Str>>,
          <<"partitions", Arr(Rec("PartitionMetadata",
              <<<<"error_code", I16>>, <<"partition_id", I32>>, <<"leader", I32>>,
                <<"replicas", Arr(I32)>>, <<"isrs", Arr(I32)>>>>))>>>>))>>>>)
CommitRes == TopicsRes("OffsetCommitResponse", PartRes(<<<<"error_code", I16>>>>))
OffsetFetchRes == TopicsRes("OffsetFetchResponse",
  PartRes(<<<<"offset", I64>>, <<"metadata", Str>>, <<"error_code", I16>>>>))
CoordinatorRes == Rec("GroupCoordinatorResponse",
  <<<<"error_code", I16>>, <<"coordinator_id", I32>>, <<"coordinator_host", Str>>, <<"coordinator_port", I32>>>>)
JoinRes == Rec("JoinGroupResponse",
  <<<<"error_code", I16>>, <<"generation_id", I32>>, <<"protocol", Str>>, <<"leader_id", Str>>,
    <<"member_id", Str>>, <<"members", Arr(Rec("Member", <<<<"member_id", Str>>, <<"metadata", Byt>>>>))>>>>)
HeartbeatRes == Rec("HeartbeatResponse", <<<<"error_code", I16>>>>)
LeaveRes == Rec("LeaveGroupResponse", <<<<"error_code", I16>>>>)
SyncRes == Rec("SyncGroupResponse", <<<<"error_code", I16>>, <<"assignments", Arr(MemberAssignment)>>>>)
DescribeRes == Rec("DescribeGroupsResponse",
  <<<<"groups", Arr(Rec("GroupDescription",
      <<<<"error_code", I16>>, <<"group_id", Str>>, <<"state", Str>>, <<"protocol_type", Str>>,
        <<"protocol", Str>>,
        <<"members", Arr(Rec("MemberDescription",
            <<<<"member_id", Str>>, <<"client_id", Str>>, <<"client_host", Str>>, <<"metadata", Byt>>,
              <<"assignment", Assignment>>>>))>>>>))>>>>)
ListRes == Rec("ListGroupsResponse",
  <<<<"error_code", I16>>, <<"groups", Arr(Rec("Group", <<<<"group_id", Str>>, <<"protocol_type", Str>>>>))>>>>)

Responses ==
  << <<"produce", ProduceRes>>, <<"offset", OffsetRes>>, <<"metadata", MetadataRes>>,
     <<"offset_commit", CommitRes>>, <<"offset_fetch", OffsetFetchRes>>, <<"coordinator", CoordinatorRes>>,
     <<"join_group", JoinRes>>, <<"heartbeat", HeartbeatRes>>, <<"leave_group", LeaveRes>>,
     <<"sync_group", SyncRes>>, <<"describe_groups", DescribeRes>>, <<"list_groups", ListRes>> >>

--------------------------------------------------------------------------
(* -- numbers *)
U16(n) == <<n \div 256, n % 256>>
U32(n) == U16(n \div 65536) \o U16(n % 65536)         \* n < 2^31
Minus1(w) == IF w = 16 THEN <<255, 255>> ELSE <<255, 255, 255, 255>>
Count(w, n) == IF w = 16 THEN U16(n) ELSE U32(n)

LimbBytes(v) == FoldLeft(LAMBDA a, x : a \o U16(x), <<>>, v)

(* a count as it stands there: -1 null, -2 not a sensible one *)
CountAt(b, p, w) ==
  LET hi == IF w = 16 THEN 0 ELSE b[p] * 256 + b[p + 1]
      at == IF w = 16 THEN p ELSE p + 2
      lo == b[at] * 256 + b[at + 1]
      null == lo = 65535 /\ (w = 16 \/ hi = 65535)
  IN IF null THEN -1
     ELSE IF (IF w = 16 THEN lo ELSE hi) >= 32768 THEN -2 ELSE hi * 65536 + lo

--------------------------------------------------------------------------
(* -- text *)
Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(q) == FoldLeft(LAMBDA a, x : a \o Utf8Of(x), <<>>, q)

Tail2(x) == x \div 64 = 2                               \* a continuation byte
(* the code points b stands for: [ok, v] *)
RECURSIVE FromUtf8(_, _, _)
FromUtf8(b, p, acc) ==
  IF p > Len(b) THEN [ok |-> TRUE, v |-> acc] ELSE
  LET x == b[p]
      n == IF x < 128 THEN 1 ELSE IF x \in 194..223 THEN 2 ELSE IF x \in 224..239 THEN 3
           ELSE IF x \in 240..244 THEN 4 ELSE 0
      good == n > 0 /\ p + n - 1 <= Len(b) /\ \A i \in 1..(n - 1) : Tail2(b[p + i])
      c == CASE n = 1 -> x
             [] n = 2 -> (x - 192) * 64 + (b[p + 1] % 64)
             [] n = 3 -> (x - 224) * 4096 + (b[p + 1] % 64) * 64 + (b[p + 2] % 64)
             [] n = 4 -> (x - 240) * 262144 + (b[p + 1] % 64) * 4096 + (b[p + 2] % 64) * 64 + (b[p + 3] % 64)
             [] OTHER -> 0
      fit == CASE n = 3 -> c >= 2048 /\ c \notin 55296..57343
               [] n = 4 -> c >= 65536 /\ c <= 1114111
               [] OTHER -> TRUE
  IN IF good /\ fit THEN FromUtf8(b, p + n, Append(acc, c)) ELSE [ok |-> FALSE, v |-> <<>>]

Null == [n |-> TRUE, t |-> FALSE, v |-> <<>>]
Text(q) == [n |-> FALSE, t |-> TRUE, v |-> q]
Raw(b) == [n |-> FALSE, t |-> FALSE, v |-> b]
BytesOf(x) == IF x.t THEN Utf8(x.v) ELSE x.v

(* the same bytes, and null or not alike *)
Alike(x, y) == x.n = y.n /\ (x.n \/ BytesOf(x) = BytesOf(y))
(* what a string field of bytes b holds *)
AsText(b) == LET u == FromUtf8(b, 1, <<>>) IN IF u.ok THEN Text(u.v) ELSE Raw(b)

--------------------------------------------------------------------------
(* -- writing *)
RECURSIVE Encode(_, _)
EncodeAll(fs, v) == Flat([i \in DOMAIN fs |-> Encode(fs[i][2], v[i])])
Encode(t, v) ==
  CASE t.k = "int" -> IF t.w = 8 THEN v ELSE LimbBytes(v)
    [] t.k \in {"str", "bytes"} -> IF v.n THEN Minus1(t.w) ELSE Count(t.w, Len(BytesOf(v))) \o BytesOf(v)
    [] t.k = "arr" -> U32(Len(v)) \o Flat([i \in DOMAIN v |-> Encode(t.fs[1][2], v[i])])
    [] t.k = "rec" -> EncodeAll(t.fs, v)
    [] t.k = "mset" -> U32(Len(v)) \o v

(* -- reading *)
Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0]
RECURSIVE Parse(_, _, _), ParseFields(_, _, _, _), ParseItems(_, _, _, _, _), Limbs(_, _, _)
Limbs(b, p, n) == IF n = 0 THEN <<>> ELSE <<b[p] * 256 + b[p + 1]>> \o Limbs(b, p + 2, n - 1)
ParseFields(fs, b, p, acc) ==
  IF Len(acc) = Len(fs) THEN [ok |-> TRUE, v |-> acc, p |-> p]
  ELSE LET r == Parse(fs[Len(acc) + 1][2], b, p) IN
       IF r.ok THEN ParseFields(fs, b, r.p, Append(acc, r.v)) ELSE Bad
ParseItems(t, b, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
  ELSE LET r == Parse(t, b, p) IN
       IF r.ok THEN ParseItems(t, b, r.p, n - 1, Append(acc, r.v)) ELSE Bad
Parse(t, b, p) ==
  CASE t.k = "int" ->
         IF p + t.w \div 8 - 1 > Len(b) THEN Bad
         ELSE [ok |-> TRUE, v |-> IF t.w = 8 THEN <<b[p]>> ELSE Limbs(b, p, t.w \div 16), p |-> p + t.w \div 8]
    [] t.k = "rec" -> ParseFields(t.fs, b, p, <<>>)
    [] OTHER ->
         LET from == p + t.w \div 8 IN
         IF from - 1 > Len(b) THEN Bad ELSE
         LET n == CountAt(b, p, t.w) IN
         IF t.k = "arr" THEN IF n \in 0..Len(b) THEN ParseItems(t.fs[1][2], b, from, n, <<>>) ELSE Bad
         ELSE IF n = -1 /\ t.k # "mset" THEN [ok |-> TRUE, v |-> Null, p |-> from]
         ELSE IF n < 0 \/ n > Len(b) - from + 1 THEN Bad
         ELSE LET x == SubSeq(b, from, from + n - 1) IN
              [ok |-> TRUE, p |-> from + n,
               v |-> CASE t.k = "str" -> AsText(x) [] t.k = "bytes" -> Raw(x) [] OTHER -> x]

(* the values that two alike *)
RECURSIVE Same(_, _, _)
Same(t, x, y) ==
  CASE t.k = "int" -> x = y
    [] t.k = "str" -> x = y
    [] t.k = "bytes" -> Alike(x, y)
    [] t.k = "arr" -> Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(t.fs[1][2], x[i], y[i])
    [] t.k = "rec" -> Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(t.fs[i][2], x[i], y[i])
    [] t.k = "mset" -> TRUE                             \* judged for itself

--------------------------------------------------------------------------
(* -- CRC-32, in limbs <<high, low>> *)
RECURSIVE CrcBits(_, _)
CrcBits(c, n) ==
  IF n = 0 THEN c
  ELSE LET s == <<c[1] \div 2, c[2] \div 2 + (c[1] % 2) * 32768>> IN
       CrcBits(IF c[2] % 2 = 1 THEN <<s[1] ^^ 60856, s[2] ^^ 33568>> ELSE s, n - 1)
CrcTable == [i \in 0..255 |-> CrcBits(<<0, i>>, 8)]
Crc(b, from, to) ==
  LET c == FoldLeft(LAMBDA a, x : LET t == CrcTable[(a[2] % 256) ^^ x] IN
                                  <<(a[1] \div 256) ^^ t[1], ((a[1] % 256) * 256 + (a[2] \div 256)) ^^ t[2]>>,
                    <<65535, 65535>>, SubSeq(b, from, to))
  IN <<65535 - c[1], 65535 - c[2]>>

--------------------------------------------------------------------------
(* -- message sets *)
Message == Rec("Message", <<<<"crc", I32>>, <<"magic", I8>>, <<"attributes", I8>>, <<"key", Byt>>, <<"value", Byt>>>>)
EncodeMessage(attr, key, value) ==
  LET body == <<0, attr>> \o Encode(Byt, key) \o Encode(Byt, value) IN
  LimbBytes(Crc(body, 1, Len(body))) \o body
EncodeEntry(off, attr, key, value) ==
  LET m == EncodeMessage(attr, key, value) IN LimbBytes(off) \o U32(Len(m)) \o m

(* The entries of a set, up to the one that is cut: [all, es].  An entry: its
   offset, attributes, key, value, and whether it is exactly well formed.  A
   complete entry that is no message at all makes all FALSE, too.           *)
RECURSIVE SetFrom(_, _, _)
SetFrom(b, p, acc) ==
  IF p > Len(b) THEN [all |-> TRUE, es |-> acc]
  ELSE IF p + 11 > Len(b) THEN [all |-> FALSE, es |-> acc]
  ELSE LET n == CountAt(b, p + 8, 32) IN
       IF n < 0 \/ p + 12 + n - 1 > Len(b) THEN [all |-> FALSE, es |-> acc]
       ELSE LET m == Parse(Message, SubSeq(b, p + 12, p + 12 + n - 1), 1) IN
            IF ~m.ok THEN [all |-> FALSE, es |-> acc]
            ELSE SetFrom(b, p + 12 + n,
                   Append(acc, [off |-> Limbs(b, p, 4), attr |-> m.v[3][1], key |-> m.v[4], value |-> m.v[5],
                                body |-> <<p + 16, p + 12 + n - 1>>, crc |-> m.v[1],
                                exact |-> m.p = n + 1 /\ m.v[2] = <<0>>]))
Set(b) == SetFrom(b, 1, <<>>)
CrcRight(b, e) == e.crc = Crc(b, e.body[1], e.body[2])
WellFormed(b) == LET s == Set(b) IN s.all /\ \A i \in DOMAIN s.es : s.es[i].exact /\ CrcRight(b, s.es[i])

(* all messages <<offset, key, value>> of a set, those within wrappers included;
   packs: what the wrappers' values hold *)
RECURSIVE Flatten(_, _)
Inner(packs, value) == (CHOOSE x \in Range(packs) : x[1] = value)[2]
Flatten(b, packs) ==
  LET es == Set(b).es IN
  Flat([i \in DOMAIN es |->
    IF es[i].attr % 4 = 0 THEN <<<<es[i].off, es[i].key, es[i].value>>>>
    ELSE IF \E x \in Range(packs) : x[1] = BytesOf(es[i].value)
         THEN Flatten(Inner(packs, BytesOf(es[i].value)), packs)
         ELSE <<<<<<>>, Null, Null>>>>])
SameMessages(xs, ys) ==
  Len(xs) = Len(ys) /\ \A i \in DOMAIN xs : xs[i][1] = ys[i][1] /\ Alike(xs[i][2], ys[i][2]) /\ Alike(xs[i][3], ys[i][3])
(* the messages of a set that was written, without their offsets *)
Holds(es, msgs) ==
  Len(es) = Len(msgs) /\ \A i \in DOMAIN es :
    es[i].attr = 0 /\ Alike(es[i].key, msgs[i][1]) /\ Alike(es[i].value, msgs[i][2])

(* the message sets of a value, in order *)
RECURSIVE SetsIn(_, _)
SetsIn(t, v) ==
  CASE t.k = "mset" -> <<v>>
    [] t.k = "arr" -> Flat([i \in DOMAIN v |-> SetsIn(t.fs[1][2], v[i])])
    [] t.k = "rec" -> Flat([i \in DOMAIN v |-> SetsIn(t.fs[i][2], v[i])])
    [] OTHER -> <<>>

(* values <<high, low, value>> whose message, without a key, has that checksum *)
Checksums == { <<0, 0, <<100, 134, 227, 19>>>>, <<0, 1, <<37, 128, 146, 200>>>>,
               <<32767, 65535, <<213, 252, 240, 218>>>>, <<32768, 0, <<183, 9, 214, 72>>>>,
               <<32768, 1, <<246, 15, 167, 147>>>>, <<65535, 65535, <<6, 115, 197, 129>>>> }

--------------------------------------------------------------------------
(* -- compression *)
SnappyHeader == <<130, 83, 78, 65, 80, 80, 89, 0, 0, 0, 0, 1, 0, 0, 0, 1>>
Block == 32768

--------------------------------------------------------------------------
Init(cfg) == [ids |-> {}]

Kiel == <<107, 105, 101, 108>>
Header == Rec("", <<<<"size", I32>>, <<"key", I16>>, <<"version", I16>>, <<"id", I32>>, <<"client", Str>>>>)

Step(s, e) ==
  IF e.ev = "req" /\ Len(e.raw) >= 12 THEN [s EXCEPT !.ids = @ \cup {Limbs(e.raw, 9, 2)}] ELSE s

SetClauses(x, b) ==
  LET st == Set(b) IN
  { C("C06", "well-formed", WellFormed(b)),
    C("C06", "encoded",
        IF x.codec = 0 THEN Holds(st.es, x.msgs)
        ELSE /\ Len(st.es) = 1 /\ st.es[1].attr = x.codec
             /\ WellFormed(x.inner) /\ Holds(Set(x.inner).es, x.msgs)),
    C("C06", "decoded", /\ Len(x.back) = Len(x.msgs)
                        /\ \A i \in DOMAIN x.back : Alike(x.back[i][2], x.msgs[i][1]) /\ Alike(x.back[i][3], x.msgs[i][2])) }

ReqClauses(s, e) ==
  LET h == Parse(Header, e.raw, 1)
      r == Parse(e.lay, e.raw, h.p)
      sets == SetsIn(e.lay, r.v)
  IN
  IF ~h.ok THEN { C("C22", "header", FALSE) }
  ELSE
  { C("C22", "header", /\ h.v[2] = <<e.api>> /\ h.v[5] = Text(Kiel)
                       /\ e.fix => h.v[3] = <<0>>),
    C("C22", "length", h.v[1] = <<(Len(e.raw) - 4) \div 65536, (Len(e.raw) - 4) % 65536>>),
    C("C22", "fresh-id", h.v[4] \notin s.ids) }
  \cup (IF ~r.ok THEN { C("C22", "body", FALSE) }
        ELSE { C("C22", "body", r.p = Len(e.raw) + 1),
               C("C22", "values", Same(e.lay, r.v, e.val)),
               C("C22", "sets", Len(sets) = Len(e.sets)) }
             \cup UNION {SetClauses(e.sets[i], sets[i]) : i \in DOMAIN e.sets \cap DOMAIN sets})

RespClauses(s, e) ==
  LET r == Parse(e.lay, e.raw, 1) IN
  { C("C23", "raises", e.exc = ""),
    C("C23", "values", e.exc = "" => (r.ok /\ Same(e.lay, r.v, e.got))) }

(* the messages that the sets of a fetch response hold, against those decoded *)
FetchClauses(s, e) ==
  LET r == Parse(FetchRes, e.raw, 1)
      p == IF e.cut THEN "C07" ELSE "C06"
      there == SetsIn(FetchRes, r.v)
      got == SetsIn(FetchRes, e.got)
  IN
  { C(p, "decodable", e.exc = ""),
    C(p, "messages", e.exc = "" => /\ Len(there) = Len(got)
                                  /\ \A i \in DOMAIN there : SameMessages(Flatten(there[i], e.packs), got[i])),
    C(IF e.cut THEN "C07" ELSE "C23", "around", e.exc = "" => (r.ok /\ Same(FetchRes, r.v, e.got))) }

CompClauses(s, e) ==
  { C("C24", "restored", e.back), C("C24", "reference", e.ref) }
  \cup (IF e.codec = 1 THEN {} ELSE
        { C("C24", "header", e.head = SnappyHeader),
          C("C24", "blocks", /\ e.left = 0
                             /\ \A i \in DOMAIN e.blocks : e.blocks[i][2] <= Block
                             /\ SumSeq([i \in DOMAIN e.blocks |-> e.blocks[i][2]]) = e.size) })

Clauses(s, e) ==
  CASE e.ev = "req" -> ReqClauses(s, e)
    [] e.ev = "resp" -> RespClauses(s, e)
    [] e.ev = "fetch" -> FetchClauses(s, e)
    [] e.ev = "comp" -> CompClauses(s, e)
    [] e.ev = "decomp" -> { C("C24", "decompressed", e.back) }
    [] e.ev = "hang" -> { C(p, "hang", FALSE) : p \in {"C06", "C07", "C22", "C23", "C24"} }
    [] OTHER -> {}
=============================================================================
