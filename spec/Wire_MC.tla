------------------------------- MODULE Wire_MC -------------------------------
(* Everything small: what the specification writes it reads back; nothing that
   stops early or is changed passes for it; a cut-off set holds exactly the
   entries that are complete; only UTF-8 is taken for text.                  *)
EXTENDS Wire
CONSTANTS MaxEntries, MaxCps, Wide
VARIABLE m

(* -- values: all of them for small types, a few for every api *)
Strs == {Null, Text(<<>>), Text(<<97>>), Text(<<233>>)}
Byts == {Null, Raw(<<>>), Raw(<<255>>), Raw(<<97, 0>>)}
Ints(w) == IF w = 8 THEN {<<0>>, <<255>>}
           ELSE {[i \in 1..(w \div 16) |-> 0], [i \in 1..(w \div 16) |-> 65535], [i \in 1..(w \div 16) |-> 256 * i]}
RECURSIVE All(_, _), AllFields(_, _)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
All(t, n) ==
  CASE t.k = "int" -> Ints(t.w)
    [] t.k = "str" -> Strs
    [] t.k = "bytes" -> Byts
    [] t.k = "arr" -> Seqs(All(t.fs[1][2], n), n)
    [] t.k = "rec" -> AllFields(t.fs, n)
    [] t.k = "mset" -> {<<>>}
AllFields(fs, n) ==
  IF fs = <<>> THEN {<<>>}
  ELSE {<<x>> \o y : x \in All(fs[1][2], n), y \in AllFields(Tail(fs), n)}
Small == { Str, Byt, I8, I16, I32, I64, Arr(Str), Arr(I32), Arr(Arr(I16)),
           Rec("", <<<<"a", Str>>, <<"b", Byt>>, <<"c", I16>>>>),
           Arr(Rec("", <<<<"a", I16>>, <<"b", Str>>>>)),
           Rec("", <<<<"a", Arr(Str)>>, <<"b", Arr(I16)>>>>),
           Header, CoordinatorReq, LeaveReq, HeartbeatRes, MetadataReq, ListRes }

(* the k-th of a few values of any type; fields differ *)
RECURSIVE Some(_, _, _)
Some(t, k, n) ==
  CASE t.k = "int" -> IF t.w = 8 THEN <<(37 * k) % 256>> ELSE [i \in 1..(t.w \div 16) |-> (4099 * k + 257 * i) % 65536]
    [] t.k = "str" -> CASE k % 4 = 0 -> Null [] k % 4 = 1 -> Text(<<97 + k>>) [] k % 4 = 2 -> Text(<<>>)
                        [] OTHER -> Text(<<8364, 128512, k>>)
    [] t.k = "bytes" -> IF k % 3 = 0 THEN Null ELSE Raw([i \in 1..(k % 4) |-> (61 * k + i) % 256])
    [] t.k = "arr" -> [i \in 1..n |-> Some(t.fs[1][2], k + 3 * i, n)]
    [] t.k = "rec" -> [i \in DOMAIN t.fs |-> Some(t.fs[i][2], k + 5 * i, n)]
    [] t.k = "mset" -> <<>>
Layouts == {Requests[i][3] : i \in DOMAIN Requests} \cup {Responses[i][2] : i \in DOMAIN Responses} \cup {FetchRes}

(* -- message sets *)
Entries == { [off |-> <<0, 0, 0, o>>, attr |-> 0, key |-> k, value |-> v] :
             o \in {0, 5}, k \in {Null, Raw(<<>>)}, v \in {Raw(<<1>>), Raw(<<0, 0, 0, 0>>)} }
EncodeSet(q) == Flat([i \in DOMAIN q |-> EncodeEntry(q[i].off, q[i].attr, q[i].key, q[i].value)])
Triple(e) == <<e.off, e.key, e.value>>

(* -- byte strings *)
Bounds == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
CpBounds == {0, 65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}

Check9 == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>

(* the cases come in groups, so that all processors have some *)
Groups == {[k |-> "start", what |-> "value", of |-> t] : t \in Small}
          \cup {[k |-> "start", what |-> "api", of |-> t] : t \in Layouts}
          \cup {[k |-> "start", what |-> "set", of |-> e] : e \in Entries}
          \cup {[k |-> "start", what |-> "utf8", of |-> x] : x \in 0..255}
          \cup {[k |-> "start", what |-> "text", of |-> x] : x \in CpBounds}
          \cup {[k |-> "start", what |-> "nest", of |-> e] : e \in Entries}
Cases(g) ==
  CASE g.what = "value" -> {[k |-> "value", t |-> g.of, v |-> v] : v \in All(g.of, 2)}
    [] g.what = "api" -> {[k |-> "value", t |-> g.of, v |-> Some(g.of, k, n)] : k \in 0..Wide, n \in 0..2}
    [] g.what = "set" -> {[k |-> "set", es |-> <<g.of>> \o q] : q \in Seqs(Entries, MaxEntries - 1)}
                         \cup {[k |-> "set", es |-> <<>>]}
    [] g.what = "utf8" -> {[k |-> "utf8", b |-> <<g.of>> \o q] :
                             q \in Seqs(0..255, 1) \cup [1..2 -> Bounds]
                                   \cup (IF g.of >= 240 THEN [1..3 -> Bounds] ELSE {})}
    [] g.what = "text" -> {[k |-> "text", q |-> <<g.of>> \o q] : q \in Seqs(CpBounds, MaxCps - 1)}
    [] g.what = "nest" -> {[k |-> "nest", a |-> a, b |-> <<g.of>> \o b] : a \in Seqs(Entries, 1), b \in Seqs(Entries, 1)}

Init0 == m \in Groups
Next == m.k = "start" /\ m' \in Cases(m)
Spec == Init0 /\ [][Next]_m

RoundTrip ==
  m.k = "value" => LET b == Encode(m.t, m.v)
                       r == Parse(m.t, b \o <<0, 7>>, 1)
                   IN r.ok /\ r.p = Len(b) + 1 /\ Same(m.t, r.v, m.v)
NoPrefix ==
  m.k = "value" => LET b == Encode(m.t, m.v) IN
                   \A n \in 0..(Len(b) - 1) : ~Parse(m.t, SubSeq(b, 1, n), 1).ok
(* a cut-off set holds its complete entries *)
Ends(q) == [i \in DOMAIN q |-> Len(EncodeSet(SubSeq(q, 1, i)))]
Cuts ==
  m.k = "set" =>
    LET b == EncodeSet(m.es)
        ends == Ends(m.es)
    IN /\ WellFormed(b)
       /\ \A n \in 0..Len(b) :
            LET s == Set(SubSeq(b, 1, n))
                k == Cardinality({i \in DOMAIN ends : ends[i] <= n})
            IN /\ Len(s.es) = k
               /\ s.all <=> (n = 0 \/ n \in Range(ends))
               /\ \A i \in 1..k : <<s.es[i].off, s.es[i].key, s.es[i].value>> = Triple(m.es[i])
(* no single bit of a message can change unnoticed *)
Checksum ==
  m.k = "set" =>
    /\ Crc(Check9, 1, 9) = <<52212, 14630>>
    /\ \A c \in Checksums : SubSeq(EncodeMessage(0, Null, Raw(c[3])), 1, 4) = LimbBytes(<<c[1], c[2]>>)
    /\ Len(m.es) = 1 =>
         LET b == EncodeSet(m.es) IN
         \A i \in 13..Len(b) : \A bit \in {1, 2, 4, 8, 16, 32, 64, 128} :
           ~WellFormed([b EXCEPT ![i] = @ ^^ bit])
Utf8Only ==
  m.k = "utf8" => LET r == FromUtf8(m.b, 1, <<>>) IN r.ok => Utf8(r.v) = m.b
TextBack ==
  m.k = "text" => FromUtf8(Utf8(m.q), 1, <<>>) = [ok |-> TRUE, v |-> m.q]
(* wrapped messages count like others, with their own offsets *)
Unwrapped ==
  m.k = "nest" =>
    LET inner == EncodeSet(m.b)
        once == EncodeEntry(<<0, 0, 0, 9>>, 1, Null, Raw(<<1, 2>>))
        twice == EncodeEntry(<<0, 0, 0, 8>>, 2, Null, Raw(<<3>>))
        packs == << <<<<1, 2>>, inner>>, <<<<3>>, EncodeSet(m.a) \o once>> >>
        want == [i \in DOMAIN m.a |-> Triple(m.a[i])] \o [i \in DOMAIN m.b |-> Triple(m.b[i])]
    IN /\ SameMessages(Flatten(EncodeSet(m.a) \o once, packs), want)
       /\ SameMessages(Flatten(EncodeSet(m.b) \o twice, packs),
                       [i \in DOMAIN m.b |-> Triple(m.b[i])] \o want)
=============================================================================
