------------------------------- MODULE Wire_Gen -------------------------------
(* Values for every request and response, message sets (nested, compressed, cut)
   and sizes to compress.  What is written is read back by the specification
   itself before it is given to the code (RoundTrip, Prefixes). *)
EXTENDS Wire, Json
CONSTANTS Len1, Kinds, Big
VARIABLES script, new, bytes
vars == <<script, new, bytes>>

Pick(S) == RandomElement(S)
Limb == {0, 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 4660, 43981}
Cps == {97, 98, 48, 45, 46, 32, 0, 34, 92, 127, 128, 233, 2047, 2048, 8364, 55295, 57344, 65533, 65535, 65536, 128512, 1114111}
Invalid == { <<255>>, <<128>>, <<195>>, <<195, 40>>, <<192, 128>>, <<193, 191>>, <<226, 130>>, <<224, 159, 191>>,
             <<237, 160, 128>>, <<240, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<97, 226, 130>>,
             <<254, 97>>, <<240, 159, 152>> }

RECURSIVE RandCps(_)
Times(x, n) == SubSeq(LET y == x IN [i \in 1..n |-> y], 1, n)
RandCps(n) == IF n = 0 THEN <<>> ELSE LET x == Pick(Cps) IN Append(RandCps(n - 1), x)
RECURSIVE RandBytes(_)
RandBytes(n) == IF n = 0 THEN <<>> ELSE LET x == Pick(0..255) IN Append(RandBytes(n - 1), x)
SomeText(z) == LET i == Pick(1..24) IN
            IF i = 1 THEN Text(Times(Pick(Cps), Pick({126, 127, 128, 255, 256, 300}))) ELSE Text(RandCps(Pick(0..5)))
SomeBytes(z) == LET i == IF Big > 0 /\ Pick(1..Max2(1, Big)) = 1 THEN 0 ELSE Pick(1..10) IN
  CASE i = 0 -> Raw(Times(Pick(0..255), Pick({32700, 33000, 65600})))
    [] i = 1 -> Raw(Times(Pick(0..255), Pick({127, 128, 255, 256, 300})))
    [] i \in {2, 3} -> Raw(Pick(Invalid) \o Utf8(RandCps(Pick(0..2))))
    [] i \in {4, 5} -> Raw(Utf8(RandCps(Pick(0..3))))
    [] i = 6 -> Raw(<<>>)
    [] OTHER -> Raw(RandBytes(Pick(0..8)))
Nullable(x) == LET i == Pick(1..5) IN IF i = 1 THEN Null ELSE x
(* as the value of a message without a key these have the checksums 0, 1, 2^31 - 1,
   2^31, 2^31 + 1 and 2^32 - 1 (Wire_MC has the specification confirm it) *)
SomeMessage(z) == LET k == Nullable(SomeBytes(0))
                      v == Nullable(SomeBytes(0))
                      i == Pick(1..15)
                  IN IF i = 1 THEN <<Null, Raw(Pick({c[3] : c \in Checksums}))>> ELSE <<k, v>>
RECURSIVE Messages(_)
Messages(n) == IF n = 0 THEN <<>> ELSE LET m == SomeMessage(0) IN Append(Messages(n - 1), m)
SomeSet(z) == LET c == Max2(0, Pick(-1..2))
               ms == Messages(Pick({0, 1, 2, 2, 3, 5}))
           IN [codec |-> c, msgs |-> ms]

(* a value of type t; odd: strings may be no text *)
RECURSIVE Val(_, _), Vals(_, _, _), Fields(_, _, _), RandLimbs(_)
RandLimbs(n) == IF n = 0 THEN <<>> ELSE LET x == Pick(Limb) IN Append(RandLimbs(n - 1), x)
SomeInt(w) ==
  IF w = 8 THEN <<Pick({0, 1, 2, 127, 128, 255})>>
  ELSE LET i == Pick(1..6)
           n == w \div 16
       IN CASE i = 1 -> Times(0, n)
            [] i = 2 -> Times(65535, n)
            [] i = 3 -> <<32767>> \o Times(65535, n - 1)
            [] i = 4 -> <<32768>> \o Times(0, n - 1)
            [] OTHER -> RandLimbs(n)
Val(t, odd) ==
  CASE t.k = "int" -> SomeInt(t.w)
    [] t.k = "str" -> LET i == Pick(1..6)
                          x == SomeText(0)
                          y == Raw(Pick(Invalid) \o Utf8(RandCps(Pick(0..2))))
                      IN IF i = 1 THEN Null ELSE IF i = 2 /\ odd THEN y ELSE x
    [] t.k = "bytes" -> Nullable(SomeBytes(0))
    [] t.k = "mset" -> SomeSet(0)
    [] t.k = "arr" -> LET i == Pick(1..40)
                          n == IF t.fs[1][2].k = "int" /\ i <= 2 THEN Pick({255, 256, 257, 300}) ELSE Pick({0, 1, 1, 2, 2, 3})
                      IN Vals(t.fs[1][2], n, odd)
    [] t.k = "rec" -> Fields(t.fs, Len(t.fs), odd)
Vals(t, n, odd) == IF n = 0 THEN <<>> ELSE LET x == Val(t, odd) IN Append(Vals(t, n - 1, odd), x)
Fields(fs, n, odd) == IF n = 0 THEN <<>> ELSE LET x == Val(fs[n][2], odd) IN Append(Fields(fs, n - 1, odd), x)

(* a set to be fetched: entries [codec, off, key, value, sub] *)
RECURSIVE Tree(_, _)
Tree(n, depth) ==
  IF n = 0 THEN <<>>
  ELSE LET c == IF depth = 0 THEN 0 ELSE Max2(0, Pick(-2..2))
           off == SomeInt(64)
           m == SomeMessage(0)
           sub == IF c = 0 THEN <<>> ELSE Tree(Pick({0, 1, 2, 3}), depth - 1)
       IN Append(Tree(n - 1, depth), [codec |-> c, off |-> off, key |-> IF c > 0 /\ off[1] # 0 THEN Null ELSE m[1], value |-> m[2], sub |-> sub])
(* cut: 0..999 thousandths of the set are there; 1000: all of it *)
FetchPart(cuts) ==
  LET p == SomeInt(32)  c == SomeInt(16)  h == SomeInt(64)
      t == Tree(Pick({0, 1, 2, 3, 4}), Pick({0, 1, 2}))
      k == IF cuts THEN Pick({30 * i : i \in 0..40} \cup {999}) ELSE 1000
  IN [part |-> p, code |-> c, hw |-> h, set |-> t, cut |-> IF k > 1000 THEN 1000 ELSE k]
RECURSIVE FetchParts(_, _), FetchTopics(_, _)
FetchParts(n, cuts) == IF n = 0 THEN <<>> ELSE LET x == FetchPart(cuts) IN Append(FetchParts(n - 1, cuts), x)
FetchTopics(n, cuts) ==
  IF n = 0 THEN <<>>
  ELSE LET x == SomeText(0)
           ps == FetchParts(Pick({0, 1, 2, 3}), cuts)
       IN Append(FetchTopics(n - 1, cuts), [name |-> x, parts |-> ps])

Sizes == {0, 1, 2, 100, 4096, 32766, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 98303, 98304, 98305, 100000, 131072, 200001,
          1048576, 1048577, 2097153}
RECURSIVE BlockSizes(_)
BlockSizes(n) == IF n = 0 THEN <<>>
                 ELSE LET x == Pick({0, 1, 2, 5, 60, 61, 255, 256, 1000, 32766, 32767, 32768}) IN Append(BlockSizes(n - 1), x)

KindsC22 == <<"req", "req", "produce">>
KindsC23 == <<"resp", "resp", "resp", "resp", "fetch">>
KindsC06 == <<"produce", "fetch">>
KindsC07 == <<"cut", "cut", "cut", "cuts">>
KindsC24 == <<"comp", "decomp">>
Nothing == [k |-> ""]
Init0 == script = <<>> /\ new = Nothing /\ bytes = <<>>
Choose == /\ Len(script) < Len1 /\ new = Nothing
          /\ \E i \in DOMAIN Kinds : new' = [k |-> "?", what |-> Kinds[i]]
          /\ UNCHANGED <<script, bytes>>
ReqOf(i) == [k |-> "req", mod |-> Requests[i][1], api |-> Requests[i][2], lay |-> Requests[i][3],
             val |-> Val(Requests[i][3], FALSE)]
RespOf(i) == [k |-> "resp", mod |-> Responses[i][1], lay |-> Responses[i][2], val |-> Val(Responses[i][2], TRUE)]
Made(what) ==
  CASE what = "req" -> ReqOf(Pick(DOMAIN Requests))
    [] what = "resp" -> RespOf(Pick(DOMAIN Responses))
    [] what = "produce" -> ReqOf(1)
    [] what = "fetch" -> [k |-> "fetch", topics |-> FetchTopics(Pick({0, 1, 2, 3}), FALSE)]
    [] what = "cut" -> [k |-> "fetch", topics |-> FetchTopics(Pick({1, 2}), TRUE)]
    [] what = "cuts" -> [k |-> "cuts", set |-> Tree(Pick({1, 2, 3}), Pick({0, 1}))]
    [] what = "comp" -> [k |-> "comp", codec |-> Pick({1, 2}), size |-> Pick(Sizes), fill |-> Pick(0..3)]
    [] what = "decomp" -> LET n == Pick({0, 1, 2, 3, 8}) IN
                          [k |-> "decomp", codec |-> 2, sizes |-> BlockSizes(n), fill |-> Pick(0..3)]
Make == /\ new.k = "?" /\ new' = Made(new.what) /\ UNCHANGED <<script, bytes>>
(* written down; the code gets to see it *)
Write == /\ new.k \notin {"", "?"} /\ bytes = <<>>
         /\ bytes' = IF new.k = "resp" THEN <<Encode(new.lay, new.val)>> ELSE <<<<>>>>
         /\ UNCHANGED <<script, new>>
Keep1 == /\ bytes # <<>>
         /\ script' = Append(script, IF new.k = "resp" THEN [k |-> "resp", mod |-> new.mod, lay |-> new.lay, raw |-> bytes[1]]
                                     ELSE new)
         /\ new' = Nothing /\ bytes' = <<>>
Say == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script]))
       /\ script' = Append(script, Nothing) /\ UNCHANGED <<new, bytes>>
Next == Choose \/ Make \/ Write \/ Keep1 \/ Say
Spec == Init0 /\ [][Next]_vars

RoundTrip == (bytes # <<>> /\ new.k = "resp") =>
               LET r == Parse(new.lay, bytes[1], 1) IN
               r.ok /\ r.p = Len(bytes[1]) + 1 /\ Same(new.lay, r.v, new.val)
=============================================================================
