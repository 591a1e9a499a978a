---------------------------- MODULE Consumer_Gen ----------------------------
(* Consuming of two topics: lookups and fetches answered in any order with any
   codes, appended and expired messages, cut off sets, failures and elections. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Len1
VARIABLES script, cfg
Brokers == {1, 2, 3}
Topics == {"a", "b"}
Parts == {0, 1}
Init == /\ script = <<>>
        /\ cfg \in [conc : {FALSE, FALSE, TRUE}, l : [1..4 -> Brokers]]
Add(c) == /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
Codes == {<<0>>, <<0, 6>>, <<6, 0>>, <<0, 1>>, <<1, 0>>, <<29, 0>>, <<0, 29>>, <<6>>, <<1>>, <<-100>>, <<0, -100>>}
Q1 == TRUE /\ \E t \in Topics, k \in 0..4 : Add(<<"Q", t, k>>)
Q2 == TRUE /\ \E t \in Topics, k \in 1..2 : Add(<<"Q", t, k>>)
Q3 == TRUE /\ \E k \in 1..2 : Add(<<"Q", "a", k>>)
Q4 == TRUE /\ \E k \in 1..2 : Add(<<"Q", "a", k>>)
R1 == TRUE /\ \E b \in Brokers, cs \in Codes, cut \in 0..7 : Add(<<"R", b, cs, cut, 99>>)
R2 == TRUE /\ \E b \in Brokers, most \in 1..3 : Add(<<"R", b, <<0>>, 0, most>>)
R3 == TRUE /\ \E b \in Brokers, most \in 1..3 : Add(<<"R", b, <<0>>, 0, most>>)
R4 == TRUE /\ \E b \in Brokers : Add(<<"R", b, <<0>>, 0, 99>>)
R5 == TRUE /\ \E b \in Brokers, c \in {<<6>>, <<0, 6>>, <<6, 0>>} : Add(<<"R", b, c, 0, 99>>)
W1 == TRUE /\ \E t \in Topics, p \in Parts, ks \in [1..3 -> 0..2], codec \in 0..2, gap \in 0..1 :
        Add(<<"W", t, p, ks, codec, gap>>)
W2 == TRUE /\ \E p \in Parts, ks \in [1..4 -> 0..1], codec \in 0..2 : Add(<<"W", "a", p, ks, codec, 0>>)
W3 == TRUE /\ \E t \in Topics, p \in Parts, codec \in 0..2 : Add(<<"W", t, p, <<0, 0, 0>>, codec, 0>>)
Z1 == TRUE /\ \E t \in Topics, p \in Parts : Add(<<"Z", t, p>>)
B1 == TRUE /\ \E t \in Topics, p \in Parts, n \in 1..2 : Add(<<"B", t, p, n>>)
D1 == TRUE /\ \E b \in Brokers : Add(<<"D", b>>)
D2 == TRUE /\ \E b \in Brokers : Add(<<"D", b, 1>>)
X1 == TRUE /\ \E b \in Brokers : Add(<<"X", b>>) \/ Add(<<"U", b>>)
G1 == TRUE /\ \E b \in Brokers : Add(<<"G", b>>) \/ Add(<<"V", b>>)
L1 == TRUE /\ \E t \in Topics, p \in Parts, b \in Brokers : Add(<<"L", t, p, b>>)
L2 == TRUE /\ \E p \in Parts, b \in Brokers : Add(<<"L", "a", p, b>>)
E1 == TRUE /\ \E t \in Topics, p \in Parts, k \in 1..2 : Add(<<"E", t, p, k>>)
A1 == TRUE /\ \E t \in Topics, p \in Parts, b \in Brokers : Add(<<"A", t, p, b>>) \/ Add(<<"N", t, p>>)
T1 == TRUE /\ \E t \in Topics : Add(<<"T-", t>>) \/ Add(<<"T+", t>>)
H1 == TRUE /\ (Add(<<"H">>) \/ Add(<<"K">>))
M1 == Add(<<"M">>)
(* part of an answer is taken, then every connection goes *)
S1 == /\ Len(script) + 4 <= Len1
      /\ \E b \in Brokers, k \in 1..2 :
           script' = script \o << <<"Q", "a", 2>>, <<"R", b, <<0>>, 0, 99>>, <<"DA">>, <<"Q", "a", k>> >>
      /\ UNCHANGED cfg
C1 == Len(script) > (3 * Len1) \div 4 /\ Add(<<"C">>)
End == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script, conc |-> cfg.conc,
                         lead |-> <<<<"a", 0, cfg.l[1]>>, <<"a", 1, cfg.l[2]>>,
                                    <<"b", 0, cfg.l[3]>>, <<"b", 1, cfg.l[4]>>>>]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == Q1 \/ Q2 \/ Q3 \/ Q4 \/ R1 \/ R2 \/ R3 \/ R4 \/ R5 \/ W1 \/ W2 \/ W3 \/ Z1 \/ B1 \/ D1 \/ D2
        \/ X1 \/ G1 \/ L1 \/ L2 \/ E1 \/ A1 \/ T1 \/ H1 \/ M1 \/ S1 \/ C1 \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
