------------------------------ MODULE Group_Gen ------------------------------
(* Consuming two topics as a member of a group: other members come and go,
   partitions are added and taken away, coordinators move or do not know,
   lookups, fetches and commits are answered with any codes, in any order. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Len1
VARIABLES script, cfg
Brokers == {1, 2, 3}
Topics == {"a", "b"}
Parts == {0, 1}
Init == /\ script = <<>>
        /\ cfg \in [conc : {FALSE, FALSE, FALSE, TRUE}, auto : BOOLEAN, coord : Brokers,
                    l : [1..4 -> Brokers], n : 0..3]
Add(c) == /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
Codes == {<<0>>, <<0, 6>>, <<6, 0>>, <<0, 1>>, <<29, 0>>, <<0, 29>>, <<29>>, <<6>>, <<14>>, <<15>>, <<16>>,
          <<12>>, <<0, 12>>, <<12, 6>>, <<12, 0, 0, 6>>, <<0, 0, 6>>, <<16, 0>>, <<6, 16>>, <<29, 16>>}
Q1 == TRUE /\ \E t \in Topics, k \in 0..4 : Add(<<"Q", t, k>>)
Q2 == TRUE /\ \E k \in 1..2 : Add(<<"Q", "a", k>>)
Y1 == TRUE /\ \E k \in 0..3 : Add(<<"Y", k>>)
R1 == TRUE /\ \E b \in Brokers, cs \in Codes, cut \in {0, 0, 1, 3} : Add(<<"R", b, cs, cut, 99>>)
R2 == TRUE /\ \E b \in Brokers, most \in 1..3 : Add(<<"R", b, <<0>>, 0, most>>)
R4 == TRUE /\ \E b \in Brokers, k \in 1..3 : Add(<<"R", b, <<0>>, 0, 99>>)
R5 == TRUE /\ \E b \in Brokers, c \in {<<6>>, <<0, 6>>, <<6, 0>>, <<16>>, <<15>>, <<14>>} : Add(<<"R", b, c, 0, 99>>)
W1 == TRUE /\ \E t \in Topics, p \in Parts, ks \in [1..3 -> 0..2], codec \in 0..2, gap \in 0..1 :
        Add(<<"W", t, p, ks, codec, gap>>)
W2 == TRUE /\ \E p \in Parts, codec \in 0..2 : Add(<<"W", "a", p, <<0, 0>>, codec, 0>>)
B1 == TRUE /\ \E t \in Topics, p \in Parts, n \in 1..2 : Add(<<"B", t, p, n>>)
O1 == TRUE /\ \E t \in Topics, p \in Parts, n \in 0..3 : Add(<<"O", t, p, n>>)
J1 == TRUE /\ \E k \in 0..1 : Add(<<"J", k>>)
P1 == TRUE /\ \E k \in 0..5 : Add(<<"P", k>>)
M1 == TRUE /\ \E b \in Brokers : Add(<<"CM", b>>)
D1 == TRUE /\ \E b \in Brokers : Add(<<"D", b>>)
X1 == TRUE /\ \E b \in Brokers : Add(<<"X", b>>) \/ Add(<<"U", b>>)
G1 == TRUE /\ \E b \in Brokers : Add(<<"G", b>>) \/ Add(<<"V", b>>)
L1 == TRUE /\ \E t \in Topics, p \in Parts, b \in Brokers : Add(<<"L", t, p, b>>)
E1 == TRUE /\ \E t \in Topics, p \in Parts, k \in 1..2 : Add(<<"E", t, p, k>>)
A1 == TRUE /\ \E t \in Topics, p \in Parts, b \in Brokers : Add(<<"A", t, p, b>>) \/ Add(<<"N", t, p>>)
H1 == TRUE /\ (Add(<<"H">>) \/ Add(<<"K">>))
H2 == TRUE /\ Add(<<"M">>)
Mixed == {<<6>>, <<0, 6>>, <<6, 0>>, <<0, 0, 6>>, <<12>>, <<0, 12>>, <<12, 0>>, <<6, 12>>, <<12, 6>>, <<29>>, <<0, 29>>,
          <<29, 0>>, <<6, 29>>, <<29, 12, 6>>, <<16>>, <<15>>, <<14>>, <<16, 6>>, <<0>>}
K1 == TRUE /\ \E cs \in Mixed : Add(<<"RU", "offset_commit", cs>>)
K2 == TRUE /\ \E cs \in Mixed : Add(<<"RU", "offset_fetch", cs>>)
K3 == TRUE /\ \E cs \in {<<6>>, <<15>>, <<14>>, <<29>>, <<0>>} : Add(<<"RU", "group_coordinator", cs>>)
K4 == TRUE /\ \E cs \in {<<0>>, <<0>>, <<6>>, <<0, 6>>, <<1>>, <<0, 1>>, <<29>>, <<0, 29>>, <<29, 0>>} : Add(<<"RU", "fetch", cs>>)
(* consume, take messages, and then the commit has trouble *)
S1 == /\ Len(script) + 6 <= Len1
      /\ \E cs \in Mixed, t \in Topics, k \in 0..2 :
           script' = script \o << <<"Q", t, 0>>, <<"RU", "fetch", <<0>>>>, <<"Y", k>>, <<"RU", "offset_commit", cs>> >>
      /\ UNCHANGED cfg
S2 == /\ Len(script) + 6 <= Len1
      /\ \E t \in Topics, b \in Brokers : \E a \in {<<"D", b, 1>>, <<"DA">>, <<"CM", b>>, <<"G", b>>, <<"J", 0>>, <<"P", b>>} :
           script' = script \o << <<"Q", t, 0>>, <<"RU", "fetch", <<0>>>>, <<"Y", 0>>, a >>
      /\ UNCHANGED cfg
C1 == Len(script) > (3 * Len1) \div 4 /\ Add(<<"C">>)
(* several members, so that something is always owned by others *)
End == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script, conc |-> cfg.conc, auto |-> cfg.auto, coord |-> cfg.coord,
                         early |-> SubSeq(script, 1, cfg.n),
                         lead |-> <<<<"a", 0, cfg.l[1]>>, <<"a", 1, cfg.l[2]>>,
                                    <<"b", 0, cfg.l[3]>>, <<"b", 1, cfg.l[4]>>>>]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == Q1 \/ Q2 \/ Y1 \/ R1 \/ R2 \/ R4 \/ R5 \/ W1 \/ W2 \/ B1 \/ O1 \/ J1 \/ P1 \/ M1 \/ D1
        \/ X1 \/ G1 \/ L1 \/ E1 \/ A1 \/ H1 \/ H2 \/ C1 \/ K1 \/ K2 \/ K3 \/ K4 \/ S1 \/ S2 \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
