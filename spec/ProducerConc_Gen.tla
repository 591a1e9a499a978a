-------------------------- MODULE ProducerConc_Gen --------------------------
(* Scripts with several producer calls under way at once: no producer is
   modelled, any order of commands will do; commands that do not apply when
   their turn comes are skipped. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Len1
VARIABLES script, cfg
Topics == {"a", "b", "z"}
Brokers == {1, 2, 3}
Codes == {0, 0, 6, 7, 10}
(* half of the scripts begin with a broker lost and a refresh held up *)
Init == /\ script \in {<<>>, <<<<"H">>>>} \cup {<<<<"K">>, <<"D", b>>>> : b \in Brokers}
        /\ cfg \in [batch : {0, 1, 2, 3}, l : [1..4 -> Brokers]]
Add(c) == /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
P1 == TRUE /\ \E t \in Topics, k \in -1..2 : Add(<<"P", t, k>>)
P2 == TRUE /\ \E t \in {"a", "b"}, k \in 0..1 : Add(<<"P", t, k>>)
P3 == TRUE /\ \E t \in {"a", "b"}, k \in 0..1 : Add(<<"P", t, k>>)
F1 == Add(<<"F">>)
R1 == TRUE /\ \E b \in Brokers, c, d \in Codes : Add(<<"R", b, <<<<"a", 9, c>>, <<"a", 9, d>>>>>>)
R2 == TRUE /\ \E b \in Brokers, c, d \in Codes : Add(<<"R", b, <<<<"a", 9, c>>, <<"a", 9, d>>>>>>)
D1 == TRUE /\ \E b \in Brokers : Add(<<"D", b>>)
C1 == Len(script) > Len1 \div 2 /\ Add(<<"C">>)
(* produced while close() waits for its last replies *)
C2 == /\ Len(script) > Len1 \div 2 /\ Len(script) + 5 < Len1
      /\ \E t, u \in {"a", "b"}, k, j \in 0..1 :
           script' = script \o <<<<"P", t, k>>, <<"C">>, <<"P", u, j>>, <<"P", u, k>>, <<"P", t, j>>>>
      /\ UNCHANGED cfg
H1 == Add(<<"H">>)
M1 == Add(<<"M">>)
K1 == Add(<<"K">>)
L1 == TRUE /\ \E t \in {"a", "b"}, p \in 0..1, b \in Brokers : Add(<<"L", t, p, b>>)
T1 == TRUE /\ \E t \in Topics : Add(<<"T+", t>>)
V1 == TRUE /\ \E b \in Brokers : Add(<<"V", b>>) \/ Add(<<"G", b>>)
End == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script, batch |-> cfg.batch,
                         lead |-> <<<<"a", 0, cfg.l[1]>>, <<"a", 1, cfg.l[2]>>,
                                    <<"b", 0, cfg.l[3]>>, <<"b", 1, cfg.l[4]>>>>]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == P1 \/ P2 \/ P3 \/ P2 \/ P3 \/ P3 \/ F1 \/ R1 \/ R2 \/ R2 \/ D1 \/ C1 \/ C2 \/ H1 \/ M1 \/ K1 \/ L1 \/ T1 \/ V1 \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
