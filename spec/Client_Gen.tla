----------------------------- MODULE Client_Gen -----------------------------
(* Sends to several brokers, replies in any order, failures, and close() at
   any point; commands that do not apply are skipped. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Len1
VARIABLES script, cfg
Brokers == {1, 2, 3}
(* what is sent to each broker: 0 nothing, 1 a request, 2 one whose reply has no handler *)
Kinds == {0, 1, 1, 1, 2}
Init == /\ script = <<>>
        /\ cfg \in [wind : {"none", "raise", "send"}, l : [1..4 -> Brokers]]
Add(c) == /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
Most == [1..4 -> {0, 1}] \cup {[i \in 1..4 |-> IF i = j THEN 2 ELSE 1] : j \in 1..3}
S1 == TRUE /\ \E to \in Most : Add(<<"S", to>>)
S2 == TRUE /\ \E to \in {<<1, 1, 1, 0>>, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>, <<0, 1, 1, 0>>} : Add(<<"S", to>>)
R1 == TRUE /\ \E b \in Brokers, f \in 0..1 : Add(<<"R", b, f>>)
R2 == TRUE /\ \E b \in Brokers : Add(<<"R", b, 0>>)
R3 == TRUE /\ \E b \in Brokers : Add(<<"R", b, 0>>)
D1 == TRUE /\ \E b \in Brokers : Add(<<"D", b>>)
J1 == TRUE /\ \E b \in Brokers : Add(<<"RJ", b>>)
X1 == TRUE /\ \E b \in Brokers : Add(<<"X", b>>) \/ Add(<<"U", b>>)
G1 == TRUE /\ \E b \in Brokers : Add(<<"G", b>>) \/ Add(<<"V", b>>)
DD == TRUE /\ \E b \in Brokers : Add(<<"D", b, 1>>)
H1 == Add(<<"H">>)
K1 == Add(<<"K">>)
M1 == Add(<<"M">>)
C1 == Len(script) > Len1 \div 2 /\ Add(<<"C">>)
C2 == Len(script) > (3 * Len1) \div 4 /\ Add(<<"C">>)
End == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script, wind |-> cfg.wind,
                         lead |-> <<<<"a", 0, cfg.l[1]>>, <<"a", 1, cfg.l[2]>>,
                                    <<"b", 0, cfg.l[3]>>, <<"b", 1, cfg.l[4]>>>>]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == S1 \/ S2 \/ R1 \/ R2 \/ R3 \/ D1 \/ J1 \/ X1 \/ G1 \/ DD \/ H1 \/ K1 \/ M1 \/ C1 \/ C2 \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
