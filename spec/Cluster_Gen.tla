----------------------------- MODULE Cluster_Gen -----------------------------
(* What bootstrap hosts and brokers do to a client that refreshes now and then:
   any order of commands will do, those that do not apply are skipped. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Len1, Exhaustive
VARIABLES script, cfg
Topics == {"a", "b"}
Brokers == {1, 2, 3}
Hows == {"ok", "refused", "drop", "junk"}
Boots == IF Exhaustive THEN UNION {[1..n -> Hows] : n \in 1..3}
         ELSE UNION {{[i \in 1..n |-> IF i < k THEN h ELSE "ok"] : k \in 1..n, h \in Hows} : n \in 1..3}
Init == /\ script = <<>>
        /\ IF Exhaustive THEN cfg \in [hosts : Boots, l : {<<1, 2, 3, 1>>}]
           ELSE cfg \in [hosts : Boots, l : [1..4 -> Brokers]]
Add(c) == /\ ~Exhaustive /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
Heal1 == Add(<<"heal">>)
Heal2 == Add(<<"heal">>)
Heal3 == Add(<<"heal">>)
Heal4 == Add(<<"heal">>)
L1 == TRUE /\ \E t \in Topics, p \in 0..1, b \in Brokers : Add(<<"L", t, p, b>>)
E1 == TRUE /\ \E t \in Topics, p \in 0..1, k \in 1..3 : Add(<<"E", t, p, k>>) \/ Add(<<"GL", t, p, k>>)
X1 == TRUE /\ \E b \in Brokers : Add(<<"X", b>>) \/ Add(<<"J", b>>)
U1 == TRUE /\ \E b \in Brokers : Add(<<"U", b>>)
G1 == TRUE /\ \E b \in Brokers : Add(<<"G", b>>)
V1 == TRUE /\ \E b \in Brokers : Add(<<"V", b>>)
D1 == TRUE /\ \E b \in Brokers : Add(<<"D", b>>)
DD == TRUE /\ \E b \in Brokers : Add(<<"D", b, 1>>)
T1 == TRUE /\ \E t \in Topics \cup {"z"} : Add(<<"T-", t>>) \/ Add(<<"T+", t>>)
A1 == TRUE /\ \E t \in Topics, p \in 0..1, b \in Brokers : Add(<<"A", t, p, b>>) \/ Add(<<"N", t, p>>)
TE == TRUE /\ \E t \in Topics, c \in {3, 9}, k \in 1..2 : Add(<<"TE", t, c, k>>)
PE == TRUE /\ \E t \in Topics, p \in 0..1 : Add(<<"PE", t, p>>)
W1 == TRUE /\ \E b \in Brokers : Add(<<"W", b>>)
(* during a refresh: an election to wait for, and something before it is over *)
AT == TRUE /\ \E t \in Topics, p \in 0..1, k \in 1..2, b \in Brokers :
        /\ ~Exhaustive /\ Len(script) + 2 < Len1
        /\ \E c \in {<<"W", b>>, <<"V", b>>, <<"L", t, p, b>>, <<"N", t, p>>, <<"T-", t>>, <<"U", b>>} :
             script' = script \o <<<<"E", t, p, k + 1>>, <<"AT", k, c>>, <<"heal">>>>
        /\ UNCHANGED cfg
H1 == Add(<<"H">>)
K1 == Add(<<"K">>)
M1 == Add(<<"M">>)
End == /\ Len(script) = IF Exhaustive THEN 0 ELSE Len1
       /\ PrintT(ToJson([script |-> script, hosts |-> cfg.hosts,
                         lead |-> <<<<"a", 0, cfg.l[1]>>, <<"a", 1, cfg.l[2]>>,
                                    <<"b", 0, cfg.l[3]>>, <<"b", 1, cfg.l[4]>>>>]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == Heal1 \/ Heal2 \/ Heal3 \/ Heal4 \/ L1 \/ E1 \/ X1 \/ U1 \/ G1 \/ V1 \/ D1 \/ DD \/ T1 \/ A1
        \/ TE \/ PE \/ W1 \/ AT \/ AT \/ H1 \/ K1 \/ M1 \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
