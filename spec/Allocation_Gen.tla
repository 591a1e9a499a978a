--------------------------- MODULE Allocation_Gen ---------------------------
(* Processes with three names start, change the set, stop, crash, and lose
   connections and sessions, their ZooKeeper operations interleaved at will. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len1
VARIABLES script, cfg
Names == {1, 2, 3}
Items == 1..6
Few == {S \in SUBSET Items : Cardinality(S) <= 3}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Init == /\ script = <<>>
        /\ cfg \in [node : {"absent", "empty", "list", "list"}, custom : {FALSE, FALSE, FALSE, TRUE}, items : Few]
Add(c) == /\ Len(script) < Len1
          /\ script' = Append(script, c)
          /\ UNCHANGED cfg
Start == TRUE /\ \E n \in Names, I \in Few : Add(<<"S", n, Sorted(I)>>)
Start2 == TRUE /\ \E n \in Names, I \in Few : Add(<<"S", n, Sorted(I)>>)
Up == TRUE /\ \E n \in Names : Add(<<"U", n>>)
Run1 == TRUE /\ \E n \in Names, k \in 1..6 : Add(<<"s", n, k>>)
Run2 == TRUE /\ \E n \in Names, k \in 1..3 : Add(<<"s", n, k>>)
Run3 == TRUE /\ \E n \in Names : Add(<<"s", n, 25>>)
Run4 == TRUE /\ \E n \in Names, k \in 1..2 : Add(<<"s", n, k>>)
Work1 == TRUE /\ \E n \in Names, k \in 1..3 : Add(<<"w", n, k>>)
Work2 == TRUE /\ \E n \in Names : Add(<<"w", n, 20>>)
Spawned == TRUE /\ \E k \in 1..3 : Add(<<"z", k>>)
Adds == TRUE /\ \E n \in Names, I \in Few : Add(<<"A", n, Sorted(I)>>)
Adds2 == TRUE /\ \E n \in Names, I \in Few : Add(<<"A", n, Sorted(I)>>)
Removes == TRUE /\ \E n \in Names, I \in Few : Add(<<"R", n, Sorted(I)>>)
Stop == TRUE /\ \E n \in Names : Add(<<"T", n>>)
Lose == TRUE /\ \E n \in Names : Add(<<"L", n>>)
Suspend == TRUE /\ \E n \in Names : Add(<<"P", n>>)
Crash == TRUE /\ \E n \in Names : Add(<<"CR", n>>)
Fail == TRUE /\ \E n \in Names, w \in {"before", "after"} : Add(<<"F", n, w>>)
Expire == Add(<<"X">>)
Wipe == Add(<<"D">>)
Quiet == Add(<<"Q">>)
End == /\ Len(script) = Len1
       /\ PrintT(ToJson([script |-> script, node |-> cfg.node, custom |-> cfg.custom, items |-> Sorted(cfg.items)]))
       /\ script' = Append(script, <<"end">>)
       /\ UNCHANGED cfg
Next == Start \/ Start2 \/ Up \/ Run1 \/ Run2 \/ Run3 \/ Run4 \/ Work1 \/ Work2 \/ Spawned \/ Adds \/ Adds2
        \/ Removes \/ Stop \/ Lose \/ Suspend \/ Crash \/ Fail \/ Expire \/ Wipe \/ Quiet \/ End
Spec == Init /\ [][Next]_<<script, cfg>>
=============================================================================
