-------------------------------- MODULE View --------------------------------
(* What a client can know of the cluster, from what the brokers told it.

   A state s with the fields view (topic -> partition -> leader, the last
   metadata answer), conns (brokers connected since, or connected still when it
   was given) and live (broker -> its open connections).                  *)
EXTENDS Verdict

ViewOf(topics) ==
  [t \in {x.t : x \in Range(topics)} |->
     LET ps == (CHOOSE x \in Range(topics) : x.t = t).parts
     IN [p \in {q[1] : q \in Range(ps)} |-> (CHOOSE q \in Range(ps) : q[1] = p)[2]]]

LiveAt(s, b) == Get(s.live, b, {})
Live(s) == {b \in DOMAIN s.live : s.live[b] # {}}

(* what the client knows: partitions led by a broker it is connected to *)
Known(s) ==
  LET good(t) == {p \in DOMAIN s.view[t] : s.view[t][p] \in s.conns}
  IN [t \in {x \in DOMAIN s.view : good(x) # {}} |->
        [p \in good(t) |-> s.view[t][p]]]

Retriable == {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}
=============================================================================
