----------------------------- MODULE Cluster_MC -----------------------------
(* A client that may do whatever the clauses permit, against brokers and
   bootstrap hosts that answer, refuse and die as they like. *)
EXTENDS Cluster
CONSTANTS Hosts, Brokers, MaxCalls, MaxConns, MaxMetas
VARIABLES s, m
vars == <<s, m>>
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)
T == "a"
Metas == {[bs |-> bs, l |-> l] : bs \in (SUBSET Brokers) \ {{}}, l \in {-2, -1} \cup Brokers}
(* -2: the topic is unknown *)
TopicsMeta(x) == IF x.l = -2 THEN <<[t |-> T, err |-> Unknown, parts |-> <<>>]>>
                 ELSE <<[t |-> T, err |-> 0, parts |-> <<<<0, x.l>>>>]>>

MCInit == /\ s = Init([hosts |-> Hosts])
          /\ m = [calls |-> 0, conns |-> 0, metas |-> 0, last |-> [bs |-> {}, l |-> -2],
                  got |-> FALSE, tried |-> <<>>, first |-> 0, res |-> "", alone |-> FALSE,
                  view |-> [l |-> -2, mem |-> {}], lostnow |-> {}, bad |-> {}, all |-> Brokers]

Call == /\ m.calls < MaxCalls
        /\ (m.calls = 0) <=> (s.open = EmptyFn /\ s.boots = <<>>)
        /\ m.calls > 0 => s.answered
        /\ Do([ev |-> "call", c |-> m.calls + 1, op |-> IF m.calls = 0 THEN "start" ELSE "heal"])
        /\ m' = [m EXCEPT !.calls = @ + 1, !.res = "", !.got = FALSE, !.all = IF s.open = EmptyFn THEN Brokers ELSE @,
                          !.alone = s.open = EmptyFn,
                          !.lostnow = IF s.open = EmptyFn THEN {} ELSE @]
Boot == /\ s.open # EmptyFn
        /\ \E k \in 1..Hosts, how \in {"refused", "open"} :
             /\ Do([ev |-> "boot", k |-> k, how |-> how, n |-> k])
             /\ m' = [m EXCEPT !.tried = Append(@, k)]
BootFail == /\ \E k \in 1..Hosts : /\ \E i \in DOMAIN s.boots : s.boots[i].k = k /\ s.boots[i].st = "open"
                                   /\ Do([ev |-> "bootfail", k |-> k])
            /\ UNCHANGED m
BootEof == /\ \E n \in s.bootopen : Do([ev |-> "booteof", n |-> n]) /\ UNCHANGED m
Meta == /\ s.open # EmptyFn /\ m.metas < MaxMetas
        /\ \E b \in Live(s) \cup (IF ~s.answered /\ s.boots # <<>> /\ s.boots[Len(s.boots)].st = "open"
                                  THEN {0} ELSE {}), x \in Metas :
             /\ Do([ev |-> "meta", b |-> b, asked |-> <<>>, brokers |-> SortedSeq(x.bs),
                    topics |-> TopicsMeta(x)])
             /\ m' = [m EXCEPT !.last = x, !.got = TRUE, !.all = @ \cap x.bs, !.metas = @ + 1,
                               !.first = IF b = 0 THEN s.boots[Len(s.boots)].k ELSE @]
Conn == /\ s.open # EmptyFn /\ m.conns < MaxConns
        /\ \E b \in Brokers : Do([ev |-> "conn", b |-> b, n |-> m.conns + 1])
        /\ m' = [m EXCEPT !.conns = @ + 1]
Gone == \E b \in Brokers : \E n \in LiveAt(s, b) :
        \/ /\ Do([ev |-> "eof", b |-> b, n |-> n, garbled |-> FALSE])
           /\ m' = [m EXCEPT !.bad = IF ~s.overlap /\ b \in m.all THEN @ \cup {b} ELSE @]
        \/ /\ Do([ev |-> "lost", b |-> b, n |-> n])
           /\ m' = [m EXCEPT !.lostnow = IF m.got THEN @ \cup {b} ELSE @]
Ret == \E c \in DOMAIN s.open, exc \in {"", "NoBrokersError", "Other"},
          l \in {-2} \cup Brokers, mem \in SUBSET Brokers :
         /\ exc # "" => (l = -2 /\ mem = {})
         /\ Do([ev |-> "ret", c |-> c, exc |-> exc,
                topics |-> IF l = -2 THEN <<>> ELSE <<<<T, 0>>>>,
                leaders |-> IF l = -2 THEN <<>> ELSE <<<<T, 0, l>>>>,
                members |-> SortedSeq(mem)])
         /\ m' = [m EXCEPT !.res = IF exc = "" THEN "ok" ELSE exc,
                           !.view = [l |-> l, mem |-> mem],
                           !.alone = @ /\ Sole(s, c)]
Next == Call \/ Boot \/ BootFail \/ BootEof \/ Meta \/ Conn \/ Gone \/ Ret
Spec == MCInit /\ [][Next]_vars

(* C10, at the moment a lone call has succeeded *)
Fresh == m.res = "ok" /\ m.alone /\ s.open = EmptyFn
(* and when the last of overlapping ones has *)
ViewIsLast == [][(m.res = "" /\ m'.res = "ok" /\ s'.open = EmptyFn) =>
                   /\ m'.view.mem = m.last.bs
                   /\ (m.last.l = -2 => m'.view.l = -2)
                   /\ (m.last.l # -2 => m'.view.l = m.last.l /\ m.last.l \in m.last.bs)]_vars
ConnsAreLast == [][(m.res = "" /\ m'.res = "ok" /\ m'.alone) =>
                   /\ \A b \in m.last.bs \ m.lostnow : Cardinality(LiveAt(s, b)) = 1
                   /\ \A b \in Brokers \ m.last.bs : LiveAt(s, b) = {}]_vars
LeaderConnected == [][(m.res = "" /\ m'.res = "ok" /\ s'.open = EmptyFn /\ m'.view.l # -2) =>
                        m'.view.l \in m'.view.mem]_vars
NoneKept == m.bad = {}
NoLeak == (s.open = EmptyFn /\ m.res = "ok") => \A b \in Brokers : Cardinality(LiveAt(s, b)) <= 1
(* C11 *)
InOrder == \A i \in DOMAIN m.tried : m.tried[i] = i
UsesFirst == m.first # 0 => m.first = Len(m.tried)
BootClosed == m.res # "" /\ s.open = EmptyFn => s.bootopen = {}
NoBrokersIff == [][(m.calls = 1 /\ m.res = "" /\ m'.res = "NoBrokersError") =>
                     (m.first = 0 => Len(m.tried) = Hosts) /\ (m.first # 0 => Live(s) = {})]_vars
Raises == m.res \in {"", "ok", "NoBrokersError"}
OkOnlyIfAnswered == [][(m.res = "" /\ m'.res = "ok") => m.metas > 0]_vars
=============================================================================
