----------------------------- MODULE Consumer_MC -----------------------------
(* A consumer that may do whatever the clauses permit: one topic of two
   partitions with two messages each (the second of partition 0 is bad). *)
EXTENDS Consumer
CONSTANTS Brokers, MaxCalls, MaxFaults, MaxReqs, MaxMetas
VARIABLES s, m
vars == <<s, m>>
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)
Parts == {0, 1}
Last == 2
IdOf(p, o) == 2 * p + o + 1
Kind(p, o) == IF p = 0 /\ o = 1 THEN 1 ELSE 0
Good(p, from, to) == LET q == [i \in 1..(to - from) |-> from + i - 1]
                         g == Keep(q, LAMBDA o : Kind(p, o) = 0)
                     IN [i \in DOMAIN g |-> IdOf(p, g[i])]
MetaEv(lead) == [ev |-> "meta", brokers |-> SortedSeq(Brokers),
                 topics |-> <<[t |-> "a", parts |-> <<<<0, lead[0]>>, <<1, lead[1]>>>>]>>]
Lead0 == [p \in Parts |-> IF p = 0 THEN 1 ELSE 2]
S0 == LET s1 == Step(Init([wait |-> 1, min |-> 1, maxb |-> 5, conc |-> FALSE]), MetaEv(Lead0))
      IN [s1 EXCEPT !.live = [b \in Brokers |-> {b}], !.conns = Brokers]
MCInit ==
  /\ s = [S0 EXCEPT !.views = {Known(S0)}]
  /\ m = [calls |-> 0, reqs |-> 0, faults |-> 0, conns |-> Cardinality(Brokers), metas |-> 0,
          lead |-> Lead0, told |-> Lead0, looked |-> EmptyFn, want |-> {}, ok |-> FALSE, start |-> EmptyFn,
          next |-> EmptyFn, got |-> [p \in Parts |-> <<>>], sent |-> EmptyFn, unsure |-> FALSE,
          asked |-> {}, wrong |-> {}, fatal |-> FALSE, exact |-> TRUE, renew |-> FALSE, ended |-> FALSE]

Call == /\ Quiet(s) /\ m.calls < MaxCalls /\ ~s.closing
        /\ \E op \in {"consume", "close"} :
             Do([ev |-> "call", c |-> m.calls + 1, op |-> op, t |-> IF op = "consume" THEN "a" ELSE "",
                 lo |-> -2, hi |-> -2])
        /\ m' = [m EXCEPT !.calls = @ + 1, !.asked = {}, !.sent = EmptyFn, !.fatal = FALSE, !.looked = EmptyFn,
                          !.exact = (Live(s) = Brokers)]
Oreq == /\ m.reqs < MaxReqs
        /\ \E b \in Live(s), P \in SUBSET Parts \ {{}}, time \in {-1, -2} :
             LET q == SortedSeq(P)
                 e == [ev |-> "oreq", r |-> m.reqs + 1, b |-> b, n |-> CHOOSE x \in s.live[b] : TRUE,
                       replica |-> -1, parts |-> [i \in DOMAIN q |-> <<"a", q[i], time, 1>>]]
             IN /\ Do(e)
                /\ m' = [m EXCEPT !.reqs = @ + 1, !.ok = FALSE,
                       !.want = IF \A p \in DOMAIN m.looked : m.looked[p] # -9 THEN Alloc(s, "a") ELSE @,
                       !.looked = (IF \A p \in DOMAIN @ : @[p] # -9 THEN EmptyFn ELSE @)
                                    @@ [p \in P |-> -9],
                       !.wrong = @ \cup (IF \E p \in P : m.told[p] # b THEN {"lookup-leader"} ELSE {})
                                   \cup (IF time # -2 THEN {"time"} ELSE {})
                                   \cup (IF m.ok /\ ~m.unsure THEN {"lookup-needless"} ELSE {})]
Orep == \E r \in DOMAIN s.outs : s.outs[r].kind = "o" /\
        LET ps == [i \in DOMAIN s.outs[r].parts |-> s.outs[r].parts[i][2]] IN
        \E cs \in [DOMAIN ps -> {0, 6, 29}] :
          /\ (\E i \in DOMAIN ps : cs[i] # 0) => m.faults < MaxFaults
          /\ Do([ev |-> "orep", r |-> r, parts |-> [i \in DOMAIN ps |->
                  [t |-> "a", p |-> ps[i], code |-> cs[i], offs |-> IF cs[i] = 0 THEN <<0>> ELSE <<>>]]])
          /\ LET got == [p \in Range(ps) |-> LET i == CHOOSE i \in DOMAIN ps : ps[i] = p
                                             IN IF cs[i] = 0 THEN 0 ELSE -1]
                 now == got @@ m.looked
                 full == /\ \A p \in DOMAIN now : now[p] >= 0
                         /\ m.want \subseteq DOMAIN now
             IN m' = IF ~Awaited(s, r) THEN m ELSE
                [m EXCEPT !.looked = now, !.renew = IF full THEN FALSE ELSE @,
                        !.faults = IF \E i \in DOMAIN ps : cs[i] # 0 THEN @ + 1 ELSE @,
                        !.fatal = @ \/ \E i \in DOMAIN ps : cs[i] = 29,
                        !.ok = full,
                        !.next = IF full THEN now ELSE @,
                        !.start = IF full THEN now ELSE @,
                        !.got = IF full THEN [p \in Parts |-> <<>>] ELSE @]
Freq == /\ m.reqs < MaxReqs
        /\ \E b \in Live(s), P \in SUBSET Parts \ {{}}, offs \in [Parts -> 0..Last], max \in {5, 2} :
             LET q == SortedSeq(P)
                 e == [ev |-> "freq", r |-> m.reqs + 1, b |-> b, n |-> CHOOSE x \in s.live[b] : TRUE,
                       replica |-> -1, wait |-> 1, min |-> 1,
                       parts |-> [i \in DOMAIN q |-> <<"a", q[i], offs[q[i]], max>>]]
             IN /\ \A p \in Parts \ P : offs[p] = 0
                /\ Do(e)
                /\ m' = [m EXCEPT !.reqs = @ + 1, !.asked = @ \cup P,
                     !.next = @ @@ [p \in P |-> offs[p]], !.start = @ @@ [p \in P |-> offs[p]],
                     !.wrong = @ \cup (IF \E p \in P : m.told[p] # b THEN {"leader"} ELSE {})
                                 \cup (IF \E p \in P : p \in m.asked THEN {"twice"} ELSE {})
                                 \cup (IF ~m.ok \/ m.renew THEN {"unlooked"} ELSE {})
                                 \cup (IF m.ok /\ \E p \in P \cap DOMAIN m.next : offs[p] # m.next[p] THEN {"position"} ELSE {})
                                 \cup (IF max # 5 \div Cardinality(P) THEN {"budget"} ELSE {})]
(* from the position on, or the whole set from the start of the partition *)
Frep == \E r \in DOMAIN s.outs : s.outs[r].kind = "f" /\
        LET ps == s.outs[r].parts IN
        \E cs \in [DOMAIN ps -> {0, 1, 6}], n \in 0..Last, whole \in BOOLEAN :
          LET from(i) == IF whole /\ ps[i][3] < Last THEN 0 ELSE ps[i][3]
              upto(i) == IF whole THEN Last ELSE Min2(Last, ps[i][3] + n)
              msgs(i) == IF cs[i] # 0 THEN <<>>
                         ELSE [j \in 1..(upto(i) - from(i)) |->
                                LET o == from(i) + j - 1 IN <<o, Kind(ps[i][2], o), IdOf(ps[i][2], o)>>]
          IN /\ whole => n = 0
             /\ (\E i \in DOMAIN ps : cs[i] # 0) => m.faults < MaxFaults
             /\ Do([ev |-> "frep", r |-> r, parts |-> [i \in DOMAIN ps |->
                     [t |-> "a", p |-> ps[i][2], code |-> cs[i], msgs |-> msgs(i)]]])
             /\ m' = [m EXCEPT
                  !.faults = IF \E i \in DOMAIN ps : cs[i] # 0 THEN @ + 1 ELSE @,
                  !.renew = @ \/ \E i \in DOMAIN ps : cs[i] = 1,
                  !.exact = @ /\ \A i \in DOMAIN ps : cs[i] # 6,
                  !.sent = [p \in {ps[i][2] : i \in {x \in DOMAIN ps : cs[x] = 0 /\ upto(x) > ps[x][3]}} |->
                              upto(CHOOSE i \in DOMAIN ps : ps[i][2] = p)] @@ @]
GoneBy == /\ m.faults < MaxFaults
          /\ \E b \in Live(s) : \E n \in s.live[b] : Do([ev |-> "lost", b |-> b, n |-> n])
          /\ m' = [m EXCEPT !.faults = @ + 1, !.exact = FALSE,
                            !.looked = [p \in DOMAIN @ |-> IF @[p] = -9 /\
                               \E r \in DOMAIN s.outs : s.outs[r].kind = "o" /\ r \notin DOMAIN s'.outs
                                   /\ \E x \in Range(s.outs[r].parts) : x[2] = p THEN -1 ELSE @[p]]]
Conn == /\ ~Quiet(s) /\ m.conns < Cardinality(Brokers) + 1
        /\ \E b \in Brokers : LiveAt(s, b) = {} /\ Do([ev |-> "conn", b |-> b, n |-> m.conns + 1])
        /\ m' = [m EXCEPT !.conns = @ + 1]
Meta == /\ ~Quiet(s) /\ s.outs = EmptyFn /\ m.metas < MaxMetas /\ Live(s) # {} /\ s.heal
        /\ Do(MetaEv(m.lead)) /\ m' = [m EXCEPT !.told = m.lead, !.metas = @ + 1, !.exact = FALSE]
Move == /\ m.faults < MaxFaults
        /\ \E p \in Parts, b \in Brokers : m' = [m EXCEPT !.lead[p] = b, !.faults = @ + 1]
        /\ UNCHANGED s
Seqs == {<<>>} \cup UNION {{q \in [1..k -> 1..4] : TRUE} : k \in 1..3}
Ret == \E c \in DOMAIN s.open, exc \in {"", "NoBrokersError", "Other"} :
       \E vals \in IF exc = "" /\ s.open[c].op = "consume" THEN Seqs ELSE {<<>>} :
         /\ Do([ev |-> "ret", c |-> c, exc |-> exc, vals |-> vals])
         /\ m' = IF exc # "" THEN [m EXCEPT !.unsure = @ \/ m.asked = {}] ELSE
                 [m EXCEPT !.next = m.sent @@ @,
                           !.ok = @ /\ ~m.renew,
                           !.wrong = @ \cup (IF s.open[c].op = "consume" /\ m.exact /\ m.ok /\ ~m.fatal
                                                /\ ~s.closing /\ m.asked # Parts THEN {"not-all"} ELSE {})
                                       \cup (IF m.fatal /\ (vals # <<>> \/ m.asked # {}) THEN {"fatal"} ELSE {}),
                           !.got = [p \in Parts |-> @[p] \o Keep(vals, LAMBDA v : v \in {IdOf(p, o) : o \in 0..Last-1})]]
End == ~m.ended /\ Quiet(s) /\ Do([ev |-> "end"]) /\ m' = [m EXCEPT !.ended = TRUE]
Next == Call \/ Oreq \/ Orep \/ Freq \/ Frep \/ GoneBy \/ Conn \/ Meta \/ Move \/ Ret \/ End
Spec == MCInit /\ [][Next]_vars

(* delivered since the lookup: consecutive good messages from where it said *)
NoGapsNoTwice == \A p \in DOMAIN m.start : \E k \in 0..Last : m.got[p] = Good(p, m.start[p], k)
(* ... and nothing is skipped over *)
NothingHidden == \A p \in DOMAIN m.start : (Quiet(s) /\ m.ok) => m.got[p] = Good(p, m.start[p], m.next[p])
RightPosition == "position" \notin m.wrong
LookedUp == {"unlooked", "fatal", "time", "lookup-leader", "lookup-needless"} \cap m.wrong = {}
Fetched == {"leader", "twice", "budget", "not-all"} \cap m.wrong = {}
=============================================================================
