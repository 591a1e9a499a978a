------------------------------ MODULE Group_MC ------------------------------
(* A group member that may do whatever the clauses permit: one topic of two
   partitions with two messages each, a group that keeps changing its mind,
   and a store of committed offsets.  What the group relies on is stated over
   the history m, without the specification's own bookkeeping.             *)
EXTENDS Group
CONSTANTS Brokers, MaxCalls, MaxFaults, MaxReqs, MaxOwns, Auto,
          Start, Second       \* the coordinator known at first, who leads partition 1
VARIABLES s, m
vars == <<s, m>>
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)
Parts == {0, 1}
Last == 2
IdOf(p, o) == 2 * p + o + 1
MetaEv == [ev |-> "meta", brokers |-> SortedSeq(Brokers),
           topics |-> <<[t |-> "a", parts |-> <<<<0, 1>>, <<1, Second>>>>]>>]
S0 == LET s1 == Step(Init([wait |-> 1, min |-> 1, maxb |-> 5, conc |-> FALSE, auto |-> Auto]), MetaEv)
          s2 == [s1 EXCEPT !.live = [b \in Brokers |-> {b}], !.conns = Brokers]
          s3 == [s2 EXCEPT !.views = {Known(s2)}]
      IN Step([s3 EXCEPT !.coord = Start], [ev |-> "own", own |-> <<<<"a", 0>>, <<"a", 1>>>>])
MCInit ==
  /\ s = S0
  /\ m = [calls |-> 0, reqs |-> 0, faults |-> 0, conns |-> Cardinality(Brokers), owns |-> 0,
          own |-> Parts, named |-> Start, com |-> [p \in Parts |-> 0], next |-> [p \in Parts |-> -1],
          deliv |-> [p \in Parts |-> 0], sure |-> FALSE, lp |-> {}, wrong |-> {}, asked |-> FALSE,
          took |-> [p \in Parts |-> -1], retry |-> {}, done |-> {}, fatal |-> FALSE, broken |-> FALSE,
          bare |-> FALSE, moved |-> FALSE, base |-> [p \in Parts |-> 0], ended |-> FALSE]
Conn1(b) == CHOOSE x \in s.live[b] : TRUE
Flag(w, x) == IF x THEN {w} ELSE {}

Call == /\ Quiet(s) /\ m.calls < MaxCalls /\ ~s.closing
        /\ \E op \in {"consume", "commit", "close"} :
             Do([ev |-> "call", c |-> m.calls + 1, op |-> op, t |-> IF op = "consume" THEN "a" ELSE "", m |-> "*"])
        /\ m' = [m EXCEPT !.calls = @ + 1, !.took = [p \in Parts |-> -1], !.retry = {}, !.done = {}, !.fatal = FALSE,
                          !.broken = FALSE, !.bare = FALSE, !.moved = FALSE, !.asked = FALSE]
Own == /\ m.owns < MaxOwns
       /\ \E P \in SUBSET Parts :
            LET q == SortedSeq(P) IN
            /\ Do([ev |-> "own", own |-> [i \in DOMAIN q |-> <<"a", q[i]>>]])
            /\ m' = [m EXCEPT !.owns = @ + 1, !.own = P, !.sure = FALSE, !.lp = {}, !.moved = @ \/ m.asked, !.retry = {}]
Creq == /\ m.reqs < MaxReqs /\ s.coord = 0 /\ ~Quiet(s) /\ \A r \in DOMAIN s.outs : FALSE
        /\ \E b \in Live(s) : Do([ev |-> "creq", r |-> m.reqs + 1, b |-> b, n |-> Conn1(b)])
        /\ m' = [m EXCEPT !.reqs = @ + 1]
Crep == \E r \in DOMAIN s.outs : s.outs[r].kind = "c" /\
        \E code \in {0, 15, 29}, id \in Brokers :
          /\ code # 0 => (m.faults < MaxFaults /\ id = 1)
          /\ Do([ev |-> "crep", r |-> r, code |-> code, id |-> id])
          /\ m' = [m EXCEPT !.named = IF code = 0 THEN id ELSE @,
                            !.faults = IF code = 0 THEN @ ELSE @ + 1,
                            !.broken = @ \/ code = 29]
Lreq == /\ m.reqs < MaxReqs
        /\ \E b \in Live(s), P \in SUBSET Parts \ {{}} :
             LET q == SortedSeq(P) IN
             /\ Do([ev |-> "lreq", r |-> m.reqs + 1, b |-> b, n |-> Conn1(b), parts |-> [i \in DOMAIN q |-> <<"a", q[i]>>]])
             /\ m' = [m EXCEPT !.reqs = @ + 1, !.lp = P, !.sure = FALSE,
                        !.wrong = @ \cup Flag("foreign", b # m.named) \cup Flag("lookup", P # m.own)]
Lrep == \E r \in DOMAIN s.outs : s.outs[r].kind = "l" /\
        LET ps == s.outs[r].parts IN
        \E cs \in [DOMAIN ps -> {0, 16, 29}] :
          LET bad == \E i \in DOMAIN ps : cs[i] # 0
              fatal == \E i \in DOMAIN ps : cs[i] = 29
              P == {ps[i][2] : i \in DOMAIN ps} IN
          /\ bad => m.faults < MaxFaults
          /\ Do([ev |-> "lrep", r |-> r, parts |-> [i \in DOMAIN ps |-> [t |-> "a", p |-> ps[i][2], code |-> cs[i],
                                                        off |-> IF cs[i] = 0 THEN m.com[ps[i][2]] ELSE -1]]])
          /\ m' = [m EXCEPT !.faults = IF bad THEN @ + 1 ELSE @,
                      !.fatal = @ \/ fatal,
                      !.named = IF ~fatal /\ bad /\ s.outs[r].b = @ THEN 0 ELSE @,
                      !.sure = ~bad /\ m.lp = P /\ P = m.own,
                      !.next = IF bad THEN @ ELSE [p \in Parts |-> IF p \in P THEN m.com[p] ELSE @[p]],
                      !.deliv = IF bad THEN @ ELSE [p \in Parts |-> IF p \in P THEN m.com[p] ELSE @[p]]]
Freq == /\ m.reqs < MaxReqs
        /\ \E b \in Live(s), P \in SUBSET Parts \ {{}}, offs \in [Parts -> 0..Last] :
             LET q == SortedSeq(P) IN
             /\ \A p \in Parts \ P : offs[p] = 0
             /\ Do([ev |-> "freq", r |-> m.reqs + 1, b |-> b, n |-> Conn1(b), replica |-> -1, wait |-> 1, min |-> 1,
                    parts |-> [i \in DOMAIN q |-> <<"a", q[i], offs[q[i]], 5 \div Cardinality(P)>>]])
             /\ m' = [m EXCEPT !.reqs = @ + 1, !.asked = TRUE, !.base = IF m.asked THEN @ ELSE m.next,
                        !.wrong = @ \cup Flag("unlooked", ~m.sure \/ m.fatal) \cup Flag("unowned-fetch", ~(P \subseteq m.own))
                                    \cup Flag("resume", \E p \in P : offs[p] # m.next[p])]
Frep == \E r \in DOMAIN s.outs : s.outs[r].kind = "f" /\
        LET ps == s.outs[r].parts IN
        \E cs \in [DOMAIN ps -> {0, 1, 6}], n \in 0..Last :
          LET upto(i) == IF cs[i] = 0 THEN Min2(Last, ps[i][3] + n) ELSE ps[i][3]
              msgs(i) == [j \in 1..(upto(i) - ps[i][3]) |-> LET o == ps[i][3] + j - 1 IN <<o, 0, IdOf(ps[i][2], o)>>]
              bad == \E i \in DOMAIN ps : cs[i] # 0
              oor == \E i \in DOMAIN ps : cs[i] = 1
              new == [p \in {ps[i][2] : i \in {x \in DOMAIN ps : upto(x) > ps[x][3]}} |->
                        upto(CHOOSE i \in DOMAIN ps : ps[i][2] = p)] IN
          /\ bad => m.faults < MaxFaults
          /\ Do([ev |-> "frep", r |-> r, parts |-> [i \in DOMAIN ps |-> [t |-> "a", p |-> ps[i][2], code |-> cs[i], msgs |-> msgs(i)]]])
          /\ m' = [m EXCEPT !.faults = IF bad THEN @ + 1 ELSE @,
                      !.done = {}, !.sure = @ /\ ~oor, !.moved = @ \/ oor,
                      !.took = [p \in Parts |-> IF p \in DOMAIN new THEN new[p] ELSE @[p]],
                      !.next = [p \in Parts |-> IF p \in DOMAIN new THEN new[p] ELSE @[p]]]
Kreq == /\ m.reqs < MaxReqs
        /\ \E b \in Live(s), P \in SUBSET Parts \ {{}}, offs \in [Parts -> 0..Last], bare \in {"", "x"} :
             LET q == SortedSeq(P) IN
             /\ \A p \in Parts \ P : offs[p] = 0
             /\ Do([ev |-> "kreq", r |-> m.reqs + 1, b |-> b, n |-> Conn1(b),
                    parts |-> [i \in DOMAIN q |-> <<"a", q[i], offs[q[i]], bare>>]])
             /\ m' = [m EXCEPT !.reqs = @ + 1, !.retry = {},
                        !.wrong = @ \cup Flag("foreign", b # m.named) \cup Flag("unowned", ~(P \subseteq m.own))
                                    \cup Flag("unsure", ~m.sure)
                                    \cup Flag("position", \E p \in P : offs[p] # m.next[p])
                                    \cup Flag("forgotten", ~(m.retry \subseteq P))
                                    \cup Flag("metadata", m.bare /\ bare # "")]
Krep == \E r \in DOMAIN s.outs : s.outs[r].kind = "k" /\
        LET ps == s.outs[r].parts IN
        \E cs \in [DOMAIN ps -> {0, 16, 12, 29}] :
          LET bad == \E i \in DOMAIN ps : cs[i] # 0
              at(p) == CHOOSE i \in DOMAIN ps : ps[i][2] = p
              P == {ps[i][2] : i \in DOMAIN ps} IN
          /\ bad => m.faults < MaxFaults
          /\ Do([ev |-> "krep", r |-> r, parts |-> [i \in DOMAIN ps |-> [t |-> "a", p |-> ps[i][2], code |-> cs[i]]]])
          /\ m' = [m EXCEPT !.faults = IF bad THEN @ + 1 ELSE @,
                      !.named = IF (\E i \in DOMAIN ps : cs[i] = 16) /\ s.outs[r].b = @ THEN 0 ELSE @,
                      !.bare = @ \/ \E i \in DOMAIN ps : cs[i] = 12,
                      !.done = @ \cup {p \in P : cs[at(p)] \in {0, 29}},
                      !.retry = IF s.outs[r].stale THEN @ ELSE @ \cup {p \in P : cs[at(p)] \in {12, 16}},
                      !.com = [p \in Parts |-> IF p \in P /\ cs[at(p)] = 0 THEN ps[at(p)][3] ELSE @[p]]]
Lost == /\ m.faults < MaxFaults
        /\ \E b \in Live(s) : \E n \in s.live[b] :
             /\ Do([ev |-> "lost", b |-> b, n |-> n])
             /\ LET dead == {r \in DOMAIN s.outs : s.outs[r].n = n}
                    asks == {r \in dead : s.outs[r].kind \in {"l", "k"}} IN
                m' = [m EXCEPT !.faults = @ + 1,
                        !.named = IF asks # {} /\ b = @ THEN 0 ELSE @,
                        !.retry = @ \cup UNION {{x[2] : x \in Range(s.outs[r].parts)} :
                                      r \in {y \in dead : s.outs[y].kind = "k" /\ ~s.outs[y].stale}},
                        !.broken = @ \/ Live(s) = {b}]
Conn == /\ ~Quiet(s) /\ m.conns < Cardinality(Brokers) + 1
        /\ \E b \in Brokers : LiveAt(s, b) = {} /\ Do([ev |-> "conn", b |-> b, n |-> m.conns + 1])
        /\ m' = [m EXCEPT !.conns = @ + 1]
Meta == /\ ~Quiet(s) /\ s.outs = EmptyFn /\ s.heal /\ Live(s) # {} /\ Do(MetaEv) /\ UNCHANGED m
(* nothing but what was taken can be returned, or else it is a stranger (9) *)
Vals == {<<>>, <<9>>} \cup UNION {{q \in [1..k -> 1..4] : \A i \in 1..(k-1) : q[i] < q[i+1]} : k \in 1..4}
Ret == \E c \in DOMAIN s.open, exc \in {"", "NoBrokersError", "Other"} :
       \E vals \in IF exc = "" /\ s.open[c].op = "consume" THEN Vals ELSE {<<>>} :
         /\ Do([ev |-> "ret", c |-> c, exc |-> exc, vals |-> vals])
         /\ LET op == s.open[c].op
                got == {p \in Parts : m.took[p] >= 0}
                all == UNION {{IdOf(p, o) : o \in m.base[p]..(m.took[p] - 1)} : p \in got}
            IN m' = IF exc # "" \/ op \notin {"consume", "commit"} THEN
                      [m EXCEPT !.next = IF op = "consume" THEN m.deliv ELSE @,
                                !.sure = IF m.asked THEN @ ELSE FALSE] ELSE
                    [m EXCEPT
                       !.deliv = IF vals = <<>> THEN @ ELSE [p \in Parts |-> IF p \in got THEN m.took[p] ELSE @[p]],
                       !.wrong = @ \cup Flag("lost", op = "consume" /\ ~m.moved /\ Range(vals) # all)
                                   \cup Flag("partly", op = "consume" /\ vals # <<>> /\ Range(vals) # all)
                                   \cup Flag("uncommitted", ~m.broken /\ ~s.closing /\ m.retry # {})
                                   \cup Flag("unautocommitted", op = "consume" /\ Auto /\ got # {} /\ ~m.moved /\ ~m.broken
                                                                /\ ~(got \subseteq m.done))]
End == ~m.ended /\ Quiet(s) /\ Do([ev |-> "end"]) /\ m' = [m EXCEPT !.ended = TRUE]
Left == /\ s.closing /\ ~s.left /\ Do([ev |-> "left"]) /\ UNCHANGED m
Eof == /\ s.closing /\ \E b \in Live(s) : \E n \in s.live[b] : Do([ev |-> "eof", b |-> b, n |-> n])
       /\ m' = [m EXCEPT !.wrong = @ \cup Flag("left-last", ~s.left)]
Next == Call \/ Own \/ Creq \/ Crep \/ Lreq \/ Lrep \/ Freq \/ Frep \/ Kreq \/ Krep \/ Lost \/ Conn
        \/ Meta \/ Ret \/ End \/ Left \/ Eof
Spec == MCInit /\ [][Next]_vars

(* what is committed was delivered to the application, or (with autocommit,
   which commits just before handing over) was taken for it *)
NotAhead == \A p \in Parts : m.com[p] <= (IF Auto THEN Max2(m.deliv[p], m.next[p]) ELSE m.deliv[p])
ResumesThere == {"resume", "unlooked", "lookup", "unowned-fetch"} \cap m.wrong = {}
OnlyOwned == {"unowned", "unsure", "position"} \cap m.wrong = {}
Coordinator == "foreign" \notin m.wrong
Completed == {"forgotten", "uncommitted", "unautocommitted", "metadata"} \cap m.wrong = {}
NothingLost == {"lost", "partly"} \cap m.wrong = {}
LeavesFirst == "left-last" \notin m.wrong
=============================================================================
