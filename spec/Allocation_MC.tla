---------------------------- MODULE Allocation_MC ----------------------------
(* Processes that may do whatever the clauses permit: they write any set, keep
   any node, call the allocator with anything they were told.  ZooKeeper tells
   them the current content, at any time, of what changed. *)
EXTENDS Allocation
CONSTANTS Names, Items, MaxCalls, MaxProcs, MaxLost, MaxOps, MaxOdd, Merged
VARIABLES s, m
vars == <<s, m>>
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)
Procs == DOMAIN s.proc
Th(p, k) == 2 * p + (IF k = "m" THEN 1 ELSE 0)
Cands(p) == {p}

MCInit ==
  /\ s = Init([has |-> TRUE, items |-> <<1>>, custom |-> FALSE])
  /\ m = [calls |-> 0, ops |-> 0, lost |-> 0, odd |-> 0, told |-> EmptyFn, fresh |-> {}, start |-> {1},
          added |-> {}, removed |-> {}, addedDone |-> {}, removedDone |-> {}, joined |-> {}, left |-> {}, busy |-> {},
          wrong |-> {}]

(* nothing has been told it, nor is due *)
Proc == /\ Cardinality(Procs) < MaxProcs
        /\ \E n \in Names : /\ \A p \in Procs : s.proc[p].n = n => s.proc[p].dead \/ p \in m.left
                            /\ LET p == Cardinality(Procs) + 1 IN
                               s' = Step(Step(s, [ev |-> "proc", m |-> p, n |-> n, h |-> FALSE]),
                                         [ev |-> "session", m |-> p, s |-> p])
        /\ UNCHANGED m
Call == /\ m.calls < MaxCalls
        /\ \E p \in Procs, op \in {"start", "stop", "add", "remove"}, I \in SUBSET Items :
             /\ ~s.proc[p].dead /\ ~s.proc[p].stopping /\ \A c \in DOMAIN s.calls : s.calls[c].m # p
             /\ op = "start" <=> ~s.proc[p].up
             /\ op \in {"add", "remove"} => I # {}
             /\ op = "stop" => I = {}
             /\ Do([ev |-> "call", c |-> m.calls + 1, m |-> p, op |-> op, items |-> SortedSeq(I)])
             /\ m' = [m EXCEPT !.calls = @ + 1,
                               !.added = IF op \in {"start", "add"} THEN @ \cup I ELSE @,
                               !.removed = IF op = "remove" THEN @ \cup I ELSE @]
Write == /\ m.ops < MaxOps
         /\ \E p \in Procs, c \in DOMAIN s.calls \cup {0}, I \in SUBSET Items :
              /\ c # 0 => s.calls[c].m = p
              /\ Do([ev |-> "write", m |-> p, c |-> c, ok |-> TRUE, items |-> SortedSeq(I)])
              /\ m' = [m EXCEPT !.ops = @ + 1, !.added = IF c = 0 THEN @ \cup I ELSE @]
Mk == /\ m.ops < MaxOps
      /\ \E p \in Procs, n \in Names, se \in s.alive \cup {0} :
           Do([ev |-> "mk", m |-> p, n |-> n, s |-> se])
      /\ m' = [m EXCEPT !.ops = @ + 1]
Rm == /\ m.ops < MaxOps
      /\ \E p \in Procs, n \in DOMAIN s.nodes : Do([ev |-> "rm", m |-> p, n |-> n])
      /\ m' = [m EXCEPT !.ops = @ + 1]
(* a session ends: at the process' own wish, or at the worst moment *)
Lost == /\ \E p \in Procs : LET se == s.proc[p].s IN
           /\ se \in s.alive
           /\ \/ \E c \in DOMAIN s.calls : s.calls[c].m = p /\ s.calls[c].op = "stop" /\ m' = m
              \/ m.lost < MaxLost /\ m' = [m EXCEPT !.lost = @ + 1]
           /\ LET s1 == Step(s, [ev |-> "lost", s |-> se])
                  ns == {n \in DOMAIN s.nodes : s.nodes[n] = se}
              IN s' = [s1 EXCEPT !.nodes = DelAll(@, ns)]
Crash == /\ m.lost < MaxLost
         /\ \E p \in Procs : ~s.proc[p].dead /\ s.proc[p].up /\ Do([ev |-> "crash", m |-> p])
                             /\ m' = [m EXCEPT !.lost = @ + 1, !.busy = @ \ {Th(p, "m"), Th(p, "p")}]
Wipe == /\ m.lost < MaxLost /\ s.has /\ s.calls = EmptyFn
        /\ Do([ev |-> "wiped"]) /\ m' = [m EXCEPT !.lost = @ + 1, !.addedDone = {}, !.removedDone = {}, !.start = {}, !.added = {}, !.removed = {}]
Told == ~Merged /\ \E p \in Procs, k \in {"m", "p"} :
          LET v == IF k = "m" THEN DOMAIN s.nodes ELSE s.data
              seen == IF k = "m" THEN s.proc[p].mseen /\ s.proc[p].mv = v ELSE s.proc[p].pseen /\ s.proc[p].pv = v
          IN /\ s.proc[p].up /\ ~s.proc[p].dead /\ ~seen /\ s.has
             /\ Th(p, k) \notin m.busy
             /\ Do([ev |-> "told", m |-> p, th |-> Th(p, k), k |-> k, none |-> FALSE, v |-> SortedSeq(v)])
             /\ m' = [m EXCEPT !.busy = @ \cup {Th(p, k)}]
(* all the ways to split, and some that are none *)
Pairs(f, is) == LET ns == SortedSeq({f[i] : i \in DOMAIN f}) IN
                [i \in DOMAIN ns |-> <<ns[i], SortedSeq({x \in DOMAIN f : f[x] = ns[i]})>>]
(* fn and the following callback at once *)
Fn == /\ m.ops < MaxOps + 4
      /\ \E p \in Procs, k \in {"m", "p"} :
           /\ Th(p, k) \in m.busy /\ s.proc[p].pend = {}
           /\ \E ms \in s.proc[p].mold \cup {s.proc[p].mv}, is \in s.proc[p].pold \cup {s.proc[p].pv} :
              \E f \in [is -> Names] :
                /\ (ms # s.proc[p].mv \/ is # s.proc[p].pv) => m.odd < MaxOdd
                /\ Do([ev |-> "fn", m |-> p, th |-> Th(p, k), ms |-> SortedSeq(ms), is |-> SortedSeq(is), res |-> Pairs(f, is)])
                /\ m' = [m EXCEPT !.odd = IF ms # s.proc[p].mv \/ is # s.proc[p].pv THEN @ + 1 ELSE @,
                                  !.ops = IF ms = s.proc[p].mv /\ is = s.proc[p].pv THEN @ ELSE @ + 1]
Reb == /\ \E p \in Procs, k \in {"m", "p"}, own \in SUBSET Items :
            /\ Th(p, k) \in m.busy
            /\ Do([ev |-> "reb", m |-> p, th |-> Th(p, k), own |-> SortedSeq(own)])
       /\ UNCHANGED m
ToldEnd == \E p \in Procs, k \in {"m", "p"} :
             /\ Th(p, k) \in m.busy
             /\ Do([ev |-> "toldend", m |-> p, th |-> Th(p, k), k |-> k])
             /\ m' = [m EXCEPT !.busy = @ \ {Th(p, k)}]
(* the same in one step *)
Digest ==
  /\ Merged
  /\ \E p \in Procs, k \in {"m", "p"} :
      LET v == IF k = "m" THEN DOMAIN s.nodes ELSE s.data
          seen == IF k = "m" THEN s.proc[p].mseen /\ s.proc[p].mv = v ELSE s.proc[p].pseen /\ s.proc[p].pv = v
          s1 == Step(s, [ev |-> "told", m |-> p, th |-> 1, k |-> k, none |-> FALSE, v |-> SortedSeq(v)])
          done == [ev |-> "toldend", m |-> p, th |-> 1, k |-> k]
      IN /\ s.proc[p].up /\ ~s.proc[p].dead /\ ~seen /\ s.has
         /\ \/ AllHold(Clauses(s1, done)) /\ s' = Step(s1, done)
            \/ \E f \in [s1.proc[p].pv -> Names] :
                 LET e == [ev |-> "fn", m |-> p, th |-> 1, ms |-> SortedSeq(s1.proc[p].mv),
                           is |-> SortedSeq(s1.proc[p].pv), res |-> Pairs(f, s1.proc[p].pv)]
                     s2 == Step(s1, e)
                 IN /\ AllHold(Clauses(s1, e))
                    /\ \/ AllHold(Clauses(s2, done)) /\ s' = Step(s2, done)
                       \/ \E own \in SUBSET Items :
                            LET r == [ev |-> "reb", m |-> p, th |-> 1, own |-> SortedSeq(own)]
                                s3 == Step(s2, r)
                            IN AllHold(Clauses(s2, r)) /\ AllHold(Clauses(s3, done)) /\ s' = Step(s3, done)
  /\ UNCHANGED m
Ret == \E c \in DOMAIN s.calls, exc \in {"", "ConnectionLoss"} :
         LET call == s.calls[c] IN
         /\ exc # "" => m.lost > 0
         /\ Do([ev |-> "ret", c |-> c, exc |-> exc])
         /\ m' = IF exc # "" THEN m ELSE
                 [m EXCEPT !.addedDone = IF call.op \in {"start", "add"} THEN @ \cup call.items ELSE @,
                           !.removedDone = IF call.op = "remove" THEN @ \cup call.items ELSE @,
                           !.joined = IF call.op = "start" THEN @ \cup {call.m} ELSE @,
                           !.left = IF call.op = "stop" THEN @ \cup {call.m} ELSE @]
Next == Proc \/ Call \/ Write \/ Mk \/ Rm \/ Lost \/ Crash \/ Wipe \/ Told \/ Digest \/ Fn \/ Reb \/ ToldEnd \/ Ret
Spec == MCInit /\ [][Next]_vars

(* what was added and never to be removed is there, and the other way round *)
NothingVanishes == (m.addedDone \ m.removed) \subseteq s.data
NothingSurvives == (m.removedDone \cap s.data) \subseteq m.added
NothingInvented == s.data \subseteq Items /\ (s.has => s.data \subseteq m.start \cup m.added \cup UNION {s.proc[p].pv : p \in Procs})
(* members all of whose notifications are delivered agree and split evenly *)
Caught(p) == LET q == s.proc[p] IN
  /\ q.up /\ ~q.dead /\ ~q.stopping /\ q.mseen /\ q.pseen /\ q.mv = DOMAIN s.nodes /\ q.pv = s.data
  /\ Th(p, "m") \notin m.busy /\ Th(p, "p") \notin m.busy
Ins == {p \in Procs : Caught(p) /\ Get(s.nodes, s.proc[p].n, 0) = s.proc[p].s /\ s.proc[p].s \in s.alive}
AllIn == s.has /\ DOMAIN s.nodes = {s.proc[p].n : p \in Ins} /\ Ins # {}
Agree == \A p, q \in Ins : s.proc[p].res = s.proc[q].res
Complete == (AllIn /\ Agree) => UNION {Own(s, p) : p \in Ins} = s.data
Disjoint == Agree => \A p, q \in Ins : p # q => Own(s, p) \cap Own(s, q) = {}
Balanced == (AllIn /\ Agree) =>
               \A p, q \in Ins : Cardinality(Own(s, p)) <= Cardinality(Own(s, q)) + 1
UpToDate == \A p \in Procs : Caught(p) => s.proc[p].fms = DOMAIN s.nodes /\ s.proc[p].fis = s.data
(* a member that joined is one as long as its session lives *)
Sessions == /\ \A p \in Procs : (p \in m.joined /\ s.proc[p].s \in s.alive /\ ~s.proc[p].stopping /\ m.lost = 0)
                                  => Get(s.nodes, s.proc[p].n, 0) = s.proc[p].s
            /\ \A p \in m.left : \A n \in DOMAIN s.nodes : s.nodes[n] # s.proc[p].s
            /\ \A n \in DOMAIN s.nodes : s.nodes[n] \in s.alive
=============================================================================
