----------------------------- MODULE Allocation -----------------------------
(* A group of consumers splitting a shared set of partitions in ZooKeeper.

   Processes (m) have a name; names and partitions are their rank in sorted
   order.  A process may die and another one with the same name may start.

   Events:
     proc(m, n, h)           process m, named n, exists (not started yet); h:
                             its set's callbacks are reported
     session(m, s)           m obtains session s
     lost(s)                 session s is over
     crash(m)                process m dies; its session lingers
     mk(m, n, s)             member node n appears, made by m, owned by session
                             s (0 if it is not ephemeral)
     rm(m, n)                member node n vanishes (m = 0: with its session)
     write(m, c, ok, items)  m, in call c (0: none), stores items (ok: in the
                             format that members read)
     made(m)                 m makes the partition node, empty
     wiped                   someone deletes the partition node
     told(m, th, k, none, v) thread th of m is told: members (k = "m") or
                             partitions (k = "p"; none: there is no node)
     heard(m, v)             the set's change callback of m gets content v
     toldend(m, th, k)       and is done with it
     fn(m, th, ms, is, res)  the allocator function is called with sequences of
                             members and partitions and returns pairs
                             <<n, partitions>>
     reb(m, th, own)         the rebalance callback is called; own is m's
                             allocation at that moment
     call(c, m, op, items)   start, stop, add or remove begins
     ret(c, exc)             and returns
     settle(own, errs)       nothing is left to happen; own: <<m, partitions>>
                             of the running processes; errs: those whose
                             allocation raised
     hang(c)                                                               *)
EXTENDS Verdict

Init(cfg) ==
  [cfg |-> cfg, has |-> cfg.has, data |-> Range(cfg.items), nodes |-> EmptyFn,
   alive |-> {}, proc |-> EmptyFn, calls |-> EmptyFn]

NewProc(n, h) == [n |-> n, h |-> h, heard |-> {}, s |-> 0, dead |-> FALSE, up |-> FALSE, stopping |-> FALSE,
               mseen |-> FALSE, pseen |-> FALSE, mv |-> {}, pv |-> {},
               mold |-> {{}}, pold |-> {{}},           \* told before
               fms |-> {}, fis |-> {}, res |-> EmptyFn, pend |-> {}]

(* the member that name n's node stands for is running *)
Running(s, m) == s.proc[m].up /\ ~s.proc[m].dead /\ ~s.proc[m].stopping

ResOf(e) == [n \in {x[1] : x \in Range(e.res)} |->
               UNION {Range(x[2]) : x \in {y \in Range(e.res) : y[1] = n}}]
Own(s, m) == Get(s.proc[m].res, s.proc[m].n, {})

(* what the set becomes by call c *)
Wanted(s, c) == IF s.calls[c].op = "remove" THEN s.data \ s.calls[c].items
                ELSE s.data \cup s.calls[c].items
Done(s, c) == Wanted(s, c) = s.data

(* every open call learns whether there is nothing (left) to do *)
Noted(s) == [s EXCEPT !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.sat = @ \/ Done(s, c)]]]

OnCall(s, e) ==
  Noted([s EXCEPT !.calls = Put(@, e.c, [m |-> e.m, op |-> e.op, items |-> Range(e.items), wrote |-> FALSE,
                                         sat |-> FALSE, s |-> s.proc[e.m].s, lost |-> FALSE]),
                  !.proc[e.m].up = @ \/ e.op = "start",
                  !.proc[e.m].stopping = @ \/ e.op = "stop"])

OnLost(s, e) ==
  [s EXCEPT !.alive = @ \ {e.s},
            !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.lost = @ \/ s.proc[s.calls[c].m].s = e.s]]]

OnWrite(s, e) ==
  Noted([s EXCEPT !.has = TRUE, !.data = Range(e.items),
                  !.calls = IF e.c \in DOMAIN @ THEN [@ EXCEPT ![e.c].wrote = TRUE] ELSE @])

OnTold(s, e) ==
  IF e.k = "m"
  THEN [s EXCEPT !.proc[e.m].mold = @ \cup {s.proc[e.m].mv}, !.proc[e.m].mv = Range(e.v),
                 !.proc[e.m].mseen = TRUE]
  ELSE IF e.none THEN s
  ELSE [s EXCEPT !.proc[e.m].pold = @ \cup {s.proc[e.m].pv}, !.proc[e.m].pv = Range(e.v),
                 !.proc[e.m].pseen = TRUE]

OnFn(s, e) ==
  [s EXCEPT !.proc[e.m].fms = Range(e.ms), !.proc[e.m].fis = Range(e.is),
            !.proc[e.m].res = ResOf(e), !.proc[e.m].pend = @ \cup {e.th}]

Step(s, e) ==
  CASE e.ev = "proc" -> [s EXCEPT !.proc = Put(@, e.m, NewProc(e.n, e.h))]
    [] e.ev = "session" -> [s EXCEPT !.proc[e.m].s = e.s, !.alive = @ \cup {e.s}]
    [] e.ev = "lost" -> OnLost(s, e)
    [] e.ev = "crash" -> [s EXCEPT !.proc[e.m].dead = TRUE,
                                   !.calls = DelAll(@, {c \in DOMAIN @ : @[c].m = e.m})]
    [] e.ev = "mk" -> [s EXCEPT !.nodes = Put(@, e.n, e.s)]
    [] e.ev = "rm" -> [s EXCEPT !.nodes = Del(@, e.n)]
    [] e.ev = "write" -> OnWrite(s, e)
    [] e.ev = "made" -> Noted([s EXCEPT !.has = TRUE, !.data = {}])
    [] e.ev = "wiped" -> Noted([s EXCEPT !.has = FALSE, !.data = {}])
    [] e.ev = "call" -> OnCall(s, e)
    [] e.ev = "ret" -> [s EXCEPT !.calls = Del(@, e.c)]
    [] e.ev = "told" -> OnTold(s, e)
    [] e.ev = "heard" -> [s EXCEPT !.proc[e.m].heard = {Range(e.v)}]
    [] e.ev = "fn" -> OnFn(s, e)
    [] e.ev = "reb" -> [s EXCEPT !.proc[e.m].pend = @ \ {e.th}]
    [] OTHER -> s

--------------------------------------------------------------------------
StrictlySorted(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]

(* each of the partitions goes to exactly one of the members *)
Partitioned(res, ms, is) ==
  /\ DOMAIN res \subseteq ms
  /\ UNION {res[n] : n \in DOMAIN res} = (IF ms = {} THEN {} ELSE is)
  /\ \A a, b \in DOMAIN res : a # b => res[a] \cap res[b] = {}
Even(res, ms) == \A a, b \in ms : Cardinality(Get(res, a, {})) <= Cardinality(Get(res, b, {})) + 1
Flat(e) == FlatSeq([i \in DOMAIN e.res |-> e.res[i][2]])

FnClauses(s, e) ==
  LET p == s.proc[e.m] IN
  { C("C19", "sorted", StrictlySorted(e.ms) /\ StrictlySorted(e.is)),
    C("C19", "arguments", Range(e.ms) \in p.mold \cup {p.mv} /\ Range(e.is) \in p.pold \cup {p.pv}),
    C("C19", "split", s.cfg.custom \/ (Partitioned(ResOf(e), Range(e.ms), Range(e.is)) /\ NoRepeat(Flat(e)))),
    C("C19", "even", s.cfg.custom \/ Even(ResOf(e), Range(e.ms))) }

ToldEndClauses(s, e) ==
  LET p == s.proc[e.m] IN
  { C("C21", "recomputed", IF e.k = "m" THEN p.fms = p.mv ELSE p.fis = p.pv),
    C("C21", "callback", e.th \notin p.pend),
    (* what the recipe reports reaches the set's own callback *)
    C("C20", "passed-on", (e.k = "p" /\ p.h /\ p.pseen) => p.heard = {p.pv}) }

WriteClauses(s, e) ==
  { C("C20", "readable", e.ok),
    C("C20", "exact", IF e.c \in DOMAIN s.calls THEN Range(e.items) = Wanted(s, e.c)
                      ELSE ~s.has /\ e.m \in DOMAIN s.proc /\ Range(e.items) = s.proc[e.m].pv),
    C("C20", "needless", e.c \in DOMAIN s.calls => (~s.calls[e.c].wrote /\ ~Done(s, e.c))) }

RetClauses(s, e) ==
  IF e.c \notin DOMAIN s.calls THEN {} ELSE
  LET call == s.calls[e.c]
      p == s.proc[call.m]
      sets == call.op \in {"start", "add", "remove"}
  IN
  { C("C20", "raises", sets => e.exc \in {"", "SessionExpiredError", "ConnectionLoss"}),
    C("C21", "raises", ~sets => e.exc \in {"", "SessionExpiredError", "ConnectionLoss"}),
    C("C20", "done", (sets /\ e.exc = "") => (call.wrote \/ call.sat)),
    C("C21", "joined", (call.op = "start" /\ e.exc = "" /\ ~call.lost /\ p.s \in s.alive)
                         => Get(s.nodes, p.n, 0) = p.s),
    C("C21", "seen-both", (call.op = "start" /\ e.exc = "") => (p.mseen /\ p.pseen)),
    C("C21", "left", (call.op = "stop" /\ e.exc = "") =>
                       (p.s \notin s.alive /\ (p.s = 0 \/ \A n \in DOMAIN s.nodes : s.nodes[n] # p.s))) }

SettleClauses(s, e) ==
  LET all == {m \in DOMAIN s.proc : m \in {x[1] : x \in Range(e.own)}}
      own(m) == Range((CHOOSE x \in Range(e.own) : x[1] = m)[2])
      p(m) == s.proc[m]
      (* running, and a member *)
      ins == {m \in all : Get(s.nodes, p(m).n, -1) = p(m).s}
      known == DOMAIN s.nodes
  IN
  { C("C19", "no-errors", e.errs = <<>>),
    C("C20", "told", \A m \in all : s.has => p(m).pv = s.data),
    C("C21", "told", \A m \in all : p(m).mv = known),
    C("C19", "agree", \A a, b \in all : p(a).res = p(b).res),
    C("C19", "current", \A m \in all : p(m).fms = p(m).mv /\ p(m).fis = p(m).pv),
    C("C19", "own", \A m \in all : own(m) = Own(s, m)),
    C("C19", "disjoint", \A a, b \in ins : a # b => own(a) \cap own(b) = {}),
    C("C19", "complete", (s.has /\ ins # {} /\ known = {p(m).n : m \in ins} /\ ~s.cfg.custom)
                           => UNION {own(m) : m \in ins} = s.data),
    C("C19", "even", (s.has /\ ~s.cfg.custom) =>
        \A a, b \in ins : Cardinality(own(a)) <= Cardinality(own(b)) + 1),
    C("C19", "outsider", \A m \in all : p(m).n \notin known => own(m) = {}) }

Clauses(s, e) ==
  CASE e.ev = "mk" ->
         { C("C21", "own-node", e.m # 0 => (e.n = s.proc[e.m].n /\ e.s = s.proc[e.m].s /\ e.s \in s.alive)),
           C("C21", "one-node", e.n \notin DOMAIN s.nodes),
           C("C21", "after-stop", e.m # 0 => ~s.proc[e.m].stopping) }
    [] e.ev = "rm" -> { C("C21", "own-name", e.m # 0 => e.n = s.proc[e.m].n),
                         C("C21", "stays", e.m # 0 => (s.proc[e.m].stopping
                                                         \/ Get(s.nodes, e.n, 0) # s.proc[e.m].s)) }
    [] e.ev = "write" -> WriteClauses(s, e)
    [] e.ev = "fn" -> FnClauses(s, e)
    [] e.ev = "reb" -> { C("C19", "own", Range(e.own) = Own(s, e.m)), C("C21", "recomputed", e.th \in s.proc[e.m].pend) }
    [] e.ev = "toldend" -> ToldEndClauses(s, e)
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev = "settle" -> SettleClauses(s, e)
    [] e.ev = "hang" -> { C("C20", "hang", FALSE), C("C21", "hang", FALSE) }
    [] OTHER -> {}
=============================================================================
