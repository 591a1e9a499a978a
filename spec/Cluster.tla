------------------------------ MODULE Cluster ------------------------------
(* The client's picture of the brokers: bootstrapping, refreshes, connections.

   Events:
     call(c, op)             start() or heal() begins
     boot(k, how, n)         a connection to bootstrap host k is attempted; how
                             it goes: refused, or open (as connection n)
     bootfail(k)             the host drops the connection or answers nonsense
     booteof(n)              the client closes bootstrap connection n
     meta(b, asked, brokers, topics)
                             broker b (0: the bootstrap host) answers; asked are
                             the topics asked for, none meaning all; topics are
                             [t, err, parts], parts <<partition, leader>> with
                             leader -1 while there is none
     conn(b, n) refused(b) lost(b, n) eof(b, n)
                             as for the producer
     ret(c, exc, topics, leaders, members)
                             the call returns; what is known then: topics as
                             <<topic, partition>>, leaders as <<topic, partition,
                             broker>>, members as broker ids
     hang(c)                                                                 *)
EXTENDS Verdict

(* topics: topic -> [err, parts: partition -> leader] *)
TopicsOf(topics) ==
  [t \in {x.t : x \in Range(topics)} |->
     LET x == CHOOSE y \in Range(topics) : y.t = t
     IN [err |-> x.err,
         parts |-> [p \in {q[1] : q \in Range(x.parts)} |->
                      (CHOOSE q \in Range(x.parts) : q[1] = p)[2]]]]

Unknown == 3

Init(cfg) ==
  [cfg |-> cfg, boots |-> <<>>, bootopen |-> {}, answered |-> FALSE,
   known |-> EmptyFn, brokers |-> {}, answers |-> {}, live |-> EmptyFn,
   dialled |-> {}, open |-> EmptyFn, overlap |-> FALSE, dead |-> {}]

LiveAt(s, b) == Get(s.live, b, {})
Live(s) == {b \in DOMAIN s.live : s.live[b] # {}}
Sole(s, c) == DOMAIN s.open = {c} /\ ~s.overlap

(* a metadata answer leaves nothing to be retried *)
Complete(known, brokers) ==
  \A t \in DOMAIN known : known[t].err # Unknown =>
     /\ known[t].err = 0
     /\ \A p \in DOMAIN known[t].parts : known[t].parts[p] \in brokers
Usable(known) == {t \in DOMAIN known : known[t].err = 0}
PartsOf(known) ==
  UNION {{<<t, p>> : p \in DOMAIN known[t].parts} : t \in Usable(known)}
LeadersOf(known) == {<<x[1], x[2], known[x[1]].parts[x[2]]>> : x \in PartsOf(known)}

Step(s, e) ==
  CASE e.ev = "call" ->
         [s EXCEPT !.open = Put(@, e.c, [op |-> e.op, metas |-> 0]),
                   !.overlap = @ \/ s.open # EmptyFn,
                   !.answers = IF s.open = EmptyFn THEN {} ELSE @,
                   !.dead = IF s.open = EmptyFn THEN {} ELSE @]
    [] e.ev = "boot" ->
         [s EXCEPT !.boots = Append(@, [k |-> e.k, st |-> e.how]),
                   !.bootopen = IF e.how = "open" THEN @ \cup {e.n} ELSE @]
    [] e.ev = "bootfail" ->
         [s EXCEPT !.boots = [i \in DOMAIN @ |-> IF @[i].k = e.k THEN [@[i] EXCEPT !.st = "failed"]
                                                 ELSE @[i]]]
    [] e.ev = "booteof" -> [s EXCEPT !.bootopen = @ \ {e.n}]
    [] e.ev = "meta" ->
         LET new == TopicsOf(e.topics)
             known == IF e.asked = <<>> THEN new ELSE new @@ s.known
         IN [s EXCEPT !.known = known, !.brokers = Range(e.brokers),
                      !.answers = @ \cup {[known |-> known, brokers |-> Range(e.brokers)]},
                      !.answered = @ \/ e.b = 0,
                      !.boots = IF e.b = 0 THEN [i \in DOMAIN @ |-> IF i = Len(@)
                                   THEN [@[i] EXCEPT !.st = "answered"] ELSE @[i]] ELSE @,
                      !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.metas = @ + 1]]]
    [] e.ev = "conn" -> [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \cup {e.n})]
    [] e.ev = "lost" ->
         [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \ {e.n}),
                   !.dead = IF \E c \in DOMAIN s.open : s.open[c].metas > 0
                            THEN @ \cup {e.b} ELSE @]
    [] e.ev = "eof" -> [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \ {e.n})]
    [] e.ev = "ret" -> [s EXCEPT !.open = Del(@, e.c),
                                 !.overlap = @ /\ DOMAIN s.open # {e.c}]
    [] OTHER -> s

--------------------------------------------------------------------------
ViewClauses(s, e) ==
  LET tops == Range(e.topics)
      leads == Range(e.leaders)
      mem == Range(e.members)
      one(a) == /\ Complete(a.known, a.brokers)
                /\ tops = PartsOf(a.known) /\ leads = LeadersOf(a.known)
  IN (IF Sole(s, e.c)
      THEN { C("C10", "nothing-missing", Complete(s.known, s.brokers)),
             C("C10", "topics", tops = PartsOf(s.known)),
             C("C10", "leaders", leads = LeadersOf(s.known)),
             C("C10", "members", mem = s.brokers),
             C("C10", "one-connection-each",
               \A b \in s.brokers : Cardinality(LiveAt(s, b)) = 1 \/ b \in s.dead),
             C("C10", "none-to-the-departed", Live(s) \subseteq s.brokers) }
      ELSE IF DOMAIN s.open = {e.c}
      THEN { C("C10", "overlap-view", one([known |-> s.known, brokers |-> s.brokers])),
             C("C10", "overlap-members", mem = s.brokers),
             C("C10", "overlap-leak", \A b \in DOMAIN s.live : Cardinality(s.live[b]) <= 1) }
      ELSE {})
     \cup (IF DOMAIN s.open = {e.c}
           THEN { C("C10", "leader-connected",
                    \A x \in leads : x[3] \in mem /\ (x[3] \in Live(s) \/ x[3] \in s.dead)) }
           ELSE {})

RetClauses(s, e) ==
  LET call == s.open[e.c] IN
  { C("C11", "raises", e.exc \in {"", "NoBrokersError"}),
    C("C11", "bootstrap-closed", s.bootopen = {}),
    C("C10", "bootstrap-leak", s.bootopen = {}) }
  \cup (IF e.exc = "" THEN
          { C("C11", "succeeds-on-an-answer", call.metas > 0),
            C("C10", "refreshed", call.metas > 0) } \cup ViewClauses(s, e)
        ELSE
          { C("C11", "no-brokers-only-if-none-answers",
              IF call.op = "start" /\ ~s.answered
              THEN /\ Len(s.boots) = s.cfg.hosts
                   /\ \A i \in DOMAIN s.boots : s.boots[i].st \in {"refused", "failed"}
              ELSE Live(s) = {} \/ ~Sole(s, e.c)) })

Clauses(s, e) ==
  CASE e.ev = "boot" ->
         { C("C11", "hosts-in-order", e.k = Len(s.boots) + 1),
           C("C11", "next-only-after-failure",
             \A i \in DOMAIN s.boots : s.boots[i].st \in {"refused", "failed"}),
           C("C11", "bootstraps-when-starting",
             \E c \in DOMAIN s.open : s.open[c].op = "start") }
    [] e.ev = "conn" ->
         { C("C10", "named-by-metadata",
             \E a \in s.answers \cup {[brokers |-> s.brokers]} : e.b \in a.brokers),
           C("C10", "second-connection", (~s.overlap) => LiveAt(s, e.b) = {}) }
    [] e.ev = "eof" ->
         { C("C10", "closes-only-the-departed",
             s.overlap \/ e.garbled \/ \E a \in s.answers : e.b \notin a.brokers) }
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev = "quiet" ->
         { C("C10", "quiet-leak", s.open = EmptyFn =>
                \A b \in DOMAIN s.live : Cardinality(s.live[b]) <= 1),
           C("C11", "bootstrap-closed", s.bootopen = {}) }
    [] e.ev = "hang" -> { C("C10", "hang", FALSE), C("C11", "hang", FALSE) }
    [] e.ev = "malformed" -> { C("C11", "malformed", FALSE) }
    [] OTHER -> {}
=============================================================================
