------------------------------ MODULE Producer ------------------------------
(* The producer: what is queued, what is on the wire, what is settled.

   Events (records with field ev):
     meta(topics, brokers)   a broker answered a metadata request
     conn(b, n) lost(b, n) eof(b, n)
                             connection n to broker b accepted / closed by the
                             broker / closed by the client
     call(c, op, id, t, k)   produce (P, with message id, topic, key), flush
                             (F) or close (C) begins
     req(r, b, n, acks, timeout, parts)
                             produce request r arrives at b; parts is a
                             sequence of [t, p, codec, ids]
     reply(r, codes)         it is answered; codes as [t, p, code]
     ret(c, exc)             call c returns, or raises exc
     end(drained)            nothing moves any more
     hang(c)                 call c never returned
     malformed               bytes that are no request

   A message is: wait (accepted, to be sent), out (in a request not answered),
   acked, rejected, maybe (its topic was unknown when produce() was called and
   it cannot be told whether it was accepted), never (it was not), after
   (produced after close() began).

   Keys are numbers; key -1 is the null key.  The partitioner under test
   picks by key modulo the number of partitions, as Pick does.             *)
EXTENDS View

Init(cfg) ==
  [cfg |-> cfg, view |-> EmptyFn, brokers |-> {}, conns |-> {}, live |-> EmptyFn,
   views |-> {EmptyFn}, msgs |-> EmptyFn, outs |-> EmptyFn, open |-> EmptyFn,
   closing |-> FALSE, closed |-> FALSE, heal |-> FALSE]

Pick(leaders, k) ==
  LET q == SortedSeq(DOMAIN leaders)
  IN IF k < 0 THEN q[1] ELSE q[(k % Len(q)) + 1]

Ids(s, st) == {i \in DOMAIN s.msgs : s.msgs[i].st = st}

(* messages a flush starting now can put on the wire *)
Deliverable(s) ==
  LET kn == Known(s) IN
  {i \in Ids(s, "wait") :
     /\ s.msgs[i].t \in DOMAIN kn
     /\ kn[s.msgs[i].t][Pick(kn[s.msgs[i].t], s.msgs[i].k)] \in Live(s)}

ReqIds(e) == FlatSeq([i \in DOMAIN e.parts |-> e.parts[i].ids])

Quiet(s) == DOMAIN s.open = {}       \* no call under way
Sole(s, c) == DOMAIN s.open = {c}

--------------------------------------------------------------------------
(* effects *)

Viewed(s) == [s EXCEPT !.views =
                IF s.cfg.conc /\ ~Quiet(s) THEN @ \cup {Known(s)} ELSE {Known(s)}]

OnCall(s, e) ==
  LET known == e.op = "P" /\ e.t \in DOMAIN Known(s)
      m == [t |-> e.t, k |-> e.k, tried |-> FALSE,
            st |-> IF s.closing THEN "after" ELSE IF known THEN "wait" ELSE "maybe"]
      s1 == IF e.op = "P" THEN [s EXCEPT !.msgs = Put(@, e.id, m)] ELSE s
      queued == Cardinality(Ids(s1, "wait")) +
                IF e.op = "P" /\ m.st = "maybe" THEN 1 ELSE 0
      upto == Cardinality(Ids(s1, "wait") \cup Ids(s1, "maybe"))
      may == Cardinality(Ids(s1, "wait") \cup Ids(s1, "out") \cup Ids(s1, "maybe"))
      full(n) == s.cfg.batch = 0 \/ n >= s.cfg.batch
      exact == ~s.cfg.conc \/ Quiet(s)
      trig == CASE e.op = "P" -> ~s.closing /\ full(queued)
                [] OTHER -> TRUE
      call == [op |-> e.op, id |-> e.id, trig |-> trig,
               mayFlush |-> IF e.op = "P" THEN ~s.closing /\ full(IF exact THEN upto ELSE may)
                            ELSE TRUE,
               due |-> IF exact /\ trig /\ (e.op = "P" => known)
                       THEN Deliverable(s1) ELSE {},
               late |-> e.op = "P" /\ ~known,
               sent |-> {}, to |-> {}, metas |-> 0, allknown |-> TRUE,
               noneknown |-> TRUE]
      s2 == IF Quiet(s) THEN [s1 EXCEPT !.views = {Known(s1)}] ELSE s1
      (* a produce() that refreshes first looks at the batch only afterwards *)
      late(c) == [c EXCEPT !.mayFlush = @ \/ (c.op = "P" /\ c.late /\ full(may))]
  IN [s2 EXCEPT !.open = Put([c \in DOMAIN @ |-> late(@[c])], e.c, call),
                !.closing = @ \/ e.op = "C"]

OnMeta(s, e) ==
  LET bs == Range(e.brokers)
      s1 == [s EXCEPT !.view = ViewOf(e.topics), !.brokers = bs,
                      !.conns = @ \cap bs \cap Live(s), !.heal = FALSE]
      upd(call) ==
        IF call.op # "P" THEN [call EXCEPT !.metas = @ + 1]
        ELSE LET kn == s.msgs[call.id].t \in DOMAIN ViewOf(e.topics)
             IN [call EXCEPT !.metas = @ + 1, !.allknown = @ /\ kn,
                             !.noneknown = @ /\ ~kn]
  IN Viewed([s1 EXCEPT !.open = [c \in DOMAIN @ |-> upd(@[c])]])

OnConn(s, e) ==
  Viewed([s EXCEPT !.live = Put(@, e.b, Get(@, e.b, {}) \cup {e.n}),
                   !.conns = @ \cup {e.b}])

(* connection n is gone: what was outstanding on it is to be sent again *)
OnGone(s, e) ==
  LET dead == {r \in DOMAIN s.outs : s.outs[r].n = e.n}
      ids == UNION {Range(ReqIds(s.outs[r])) : r \in dead}
  IN Viewed([s EXCEPT
       !.live = Put(@, e.b, Get(@, e.b, {}) \ {e.n}),
       !.outs = DelAll(@, dead),
       !.heal = @ \/ dead # {},
       !.msgs = [i \in DOMAIN @ |->
                   IF i \in ids /\ @[i].st = "out" THEN [@[i] EXCEPT !.st = "wait"] ELSE @[i]]])

OnReq(s, e) ==
  LET ids == Range(ReqIds(e)) \cap DOMAIN s.msgs IN
  [s EXCEPT
     !.outs = Put(@, e.r, e),
     !.msgs = [i \in DOMAIN @ |->
                 IF i \in ids /\ @[i].st \in {"wait", "maybe", "out"}
                 THEN [@[i] EXCEPT !.st = "out", !.tried = TRUE] ELSE @[i]],
     !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.sent = @ \cup ids, !.to = @ \cup {e.b}]]]

OnReply(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  LET req == s.outs[e.r]
      code(i) ==   \* the code of the partition that held message i
        LET at == {q \in Range(req.parts) : i \in Range(q.ids)}
            cs == {x.code : x \in {y \in Range(e.codes) :
                              \E q \in at : q.t = y.t /\ q.p = y.p}}
        IN CHOOSE c \in cs : TRUE
      ids == Range(ReqIds(req)) \cap Ids(s, "out")
      st(c) == IF c = 0 THEN "acked" ELSE IF c \in Retriable THEN "wait" ELSE "rejected"
  IN [s EXCEPT
        !.outs = Del(@, e.r),
        !.heal = @ \/ \E x \in Range(e.codes) : x.code \in Retriable,
        !.msgs = [i \in DOMAIN @ |->
                    IF i \in ids THEN [@[i] EXCEPT !.st = st(code(i))] ELSE @[i]]]

(* whether a produce() for an unknown topic was accepted, if it can be told *)
Resolve(s, call, e) ==
  IF call.op # "P" \/ s.msgs[call.id].st # "maybe" THEN s
  ELSE LET first == call.metas = 0 \/ ~call.mayFlush   \* only the first heal can have asked
           st == IF e.exc # "" THEN (IF first THEN "never" ELSE "maybe")
                 ELSE IF s.cfg.conc THEN "maybe"
                 ELSE IF first
                      THEN (IF s.msgs[call.id].t \in DOMAIN Known(s) THEN "wait" ELSE "never")
                 ELSE IF call.allknown THEN "wait"
                 ELSE IF call.noneknown THEN "never" ELSE "maybe"
       IN [s EXCEPT !.msgs[call.id].st = st]

(* the refresh a failing call took on is none that overlapping ones owe *)
Owed(s, e) == s.heal /\ ~(e.exc # "" /\ DOMAIN s.open # {e.c})

OnRet(s, e) ==
  LET s1 == Resolve(s, s.open[e.c], e)
  IN Viewed([s1 EXCEPT !.open = Del(@, e.c), !.heal = Owed(s, e),
                       !.closed = @ \/ s.open[e.c].op = "C"])

Step(s, e) ==
  CASE e.ev = "call" -> OnCall(s, e)
    [] e.ev = "meta" -> OnMeta(s, e)
    [] e.ev = "conn" -> OnConn(s, e)
    [] e.ev \in {"lost", "eof"} -> OnGone(s, e)
    [] e.ev = "req" -> OnReq(s, e)
    [] e.ev = "reply" -> OnReply(s, e)
    [] e.ev = "ret" -> OnRet(s, e)
    [] OTHER -> s

--------------------------------------------------------------------------
(* when the client may, or must, do what it does *)

ReqClauses(s, e) ==
  LET ids == ReqIds(e)
      known(i) == i \in DOMAIN s.msgs
      st(i) == s.msgs[i].st
      ok(i) == known(i) /\ st(i) \in {"wait", "maybe"}
      fits(q, v) == \A i \in Range(q.ids) : known(i) =>
                      (q.t \in DOMAIN v /\ q.p = Pick(v[q.t], s.msgs[i].k))
      leads(q, v) == q.t \in DOMAIN v /\ q.p \in DOMAIN v[q.t] /\ v[q.t][q.p] = e.b
      (* waiting messages bound for the same partition *)
      rivals(q, v) == {i \in Ids(s, "wait") : s.msgs[i].t = q.t /\ q.t \in DOMAIN v
                                              /\ Pick(v[q.t], s.msgs[i].k) = q.p}
      ordered(q) == \A i, j \in DOMAIN q.ids : i < j => q.ids[i] <= q.ids[j]
  IN { C("C02", "alien", \A q \in Range(e.parts) : \A i \in Range(q.ids) :
                           known(i) /\ s.msgs[i].t = q.t /\ st(i) # "never"),
       C("C02", "settled", \A i \in Range(ids) : known(i) => st(i) \notin {"acked", "rejected"}),
       C("C02", "outstanding", \A i \in Range(ids) : known(i) => st(i) # "out"),
       C("C02", "twice", NoRepeat(ids)),
       C("C03", "partition", \E v \in s.views : \A q \in Range(e.parts) : fits(q, v)),
       C("C03", "leader", \A q \in Range(e.parts) : \E v \in s.views : leads(q, v)),
       C("C04", "order", s.cfg.conc \/ \A q \in Range(e.parts) : ordered(q)),
       C("C04", "overtaken", s.cfg.conc \/ \A q \in Range(e.parts) : \A v \in s.views :
            \A i \in rivals(q, v) : i \in Range(q.ids)
                                    \/ \A j \in Range(q.ids) : j <= i),
       C("C05", "acks", e.acks = s.cfg.acks),
       C("C05", "timeout", e.timeout = s.cfg.timeout),
       C("C05", "codec", \A q \in Range(e.parts) : \A x \in Range(q.codec) : x = s.cfg.codec),
       C("C05", "early", \E c \in DOMAIN s.open : s.open[c].mayFlush),
       C("C05", "one-per-broker", s.cfg.conc \/ \A c \in DOMAIN s.open : e.b \notin s.open[c].to),
       C("C05", "empty", ids # <<>>),
       C("C25", "produced-after-close", \A i \in Range(ids) : known(i) => st(i) # "after"),
       C("C25", "silent", ~s.closed) }

RetClauses(s, e) ==
  LET call == s.open[e.c]
      missed == call.due \ call.sent
      sole == Sole(s, e.c)
  IN { C("C05", "answered", sole => s.outs = EmptyFn),
       C("C05", "sent-when-due", missed = {}),
       C("C01", "sent-when-due", missed = {}),
       C("C12", "healed", (sole /\ e.exc = "" /\ ~s.closed) => ~s.heal) }
     \cup (IF call.op = "C" THEN { C("C25", "queued-sent", missed = {}),
                                   C("C25", "connections-closed", Live(s) = {}) }
           ELSE {})

EndClauses(s, e) ==
  { C("C01", "settled-at-last", e.drained => (Ids(s, "wait") = {} /\ Ids(s, "out") = {})),
    C("C25", "connections-closed", s.closed => Live(s) = {}) }

HangClauses(s, e) ==
  { C("C01", "hang", FALSE), C("C05", "answered", FALSE) } \cup
  (IF e.c \in DOMAIN s.open /\ s.open[e.c].op = "C"
   THEN { C("C25", "hang", FALSE) } ELSE {})

Clauses(s, e) ==
  CASE e.ev = "req" -> ReqClauses(s, e)
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev = "end" -> EndClauses(s, e)
    [] e.ev = "hang" -> HangClauses(s, e)
    [] e.ev = "meta" -> { C("C25", "silent", ~s.closed) }
    [] e.ev = "malformed" -> { C("C02", "malformed", FALSE), C("C01", "malformed", FALSE),
                               C("C22", "malformed", FALSE) }
    [] OTHER -> {}
=============================================================================
