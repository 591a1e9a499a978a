------------------------------ MODULE Consumer ------------------------------
(* Consuming: where a partition's position is, what is asked of which broker,
   what a call returns.

   Events:
     meta(topics, brokers) conn(b, n) lost(b, n) eof(b, n)   as in Producer
     call(c, op, t, lo, hi)  consume (of topic t; the start asked for means a
                             time between lo and hi), close or connect begins
     oreq(r, b, n, replica, parts)
                             offset lookup r arrives at b; parts of
                             <<t, p, time, max>>
     orep(r, parts)          is answered; parts of [t, p, code, offs]
     freq(r, b, n, replica, wait, min, parts)
                             fetch r arrives; parts of <<t, p, offset, max>>
     frep(r, parts)          is answered; parts of [t, p, code, msgs], msgs of
                             <<offset, kind, id>>: all complete messages sent,
                             kind 0 good, 1 not deserializable, 2 empty
     ret(c, exc, vals)       call c returns the messages vals, or raises exc
     end, hang(c), malformed                                               *)
EXTENDS View

Init(cfg) ==
  [cfg |-> cfg, view |-> EmptyFn, conns |-> {}, live |-> EmptyFn, views |-> {EmptyFn},
   ghosts |-> {}, fresh |-> TRUE, synced |-> EmptyFn, pos |-> EmptyFn, open |-> EmptyFn, outs |-> EmptyFn,
   heal |-> FALSE, closing |-> FALSE, closed |-> FALSE]

Quiet(s) == DOMAIN s.open = {}
Sole(s, c) == DOMAIN s.open = {c}
Snap(s) == [k |-> Known(s)]

(* Ghosts: brokers lost while a refresh was under way.  That refresh may keep
   what they lead until the next one begins.                               *)
Views(s) == {Known(s), Known([s EXCEPT !.conns = @ \cup s.ghosts])}
Viewed(s) == [s EXCEPT !.views = IF s.cfg.conc /\ ~Quiet(s) THEN @ \cup Views(s) ELSE Views(s)]
Busy(s) == [s EXCEPT !.fresh = ~s.cfg.conc]

AllocIn(v, t) == IF t \in DOMAIN v THEN DOMAIN v[t] ELSE {}
Alloc(s, t) == AllocIn(Known(s), t)
LiveParts(s, t) == {p \in Alloc(s, t) : Known(s)[t][p] \in Live(s)}
Pos(s, t) == Get(s.pos, t, EmptyFn)
Synced(s, t) == Get(s.synced, t, "no")       \* no, yes, or maybe

(* the open call on topic t *)
CallsOn(s, t) == {c \in DOMAIN s.open : s.open[c].op = "consume" /\ s.open[c].t = t}
CallOn(s, t) == CHOOSE c \in CallsOn(s, t) : TRUE
HasCall(s, t) == CallsOn(s, t) # {}
TopicOf(e) == e.parts[1][1]

--------------------------------------------------------------------------
OnCall(s, e) ==
  LET alloc == Alloc(s, e.t)
      exact == ~s.cfg.conc \/ Quiet(s)
      ready == e.op = "consume" /\ ~s.closing /\ Synced(s, e.t) = "yes" /\ alloc # {}
      call == [op |-> e.op, t |-> e.t, lo |-> e.lo, hi |-> e.hi, late |-> s.closing,
               ready |-> ready, alone |-> Quiet(s),
               due |-> IF ready /\ exact THEN LiveParts(s, e.t) ELSE {},
               looked |-> FALSE, round |-> EmptyFn, need |-> {}, some |-> {}, fatal |-> FALSE,
               unknown |-> Quiet(s) /\ \A v \in Views(s) : AllocIn(v, e.t) = {}, met |-> FALSE,
               gone |-> FALSE, dry |-> LiveParts(s, e.t) = {},
               fetched |-> FALSE, base |-> EmptyFn, asked |-> {}, to |-> {}, got |-> EmptyFn]
      s1 == [s EXCEPT !.open = Put([c \in DOMAIN @ |-> [@[c] EXCEPT !.alone = FALSE]], e.c, call),
                      !.closing = @ \/ e.op = "close",
                      !.heal = @ \/ (ready /\ LiveParts(s, e.t) # alloc)]
  IN IF Quiet(s) THEN [s1 EXCEPT !.views = Views(s), !.fresh = TRUE] ELSE Busy(s1)

(* what every open call learns whenever the view may have changed *)
Noted(s) ==
  [s EXCEPT !.open = [c \in DOMAIN @ |->
     [@[c] EXCEPT !.gone = @ \/ Alloc(s, s.open[c].t) = {},
                  !.dry = @ \/ LiveParts(s, s.open[c].t) = {}]]]

OnMeta(s, e) ==
  LET bs == Range(e.brokers)
  IN Noted(Viewed([s EXCEPT !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.met = TRUE]], !.view = ViewOf(e.topics), !.heal = FALSE, !.fresh = FALSE,
                            !.ghosts = IF s.fresh THEN {} ELSE ((s.conns \cup @) \cap bs) \ Live(s),
                            !.conns = @ \cap bs \cap Live(s)]))

OnConn(s, e) ==
  Viewed([s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \cup {e.n}), !.conns = @ \cup {e.b},
                   !.ghosts = @ \ {e.b}])

(* requests still waited for *)
Awaited(s, r) == s.outs[r].c \in DOMAIN s.open /\ ~s.open[s.outs[r].c].fatal

OnGone(s, e) ==
  LET dead == {r \in DOMAIN s.outs : s.outs[r].n = e.n}
      asks == {r \in dead : Awaited(s, r)}
      lostParts(c) == UNION {{x[2] : x \in Range(s.outs[r].parts)} :
                               r \in {y \in asks : s.outs[y].c = c /\ s.outs[y].kind = "o"}}
      upd(c) == LET call == s.open[c] IN
        [call EXCEPT !.round = [p \in DOMAIN @ |-> IF p \in lostParts(c) THEN "lost" ELSE @[p]],
                     !.due = {p \in @ : p \in call.asked
                                \/ Get(Get(Known(s), call.t, EmptyFn), p, 0) # e.b}]
  IN Noted(Viewed([s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \ {e.n}),
                            !.outs = DelAll(@, dead),
                            !.heal = @ \/ asks # {},
                            !.open = [c \in DOMAIN @ |-> upd(c)]]))

OnOreq(s, e) ==
  IF ~HasCall(s, TopicOf(e)) THEN s ELSE
  LET t == TopicOf(e)
      c == CallOn(s, t)
      call == s.open[c]
      over == \A p \in DOMAIN call.round : call.round[p] # "out"
      fresh == [p \in {x[2] : x \in Range(e.parts)} |-> "out"]
      all == {AllocIn(v, t) : v \in s.views}
  IN [s EXCEPT !.outs = Put(@, e.r, [c |-> c, kind |-> "o", t |-> t, n |-> e.n, b |-> e.b, parts |-> e.parts]),
               !.heal = @ \/ (~call.fatal /\ LiveParts(s, t) # Alloc(s, t)),
               !.synced = Put(@, t, "no"),
               !.open[c] = [call EXCEPT
                  !.looked = TRUE,
                  !.need = IF over THEN {p \in UNION all : \A a \in all : p \in a} ELSE @,
                  !.some = IF over THEN UNION all ELSE @,
                  !.round = IF over THEN fresh ELSE fresh @@ @]]

OnOrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  IF ~Awaited(s, e.r) THEN [s EXCEPT !.outs = Del(@, e.r)] ELSE
  LET c == s.outs[e.r].c
      t == s.outs[e.r].t
      call == s.open[c]
      part(p) == CHOOSE x \in Range(e.parts) : x.p = p
      ps == {x.p : x \in Range(e.parts)}
      res(x) == IF x.code = 0 THEN (IF x.offs = <<>> THEN "fatal" ELSE "ok")
                ELSE IF x.code \in Retriable THEN "retry" ELSE "fatal"
      fatal == \E x \in Range(e.parts) : res(x) = "fatal"
      found == {p \in ps : res(part(p)) = "ok"}
      round == [p \in ps |-> res(part(p))] @@ call.round
      done == ~fatal /\ ~call.fatal /\ call.need \subseteq DOMAIN round
              /\ \A p \in DOMAIN round : round[p] = "ok"
  IN [s EXCEPT !.outs = Del(@, e.r),
               !.heal = @ \/ (~fatal /\ \E p \in ps : res(part(p)) = "retry"),
               !.pos = Put(@, t, [p \in found |-> part(p).offs[1]] @@ Pos(s, t)),
               !.synced = Put(@, t, IF ~done THEN "no" ELSE IF call.some \subseteq DOMAIN round THEN "yes" ELSE "maybe"),
               !.open[c] = [call EXCEPT !.round = round, !.fatal = @ \/ fatal]]

OnFreq(s, e) ==
  IF ~HasCall(s, TopicOf(e)) THEN s ELSE
  LET t == TopicOf(e)
      c == CallOn(s, t)
      call == s.open[c]
      ps == {x[2] : x \in Range(e.parts)}
      exact == ~s.cfg.conc \/ call.alone
      new == [p \in ps \ DOMAIN Pos(s, t) |-> (CHOOSE x \in Range(e.parts) : x[2] = p)[3]]
      first == ~call.fetched
  IN [s EXCEPT !.outs = Put(@, e.r, [c |-> c, kind |-> "f", t |-> t, n |-> e.n, b |-> e.b, parts |-> e.parts]),
               !.pos = Put(@, t, new @@ Pos(s, t)),
               !.heal = @ \/ (first /\ exact /\ LiveParts(s, t) # Alloc(s, t)),
               !.open[c] = [call EXCEPT
                  !.fetched = TRUE,
                  !.base = IF first THEN Pos(s, t) ELSE @,
                  !.due = IF first /\ exact THEN LiveParts(s, t) ELSE @,
                  !.asked = @ \cup ps, !.to = @ \cup {e.b}]]

OnFrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  LET t == s.outs[e.r].t
      c == s.outs[e.r].c
      at(p) == (CHOOSE x \in Range(s.outs[e.r].parts) : x[2] = p)[3]
      part(p) == CHOOSE x \in Range(e.parts) : x.p = p
      ps == {x.p : x \in Range(e.parts)}
      (* a compressed set is returned whole, even when asked for its middle *)
      mine(p) == Keep(part(p).msgs, LAMBDA x : x[1] >= at(p))
      took == {p \in ps : part(p).code = 0 /\ mine(p) # <<>>}
      good(p) == LET q == Keep(mine(p), LAMBDA x : x[2] = 0) IN [i \in DOMAIN q |-> q[i][3]]
      s1 == [s EXCEPT !.outs = Del(@, e.r)]
  IN IF c \notin DOMAIN s.open THEN s1 ELSE
     [s1 EXCEPT !.pos = Put(@, t, [p \in took |-> mine(p)[Len(mine(p))][1] + 1] @@ Pos(s, t)),
                !.heal = @ \/ \E p \in ps : part(p).code \in Retriable,
                !.synced = IF \E p \in ps : part(p).code = 1 THEN Put(@, t, "no") ELSE @,
                !.open[c].got = [p \in took |-> good(p)] @@ @]

(* the refresh a failing call took on is none that overlapping ones owe *)
Owed(s, e) == s.heal /\ ~(e.exc # "" /\ DOMAIN s.open # {e.c})

OnRet(s, e) ==
  LET call == s.open[e.c]
      t == call.t
      s1 == IF call.op = "close" THEN [s EXCEPT !.closed = TRUE]
            ELSE IF e.exc = "" \/ call.op # "consume" THEN s
            ELSE IF call.fetched THEN [s EXCEPT !.pos = Put(@, t, call.base @@ Pos(s, t))]
            ELSE IF call.ready THEN s
            ELSE [s EXCEPT !.synced = Put(@, t, IF Synced(s, t) = "yes" THEN "maybe" ELSE Synced(s, t))]
  IN Viewed([s1 EXCEPT !.open = Del(@, e.c), !.heal = Owed(s, e)])

Step(s, e) ==
  CASE e.ev = "call" -> OnCall(s, e)
    [] e.ev = "meta" -> OnMeta(s, e)
    [] e.ev = "conn" -> OnConn(s, e)
    [] e.ev \in {"lost", "eof"} -> OnGone(s, e)
    [] e.ev = "oreq" -> OnOreq(Busy(s), e)
    [] e.ev = "orep" -> OnOrep(s, e)
    [] e.ev = "freq" -> OnFreq(Busy(s), e)
    [] e.ev = "frep" -> OnFrep(s, e)
    [] e.ev = "ret" -> OnRet(s, e)
    [] OTHER -> s

--------------------------------------------------------------------------
OneTopic(e) == e.parts # <<>> /\ \A x \in Range(e.parts) : x[1] = TopicOf(e)
PartsOf(e) == [i \in DOMAIN e.parts |-> e.parts[i][2]]
Led(s, e) == \A x \in Range(e.parts) : \E v \in s.views :
               x[1] \in DOMAIN v /\ x[2] \in DOMAIN v[x[1]] /\ v[x[1]][x[2]] = e.b

OreqClauses(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e)))
  THEN { C("C14", "stray-lookup", FALSE), C("C25", "silent", ~s.closed) } ELSE
  LET call == s.open[CallOn(s, TopicOf(e))] IN
  { C("C14", "needless-lookup", ~call.fetched /\ ~call.fatal
                                /\ Synced(s, call.t) # "yes"),
    C("C13", "needless-lookup", Synced(s, call.t) # "yes"),
    C("C14", "asks-leader", Led(s, e)),
    C("C14", "asks-once", NoRepeat(PartsOf(e)) /\
        ((\E p \in DOMAIN call.round : call.round[p] = "out") =>
            \A p \in Range(PartsOf(e)) : p \notin DOMAIN call.round)),
    C("C14", "start", \A x \in Range(e.parts) : call.lo <= x[3] /\ x[3] <= call.hi /\ x[4] = 1),
    C("C14", "replica", e.replica = -1),
    C("C25", "after-close", ~call.late),
    C("C25", "silent", ~s.closed) }

FreqClauses(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e)))
  THEN { C("C15", "stray-fetch", FALSE), C("C25", "silent", ~s.closed) } ELSE
  LET call == s.open[CallOn(s, TopicOf(e))]
      pos == Pos(s, call.t)
      n == Len(e.parts)
  IN
  { C("C14", "looked-up-first", Synced(s, call.t) # "no" /\ ~call.fatal),
    C("C14", "starts-there", call.looked => \A x \in Range(e.parts) :
                               x[2] \in DOMAIN call.round => x[3] = Get(pos, x[2], x[3])),
    C("C13", "position", \A x \in Range(e.parts) : x[3] = Get(pos, x[2], x[3])),
    C("C15", "leader", Led(s, e)),
    C("C15", "once", NoRepeat(PartsOf(e)) /\ Range(PartsOf(e)) \cap call.asked = {}),
    C("C15", "one-request", e.b \notin call.to),
    C("C15", "allocated", \A p \in Range(PartsOf(e)) : \E v \in s.views : p \in AllocIn(v, call.t)),
    C("C15", "budget", e.wait = s.cfg.wait /\ e.min = s.cfg.min /\ e.replica = -1
                       /\ \A x \in Range(e.parts) : x[4] = s.cfg.maxb \div n),
    C("C25", "after-close", ~call.late),
    C("C25", "silent", ~s.closed) }

Returned(call) == {<<p, i>> \in UNION {{<<p, i>> : i \in DOMAIN call.got[p]} : p \in DOMAIN call.got} : TRUE}

RetClauses(s, e) ==
  LET call == s.open[e.c]
      sole == Sole(s, e.c)
      ids(p) == Range(call.got[p])
      of(p) == Keep(e.vals, LAMBDA v : v \in ids(p))
      settled == \A r \in DOMAIN s.outs : s.outs[r].c # e.c
  IN
  IF call.op = "connect" THEN { C("C13", "raises", e.exc = "") } ELSE
  IF call.op = "close" THEN { C("C25", "connections-closed", Live(s) = {}) } ELSE
  { C("C13", "delivered", e.exc = "" => /\ \A p \in DOMAIN call.got : of(p) = call.got[p]
                                        /\ Len(e.vals) = Cardinality(Returned(call))),
    C("C13", "answered", (e.exc = "" /\ ~call.fatal) => settled),
    C("C13", "raises", e.exc \in {"", "NoBrokersError"}),
    C("C14", "raises", e.exc \in {"", "NoBrokersError"}),
    C("C12", "raises", e.exc = "NoBrokersError" => (Live(s) = {} \/ s.closing \/ ~call.alone)),
    C("C14", "gives-up", (e.exc = "" /\ ~call.late /\ ~call.ready /\ ~call.fetched /\ ~s.closing)
                         => (call.fatal \/ call.gone \/ call.dry)),
    (* a topic not known is looked for first *)
    C("C14", "asked-first", (e.exc = "" /\ call.unknown /\ ~call.late) => call.met),
    C("C14", "failed-lookup-empty", call.fatal => (e.vals = <<>> /\ ~call.fetched)),
    C("C15", "asks-all", (e.exc = "" /\ ~s.closing) => call.due \subseteq call.asked),
    C("C15", "refreshed", (e.exc = "" /\ sole /\ ~call.fatal /\ ~s.closing) => ~s.heal),
    C("C12", "refreshed", (e.exc = "" /\ sole /\ ~call.fatal /\ ~s.closing) => ~s.heal),
    C("C25", "after-close", call.late => (e.exc = "" /\ e.vals = <<>>)) }

Clauses(s, e) ==
  CASE e.ev = "oreq" -> OreqClauses(s, e)
    [] e.ev = "freq" -> FreqClauses(s, e)
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev = "meta" -> { C("C25", "silent", ~s.closed) }
    [] e.ev = "end" -> { C("C25", "connections-closed", s.closed => Live(s) = {}) }
    [] e.ev = "hang" -> { C("C13", "hang", FALSE), C("C14", "hang", FALSE), C("C15", "hang", FALSE) }
                        \cup (IF s.closing THEN { C("C25", "hang", FALSE) } ELSE {})
    [] e.ev = "malformed" -> { C("C13", "malformed", FALSE), C("C14", "malformed", FALSE),
                               C("C15", "malformed", FALSE) }
    [] OTHER -> {}
=============================================================================
