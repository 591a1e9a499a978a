------------------------------- MODULE Group -------------------------------
(* Consuming as a member of a group: what is owned, where each owned partition
   is resumed, what gets committed, and who the coordinator is.

   Events (topics, partitions, brokers, connections as in Consumer):
     meta conn lost eof, refused(b): a connect to b was
     own(own)             a rebalance: own of <<t, p>> is what this member owns
     left                 the member's node is gone from the group
     call(c, op, t, m)    connect, consume (of t), commit (with metadata m, "*"
                          for none given) or close begins
     creq(r, b, n)        coordinator lookup r arrives at b
     crep(r, code, id)    is answered
     lreq(r, b, n, parts) lookup of committed offsets arrives; parts of <<t, p>>
     lrep(r, parts)       is answered; parts of [t, p, code, off]
     freq frep            as in Consumer
     kreq(r, b, n, parts) commit arrives; parts of <<t, p, offset, metadata>>
     krep(r, parts)       is answered; parts of [t, p, code]
     ret(c, exc, vals)    call c returns
     end, hang(c), malformed                                               *)
EXTENDS View

Init(cfg) ==
  [cfg |-> cfg, view |-> EmptyFn, conns |-> {}, live |-> EmptyFn, views |-> {EmptyFn},
   ghosts |-> {}, fresh |-> TRUE, own |-> {}, synced |-> EmptyFn, pos |-> EmptyFn,
   consumed |-> {}, coord |-> 0, tried |-> {}, cand |-> {}, steady |-> {},
   open |-> EmptyFn, outs |-> EmptyFn, heal |-> FALSE, left |-> FALSE,
   closing |-> FALSE, closed |-> FALSE]

Quiet(s) == DOMAIN s.open = {}
Sole(s, c) == DOMAIN s.open = {c}

Views(s) == {Known(s), Known([s EXCEPT !.conns = @ \cup s.ghosts])}
Viewed(s) == [s EXCEPT !.views = IF s.cfg.conc /\ ~Quiet(s) THEN @ \cup Views(s) ELSE Views(s)]
Busy(s) == [s EXCEPT !.fresh = ~s.cfg.conc]

Owned(s, t) == {x[2] : x \in {y \in s.own : y[1] = t}}
LeaderIn(v, t, p) == Get(Get(v, t, EmptyFn), p, 0)
(* the owned partitions led by a broker the client is connected to *)
LiveParts(s, t) == {p \in Owned(s, t) : LeaderIn(Known(s), t, p) \in Live(s)}
Pos(s, t) == Get(s.pos, t, EmptyFn)
Synced(s, t) == Get(s.synced, t, "no")          \* no, yes, or maybe

CallsOn(s, t) == {c \in DOMAIN s.open : s.open[c].op = "consume" /\ s.open[c].t = t}
CallOn(s, t) == CHOOSE c \in CallsOn(s, t) : TRUE
HasCall(s, t) == CallsOn(s, t) # {}
TopicOf(e) == e.parts[1][1]
OneTopic(e) == e.parts # <<>> /\ \A x \in Range(e.parts) : x[1] = TopicOf(e)
PartsOf(e) == [i \in DOMAIN e.parts |-> e.parts[i][2]]

Commits(s, c) == s.open[c].op = "commit" \/ (s.open[c].op = "consume" /\ s.cfg.auto)
(* the call a commit belongs to, 0 if there are several *)
Committer(s) == IF \E c \in DOMAIN s.open : Sole(s, c) /\ Commits(s, c)
                THEN CHOOSE c \in DOMAIN s.open : TRUE ELSE 0

(* a moment from which brokers are known to be there *)
Anchor(s) == [s EXCEPT !.steady = Live(s)]
(* what every open call learns whenever anything may have changed *)
Noted(s) ==
  [s EXCEPT !.open = [c \in DOMAIN @ |->
     [@[c] EXCEPT !.gone = @ \/ Owned(s, s.open[c].t) = {},
                  !.dry = @ \/ LiveParts(s, s.open[c].t) = {},
                  !.dead = @ \/ Live(s) = {}]]]

--------------------------------------------------------------------------
OnCall(s, e) ==
  LET exact == ~s.cfg.conc \/ Quiet(s)
      ready == e.op = "consume" /\ ~s.closing /\ Synced(s, e.t) = "yes" /\ Owned(s, e.t) # {}
      call == [op |-> e.op, t |-> e.t, m |-> e.m, late |-> s.closing, ready |-> ready,
               alone |-> Quiet(s), rebal |-> FALSE, void |-> FALSE, nameless |-> FALSE, fatal |-> FALSE,
               unknown |-> e.op = "consume" /\ Quiet(s) /\ Owned(s, e.t) = {}, met |-> FALSE,
               dialled |-> FALSE,
               gone |-> Owned(s, e.t) = {}, dry |-> LiveParts(s, e.t) = {}, dead |-> Live(s) = {},
               due |-> IF ready /\ exact THEN LiveParts(s, e.t) ELSE {},
               looked |-> FALSE, fetched |-> FALSE, base |-> EmptyFn, asked |-> {}, to |-> {},
               got |-> EmptyFn, sent |-> {}, pending |-> {}, after |-> FALSE, bare |-> FALSE]
      s1 == [s EXCEPT !.open = Put([c \in DOMAIN @ |-> [@[c] EXCEPT !.alone = FALSE]], e.c, call),
                      !.closing = @ \/ e.op = "close",
                      !.consumed = IF e.op = "consume" THEN @ \cup {e.t} ELSE @]
  IN IF Quiet(s) THEN Anchor([s1 EXCEPT !.views = Views(s), !.fresh = TRUE, !.tried = {}])
     ELSE Busy(Anchor(s1))

(* a rebalance puts every position in doubt *)
OnOwn(s, e) ==
  Noted([s EXCEPT !.own = Range(e.own), !.synced = EmptyFn,
                  !.outs = [r \in DOMAIN @ |-> [@[r] EXCEPT !.stale = TRUE]],
                  !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.rebal = TRUE, !.void = @ \/ s.open[c].fetched,
                                                          !.pending = {}, !.due = {}]]])

OnMeta(s, e) ==
  LET bs == Range(e.brokers)
  IN Noted(Viewed([s EXCEPT !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.met = TRUE]], !.view = ViewOf(e.topics), !.heal = FALSE, !.fresh = FALSE,
                            !.ghosts = IF s.fresh THEN {} ELSE ((s.conns \cup @) \cap bs) \ Live(s),
                            !.conns = @ \cap bs \cap Live(s)]))

Dialled(s) == [s EXCEPT !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.dialled = TRUE]]]
OnConn(s, e) ==
  Viewed([Dialled(s) EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \cup {e.n}), !.conns = @ \cup {e.b},
                   !.ghosts = @ \ {e.b}])

Awaited(s, r) == s.outs[r].c \in DOMAIN s.open /\ ~s.open[s.outs[r].c].fatal

OnGone(s, e) ==
  LET dead == {r \in DOMAIN s.outs : s.outs[r].n = e.n}
      asks == {r \in dead : Awaited(s, r)}
      again(c) == UNION {{<<x[1], x[2]>> : x \in Range(s.outs[r].parts)} :
                          r \in {y \in asks : s.outs[y].c = c /\ s.outs[y].kind = "k" /\ ~s.outs[y].stale}}
      upd(c) == LET call == s.open[c] IN
        [call EXCEPT !.pending = @ \cup again(c),
                     !.due = {p \in @ : p \in call.asked \/ LeaderIn(Known(s), call.t, p) # e.b}]
      s1 == [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \ {e.n}),
                      !.outs = DelAll(@, dead),
                      !.heal = @ \/ asks # {},
                      !.cand = @ \ {e.b}, !.steady = @ \ {e.b},
                      !.coord = IF e.b = @ /\ \E r \in dead : s.outs[r].kind \in {"l", "k"} THEN 0 ELSE @,
                      !.open = [c \in DOMAIN @ |-> upd(c)]]
  IN Noted(Viewed(IF \E r \in dead : s.outs[r].kind = "c" THEN Anchor(s1) ELSE s1))

Out(s, e, c, kind, t) ==
  Put(s.outs, e.r, [c |-> c, kind |-> kind, t |-> t, n |-> e.n, b |-> e.b, stale |-> FALSE,
                    parts |-> IF kind = "c" THEN <<>> ELSE e.parts])

Anyone(s) == IF \E c \in DOMAIN s.open : Sole(s, c) THEN CHOOSE c \in DOMAIN s.open : TRUE ELSE 0

(* rounds of asking for the coordinator *)
OnCreq(s, e) ==
  LET first == s.tried = {} \/ e.b \in s.tried
      c == Anyone(s)
  IN [s EXCEPT !.outs = Out(s, e, c, "c", ""),
               !.open = IF c = 0 THEN @ ELSE [@ EXCEPT ![c].after = @ \/ s.open[c].fetched],
               !.tried = IF first THEN {e.b} ELSE @ \cup {e.b},
               !.cand = IF first THEN s.steady ELSE @]

OnCrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  LET named == e.code = 0
      fatal == e.code # 0 /\ e.code \notin Retriable
  IN Anchor([s EXCEPT !.outs = Del(@, e.r),
               !.coord = IF named THEN e.id ELSE @,
               !.tried = IF named \/ fatal THEN {} ELSE @,
               !.heal = @ \/ e.code \in Retriable,
               !.open = [c \in DOMAIN @ |-> [@[c] EXCEPT !.nameless = @ \/ fatal]]])

Disowned(s, r, codes) == s.outs[r].b = s.coord /\ codes \cap {15, 16} # {}

OnLreq(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e))) THEN s ELSE
  LET t == TopicOf(e) IN
  [s EXCEPT !.outs = Out(s, e, CallOn(s, t), "l", t),
            !.synced = Put(@, t, "no"),
            !.open[CallOn(s, t)].looked = TRUE]

OnLrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  IF ~Awaited(s, e.r) THEN [s EXCEPT !.outs = Del(@, e.r)] ELSE
  LET o == s.outs[e.r]
      codes == {x.code : x \in Range(e.parts)}
      fatal == codes \ (Retriable \cup {0}) # {}
      good == {x \in Range(e.parts) : x.code = 0}
      full == codes = {0} /\ ~o.stale
  IN [s EXCEPT !.outs = Del(@, e.r),
               !.heal = @ \/ (~fatal /\ codes \cap (Retriable \ {14}) # {}),
               !.coord = IF ~fatal /\ Disowned(s, e.r, codes) THEN 0 ELSE @,
               !.pos = Put(@, o.t, [p \in {x.p : x \in good} |-> (CHOOSE x \in good : x.p = p).off] @@ Pos(s, o.t)),
               !.synced = IF full THEN Put(@, o.t, "yes") ELSE @,
               !.open[o.c].fatal = @ \/ fatal]

OnFreq(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e))) THEN s ELSE
  LET t == TopicOf(e)
      c == CallOn(s, t)
      call == s.open[c]
      exact == ~s.cfg.conc \/ call.alone
      first == ~call.fetched
  IN [s EXCEPT !.outs = Out(s, e, c, "f", t),
               !.heal = @ \/ (first /\ exact /\ LiveParts(s, t) # Owned(s, t)),
               !.open[c] = [call EXCEPT
                  !.fetched = TRUE,
                  !.base = IF first THEN Pos(s, t) ELSE @,
                  !.due = IF first /\ exact THEN LiveParts(s, t) ELSE @,
                  !.asked = @ \cup Range(PartsOf(e)), !.to = @ \cup {e.b}]]

OnFrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  LET t == s.outs[e.r].t
      c == s.outs[e.r].c
      at(p) == (CHOOSE x \in Range(s.outs[e.r].parts) : x[2] = p)[3]
      part(p) == CHOOSE x \in Range(e.parts) : x.p = p
      ps == {x.p : x \in Range(e.parts)}
      mine(p) == Keep(part(p).msgs, LAMBDA x : x[1] >= at(p))
      took == {p \in ps : part(p).code = 0 /\ mine(p) # <<>>}
      good(p) == LET q == Keep(mine(p), LAMBDA x : x[2] = 0) IN [i \in DOMAIN q |-> q[i][3]]
      out == \E p \in ps : part(p).code = 1
      s1 == [s EXCEPT !.outs = Del(@, e.r)]
  IN IF c \notin DOMAIN s.open THEN s1 ELSE
     [s1 EXCEPT !.pos = Put(@, t, [p \in took |-> mine(p)[Len(mine(p))][1] + 1] @@ Pos(s, t)),
                !.heal = @ \/ \E p \in ps : part(p).code \in Retriable,
                !.synced = IF out THEN Put(@, t, "no") ELSE @,
                !.open[c] = [@ EXCEPT !.got = [p \in took |-> good(p)] @@ @, !.sent = {},
                                      !.rebal = @ \/ out, !.void = @ \/ out]]

Names(e) == {<<x[1], x[2]>> : x \in Range(e.parts)}

OnKreq(s, e) ==
  LET c == Committer(s)
      s1 == [s EXCEPT !.outs = Out(s, e, c, "k", "")]
  IN IF c = 0 THEN s1
     ELSE [s1 EXCEPT !.open[c] = [@ EXCEPT !.sent = @ \cup Names(e), !.pending = {},
                                              !.after = @ \/ s.open[c].fetched]]

OnKrep(s, e) ==
  IF e.r \notin DOMAIN s.outs THEN s ELSE
  LET o == s.outs[e.r]
      codes == {x.code : x \in Range(e.parts)}
      back == {<<x.t, x.p>> : x \in {y \in Range(e.parts) : y.code \in Retriable \cup {12}}}
      s1 == [s EXCEPT !.outs = Del(@, e.r),
                      !.heal = @ \/ codes \cap Retriable # {},
                      !.coord = IF Disowned(s, e.r, codes) THEN 0 ELSE @]
  IN IF o.c \notin DOMAIN s.open THEN s1
     ELSE [s1 EXCEPT !.open[o.c] = [@ EXCEPT !.pending = IF o.stale THEN @ ELSE @ \cup back,
                                             !.bare = @ \/ 12 \in codes]]

(* the refresh a failing call took on is none that overlapping ones owe *)
Owed(s, e) == s.heal /\ ~(e.exc # "" /\ DOMAIN s.open # {e.c})

OnRet(s, e) ==
  LET call == s.open[e.c]
      t == call.t
      s1 == IF call.op = "close" THEN [s EXCEPT !.closed = TRUE]
            ELSE IF call.op # "consume" \/ (e.exc = "" /\ (call.fetched \/ ~call.rebal)) THEN s
            ELSE IF call.fetched THEN [s EXCEPT !.pos = Put(@, t, call.base @@ Pos(s, t))]
            ELSE [s EXCEPT !.synced = Put(@, t, IF Synced(s, t) = "yes" THEN "maybe" ELSE Synced(s, t))]
  IN Viewed([s1 EXCEPT !.open = Del(@, e.c), !.heal = Owed(s, e)])

Step(s, e) ==
  CASE e.ev = "call" -> OnCall(s, e)
    [] e.ev = "own" -> OnOwn(s, e)
    [] e.ev = "left" -> [s EXCEPT !.left = TRUE]
    [] e.ev = "meta" -> OnMeta(s, e)
    [] e.ev = "conn" -> OnConn(s, e)
    [] e.ev = "refused" -> Dialled(s)
    [] e.ev \in {"lost", "eof"} -> OnGone(s, e)
    [] e.ev = "creq" -> OnCreq(Busy(s), e)
    [] e.ev = "crep" -> OnCrep(s, e)
    [] e.ev = "lreq" -> OnLreq(Busy(s), e)
    [] e.ev = "lrep" -> OnLrep(s, e)
    [] e.ev = "freq" -> OnFreq(Busy(s), e)
    [] e.ev = "frep" -> OnFrep(s, e)
    [] e.ev = "kreq" -> OnKreq(Busy(s), e)
    [] e.ev = "krep" -> OnKrep(s, e)
    [] e.ev = "ret" -> OnRet(s, e)
    [] OTHER -> s

--------------------------------------------------------------------------
Led(s, e) == \A x \in Range(e.parts) : \E v \in s.views : LeaderIn(v, x[1], x[2]) = e.b

CreqClauses(s, e) ==
  { (* nobody is asked twice before everybody was asked once *)
    C("C18", "goes-on", (Anyone(s) # 0 /\ s.open[Anyone(s)].alone /\ e.b \in s.tried)
                        => s.cand \subseteq s.tried),
    C("C18", "gives-up", (Anyone(s) # 0 /\ s.open[Anyone(s)].alone) => ~s.open[Anyone(s)].nameless),
    C("C25", "silent", ~s.closed) }

LreqClauses(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e)))
  THEN { C("C16", "stray-lookup", FALSE), C("C25", "silent", ~s.closed) } ELSE
  LET call == s.open[CallOn(s, TopicOf(e))] IN
  { C("C16", "exactly-owned", Range(PartsOf(e)) = Owned(s, call.t) /\ NoRepeat(PartsOf(e))),
    C("C16", "coordinator", e.b = s.coord),
    C("C18", "last-named", e.b = s.coord),
    C("C16", "gave-up", ~call.fatal),
    C("C16", "one-at-a-time", \A r \in DOMAIN s.outs : 
         /\ s.outs[r].kind # "l" \/ s.outs[r].t # call.t
         /\ s.outs[r].kind # "k" \/ ~call.alone),
    C("C13", "needless-lookup", Synced(s, call.t) # "yes"),
    C("C25", "after-close", ~call.late),
    C("C25", "silent", ~s.closed) }

FreqClauses(s, e) ==
  IF ~(OneTopic(e) /\ HasCall(s, TopicOf(e)))
  THEN { C("C15", "stray-fetch", FALSE), C("C25", "silent", ~s.closed) } ELSE
  LET call == s.open[CallOn(s, TopicOf(e))]
      pos == Pos(s, call.t)
      there == \A x \in Range(e.parts) : x[3] = Get(pos, x[2], -1)
      owned == Range(PartsOf(e)) \subseteq Owned(s, call.t)
  IN
  { C("C16", "asks-first", Synced(s, call.t) # "no" /\ ~call.fatal),
    C("C16", "resumes-there", there),
    C("C16", "owned", owned),
    C("C13", "position", there),
    C("C15", "leader", Led(s, e)),
    C("C15", "once", NoRepeat(PartsOf(e)) /\ Range(PartsOf(e)) \cap call.asked = {}),
    C("C15", "one-request", e.b \notin call.to),
    C("C15", "allocated", owned),
    C("C15", "budget", e.wait = s.cfg.wait /\ e.min = s.cfg.min /\ e.replica = -1
                       /\ \A x \in Range(e.parts) : x[4] = s.cfg.maxb \div Len(e.parts)),
    C("C25", "after-close", ~call.late),
    C("C25", "silent", ~s.closed) }

KreqClauses(s, e) ==
  LET c == Committer(s)
      call == s.open[c] IN
  { C("C17", "coordinator", e.b = s.coord),
    C("C18", "last-named", e.b = s.coord),
    C("C17", "asked-for", \E d \in DOMAIN s.open : Commits(s, d)),
    C("C17", "owned", Names(e) \subseteq s.own),
    C("C17", "consumed", \A x \in Range(e.parts) : x[1] \in s.consumed),
    C("C17", "position", \A x \in Range(e.parts) :
         Synced(s, x[1]) # "no" /\ x[3] = Get(Pos(s, x[1]), x[2], -1)),
    C("C17", "once", Cardinality(Names(e)) = Len(e.parts)),
    C("C17", "retries-all", (c # 0 /\ call.alone) => call.pending \subseteq Names(e)),
    C("C17", "metadata", (c # 0 /\ call.alone) => \A x \in Range(e.parts) :
         IF call.bare THEN x[4] = "" ELSE call.m = "*" \/ x[4] = call.m),
    C("C25", "silent", ~s.closed) }

RetClauses(s, e) ==
  LET call == s.open[e.c]
      sole == Sole(s, e.c)
      none == e.exc = "NoBrokersError"
      excused == call.nameless \/ call.dead \/ s.closing \/ ~call.alone
  IN
  IF call.op = "close" THEN
  { C("C25", "left", s.left), C("C25", "connections-closed", Live(s) = {}) } ELSE
  IF call.op = "connect" THEN
  { C("C18", "raises", e.exc \in {"", "NoBrokersError"} /\ (none => (call.dead /\ call.dialled))),
    C("C18", "found", e.exc = "" => (s.coord # 0 \/ call.nameless)) } ELSE
  IF call.op = "commit" THEN
  { C("C17", "raises", e.exc = "" \/ (none /\ (call.dead \/ ~call.alone \/ s.closing))),
    C("C17", "all-committed", (e.exc = "" /\ ~excused) => call.pending = {}),
    C("C18", "found", (e.exc = "" /\ ~excused /\ call.pending # {}) => s.coord # 0),
    C("C17", "answered", e.exc = "" => \A r \in DOMAIN s.outs : s.outs[r].c # e.c),
    C("C12", "refreshed", (e.exc = "" /\ sole /\ ~excused) => ~s.heal) } ELSE
  LET ids(p) == Range(call.got[p])
      of(p) == Keep(e.vals, LAMBDA v : v \in ids(p))
      returned == UNION {{<<p, i>> : i \in DOMAIN call.got[p]} : p \in DOMAIN call.got}
      full == (\A p \in DOMAIN call.got : of(p) = call.got[p]) /\ Len(e.vals) = Cardinality(returned)
      fine == e.exc = "" /\ (full \/ (call.void /\ e.vals = <<>>))
      settled == \A r \in DOMAIN s.outs : s.outs[r].c # e.c
  IN
  { C("C13", "delivered", e.exc = "" => fine),
    C("C17", "delivered", IF e.exc = "" THEN fine ELSE ~call.after),
    C("C13", "answered", (e.exc = "" /\ ~call.fatal) => settled),
    C("C13", "raises", e.exc \in {"", "NoBrokersError"}),
    C("C16", "raises", e.exc \in {"", "NoBrokersError"}),
    C("C18", "raises", none => (call.dead \/ ~call.alone \/ s.closing)),
    C("C16", "gives-up", (e.exc = "" /\ ~call.late /\ ~call.fetched /\ ~call.ready)
                         => (call.fatal \/ call.gone \/ call.dry \/ call.rebal \/ excused)),
    (* a topic of which nothing is owned is looked for first *)
    C("C16", "asked-first", (e.exc = "" /\ call.unknown /\ ~call.late) => call.met),
    C("C16", "failed-lookup-empty", call.fatal => (e.vals = <<>> /\ ~call.fetched)),
    C("C15", "asks-all", (e.exc = "" /\ ~s.closing) => call.due \subseteq call.asked),
    C("C17", "all-committed", (e.exc = "" /\ ~excused) => call.pending = {}),
    C("C17", "autocommits", (e.exc = "" /\ s.cfg.auto /\ call.fetched /\ ~call.void /\ ~excused)
                            => \A p \in Owned(s, call.t) : <<call.t, p>> \in call.sent),
    C("C12", "refreshed", (e.exc = "" /\ sole /\ ~call.fatal /\ ~excused) => ~s.heal),
    C("C25", "after-close", call.late => (e.exc = "" /\ e.vals = <<>>)) }

Clauses(s, e) ==
  CASE e.ev = "creq" -> CreqClauses(s, e)
    [] e.ev = "lreq" -> LreqClauses(s, e)
    [] e.ev = "freq" -> FreqClauses(s, e)
    [] e.ev = "kreq" -> KreqClauses(s, e)
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev = "meta" -> { C("C25", "silent", ~s.closed) }
    [] e.ev = "eof" -> { C("C25", "leaves-first", (s.closing /\ e.b \in s.conns) => s.left) }
    [] e.ev = "end" -> { C("C25", "connections-closed", s.closed => Live(s) = {}) }
    [] e.ev = "hang" -> {C(p, "hang", FALSE) : p \in {"C13", "C15", "C16", "C17", "C18"}}
                        \cup (IF s.closing THEN { C("C25", "hang", FALSE) } ELSE {})
    [] e.ev = "malformed" -> {C(p, "malformed", FALSE) : p \in {"C16", "C17", "C18"}}
    [] OTHER -> {}
=============================================================================
