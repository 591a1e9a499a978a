------------------------------- MODULE Client -------------------------------
(* Client.send(): one request to each of several brokers, and close().

   Events:
     call(c, op, to)        send() begins with requests for the brokers to, or
                            close() (to is then empty)
     req(c, b, n)           the request of call c arrives at b on connection n
     reply(c, b, kind)      b replies; kind tells what the client's handler
                            will do: plain, heal (asks for a refresh) or none
                            (there is no handler)
     junk(b, n)             b sends nonsense on n instead
     handled(c, b, from, heal)
                            the handler runs for the reply to call c that broker
                            `from' made, on the connection of b
     mreq                   a metadata request arrives
     meta, conn, lost, eof  as elsewhere
     ret(c, exc, results)   results: <<broker, the reply's call, its broker>>
     end hang(c)                                                            *)
EXTENDS Verdict

Init(cfg) == [live |-> EmptyFn, calls |-> EmptyFn, open |-> {}, closing |-> FALSE, closed |-> FALSE]

LiveAt(s, b) == Get(s.live, b, {})
Live(s) == {b \in DOMAIN s.live : s.live[b] # {}}

(* per call and broker: none (not connected when called), sent, arrived,
   replied, handled, gone (connection lost before the reply) *)
NewCall(s, e) ==
  [op |-> e.op, kind |-> EmptyFn, conn |-> EmptyFn, alone |-> s.open = {},
   heal |-> \E b \in Range(e.to) : LiveAt(s, b) = {},
   st |-> [b \in Range(e.to) |-> IF LiveAt(s, b) = {} THEN "none" ELSE "sent"]]

Gone(s, e) ==
  LET hit(call, b) == b = e.b /\ call.st[b] \in {"sent", "arrived", "replied"}
                      /\ (b \in DOMAIN call.conn => call.conn[b] = e.n)
      upd(call) == [call EXCEPT
        !.heal = @ \/ \E b \in DOMAIN call.st : hit(call, b) /\ call.st[b] # "replied",
        !.st = [b \in DOMAIN @ |-> IF ~hit(call, b) THEN @[b]
                                  ELSE IF @[b] = "replied" THEN "either" ELSE "gone"]]
  IN [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \ {e.n}),
               !.calls = [c \in DOMAIN @ |-> IF c \in s.open THEN upd(@[c]) ELSE @[c]]]

Step(s, e) ==
  CASE e.ev = "call" ->
         [s EXCEPT !.calls = Put([c \in DOMAIN @ |-> IF c \in s.open
                                    THEN [@[c] EXCEPT !.alone = FALSE] ELSE @[c]],
                                 e.c, NewCall(s, e)),
                   !.open = @ \cup {e.c},
                   !.closing = @ \/ e.op = "close"]
    [] e.ev = "req" ->
         IF e.c \notin DOMAIN s.calls \/ e.b \notin DOMAIN s.calls[e.c].st THEN s
         ELSE [s EXCEPT !.calls[e.c].st[e.b] = "arrived",
                        !.calls[e.c].conn = Put(@, e.b, e.n)]
    [] e.ev = "reply" -> [s EXCEPT !.calls[e.c].st[e.b] = "replied",
                                   !.calls[e.c].kind = Put(@, e.b, e.kind)]
    [] e.ev = "handled" ->
         IF e.c \notin DOMAIN s.calls \/ e.b \notin DOMAIN s.calls[e.c].st THEN s
         ELSE [s EXCEPT !.calls[e.c].st[e.b] = "handled", !.calls[e.c].heal = @ \/ e.heal]
    [] e.ev = "meta" -> [s EXCEPT !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.heal = FALSE]]]
    [] e.ev = "conn" -> [s EXCEPT !.live = Put(@, e.b, LiveAt(s, e.b) \cup {e.n})]
    [] e.ev \in {"lost", "eof", "junk"} -> Gone(s, e)
    [] e.ev = "ret" -> [s EXCEPT !.open = @ \ {e.c},
                                 !.closed = @ \/ s.calls[e.c].op = "close"]
    [] OTHER -> s

--------------------------------------------------------------------------
RetClauses(s, e) ==
  LET call == s.calls[e.c]
      handled == {b \in DOMAIN call.st : call.st[b] = "handled"}
      unhandled == {b \in DOMAIN call.kind : call.kind[b] = "none"
                                             /\ call.st[b] \in {"replied", "either"}}
      results == Range(e.results)
  IN IF call.op = "close"
     THEN { C("C25", "connections-closed", Live(s) = {}) }
     ELSE
     { C("C12", "settled", e.exc # "UnhandledResponseError" =>
            \A b \in DOMAIN call.st : call.st[b] \in {"none", "gone", "either", "handled"}),
       C("C12", "all-handled", e.exc = "" =>
            \A b \in DOMAIN call.st : call.st[b] # "replied"),
       C("C12", "results", e.exc = "" =>
            results = {<<b, e.c, b>> : b \in handled} /\ Len(e.results) = Cardinality(handled)),
       C("C12", "unhandled-raises",
         IF unhandled = {} THEN e.exc # "UnhandledResponseError"
         ELSE e.exc = "UnhandledResponseError"
              \/ \A b \in unhandled : call.st[b] = "either"),
       C("C12", "raises", e.exc \in {"", "UnhandledResponseError"}
                          \/ (e.exc = "NoBrokersError" /\ (Live(s) = {} \/ s.closing \/ ~call.alone))),
       C("C12", "healed", (e.exc = "" /\ s.open = {e.c} /\ ~s.closing) => ~call.heal) }

Clauses(s, e) ==
  CASE e.ev = "req" ->
         { C("C12", "sent-as-asked", e.c \in s.open /\ e.b \in DOMAIN s.calls[e.c].st
                                     /\ s.calls[e.c].st[e.b] = "sent"),
           C("C25", "silent", ~s.closed) }
    [] e.ev = "handled" ->
         { C("C12", "handled-once", e.c \in DOMAIN s.calls /\ e.b \in DOMAIN s.calls[e.c].st
                                    /\ s.calls[e.c].st[e.b] \in {"replied", "either"}),
           C("C12", "own-reply", e.from = e.b) }
    [] e.ev = "ret" -> RetClauses(s, e)
    [] e.ev \in {"meta", "mreq"} -> { C("C25", "silent", ~s.closed) }
    [] e.ev = "end" -> { C("C25", "stays-closed", s.closed => Live(s) = {}) }
    [] e.ev = "hang" ->
         { C("C12", "hang", FALSE) } \cup
         (IF s.closing THEN { C("C25", "hang", FALSE) } ELSE {})
    [] OTHER -> {}
=============================================================================
