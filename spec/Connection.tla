----------------------------- MODULE Connection -----------------------------
(* One connection to a broker: requests out, replies back, and its end.

   Events:
     send(i, now)          send() is called for request i; now tells what its
                           future is right away: pending, refused (failed with a
                           broker connection error) or other
     arrive(i, corr)       the broker has read request i whole
     answer(i)             the last byte of the reply to i reached the client's
                           socket
     garble                so did the last byte of something that is no reply
                           to an outstanding request
     end(how)              the broker closes: orderly (all it wrote can be read)
                           or reset
     local                 the client closes or aborts
     resolve(i, how, of, fit)
                           the future of i resolves: how = reply or error; the
                           reply was made for request of; fit tells whether its
                           kind and correlation id are those of i
     eof                   the broker sees the client's end close
     quiet                 nothing more will happen by itself

   A request is: sent, arrived, answered, then reply or error (resolved), or
   refused.                                                                *)
EXTENDS Verdict

Init(cfg) == [cfg |-> cfg, reqs |-> EmptyFn, queue |-> <<>>, ended |-> "",
              noticed |-> FALSE, eof |-> FALSE, reset |-> FALSE]

St(s, i) == IF i \in DOMAIN s.reqs THEN s.reqs[i].st ELSE "none"
With(s, st) == {i \in DOMAIN s.reqs : s.reqs[i].st = st}
Outstanding(s) == With(s, "sent") \cup With(s, "arrived") \cup With(s, "answered")

Step(s, e) ==
  CASE e.ev = "send" ->
         IF e.now = "pending"
         THEN [s EXCEPT !.reqs = Put(@, e.i, [st |-> "sent", corr |-> 0]),
                        !.queue = Append(@, e.i)]
         ELSE [s EXCEPT !.reqs = Put(@, e.i, [st |-> "refused", corr |-> 0])]
    [] e.ev = "arrive" ->
         LET s1 == IF St(s, e.i) = "none" THEN s
                   ELSE [s EXCEPT !.reqs[e.i].corr = e.corr,
                                  !.reqs[e.i].st = IF @ = "sent" THEN "arrived" ELSE @]
         IN [s1 EXCEPT !.queue = SelectSeq(@, LAMBDA j : j # e.i)]
    [] e.ev = "answer" ->
         IF St(s, e.i) = "arrived" /\ s.ended = "" THEN [s EXCEPT !.reqs[e.i].st = "answered"]
         ELSE s
    [] e.ev = "garble" -> IF s.ended = "" THEN [s EXCEPT !.ended = "garbled"] ELSE s
    [] e.ev = "end" ->
         [s EXCEPT !.ended = IF @ = "" \/ e.how = "reset" THEN e.how ELSE @,
                   !.reset = @ \/ e.how = "reset"]
    [] e.ev = "local" -> [s EXCEPT !.ended = "local", !.noticed = TRUE]
    [] e.ev = "resolve" ->
         IF St(s, e.i) \in {"none", "refused"} THEN s ELSE [s EXCEPT !.reqs[e.i].st = e.how]
    [] e.ev = "eof" -> [s EXCEPT !.eof = TRUE]
    [] e.ev = "quiet" -> [s EXCEPT !.noticed = @ \/ s.ended # ""]
    [] OTHER -> s

Clauses(s, e) ==
  CASE e.ev = "send" ->
         { C("C09", "refused-at-once", (s.ended # "" /\ s.noticed) => e.now = "refused"),
           C("C08", "accepted", s.ended = "" => e.now = "pending") }
    [] e.ev = "arrive" ->
         { C("C08", "written-in-order", s.queue # <<>> /\ Head(s.queue) = e.i),
           C("C08", "own-correlation-id",
             \A j \in Outstanding(s) \ {e.i} : s.reqs[j].st # "sent" => s.reqs[j].corr # e.corr),
           C("C09", "nothing-written-when-refused", St(s, e.i) # "refused") }
    [] e.ev = "resolve" ->
         IF e.how = "reply"
         THEN { C("C08", "right-reply", e.of = e.i /\ e.fit),
                C("C08", "answered-first", St(s, e.i) = "answered") }
         ELSE { C("C08", "no-spurious-error", s.ended # ""),
                C("C09", "keeps-its-answer",
                  ~(St(s, e.i) = "answered" /\ s.ended \in {"orderly", "garbled"})),
                C("C08", "keeps-its-answer",
                  ~(St(s, e.i) = "answered" /\ s.ended \in {"orderly", "garbled"})) }
    [] e.ev = "quiet" ->
         { C("C08", "delivered", s.ended = "" => With(s, "answered") = {}),
           C("C08", "written", s.ended = "" => s.queue = <<>> \/ ~e.reading),
           C("C09", "none-hanging", s.ended # "" => Outstanding(s) = {}),
           C("C09", "socket-closed", s.ended # "" => s.eof \/ s.reset),
           C("C08", "stays-open", s.ended = "" => ~s.eof) }
    [] e.ev = "hang" -> { C("C09", "hang", FALSE), C("C08", "hang", FALSE) }
    [] e.ev = "malformed" -> { C("C08", "written-whole", FALSE) }
    [] OTHER -> {}
=============================================================================
