---------------------------- MODULE Connection_MC ----------------------------
(* A client that may do whatever the clauses permit - wrong replies, spurious
   errors, reordered writes and reused correlation ids are candidates - against
   a broker that answers in any order and a connection that may end anywhere.
   The broker's and the application's moves form the script to be replayed. *)
EXTENDS Connection, Json
CONSTANTS MaxReqs, Corrs, Apis, MaxBytes, Ideal, ScriptLen
VARIABLES s, m, script
vars == <<s, m, script>>

Log(cmd) == script' = IF Ideal THEN Append(script, cmd) ELSE <<>>
More == ~m.done /\ (Ideal => Len(script) < ScriptLen)
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)

MCInit == /\ s = Init([x |-> 0])
          /\ m = [n |-> 0, corr |-> EmptyFn, got |-> EmptyFn, made |-> {}, settled |-> FALSE,
                  done |-> FALSE, late |-> {}]
          /\ script = <<>>

(* got: what each future resolved with; made: replies really given;
   late: requests sent after the end was noticed *)
Send ==
  /\ More /\ m.n < MaxReqs
  /\ \E now \in {"pending", "refused"}, api \in Apis :
       LET i == m.n + 1 IN
       /\ Ideal => now = (IF s.ended = "" THEN "pending" ELSE "refused")
       /\ Do([ev |-> "send", i |-> i, now |-> now])
       /\ m' = [m EXCEPT !.n = i, !.settled = FALSE,
                         !.late = IF s.noticed THEN @ \cup {i} ELSE @]
       /\ Log(<<"S", api>>)

Arrive ==
  /\ \E i \in 1..m.n, c \in Corrs :
       /\ (i \notin DOMAIN m.corr)
       /\ Ideal => c = i
       /\ Do([ev |-> "arrive", i |-> i, corr |-> c])
       /\ m' = [m EXCEPT !.corr = Put(@, i, c), !.settled = FALSE]
  /\ UNCHANGED script

Answer ==
  /\ More /\ s.ended = ""
  /\ \E i \in With(s, "arrived") :
       /\ Do([ev |-> "answer", i |-> i])
       /\ m' = [m EXCEPT !.made = @ \cup {i}, !.settled = FALSE]
       /\ Log(<<"A", i>>)

(* only in scripts: the reply arrives in pieces, requests back up, ... *)
Pieces ==
  /\ Ideal /\ More /\ s.ended = "" /\ m.n > 0
  /\ \E k \in 1..MaxBytes : Log(<<"B", k>>)
  /\ UNCHANGED <<s, m>>
Waits ==
  /\ Ideal /\ More /\ s.ended = "" /\ m.n > 0
  /\ \E c \in {<<"Z">>, <<"W">>, <<"N">>, <<"Q">>, <<"Q">>} : Log(c)
  /\ UNCHANGED <<s, m>>

Garble == /\ More /\ s.ended = "" /\ m.n > 0 /\ Do([ev |-> "garble"])
          /\ m' = [m EXCEPT !.settled = FALSE]
          /\ \E k \in 1..6 : Log(<<"X", k>>)
End == /\ More /\ s.ended = ""
       /\ \E how \in {"orderly", "reset"} : Do([ev |-> "end", how |-> how]) /\ Log(<<"E", how>>)
       /\ m' = [m EXCEPT !.settled = FALSE]
Local == /\ More /\ s.ended # "local" /\ Do([ev |-> "local"])
         /\ m' = [m EXCEPT !.settled = FALSE]
         /\ \E k \in {"close", "abort"} : Log(<<"L", k>>)

Resolve ==
  /\ \E i \in 1..m.n, how \in {"reply", "error"}, of \in 1..m.n :
       /\ i \notin DOMAIN m.got /\ St(s, i) # "refused"
       /\ (how = "error") => of = i
       /\ (Ideal => of = i)
       /\ Do([ev |-> "resolve", i |-> i, how |-> how, of |-> of, fit |-> TRUE])
       /\ m' = [m EXCEPT !.got = Put(@, i, IF how = "reply" THEN of ELSE 0), !.settled = FALSE]
  /\ UNCHANGED script
Eof == /\ ~s.eof /\ s.ended # "" /\ Do([ev |-> "eof"])
       /\ m' = [m EXCEPT !.settled = FALSE] /\ UNCHANGED script
Quiet == /\ ~m.settled /\ Do([ev |-> "quiet", reading |-> TRUE]) /\ m' = [m EXCEPT !.settled = TRUE]
         /\ UNCHANGED script
Finish == /\ Ideal /\ Len(script) >= ScriptLen /\ ~m.done
          /\ PrintT(ToJson([script |-> script]))
          /\ m' = [m EXCEPT !.done = TRUE] /\ UNCHANGED <<s, script>>

Next == Send \/ Arrive \/ Answer \/ Pieces \/ Waits \/ Garble \/ End \/ Local \/ Resolve \/ Eof
        \/ Quiet \/ Finish
GenNext == Send \/ Send \/ Send \/ Arrive \/ Arrive \/ Arrive \/ Answer \/ Answer \/ Answer
           \/ Pieces \/ Pieces \/ Waits \/ Resolve \/ Resolve \/ Eof \/ Quiet \/ Finish
           \/ (Len(script) > ScriptLen \div 2 /\ (Garble \/ End \/ End \/ Local))
Spec == MCInit /\ [][Next]_vars
GenSpec == MCInit /\ [][GenNext]_vars

(* C08: who has a reply has its own, and it was really given *)
OwnReply == \A i \in DOMAIN m.got : m.got[i] # 0 => (m.got[i] = i /\ i \in m.made)
OneIdEach == \A i, j \in DOMAIN m.corr :
   (i # j /\ i \in Outstanding(s) /\ j \in Outstanding(s)) => m.corr[i] # m.corr[j]
NoErrorWhileUp == s.ended = "" => \A i \in DOMAIN m.got : m.got[i] # 0
Delivered == (m.settled /\ s.ended = "") => m.made \subseteq DOMAIN m.got
(* C09 *)
NoneHanging == (m.settled /\ s.ended # "") =>
   \A i \in 1..m.n : i \in DOMAIN m.got \/ St(s, i) = "refused"
KeepsAnswer == (s.ended = "orderly" /\ m.settled) => \A i \in m.made : m.got[i] = i
LateRefused == \A i \in m.late : St(s, i) = "refused" /\ i \notin DOMAIN m.corr
=============================================================================
