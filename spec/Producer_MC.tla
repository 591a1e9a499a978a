----------------------------- MODULE Producer_MC -----------------------------
(* All behaviours of a small cluster with a producer that may do anything the
   clauses of Producer.tla permit - candidates include requests with wrong,
   repeated, settled, reordered and misdirected messages.  The properties are
   stated separately, over a history h of what was put on the wire and how it
   was settled.

   With Ideal = TRUE only the requests a right producer makes are candidates
   and the behaviours (script) are printed, to be replayed into the real one. *)
EXTENDS Producer, Json
CONSTANTS Topics, PartIds, Brokers, Keys, MaxMsgs, MaxFaults, MaxMoves, MaxCalls, Batches,
          Codes, Ideal, ScriptLen
VARIABLES s, m, h, script

GenKeys == {-1, 0, 1, 2}
GenCodes == {0, 3, 6, 7, 10, -1}
vars == <<s, m, h, script>>

Log(cmd) == script' = IF Ideal THEN Append(script, cmd) ELSE <<>>
Same == script' = script

SetToSeqOf(S) == LET RECURSIVE Go(_)
                     Go(X) == IF X = {} THEN <<>>
                              ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Go(X \ {x})
                 IN Go(S)

MetaOf(lead) ==
  [ev |-> "meta", brokers |-> SortedSeq(Brokers),
   topics |-> SetToSeqOf({[t |-> t, parts |-> [i \in 1..Cardinality(PartIds) |->
                             LET p == SortedSeq(PartIds)[i] IN <<p, lead[t][p]>>]] : t \in Topics})]

Leads == [Topics -> [PartIds -> Brokers]]

Cfg(b) == [batch |-> b, acks |-> -1, timeout |-> 500, codec |-> 0, conc |-> FALSE]

Connect(st, n) == LET RECURSIVE Go(_, _, _)
                      Go(x, B, k) == IF B = {} THEN x
                          ELSE LET b == CHOOSE y \in B : \A z \in B : y <= z
                               IN Go(Step(x, [ev |-> "conn", b |-> b, n |-> k]), B \ {b}, k + 1)
                  IN Go(st, Brokers, n)

MCInit ==
  \E batch \in Batches, lead \in Leads :
    /\ s = Connect(Step(Init(Cfg(batch)), MetaOf(lead)), 1)
    /\ m = [lead |-> lead, seen |-> lead, faults |-> 0, moves |-> 0, nmsg |-> 0,
            ncall |-> 0, nconn |-> Cardinality(Brokers), nreq |-> 0, done |-> FALSE, first |-> lead]
    /\ h = [log |-> <<>>, calm |-> FALSE, flushed |-> FALSE, queued |-> 0]
    /\ script = <<>>

Do(e) == /\ AllHold(Clauses(s, e))
         /\ s' = Step(s, e)

More == ~m.done /\ (Ideal => Len(script) < ScriptLen)
TheCall == CHOOSE c \in DOMAIN s.open : TRUE

Begin(op, t, k, cmd) ==
  /\ More /\ m.ncall < MaxCalls /\ Quiet(s) /\ (~s.closing \/ Ideal)
  /\ LET c == m.ncall + 1
         id == IF op = "P" THEN m.nmsg + 1 ELSE 0
     IN /\ Do([ev |-> "call", c |-> c, op |-> op, id |-> id, t |-> t, k |-> k])
        /\ m' = [m EXCEPT !.ncall = c, !.nmsg = IF op = "P" THEN id ELSE @]
        /\ h' = [h EXCEPT !.calm = (Live(s) = Brokers), !.flushed = FALSE,
                          !.queued = Cardinality(Ids(s', "wait"))]
  /\ Log(cmd)

CallP == /\ m.nmsg < MaxMsgs
         /\ \E t \in Topics, k \in Keys : Begin("P", t, k, <<"P", t, k>>)
CallF == (Ideal => Ids(s, "wait") # {}) /\ Begin("F", "", 0, <<"F">>)
CallC == ~s.closing /\ (Ideal => Len(script) >= ScriptLen - 3) /\ Begin("C", "", 0, <<"C">>)

(* candidate requests: up to two partitions with up to two messages each *)
IdSeqs == {<<a>> : a \in 0..m.nmsg} \cup {<<a, b>> : a \in 0..m.nmsg, b \in 0..m.nmsg}
One == {<<a>> : a \in 0..m.nmsg}
Part(t, p, ids) == [t |-> t, p |-> p, codec |-> <<>>, ids |-> ids]
WrongReqs ==
  {<<Part(t, p, a)>> : t \in Topics, p \in PartIds, a \in IdSeqs} \cup
  {<<Part(t, x[1], x[2]), Part(t, x[3], x[4])>> :
      t \in Topics, x \in {y \in PartIds \X One \X PartIds \X One : y[1] < y[3]}}

RightReq(b) ==
  LET kn == Known(s)
      todo == s.open[TheCall].due \ s.open[TheCall].sent
      at(i) == <<s.msgs[i].t, Pick(kn[s.msgs[i].t], s.msgs[i].k)>>
      mine == {i \in todo : kn[at(i)[1]][at(i)[2]] = b}
      tps == {at(i) : i \in mine}
      seq == SetToSeqOf(tps)
  IN [j \in 1..Len(seq) |-> Part(seq[j][1], seq[j][2], SortedSeq({i \in mine : at(i) = seq[j]}))]

Send ==
  /\ ~Quiet(s) /\ s.conns = s.brokers   \* not half way through a refresh
  /\ \E b \in Live(s) : \E parts \in (IF Ideal THEN {RightReq(b)} \ {<<>>} ELSE WrongReqs) :
       LET n == CHOOSE x \in s.live[b] : TRUE
           r == m.nreq + 1
           e == [ev |-> "req", r |-> r, b |-> b, n |-> n, acks |-> -1, timeout |-> 500,
                 parts |-> parts]
           ids == ReqIds(e)
           of(i) == CHOOSE q \in Range(parts) : i \in Range(q.ids)
       IN /\ Do(e)
          /\ m' = [m EXCEPT !.nreq = r]
          /\ h' = [h EXCEPT !.log = @ \o [j \in 1..Len(ids) |->
                     [id |-> ids[j], t |-> of(ids[j]).t, p |-> of(ids[j]).p, b |-> b, r |-> r,
                      n |-> n, res |-> "?", op |-> s.open[TheCall].op,
                      queued |-> h.queued]]]
  /\ Same

Answer ==
  \E r \in DOMAIN s.outs :
    LET ps == s.outs[r].parts IN
    \E cs \in [DOMAIN ps -> Codes] :
      LET e == [ev |-> "reply", r |-> r,
                codes |-> [j \in DOMAIN ps |-> [t |-> ps[j].t, p |-> ps[j].p, code |-> cs[j]]]]
          res(x) == LET c == cs[CHOOSE j \in DOMAIN ps : ps[j].t = x.t /\ ps[j].p = x.p]
                    IN IF c = 0 THEN "ok" ELSE IF c \in Retriable THEN "retry" ELSE "rejected"
      IN /\ (\E j \in DOMAIN ps : cs[j] # 0) => m.faults < MaxFaults
         /\ Do(e)
         /\ m' = [m EXCEPT !.faults = IF \E j \in DOMAIN ps : cs[j] # 0 THEN @ + 1 ELSE @]
         /\ h' = [h EXCEPT
                    !.calm = @ /\ \A j \in DOMAIN ps : cs[j] \notin Retriable,
                    !.log = [i \in DOMAIN @ |-> IF @[i].r = r THEN [@[i] EXCEPT !.res = res(h.log[i])]
                                                ELSE @[i]]]
         /\ Log(<<"R", s.outs[r].b, [j \in DOMAIN ps |-> <<ps[j].t, ps[j].p, cs[j]>>]>>)

Break ==
  /\ m.faults < MaxFaults /\ ~m.done
  /\ (Ideal => (s.outs # EmptyFn \/ Ids(s, "wait") # {}) /\ Cardinality(Live(s)) > 1)
  /\ \E b \in Live(s) : \E n \in s.live[b] :
       /\ Do([ev |-> "lost", b |-> b, n |-> n])
       /\ m' = [m EXCEPT !.faults = @ + 1]
       /\ h' = [h EXCEPT !.calm = FALSE,
                         !.log = [i \in DOMAIN @ |->
                            IF @[i].n = n /\ @[i].res = "?" THEN [@[i] EXCEPT !.res = "lost"]
                            ELSE @[i]]]
       /\ Log(<<"D", b>>)

Meta ==
  /\ ~Quiet(s) /\ s.heal /\ Live(s) # {} /\ ~s.closed
  /\ (Ideal => s.outs = EmptyFn /\ s.open[TheCall].due \subseteq s.open[TheCall].sent)
  /\ Do(MetaOf(m.lead))
  /\ m' = [m EXCEPT !.seen = m.lead]
  /\ Same /\ UNCHANGED h

Conn ==
  /\ ~Quiet(s) /\ ~s.heal /\ ~s.closed
  /\ \E b \in s.brokers \ s.conns :
       /\ Do([ev |-> "conn", b |-> b, n |-> m.nconn + 1])
       /\ m' = [m EXCEPT !.nconn = @ + 1]
  /\ Same /\ UNCHANGED h

Hang == /\ ~Quiet(s) /\ s.open[TheCall].op = "C"   \* closing the connections
        /\ s.outs = EmptyFn
        /\ \E b \in Live(s) : \E n \in s.live[b] : Do([ev |-> "eof", b |-> b, n |-> n])
        /\ Same /\ UNCHANGED <<m, h>>

Return ==
  /\ ~Quiet(s)
  /\ \E exc \in {"", "NoBrokersError"} :
       /\ (exc = "") = ~(s.heal /\ Live(s) = {})
       /\ (exc = "" /\ ~s.closing) => s.brokers = s.conns
       /\ Do([ev |-> "ret", c |-> TheCall, exc |-> exc])
  /\ h' = [h EXCEPT !.flushed = s.open[TheCall].op \in {"F", "C"}]
  /\ Same /\ UNCHANGED m

Move ==
  /\ m.moves < MaxMoves /\ ~m.done
  /\ (Ideal => s.outs # EmptyFn \/ Ids(s, "wait") # {})
  /\ \E t \in Topics, p \in PartIds, b \in Brokers :
       /\ m.lead[t][p] # b
       /\ m' = [m EXCEPT !.lead[t][p] = b, !.moves = @ + 1]
       /\ Log(<<"L", t, p, b>>)
  /\ UNCHANGED <<s, h>>

(* things that happen to the cluster which the model's own brokers do not show:
   the replay of the script lets the real producer see them *)
Mishap ==
  /\ Ideal /\ m.moves < MaxMoves /\ ~m.done /\ Len(script) > 1 /\ ~s.closing
  /\ \E b \in Brokers, t \in Topics, p \in PartIds :
       \E cmd \in {<<"X", b>>, <<"U", b>>, <<"G", b>>, <<"V", b>>, <<"E", t, p, b>>,
                   <<"T-", t>>, <<"T+", t>>, <<"A", t, p, b>>, <<"N", t, p>>} :
         script' = Append(script, cmd)
  /\ m' = [m EXCEPT !.moves = @ + 1]
  /\ UNCHANGED <<s, h>>

Finish ==
  /\ Ideal /\ Quiet(s) /\ Len(script) >= ScriptLen /\ ~m.done
  /\ PrintT(ToJson([script |-> script, batch |-> s.cfg.batch,
                    lead |-> SetToSeqOf({<<t, p, m.first[t][p]>> : t \in Topics, p \in PartIds})]))
  /\ m' = [m EXCEPT !.done = TRUE]
  /\ UNCHANGED <<s, h, script>>

Next == CallP \/ CallF \/ CallC \/ Send \/ Answer \/ Break \/ Meta \/ Conn \/ Hang
        \/ Return \/ Move \/ Mishap \/ Finish

(* weights for random behaviours *)
GenNext == CallP \/ CallP \/ CallP \/ CallF \/ CallC \/ Send \/ Send \/ Answer \/ Answer
           \/ Answer \/ Break \/ Meta \/ Conn \/ Hang \/ Return \/ Return \/ Move \/ Mishap
           \/ Finish
GenSpec == MCInit /\ [][GenNext]_vars

Spec == MCInit /\ [][Next]_vars

--------------------------------------------------------------------------
(* the properties, over the history *)

Entries == {<<i, j>> \in (DOMAIN h.log) \X (DOMAIN h.log) : i < j}

(* C02 *)
NothingFabricated == \A i \in DOMAIN h.log : h.log[i].id \in 1..m.nmsg
NoResend == \A x \in Entries : h.log[x[1]].id = h.log[x[2]].id
                               => h.log[x[1]].res \in {"retry", "lost"}
(* C03 *)
Placed == \A i \in DOMAIN h.log :
            LET x == h.log[i] IN x.id \in DOMAIN s.msgs =>
              /\ x.t = s.msgs[x.id].t
              /\ LET q == SortedSeq(PartIds) IN
                 x.p = q[(IF s.msgs[x.id].k < 0 THEN 0 ELSE s.msgs[x.id].k % Len(q)) + 1]
(* C04 *)
InOrder == \A x \in Entries : LET a == h.log[x[1]]  b == h.log[x[2]] IN
             (a.t = b.t /\ a.p = b.p /\ a.res = "ok" /\ b.res = "ok") => a.id < b.id
(* C05 *)
HeldBack == \A i \in DOMAIN h.log : h.log[i].op = "P" => h.log[i].queued >= s.cfg.batch
Answered == Quiet(s) => \A i \in DOMAIN h.log : h.log[i].res # "?"
(* C01: after an undisturbed flush every message is settled *)
Settled == (h.flushed /\ h.calm) =>
             \A id \in 1..m.nmsg : s.msgs[id].st # "after" =>
               \E i \in DOMAIN h.log : h.log[i].id = id /\ h.log[i].res \in {"ok", "rejected"}
(* C25 *)
Closed == s.closed => Live(s) = {}
Silent == [][s.closed => h'.log = h.log]_vars
=============================================================================
