------------------------------ MODULE Client_MC ------------------------------
(* A client that may do whatever the clauses permit. *)
EXTENDS Client
CONSTANTS Brokers, MaxCalls, MaxConns, MaxMetas
VARIABLES s, m
vars == <<s, m>>
Do(e) == AllHold(Clauses(s, e)) /\ s' = Step(s, e)

MCInit == /\ s = [Init([x |-> 0]) EXCEPT !.live = [b \in Brokers |-> {b}]]
          /\ m = [n |-> 0, conns |-> Cardinality(Brokers), metas |-> 0, made |-> {},
                  done |-> <<>>, asked |-> {}, late |-> 0, res |-> "", last |-> 0,
                  results |-> {}, ended |-> FALSE]

Call == /\ m.n < MaxCalls /\ ~s.closing
        /\ \E to \in SUBSET Brokers, op \in {"send", "close"} :
             /\ (op = "close") => to = {}
             /\ (op = "send") => to # {}
             /\ Do([ev |-> "call", c |-> m.n + 1, op |-> op, to |-> SortedSeq(to)])
             /\ m' = [m EXCEPT !.n = @ + 1, !.res = "",
                               !.asked = IF \E b \in to : LiveAt(s, b) = {} THEN @ \cup {m.n + 1} ELSE @]
Req == \E c \in 1..m.n, b \in Brokers : \E n \in LiveAt(s, b) :
         /\ Do([ev |-> "req", c |-> c, b |-> b, n |-> n])
         /\ m' = [m EXCEPT !.late = IF s.closed THEN @ + 1 ELSE @]
Reply == \E c \in s.open, b \in Brokers, k \in {"plain", "none"} :
         /\ b \in DOMAIN s.calls[c].st /\ s.calls[c].st[b] = "arrived"
         /\ Do([ev |-> "reply", c |-> c, b |-> b, kind |-> k])
         /\ m' = [m EXCEPT !.made = @ \cup {<<c, b, k>>}]
Handled == \E c \in 1..m.n, b, f \in Brokers, h \in BOOLEAN :
         /\ <<c, b, "none">> \notin m.made
         /\ Do([ev |-> "handled", c |-> c, b |-> b, from |-> f, heal |-> h])
         /\ m' = [m EXCEPT !.done = Append(@, <<b, c, f>>), !.asked = IF h THEN @ \cup {c} ELSE @]
Meta == /\ s.open # {} /\ m.metas < MaxMetas /\ Live(s) # {}
        /\ Do([ev |-> "meta"])
        /\ m' = [m EXCEPT !.asked = {}, !.metas = @ + 1,
                          !.late = IF s.closed THEN @ + 1 ELSE @]
Conn == /\ s.open # {} /\ m.conns < MaxConns
        /\ \E b \in Brokers : LiveAt(s, b) = {} /\ Do([ev |-> "conn", b |-> b, n |-> m.conns + 1])
        /\ m' = [m EXCEPT !.conns = @ + 1]
GoneBy == \E b \in Brokers : \E n \in LiveAt(s, b) :
        /\ Do([ev |-> "lost", b |-> b, n |-> n])
        /\ m' = [m EXCEPT !.asked = @ \cup {c \in s.open : \E x \in DOMAIN s.calls[c].st :
                    x = b /\ s.calls[c].st[x] \in {"sent", "arrived"}
                    /\ (x \in DOMAIN s.calls[c].conn => s.calls[c].conn[x] = n)}]
Ret == \E c \in s.open, exc \in {"", "UnhandledResponseError", "NoBrokersError", "Other"} :
       \E rs \in IF exc = "" /\ s.calls[c].op = "send"
                 THEN SUBSET {<<b, c, f>> : b \in DOMAIN s.calls[c].st, f \in Brokers} ELSE {{}} :
         /\ LET seq == CHOOSE q \in [1..Cardinality(rs) -> rs] : Range(q) = rs
            IN Do([ev |-> "ret", c |-> c, exc |-> exc, results |-> seq])
         /\ m' = [m EXCEPT !.res = IF exc = "" THEN "ok" ELSE exc, !.last = c, !.results = rs]
End == ~m.ended /\ s.open = {} /\ Do([ev |-> "end"]) /\ m' = [m EXCEPT !.ended = TRUE]
Next == Call \/ Req \/ Reply \/ Handled \/ Meta \/ Conn \/ GoneBy \/ Ret \/ End
Spec == MCInit /\ [][Next]_vars

Once == NoRepeat(m.done)
Made == \A x \in Range(m.done) : <<x[2], x[1], "plain">> \in m.made /\ x[1] = x[3]
Raises == (m.res = "Other") => s.calls[m.last].op = "close"
Returns == [][(m.last' # m.last /\ m'.res = "ok" /\ s.calls[m'.last].op = "send") =>
      /\ m'.results = {x \in Range(m.done) : x[2] = m'.last}
      /\ \A b \in DOMAIN s.calls[m'.last].st :
            s.calls[m'.last].st[b] \notin {"sent", "arrived", "replied"}
      /\ ((Cardinality(s.open) = 1 /\ ~s.closing) => m'.last \notin m.asked)
      /\ \A x \in m.made : (x[1] = m'.last /\ x[3] = "none") =>
            s.calls[x[1]].st[x[2]] = "either"]_vars
UnhandledOnly == [][(m.last' # m.last /\ m'.res = "UnhandledResponseError" /\ s.calls[m'.last].op = "send") =>
      \E x \in m.made : x[1] = m'.last /\ x[3] = "none"]_vars
Silent == m.late = 0
ClosedAll == [][(m.last' # m.last /\ s.calls[m'.last].op = "close") => Live(s) = {}]_vars
=============================================================================
