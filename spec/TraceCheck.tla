----------------------------- MODULE TraceCheck -----------------------------
(* Checks recorded behaviours of the real code against a specification.

   The verdict is total: an event whose clauses do not all hold is noted, its
   effect is applied all the same, and the rest of the trace is checked.  One
   TLC run checks all traces, one initial state each; every step consumes one
   event, so each trace has exactly Len(ev) + 1 states.                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Traces,            \* sequence of [cfg |-> ..., ev |-> sequence of events]
          InitOf(_), StepOf(_, _), ClausesOf(_, _), FailingOf(_)
VARIABLES tid, l, s, bad

Events == Traces[tid].ev

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ s = InitOf(Traces[tid].cfg)
  /\ bad = {}

TraceNext ==
  /\ l <= Len(Events)
  /\ LET e == Events[l] IN
       /\ s' = StepOf(s, e)
       /\ bad' = bad \cup {<<l>> \o x : x \in FailingOf(ClausesOf(s, e))}
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ l = Len(Events) => PrintT(ToJson([verdict |-> tid, bad |-> bad']))

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, s, bad>>
=============================================================================
