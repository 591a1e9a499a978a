------------------------------ MODULE Verdict ------------------------------
(* What the specifications of all parts of kiel have in common.

   Every part is specified as a state record s, an initial state, an effect
   Step(s, e) of each event e, and a set of named clauses Clauses(s, e): the
   conditions under which the part may do e in state s.  A clause belongs to
   the property it serves.

   The same two operators are used twice, so there is one source of truth:
   - in the model (..._MC), an event is enabled iff all of its clauses hold, and
     TLC checks the properties themselves, stated as invariants, over all
     behaviours the clauses permit;
   - in the trace specification (..._Trace), TLC replays what the real code did,
     event by event, and notes each clause that does not hold.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

C(p, c, ok) == [p |-> p, c |-> c, ok |-> ok]

Failing(cs) == {<<x.p, x.c>> : x \in {y \in cs : ~y.ok}}

AllHold(cs) == \A x \in cs : x.ok

(* -- small helpers *)
Range(f) == {f[i] : i \in DOMAIN f}

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

RECURSIVE FlatSeq(_)
FlatSeq(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlatSeq(Tail(q))

(* the elements of q that satisfy Test, in order *)
Keep(q, Test(_)) == SelectSeq(q, Test)


NoRepeat(q) == Cardinality(Range(q)) = Len(q)

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})

(* f with key k set to v, whether or not k was there *)
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
DelAll(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
EmptyFn == [x \in {} |-> 0]
=============================================================================
