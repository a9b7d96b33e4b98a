----------------------------- MODULE LinkedList -----------------------------
(* Registry of workers (src/linked_list.c): sequence of owned elements.     *)
(* A selector is the set of elements it selects.                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE FirstIn(_, _, _)
FirstIn(s, set, k) == IF k > Len(s) THEN 0 ELSE IF s[k] \in set THEN k ELSE FirstIn(s, set, k + 1)
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
In(s, set) == SelectSeq(s, LAMBDA x : x \in set)
NotIn(s, set) == SelectSeq(s, LAMBDA x : x \notin set)

\* result of the operation: next content, returned element (0 - nothing), destroyed elements
LOp(s, op, set) ==
    LET k == FirstIn(s, set, 1) IN
    CASE op = "add" -> [s |-> s \o [j \in 1..1 |-> CHOOSE x \in set : TRUE], r |-> 0, d |-> <<>>]
      [] op = "find" -> [s |-> s, r |-> IF k = 0 THEN 0 ELSE s[k], d |-> <<>>]
      [] op = "remove" -> [s |-> IF k = 0 THEN s ELSE RemoveAt(s, k), r |-> IF k = 0 THEN 0 ELSE s[k], d |-> <<>>]
      [] op = "destroyid" -> [s |-> IF k = 0 THEN s ELSE RemoveAt(s, k), r |-> 0, d |-> IF k = 0 THEN <<>> ELSE <<s[k]>>]
      [] op = "destroysel" -> [s |-> NotIn(s, set), r |-> 0, d |-> In(s, set)]
      [] op = "destroy" -> [s |-> <<>>, r |-> 0, d |-> s]
      [] OTHER -> [s |-> s, r |-> 0, d |-> <<>>]
=============================================================================
