------------------------------ MODULE ListTrace ------------------------------
(* Sequences of operations recorded from linked_list.c                      *)
EXTENDS LinkedList, Replay
Set(a) == {a[k] : k \in 1..Len(a)}
\* order of destruction is not a part of the contract
Same(a, b) == Len(a) = Len(b) /\ \A x \in Set(a) \cup Set(b) :
                 Cardinality({k \in 1..Len(a) : a[k] = x}) = Cardinality({k \in 1..Len(b) : b[k] = x})
LBegin(e) == <<>>
LGuards(s, e) ==
    CASE e.ev = "op" -> LET o == LOp(s, e.op, Set(e.a)) IN
            { <<"C16:content", e.content = o.s>>, <<"C16:result", e.r = o.r>>, <<"C16:destroyed", Same(e.destroyed, o.d)>>,
              <<"C16:empty_list", e.empty = (o.s = <<>>)>> }
      [] e.ev = "released" -> { <<"C16:leak", e.mem = 0>> }
      [] OTHER -> {}
LEffect(s, e) == IF e.ev = "op" THEN LOp(s, e.op, Set(e.a)).s ELSE s
=============================================================================
