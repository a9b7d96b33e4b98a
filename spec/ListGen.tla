------------------------------- MODULE ListGen -------------------------------
(* All sequences of operations of the length L. At the same time the model  *)
(* is checked: nobody is owned twice, everybody is destroyed or returned at *)
(* most once and nobody is lost.                                            *)
EXTENDS LinkedList, TLC, IOUtils
VARIABLES s, h, added, gone
L == atoi(IOEnv.L)
M == atoi(IOEnv.M)
Range(x) == {x[k] : k \in 1..Len(x)}
Init == s = <<>> /\ h = <<>> /\ added = 0 /\ gone = <<>>
Ops == (IF added < M THEN {<<"add", {added + 1}>>} ELSE {})
       \cup (IF Len(s) > 0 THEN {<<o, {x}>> : o \in {"find", "remove", "destroyid"}, x \in Range(s)} \cup {<<"destroysel", x>> : x \in SUBSET Range(s)}
                                \cup {<<o, Range(s)>> : o \in {"find", "remove", "destroyid"}} ELSE {})
       \cup {<<"find", {M + 1}>>, <<"remove", {M + 1}>>, <<"destroy", {}>>}
Bits(x) == LET RECURSIVE F(_)
               F(y) == IF y = {} THEN <<>> ELSE LET m == CHOOSE z \in y : \A w \in y : z <= w IN <<m>> \o F(y \ {m}) IN F(x)
Next == /\ Len(h) < L
        /\ \E o \in Ops : LET x == LOp(s, o[1], o[2]) IN
             /\ s' = x.s
             /\ h' = Append(h, <<o[1], Bits(o[2])>>)
             /\ added' = IF o[1] = "add" THEN added + 1 ELSE added
             /\ gone' = gone \o x.d \o (IF o[1] = "remove" /\ x.r # 0 THEN <<x.r>> ELSE <<>>)
Spec == Init /\ [][Next]_<<s, h, added, gone>>
Once == \A x \in 1..added : Cardinality({k \in 1..Len(gone) : gone[k] = x}) + Cardinality({k \in 1..Len(s) : s[k] = x}) = 1
Order == \A a, b \in 1..Len(s) : a < b => s[a] < s[b]
Emit == Len(h) = L => PrintT("GEN " \o ToString(h))
=============================================================================
