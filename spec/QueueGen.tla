------------------------------ MODULE QueueGen ------------------------------
(* Generates sequences of operations on the queue of one thread (never     *)
(* blocking) to be replayed in queue.c. Length is taken from L.             *)
EXTENDS SampleQueue, TLC, IOUtils
VARIABLES q, h, v
L == atoi(IOEnv.L)
BS == 3
Init == \E s \in 1..3, b \in BOOLEAN : q = QNew(BS, s, b) /\ h = <<>> /\ v = 1
Ops == {[op |-> "put", v |-> v, n |-> n] : n \in {0, 1, BS, BS + 1}} \cup {[op |-> "take", v |-> 0, n |-> 0]}
       \cup (IF q.det # <<>> THEN {[op |-> "comp", v |-> 1, n |-> 0]} ELSE {})
       \cup (IF q.poison THEN {} ELSE {[op |-> "int", v |-> 0, n |-> 0]})
Next == /\ Len(h) < L
        /\ \E o \in Ops : /\ (o.op = "take" => q.det = <<>>)
                          /\ \E x \in QOp(q, o) : q' = x.q
                          /\ h' = Append(h, IF o.op = "put" THEN <<"put", o.n>> ELSE <<o.op, 0>>)
                          /\ v' = v + 1
Spec == Init /\ [][Next]_<<q, h, v>>
Emit == Len(h) = L => PrintT("GEN " \o ToString(<<q.size, q.blocking, h>>))
=============================================================================
