------------------------------ MODULE QueueImpl ------------------------------
(***************************************************************************)
(* Thread level model of src/queue.c: nodes, lock, condition variable with *)
(* spurious wakeups, memcpy in two steps. aq is the abstract queue changed *)
(* at the linearization points; every result should be the one given by    *)
(* the abstract queue. Bug selects a defect the model should reveal.       *)
(***************************************************************************)
EXTENDS SampleQueue, TLC
CONSTANTS Size, Blocking, Puts, Spurious, IntLast, Bug

T == {"p", "c", "i"}
Nodes == 1..Size
VARIABLES lock, waiting, free, filled, det, buf, poison, pc, v, node, aq, ok, taken
vars == <<lock, waiting, free, filled, det, buf, poison, pc, v, node, aq, ok, taken>>

Init == /\ lock = "" /\ waiting = {} /\ free = [k \in 1..Size |-> k] /\ filled = <<>> /\ det = 0
        /\ buf = [n \in Nodes |-> 0] /\ poison = FALSE
        /\ pc = [t \in T |-> "lock"] /\ v = 1 /\ node = 0
        /\ aq = QNew(1, Size, Blocking) /\ ok = TRUE /\ taken = 0

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Lock(t, l) == /\ pc[t] = "lock" /\ lock = "" /\ lock' = t /\ Goto(t, l)
              /\ UNCHANGED <<waiting, free, filled, det, buf, poison, v, node, aq, ok, taken>>
\* pthread_cond_wait: the lock is released and acquired again after a broadcast (or spuriously)
Wait(t) == /\ lock' = "" /\ waiting' = waiting \cup {t} /\ Goto(t, "waiting")
Wakeup(t, l) == /\ pc[t] = "waiting" /\ lock = ""
                /\ (t \notin waiting \/ Spurious)
                /\ waiting' = waiting \ {t} /\ lock' = t /\ Goto(t, l)
                /\ UNCHANGED <<free, filled, det, buf, poison, v, node, aq, ok, taken>>
Broadcast == waiting' = IF Bug = "signal" /\ waiting # {} THEN waiting \ {CHOOSE t \in waiting : TRUE} ELSE {}

\* ---- producer
Done(r) == /\ lock' = "" /\ v' = v + 1 /\ Goto("p", "lock")
           /\ \E o \in QPut(aq, v, 1) : aq' = o.q /\ ok' = (ok /\ o.r = r)
PutFail == /\ Done(-1) /\ UNCHANGED <<waiting, free, filled, det, buf, poison, node, taken>>
PCheck == /\ pc["p"] = "check"
          /\ IF Blocking /\ poison THEN PutFail
             ELSE IF Blocking /\ free = <<>> THEN Wait("p") /\ UNCHANGED <<free, filled, det, buf, poison, v, node, aq, ok, taken>>
             ELSE IF free = <<>> /\ filled = <<>> THEN PutFail
             ELSE /\ IF free = <<>>
                     THEN /\ node' = IF Bug = "overwrite_detached" /\ det # 0 THEN det ELSE filled[Len(filled)]
                          /\ UNCHANGED <<free, filled>>
                     ELSE node' = Head(free) /\ free' = Tail(free) /\ filled' = Append(filled, Head(free))
                  /\ Goto("p", "copy1")
                  /\ lock' = IF Bug = "copy_outside" THEN "" ELSE lock
                  /\ UNCHANGED <<waiting, det, buf, poison, v, aq, ok, taken>>
PCopy1 == /\ pc["p"] = "copy1" /\ buf' = [buf EXCEPT ![node] = -1] /\ Goto("p", "copy2")
          /\ UNCHANGED <<lock, waiting, free, filled, det, poison, v, node, aq, ok, taken>>
PCopy2 == /\ pc["p"] = "copy2" /\ buf' = [buf EXCEPT ![node] = v]
          /\ Broadcast /\ Done(0) /\ UNCHANGED <<free, filled, det, poison, node, taken>>
P == \/ v <= Puts /\ (Lock("p", "check") \/ PCheck \/ PCopy1 \/ PCopy2 \/ Wakeup("p", "check"))

\* ---- consumer
CTake == /\ pc["c"] = "take"
         /\ IF filled # <<>>
            THEN /\ det' = Head(filled) /\ filled' = Tail(filled) /\ lock' = "" /\ taken' = buf[Head(filled)]
                 /\ \E o \in QTake(aq) : aq' = o.q /\ ok' = (ok /\ o.r = buf[Head(filled)])
                 /\ Goto("c", "process") /\ UNCHANGED <<waiting, free, buf, poison, v, node>>
            ELSE IF poison
            THEN /\ lock' = "" /\ Goto("c", "end")
                 /\ \E o \in QTake(aq) : aq' = o.q /\ ok' = (ok /\ o.r = 0)
                 /\ UNCHANGED <<waiting, free, filled, det, buf, poison, v, node, taken>>
            ELSE Wait("c") /\ UNCHANGED <<free, filled, det, buf, poison, v, node, aq, ok, taken>>
CProcess == /\ pc["c"] = "process" /\ lock = "" /\ lock' = "c" /\ Goto("c", "complete")
            /\ UNCHANGED <<waiting, free, filled, det, buf, poison, v, node, aq, ok, taken>>
CComplete == /\ pc["c"] = "complete" /\ lock' = "" /\ Goto("c", "lock")
             /\ free' = Append(free, det) /\ det' = 0 /\ taken' = 0
             /\ IF Bug = "no_broadcast" THEN waiting' = waiting ELSE Broadcast
             /\ \E o \in QComplete(aq) : aq' = o.q
             /\ UNCHANGED <<filled, buf, poison, v, node, ok>>
C == Lock("c", "take") \/ CTake \/ CProcess \/ CComplete \/ Wakeup("c", "take")

\* ---- interrupt
I == \/ (~IntLast \/ v > Puts) /\ Lock("i", "int")
     \/ /\ pc["i"] = "int" /\ poison' = TRUE /\ Broadcast /\ lock' = "" /\ Goto("i", "end")
        /\ \E o \in QInterrupt(aq) : aq' = o.q
        /\ UNCHANGED <<free, filled, det, buf, v, node, ok, taken>>
Finished == pc["c"] = "end" /\ v > Puts /\ pc["i"] = "end" /\ UNCHANGED vars
Next == P \/ C \/ I \/ Finished
\* without spurious wakeups nothing is repeated, so it is enough to check that there are no deadlocks
Spec == Init /\ [][Next]_vars

Linearizable == ok
Mapping == lock = "" => /\ [k \in 1..Len(filled) |-> buf[filled[k]]] = [k \in 1..Len(aq.filled) |-> aq.filled[k].v]
                        /\ (det # 0) = (aq.det # <<>>)
\* the buffer is not touched while it is being processed
NotTouched == pc["c"] \in {"process", "complete"} => buf[det] = taken /\ taken > 0
NodesKept == Len(free) + Len(filled) + (IF det = 0 THEN 0 ELSE 1) = Size
=============================================================================
