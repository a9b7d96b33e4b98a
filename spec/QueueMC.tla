------------------------------- MODULE QueueMC -------------------------------
(* Producer, consumer and interrupter on the abstract queue: guarantees of  *)
(* the queue that users rely on.                                            *)
EXTENDS SampleQueue, TLC
CONSTANTS Size, Blocking, Puts

VARIABLES q, put, got, pc, cc, ic, lost, atint
vars == <<q, put, got, pc, cc, ic, lost, atint>>
Init == q = QNew(1, Size, Blocking) /\ put = <<>> /\ got = <<>> /\ pc = 1 /\ cc = "take" /\ ic = 0 /\ lost = {} /\ atint = 0

Producer == /\ pc <= Puts
            /\ \E o \in QPut(q, pc, 1) :
                 /\ q' = o.q
                 /\ put' = IF o.r = 0 THEN Append(put, pc) ELSE put
                 \* overwritten buffer
                 /\ lost' = IF o.r = 0 /\ Len(o.q.filled) = Len(q.filled) THEN lost \cup {q.filled[Len(q.filled)].v} ELSE lost
            /\ pc' = pc + 1 /\ UNCHANGED <<got, cc, ic, atint>>
Consumer == \/ /\ cc = "take"
               /\ \E o \in QTake(q) : /\ q' = o.q
                                      /\ got' = IF o.r # 0 THEN Append(got, o.r) ELSE got
                                      /\ cc' = IF o.r # 0 THEN "comp" ELSE "end"
               /\ UNCHANGED <<put, pc, ic, lost, atint>>
            \/ /\ cc = "comp" /\ cc' = "take" /\ \E o \in QComplete(q) : q' = o.q
               /\ UNCHANGED <<put, got, pc, ic, lost, atint>>
Interrupter == /\ ic = 0 /\ ic' = 1 /\ \E o \in QInterrupt(q) : q' = o.q
               /\ atint' = Len(put)
               /\ UNCHANGED <<put, got, pc, cc, lost>>
Next == Producer \/ Consumer \/ Interrupter
Fairness == WF_vars(Producer) /\ WF_vars(Consumer) /\ WF_vars(Interrupter)
Spec == Init /\ [][Next]_vars /\ Fairness

Range(s) == {s[k] : k \in 1..Len(s)}
Order == \A a, b \in 1..Len(got) : a < b => got[a] < got[b]
OnlyPut == Range(got) \subseteq Range(put)
Bounded == Len(q.filled) + Len(q.det) <= Size
NothingLostWhenBlocking == Blocking => lost = {} /\ SubSeq(put, 1, Len(got)) = got
\* everything else was overwritten by a newer one
NothingElseLost == Range(put) = Range(got) \cup lost \cup {q.filled[k].v : k \in 1..Len(q.filled)}
\* the one before the interrupt is delivered unless it was overwritten
DeliveredBeforeEnd == (cc = "end" => {put[k] : k \in 1..atint} \subseteq Range(got) \cup lost)
NewestOverwritten == \A x \in lost : \E y \in Range(put) : y = x + 1
Termination == <>(cc = "end" /\ pc > Puts)
=============================================================================
