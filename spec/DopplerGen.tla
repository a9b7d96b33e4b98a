------------------------------ MODULE DopplerGen ------------------------------
(* Splits of the stream into buffers. The algorithm which is used by the     *)
(* block is described together with its specification: each behaviour ends   *)
(* with the list of calls. Shifts are symbolic: the second and the distance  *)
(* from its beginning.                                                       *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
CONSTANTS Rate, Seconds
Sizes == {1, Rate - 1, Rate, Rate + 1, 2 * Rate + 1} \ {0}
VARIABLES calls, pos,       \* specification: number of samples
          second, inSecond, \* the algorithm: second, number of samples processed in it
          covered,          \* second and the distance for each batch: <<first, length, second, distance>>
          ahead             \* sum of lengths after the first batch: interpolated distance
vars == <<calls, pos, second, inSecond, covered, ahead>>
Init == calls = <<>> /\ pos = 0 /\ second = -1 /\ inSecond = Rate /\ covered = <<>> /\ ahead = 0
\* one call is a sequence of batches
RECURSIVE Run(_, _)
Run(st, remaining) ==
    IF remaining = 0 THEN st
    ELSE LET full == st.inS >= Rate
             len == IF full THEN (IF Rate < remaining THEN Rate ELSE remaining)
                    ELSE (IF Rate - st.inS < remaining THEN Rate - st.inS ELSE remaining)
             sec == IF full THEN st.sec + 1 ELSE st.sec
             dist == IF full THEN 0 ELSE st.dist + len
         IN Run([inS |-> (IF full THEN 0 ELSE st.inS) + len, sec |-> sec, dist |-> dist, pos |-> st.pos + len,
                 cov |-> Append(st.cov, <<st.pos, len, sec, dist>>)], remaining - len)
Call(n) == LET r == Run([inS |-> inSecond, sec |-> second, dist |-> ahead, pos |-> pos, cov |-> covered], n) IN
    /\ calls' = Append(calls, n) /\ pos' = pos + n
    /\ inSecond' = r.inS /\ second' = r.sec /\ covered' = r.cov /\ ahead' = r.dist
Next == pos < Seconds * Rate /\ \E n \in Sizes : Call(n)
Spec == Init /\ [][Next]_vars
\* the algorithm follows the schedule
Schedule == \A k \in 1..Len(covered) :
    LET b == covered[k] IN
    /\ b[1] \div Rate = b[3] /\ (b[1] + b[2] - 1) \div Rate = b[3]
    \* interpolated distance is never further than the longest batch
    /\ b[4] <= Rate /\ b[4] - (b[1] - b[3] * Rate) \in -Rate..b[2]
Counted == pos = (LET S[k \in 0..Len(calls)] == IF k = 0 THEN 0 ELSE S[k - 1] + calls[k] IN S[Len(calls)])
Emit == pos < Seconds * Rate \/ PrintT("GEN " \o ToString(<<calls>>))
=============================================================================
