-------------------------------- MODULE SdrGen --------------------------------
(* Behaviours of sdr-server after the request of the client: the positive    *)
(* answer in one or two pieces, then L steps: bytes of the stream in         *)
(* segments, short and long pauses, end of the connection.  The client reads *)
(* into the buffer of 3 samples.                                             *)
EXTENDS SdrClient, TLC, IOUtils
VARIABLES h, n, over
L == atoi(IOEnv.L)
Init == /\ n = 0 /\ over = FALSE
        /\ \E k \in 1..7 : h = IF k = 7 THEN << <<"a", 7>> >> ELSE << <<"a", k>>, <<"a", 7 - k>> >>
Steps == Len(h) - (IF h[1][2] = 7 THEN 1 ELSE 2)
Send(k) == h' = Append(h, <<"b", k>>) /\ n' = n + k /\ over' = over
Pause(k) == h[Len(h)][1] # "s" /\ h' = Append(h, <<"s", k>>) /\ UNCHANGED <<n, over>>
End(o) == h' = Append(h, <<o, 0>>) /\ over' = TRUE /\ n' = n
Next == ~over /\ IF Steps < L THEN \/ \E k \in {1, 7, 8, 9, 24, 31} : Send(k)
                                   \/ \E k \in {100, 1500} : Pause(k)
                 ELSE End("fin")
Spec == Init /\ [][Next]_<<h, n, over>>
Emit == over => PrintT("GEN " \o ToString(h))
=============================================================================
