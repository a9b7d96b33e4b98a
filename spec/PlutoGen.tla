------------------------------- MODULE PlutoGen -------------------------------
(* Histories of opening, using and closing PlutoSDR devices of the length L.  *)
(* At most one device receives and at most one transmits.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
VARIABLES open, h
L == atoi(IOEnv.L)
Slots == 0..1
Kinds == {"rx", "tx", "both"}
Rates == {"low", "four", "two", "none"}
Uses(k) == IF k = "both" THEN {"rx", "tx"} ELSE {k}
Busy == UNION {Uses(open[s]) : s \in DOMAIN open}
Init == open = <<>> /\ h = <<>>
Create(s, k, r) ==
    /\ s \notin DOMAIN open
    /\ \A x \in 0..(s - 1) : x \in DOMAIN open
    /\ Uses(k) \cap Busy = {}
    /\ open' = IF r = "low" THEN open ELSE [x \in DOMAIN open \cup {s} |-> IF x = s THEN k ELSE open[x]]
    /\ h' = Append(h, <<"cr", s, k, r>>)
Destroy(s) == s \in DOMAIN open /\ open' = [x \in DOMAIN open \ {s} |-> open[x]] /\ h' = Append(h, <<"de", s, "", "">>)
Use(s, o) == s \in DOMAIN open /\ open' = open /\ h' = Append(h, <<o, s, "", "">>)
Next == Len(h) < L /\ \E s \in Slots : Destroy(s) \/ (\E o \in {"rx", "tx", "st"} : Use(s, o)) \/ (\E k \in Kinds, r \in Rates : Create(s, k, r))
Spec == Init /\ [][Next]_<<open, h>>
Exclusive == \A a, b \in DOMAIN open : a # b => Uses(open[a]) \cap Uses(open[b]) = {}
Emit == Len(h) = L => PrintT("GEN " \o ToString(h))
=============================================================================
