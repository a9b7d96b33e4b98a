------------------------------- MODULE ConfigGen -------------------------------
(* All configurations with at most two settings, values are on both sides of  *)
(* the boundaries and of all types.                                           *)
EXTENDS Config, TLC, IOUtils
VARIABLE c
I(v) == [t |-> "int", i |-> v, s |-> ""]
B(v) == [t |-> "big", i |-> v, s |-> ""]
F(v) == [t |-> "float", i |-> v, s |-> ""]
T(v) == [t |-> "str", i |-> 0, s |-> v]
Wrong == { [t |-> "bool", i |-> 1, s |-> ""], [t |-> "group", i |-> 0, s |-> ""] }
Values(n) == Wrong \cup
    CASE n \in DOMAIN Ints -> { T("12"), I(Ints[n][1]), I(Ints[n][1] - 1), I(Ints[n][2]), I(77), I(MaxInt), I(-1), I(-MaxInt - 1), B(1), B(2), B(3), F(150) }
                               \cup (IF Ints[n][2] < MaxInt THEN {I(Ints[n][2] + 1), I(65536 + 8091)} ELSE {})
      [] n \in Floats -> { I(0), I(12), I(-30), F(0), F(1250), F(-4475), T("10") }
      [] n = "rx_sdr_type" -> { T("sdr-server"), T("plutosdr"), T("file"), T("none"), T(""), T("PLUTOSDR"), I(1) }
      [] n = "tx_sdr_type" -> { T("sdr-server"), T("plutosdr"), T("file"), T("none"), T(""), T("plutosdr "), I(0) }
      [] OTHER -> { T(""), T("0.0.0.0"), T("/some/where/"), I(0), F(100) }
None == [t |-> "none", i |-> 0, s |-> ""]
Pairs == { {a, b} : a, b \in Names }
L == atoi(IOEnv.L)
Init == c = << >>
Next == \/ /\ Len(c) < L
           /\ \E n \in Names : /\ \A k \in 1..Len(c) : c[k][1] # n
                               /\ \E v \in Values(n) : c' = Append(c, <<n, v>>)
Spec == Init /\ [][Next]_c
Ordered(n, m) == TRUE
Emit == PrintT("GEN " \o ToString(c))
=============================================================================
