------------------------------- MODULE ModemGen -------------------------------
(* What the outside world can do to the modem: histories of the length L.      *)
(* Each step is <<action, client or stream, detail, gap>>; gap = 0: at the     *)
(* same moment as the previous step, 1: after the modem has settled.           *)
(* KINDS: requests of the clients: a, b - receivers with different tuning,     *)
(* t - transmitter, p - ping, x - invalid request                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
VARIABLES st, keys, stopped, h
L == atoi(IOEnv.L)
NC == atoi(IOEnv.NC)
Kinds == {k \in {"a", "b", "t", "p", "x"} : \E i \in 1..Len(IOEnv.KINDS) : SubSeq(IOEnv.KINDS, i, i) = k}
Streams == {"a", "b"} \cap Kinds
Init == st = [c \in 1..NC |-> "no"] /\ keys = {} /\ stopped = FALSE /\ h = <<>>
Step(a, w, d) == \E g \in {0, 1} : (h = <<>> => g = 1) /\ h' = Append(h, <<a, w, d, g>>)
\* numbers of the clients are given in the order of connections
Connect(c, k) == /\ st[c] = "no" /\ ~stopped
                 /\ \A x \in 1..(c - 1) : st[x] # "no"
                 /\ st' = [st EXCEPT ![c] = k]
                 /\ keys' = IF k \in Streams THEN keys \cup {k} ELSE keys
                 /\ Step("conn", c, k) /\ UNCHANGED stopped
Leave(c, how) == /\ st[c] \in {"a", "b", "t", "p", "x"} /\ (how = "bye" => st[c] \in {"a", "b", "t"})
                 /\ st' = [st EXCEPT ![c] = IF how = "bye" THEN "bye" ELSE "left"]
                 /\ Step(how, c, "") /\ UNCHANGED <<keys, stopped>>
Send(c, what) == /\ st[c] \in {"a", "b", "t"} /\ (what = "data" => st[c] = "t")
                 /\ Step(what, c, "") /\ UNCHANGED <<st, keys, stopped>>
Stream(k, what) == k \in keys /\ Step(what, 0, k) /\ UNCHANGED <<st, keys, stopped>>
Stop == ~stopped /\ stopped' = TRUE /\ Step("stop", 0, "") /\ UNCHANGED <<st, keys>>
Next == Len(h) < L /\ ((\E c \in 1..NC : (\E k \in Kinds : Connect(c, k)) \/ (\E x \in {"bye", "close", "abort", "shut"} : Leave(c, x)) \/ (\E x \in {"data", "junk"} : Send(c, x)))
                       \/ (\E k \in Streams : Stream(k, "push") \/ Stream(k, "eof")) \/ Stop)
Spec == Init /\ [][Next]_<<st, keys, stopped, h>>
Order == \A x, y \in 1..NC : x < y => (st[y] # "no" => st[x] # "no")
Emit == Len(h) = L => PrintT("GEN " \o ToString(h))
=============================================================================
