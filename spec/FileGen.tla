------------------------------- MODULE FileGen -------------------------------
(* Behaviours of the file device of the length L for one thread: rx is not   *)
(* called where it would wait forever.                                       *)
EXTENDS FileDevice, TLC, IOUtils
VARIABLES s, h
L == atoi(IOEnv.L)
MAX == 3
Init == \E rx, tx \in BOOLEAN, have \in {0, 1, 3, 4, 7}, q \in 0..3 :
          /\ q = 0 \/ ~(rx /\ tx)
          /\ rx \/ have = 0
          /\ s = NewDevice([rx |-> rx, tx |-> tx, have |-> have, max |-> MAX, q |-> q]) /\ h = <<>>
Rx == /\ ~s.p.rx \/ s.pos < s.p.have \/ s.stopped
      /\ s' = IF RxOk(s) THEN [s EXCEPT !.pos = @ + NextRx(s)] ELSE s
      /\ h' = Append(h, <<"rx", 0>>)
Tx(n) == /\ s' = IF TxOk(s, n) THEN [s EXCEPT !.written = @ + n] ELSE s
         /\ h' = Append(h, <<"tx", n>>)
Stop == /\ ~s.stopped
        /\ s' = [s EXCEPT !.stopped = TRUE]
        /\ h' = Append(h, <<"stop", 0>>)
Next == Len(h) < L /\ (Rx \/ Stop \/ \E n \in {0, 1, MAX, MAX + 1} : Tx(n))
Spec == Init /\ [][Next]_<<s, h>>
\* nothing is read twice or beyond the end
Bounds == s.pos \in 0..s.p.have /\ (s.p.rx \/ s.pos = 0) /\ (s.p.tx \/ s.written = 0)
Emit == Len(h) = L => PrintT("GEN " \o ToString(<<s.p, h>>))
=============================================================================
