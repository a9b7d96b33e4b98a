------------------------------ MODULE PlutoTrace ------------------------------
(* Calls of plutosdr.c and of libiio recorded from the real code.             *)
EXTENDS Pluto, Replay
TBegin(e) == NewState(e.conc)
=============================================================================
