----------------------------- MODULE ModemImpl -----------------------------
(***************************************************************************)
(* Threads of the server: acceptor, one thread for each client             *)
(* (tcp_server.c), one for each demodulator (dsp_worker.c), one for each   *)
(* receiver (sdr_worker.c).  The environment: clients, sdr-server,         *)
(* administrator that stops the server.                                    *)
(*                                                                         *)
(* Each step visible from outside is an event of Modem.tla and its guards  *)
(* are collected in "bad".  Sections under the mutex of sdr_worker and of  *)
(* the queue do not block and so are single steps; the mutex of the server *)
(* is kept while the acceptor waits for others, so it is modelled.         *)
(*                                                                         *)
(* Bug - name of the defect introduced into the model.  Each of them was   *)
(* (or could be) a defect of the code.                                     *)
(***************************************************************************)
EXTENDS Modem

CONSTANTS Setup,   \* <<kind, key>> of every client
          RxT, TxT, \* types of the radio: sdr or pluto, none, file or pluto
          NPush,   \* samples pushed into one session
          Env,     \* what the environment can do: bye, close (clients), eof (sdr-server), stop (administrator)
          Bug

Cl == 1..Len(Setup)
Kind(c) == Setup[c][1]
Key(c) == <<Setup[c][2], Setup[c][2], "1">>

TCP(c) == 10 + c
DSP(c) == 20 + c
SDR(c) == 30 + c
SRV(c) == 40 + c
ACC == 50
ADM == 51

RECURSIVE Play(_, _, _)
Play(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Play(Effect(s, Head(es)), b \cup Failed(s, Head(es)), Tail(es))

Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
Ev(e, c) == [ev |-> e, c |-> c]
EvS(e, s) == [ev |-> e, s |-> s]
Creq(c) == [ev |-> "creq", c |-> c, kind |-> IF Kind(c) = "bad" THEN "other" ELSE Kind(c), exp |-> CASE Kind(c) = "bad" -> "invalid" [] Kind(c) = "ping" -> "ping" [] OTHER -> "ok",
            band |-> Key(c)[1], center |-> Key(c)[2], rate |-> Key(c)[3], sps |-> 1, dump |-> TRUE, dest |-> DEST_FILE]
Resp(c, st, det) == [ev |-> "resp", c |-> c, st |-> st, det |-> det]
Runs(f) == \* f - sequence of <<session, number>>
    LET RECURSIVE R(_, _)
        R(i, acc) == IF i > Len(f) THEN acc
                     ELSE IF acc # <<>> /\ acc[Len(acc)][1] = f[i][1] /\ acc[Len(acc)][2] + acc[Len(acc)][3] = f[i][2]
                          THEN R(i + 1, [acc EXCEPT ![Len(acc)][3] = @ + 1])
                          ELSE R(i + 1, Append(acc, <<f[i][1], f[i][2], 1>>)) IN
    R(1, <<>>)
EndRx(c, f, atclose) == [ev |-> "endrx", c |-> c, runs |-> Runs(f), trunc |-> FALSE, total |-> Len(f), dump |-> 8 * Len(f), hasref |-> FALSE, sent |-> 0, file |-> 0, atclose |-> <<8 * atclose, 0>>]

(* --algorithm modem {
variables
  S = InitState([rx |-> RxT, tx |-> TxT, over |-> FALSE, timeout |-> 0]),
  bad = {},
  backlog = <<>>,
  inq = [c \in Cl |-> <<>>],            \* messages of the client
  cgone = [c \in Cl |-> FALSE],         \* client has closed the connection
  rdshut = [c \in Cl |-> FALSE],        \* demodulator has finished the client
  listening = TRUE,
  srvmx = 0,                            \* owner of the mutex of the server
  workers = <<>>,
  W = [c \in Cl |-> [start |-> FALSE, run |-> FALSE, sdr |-> 0]],
  txinit = FALSE, rxinit = FALSE,
  dev = 0,                              \* users of the context of PlutoSDR
  D = [c \in Cl |-> [start |-> FALSE, dsps |-> <<>>, ready |-> FALSE, stopped |-> FALSE, data |-> 0, read |-> 0, eof |-> FALSE, shut |-> FALSE, off |-> FALSE]],
  Q = [c \in Cl |-> [start |-> FALSE, buf |-> <<>>, pill |-> FALSE, file |-> <<>>]],
  atclose = [c \in Cl |-> -1],
  exited = FALSE,
  uaf = {};                             \* released objects used by the threads

macro Emit(es) { with (r = Play(S, bad, es)) { S := r.s; bad := r.b } }

process (client \in Cl)
{
c1: await IF self = 1 THEN TRUE ELSE pc[self - 1] # "c1";
    \* the connections are made in the order of their numbers. a process which takes no further steps is idle
    await listening;
    Emit(<<[ev |-> "conn", c |-> self, ok |-> TRUE], Creq(self), Ev("csent", self)>>);
    backlog := Append(backlog, self);
c2: while (TRUE) {
      either { await "bye" \in Env /\ Conn(S, self).resp > 0 /\ ~Conn(S, self).bye /\ ~Conn(S, self).sclosed;
               Emit(<<Ev("cbye", self)>>);
               inq[self] := Append(@, "bye") }
      or { await Kind(self) = "tx" /\ Conn(S, self).good /\ Conn(S, self).put = 0 /\ Conn(S, self).q = <<>> /\ ~Conn(S, self).bye;
           Emit(<<[ev |-> "ctx", c |-> self, n |-> 1]>>);
           inq[self] := Append(@, "data") }
      or { await "close" \in Env /\ ~Conn(S, self).bye;
           Emit(<<Ev("cclose", self)>>);
           cgone[self] := TRUE;
           goto Done } }
}

process (sdrserver \in {SRV(c) : c \in Cl})
variable sv = self - 40;
{
v1: await D[sv].start /\ RxT = "sdr" /\ ~exited;
v2: while (~D[sv].eof) {
      either { await D[sv].data < NPush /\ ~D[sv].shut;
               Emit(<<[ev |-> "pushing", s |-> sv, n |-> D[sv].data + 1], [ev |-> "push", s |-> sv, n |-> D[sv].data + 1]>>);
               D[sv].data := @ + 1 }
      or { await "eof" \in Env;
           Emit(<<EvS("sdreof", sv)>>);
           D[sv].eof := TRUE }
      or { await D[sv].shut;
           D[sv].eof := TRUE } }
}

process (admin = ADM)
{
m1: await "stop" \in Env;
    Emit(<<[ev |-> "stop"]>>);
    listening := FALSE
}

process (acceptor = ACC)
variables cur = 0, k = 0;
{
a0: while (listening) {
      either { await backlog # <<>> /\ listening;
               cur := Head(backlog);
               Emit(<<Ev("acc", Head(backlog))>>);
               backlog := Tail(backlog) }
      or { await ~listening;
           goto aend };
a2:   \* cleanup_terminated_threads: waits for the threads that are over
      await srvmx = 0 /\ \A i \in 1..Len(workers) : W[workers[i]].run \/ pc[TCP(workers[i])] = "Done";
      workers := SelectSeq(workers, LAMBDA w : W[w].run);
      txinit := txinit /\ \E i \in 1..Len(workers) : Kind(workers[i]) = "tx";
      rxinit := rxinit /\ \E i \in 1..Len(workers) : Kind(workers[i]) = "rx";
a5:   if (Kind(cur) = "bad") { Emit(<<Resp(cur, FAILURE, INVALID), Ev("sclose", cur)>>) }
      else if (Kind(cur) = "ping") { Emit(<<Resp(cur, SUCCESS, 0), Ev("sclose", cur)>>) }
      else if (Kind(cur) = "rx") {
        Q[cur].start := TRUE;
a7:     await srvmx = 0;
        srvmx := ACC;
        if (RxT = "sdr") {
          with (f = {i \in 1..Len(workers) : LET x == W[workers[i]].sdr IN x # 0 /\ Key(x) = Key(cur) /\ (~D[x].stopped \/ Bug = "join_ended")}) {
            if (f # {}) { W[cur].sdr := W[workers[Min(f)]].sdr }
            else {
              Emit(<<EvS("sdrconn", cur), [ev |-> "sdrreq", s |-> cur, ver |-> 0, type |-> 0, dest |-> 1, band |-> Key(cur)[1], center |-> Key(cur)[2], rate |-> Key(cur)[3]],
                     [ev |-> "sdrresp", s |-> cur, ok |-> TRUE]>>);
              D[cur].start := TRUE || D[cur].ready := (Bug = "no_wait");
              W[cur].sdr := cur } } }
        else if (rxinit) { goto a13 }
        else {
          Emit((IF dev = 0 THEN <<[ev |-> "ctxopen"]>> ELSE <<>>) \o <<[ev |-> "rxopen", c |-> cur, s |-> cur]>>);
          dev := dev + 1;
          D[cur].start := TRUE || D[cur].ready := (Bug = "no_wait");
          W[cur].sdr := cur };
a9:     W[cur].run := TRUE || W[cur].start := TRUE;
        Emit(<<Resp(cur, SUCCESS, cur)>>);
        if (Bug = "no_lock") { srvmx := 0 };
a11:    with (x = W[cur].sdr) {
          if (x = 0) { uaf := uaf \cup {"add_to_nothing"} }
          else {
            if (pc[SDR(x)] = "Done" /\ D[x].off) { uaf := uaf \cup {"add_to_released"} };
            D[x].dsps := Append(@, cur) || D[x].ready := TRUE;
            if (D[x].stopped /\ Bug # "no_pill") { Q[cur].pill := TRUE } } };
a12:    workers := Append(workers, cur);
        rxinit := TRUE;
        srvmx := 0;
        goto a0;
a13:    srvmx := 0;
        Q[cur].pill := TRUE;
a14:    await pc[DSP(cur)] = "Done";
        Emit(<<Resp(cur, FAILURE, RX_BUSY), Ev("sclose", cur)>>) }
      else {
t1:     await srvmx = 0;
        if (txinit) { Emit(<<Resp(cur, FAILURE, TX_BUSY), Ev("sclose", cur)>>); goto a0 }
        else {
          Emit((IF dev = 0 /\ TxT = "pluto" THEN <<[ev |-> "ctxopen"]>> ELSE <<>>) \o <<Ev("txopen", cur)>>);
          if (TxT = "pluto") { dev := dev + 1 };
          txinit := TRUE };
t2:     await srvmx = 0;
        W[cur].run := TRUE || W[cur].start := TRUE;
        workers := Append(workers, cur);
        Emit(<<Resp(cur, SUCCESS, cur)>>) } };
aend: \* linked_list_destroy
   k := 1;
ae1: while (k <= Len(workers)) {
      W[workers[k]].run := FALSE;
ae2:  await pc[TCP(workers[k])] = "Done";
      k := k + 1 };
ae3: exited := TRUE;
   Emit(<<[ev |-> "exit", code |-> 0]>> \o
        (LET r == SelectSeq([i \in 1..Len(Setup) |-> i], LAMBDA c : Kind(c) = "rx" /\ Conn(S, c).good) IN [i \in 1..Len(r) |-> EndRx(r[i], Q[r[i]].file, atclose[r[i]])]))
}

process (tcp \in {TCP(c) : c \in Cl})
variables tc = self - 10, my = 0, last = FALSE;
{
w0: await W[tc].start;
w1: await srvmx = 0 \/ Bug = "no_start_lock";
w2: while (W[tc].run) {
      either { await inq[tc] # <<>>;
               if (Head(inq[tc]) = "bye") { inq[tc] := Tail(inq[tc]); goto w4 }
               else { inq[tc] := Tail(inq[tc]);
                      Emit(<<[ev |-> "txput", c |-> tc, n |-> 8], Resp(tc, SUCCESS, 0)>>) } }
      or { await (cgone[tc] /\ inq[tc] = <<>>) \/ rdshut[tc];
           goto w4 }
      or { await ~W[tc].run; goto w4 } };
w4: await srvmx = 0 \/ Bug = "no_lock";
    my := W[tc].sdr;
    if (Bug # "late_forget") { W[tc].sdr := 0 };
w5: if (my # 0) {
      D[my].dsps := Del(@, tc);
      last := Del(D[my].dsps, tc) = <<>>;
w6:   Q[tc].pill := TRUE;
w7:   if (Bug # "no_join") { await pc[DSP(tc)] = "Done" };
      atclose[tc] := Len(Q[tc].file);
      if (last) {
w8:     D[my].ready := TRUE || D[my].shut := (D[my].shut \/ (RxT = "sdr" /\ ~D[my].eof));
        if (RxT = "sdr" /\ ~D[my].eof) { Emit(<<EvS("sdrshut", my)>>) };
w9:     \* sdr-server can ignore the message
        D[my].off := TRUE;
w10:    await pc[SDR(my)] = "Done";
        if (RxT = "sdr") { Emit(<<EvS("sdrclosed", my)>>) }
        else { Emit(<<Ev("rxclose", tc)>> \o (IF dev = 1 THEN <<[ev |-> "ctxclose"]>> ELSE <<>>)); dev := dev - 1 } } };
w11: if (Kind(tc) = "tx") {
       Emit(<<Ev("txclose", tc)>> \o (IF TxT = "pluto" /\ dev = 1 THEN <<[ev |-> "ctxclose"]>> ELSE <<>>));
       if (TxT = "pluto") { dev := dev - 1 } };
w12: if (Bug = "close_first") { Emit(<<Ev("sclose", tc)>>) }
     else { W[tc].run := FALSE || W[tc].sdr := 0 };
w13: if (Bug = "close_first") { W[tc].run := FALSE || W[tc].sdr := 0 }
     else { Emit(<<Ev("sclose", tc)>>) }
}

process (dsp \in {DSP(c) : c \in Cl})
variable ds = self - 20;
{
d1: await Q[ds].start;
d2: while (TRUE) {
      await Q[ds].buf # <<>> \/ Q[ds].pill;
      if (Q[ds].pill /\ (Q[ds].buf = <<>> \/ Bug = "pill_first")) { goto d4 }
      else { Q[ds].file := Append(@, Head(Q[ds].buf)) || Q[ds].buf := Tail(@) } };
d4: rdshut[ds] := TRUE
}

process (sdr \in {SDR(c) : c \in Cl})
variable sd = self - 30;
{
s1: await D[sd].start /\ D[sd].ready;
s2: while (TRUE) {
      either { await D[sd].read < D[sd].data /\ ~D[sd].off;
               Q := [c \in Cl |-> IF \E i \in 1..Len(D[sd].dsps) : D[sd].dsps[i] = c THEN [Q[c] EXCEPT !.buf = Append(@, <<sd, D[sd].read>>)] ELSE Q[c]];
               D[sd].read := @ + 1 }
      or { await (D[sd].eof /\ D[sd].read = D[sd].data) \/ D[sd].off;
           goto s4 } };
s4: D[sd].stopped := TRUE;
    Q := [c \in Cl |-> IF \E i \in 1..Len(D[sd].dsps) : D[sd].dsps[i] = c THEN [Q[c] EXCEPT !.pill = TRUE] ELSE Q[c]]
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, S, bad, backlog, inq, cgone, rdshut, listening, srvmx, workers, 
          W, txinit, rxinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
          my, last, ds, sd

vars == << pc, S, bad, backlog, inq, cgone, rdshut, listening, srvmx, workers, 
           W, txinit, rxinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
           my, last, ds, sd >>

ProcSet == (Cl) \cup ({SRV(c) : c \in Cl}) \cup {ADM} \cup {ACC} \cup ({TCP(c) : c \in Cl}) \cup ({DSP(c) : c \in Cl}) \cup ({SDR(c) : c \in Cl})

Init == (* Global variables *)
        /\ S = InitState([rx |-> RxT, tx |-> TxT, over |-> FALSE, timeout |-> 0])
        /\ bad = {}
        /\ backlog = <<>>
        /\ inq = [c \in Cl |-> <<>>]
        /\ cgone = [c \in Cl |-> FALSE]
        /\ rdshut = [c \in Cl |-> FALSE]
        /\ listening = TRUE
        /\ srvmx = 0
        /\ workers = <<>>
        /\ W = [c \in Cl |-> [start |-> FALSE, run |-> FALSE, sdr |-> 0]]
        /\ txinit = FALSE
        /\ rxinit = FALSE
        /\ dev = 0
        /\ D = [c \in Cl |-> [start |-> FALSE, dsps |-> <<>>, ready |-> FALSE, stopped |-> FALSE, data |-> 0, read |-> 0, eof |-> FALSE, shut |-> FALSE, off |-> FALSE]]
        /\ Q = [c \in Cl |-> [start |-> FALSE, buf |-> <<>>, pill |-> FALSE, file |-> <<>>]]
        /\ atclose = [c \in Cl |-> -1]
        /\ exited = FALSE
        /\ uaf = {}
        (* Process sdrserver *)
        /\ sv = [self \in {SRV(c) : c \in Cl} |-> self - 40]
        (* Process acceptor *)
        /\ cur = 0
        /\ k = 0
        (* Process tcp *)
        /\ tc = [self \in {TCP(c) : c \in Cl} |-> self - 10]
        /\ my = [self \in {TCP(c) : c \in Cl} |-> 0]
        /\ last = [self \in {TCP(c) : c \in Cl} |-> FALSE]
        (* Process dsp *)
        /\ ds = [self \in {DSP(c) : c \in Cl} |-> self - 20]
        (* Process sdr *)
        /\ sd = [self \in {SDR(c) : c \in Cl} |-> self - 30]
        /\ pc = [self \in ProcSet |-> CASE self \in Cl -> "c1"
                                        [] self \in {SRV(c) : c \in Cl} -> "v1"
                                        [] self = ADM -> "m1"
                                        [] self = ACC -> "a0"
                                        [] self \in {TCP(c) : c \in Cl} -> "w0"
                                        [] self \in {DSP(c) : c \in Cl} -> "d1"
                                        [] self \in {SDR(c) : c \in Cl} -> "s1"]

c1(self) == /\ pc[self] = "c1"
            /\ IF self = 1 THEN TRUE ELSE pc[self - 1] # "c1"
            /\ listening
            /\ LET r == Play(S, bad, (<<[ev |-> "conn", c |-> self, ok |-> TRUE], Creq(self), Ev("csent", self)>>)) IN
                 /\ S' = r.s
                 /\ bad' = r.b
            /\ backlog' = Append(backlog, self)
            /\ pc' = [pc EXCEPT ![self] = "c2"]
            /\ UNCHANGED << inq, cgone, rdshut, listening, srvmx, workers, W, 
                            txinit, rxinit, dev, D, Q, atclose, exited, uaf, 
                            sv, cur, k, tc, my, last, ds, sd >>

c2(self) == /\ pc[self] = "c2"
            /\ \/ /\ "bye" \in Env /\ Conn(S, self).resp > 0 /\ ~Conn(S, self).bye /\ ~Conn(S, self).sclosed
                  /\ LET r == Play(S, bad, (<<Ev("cbye", self)>>)) IN
                       /\ S' = r.s
                       /\ bad' = r.b
                  /\ inq' = [inq EXCEPT ![self] = Append(@, "bye")]
                  /\ pc' = [pc EXCEPT ![self] = "c2"]
                  /\ cgone' = cgone
               \/ /\ Kind(self) = "tx" /\ Conn(S, self).good /\ Conn(S, self).put = 0 /\ Conn(S, self).q = <<>> /\ ~Conn(S, self).bye
                  /\ LET r == Play(S, bad, (<<[ev |-> "ctx", c |-> self, n |-> 1]>>)) IN
                       /\ S' = r.s
                       /\ bad' = r.b
                  /\ inq' = [inq EXCEPT ![self] = Append(@, "data")]
                  /\ pc' = [pc EXCEPT ![self] = "c2"]
                  /\ cgone' = cgone
               \/ /\ "close" \in Env /\ ~Conn(S, self).bye
                  /\ LET r == Play(S, bad, (<<Ev("cclose", self)>>)) IN
                       /\ S' = r.s
                       /\ bad' = r.b
                  /\ cgone' = [cgone EXCEPT ![self] = TRUE]
                  /\ pc' = [pc EXCEPT ![self] = "Done"]
                  /\ inq' = inq
            /\ UNCHANGED << backlog, rdshut, listening, srvmx, workers, W, 
                            txinit, rxinit, dev, D, Q, atclose, exited, uaf, 
                            sv, cur, k, tc, my, last, ds, sd >>

client(self) == c1(self) \/ c2(self)

v1(self) == /\ pc[self] = "v1"
            /\ D[sv[self]].start /\ RxT = "sdr" /\ ~exited
            /\ pc' = [pc EXCEPT ![self] = "v2"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            atclose, exited, uaf, sv, cur, k, tc, my, last, ds, 
                            sd >>

v2(self) == /\ pc[self] = "v2"
            /\ IF ~D[sv[self]].eof
                  THEN /\ \/ /\ D[sv[self]].data < NPush /\ ~D[sv[self]].shut
                             /\ LET r == Play(S, bad, (<<[ev |-> "pushing", s |-> sv[self], n |-> D[sv[self]].data + 1], [ev |-> "push", s |-> sv[self], n |-> D[sv[self]].data + 1]>>)) IN
                                  /\ S' = r.s
                                  /\ bad' = r.b
                             /\ D' = [D EXCEPT ![sv[self]].data = @ + 1]
                          \/ /\ "eof" \in Env
                             /\ LET r == Play(S, bad, (<<EvS("sdreof", sv[self])>>)) IN
                                  /\ S' = r.s
                                  /\ bad' = r.b
                             /\ D' = [D EXCEPT ![sv[self]].eof = TRUE]
                          \/ /\ D[sv[self]].shut
                             /\ D' = [D EXCEPT ![sv[self]].eof = TRUE]
                             /\ UNCHANGED <<S, bad>>
                       /\ pc' = [pc EXCEPT ![self] = "v2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << S, bad, D >>
            /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                            workers, W, txinit, rxinit, dev, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

sdrserver(self) == v1(self) \/ v2(self)

m1 == /\ pc[ADM] = "m1"
      /\ "stop" \in Env
      /\ LET r == Play(S, bad, (<<[ev |-> "stop"]>>)) IN
           /\ S' = r.s
           /\ bad' = r.b
      /\ listening' = FALSE
      /\ pc' = [pc EXCEPT ![ADM] = "Done"]
      /\ UNCHANGED << backlog, inq, cgone, rdshut, srvmx, workers, W, txinit, 
                      rxinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
                      my, last, ds, sd >>

admin == m1

a0 == /\ pc[ACC] = "a0"
      /\ IF listening
            THEN /\ \/ /\ backlog # <<>> /\ listening
                       /\ cur' = Head(backlog)
                       /\ LET r == Play(S, bad, (<<Ev("acc", Head(backlog))>>)) IN
                            /\ S' = r.s
                            /\ bad' = r.b
                       /\ backlog' = Tail(backlog)
                       /\ pc' = [pc EXCEPT ![ACC] = "a2"]
                    \/ /\ ~listening
                       /\ pc' = [pc EXCEPT ![ACC] = "aend"]
                       /\ UNCHANGED <<S, bad, backlog, cur>>
            ELSE /\ pc' = [pc EXCEPT ![ACC] = "aend"]
                 /\ UNCHANGED << S, bad, backlog, cur >>
      /\ UNCHANGED << inq, cgone, rdshut, listening, srvmx, workers, W, txinit, 
                      rxinit, dev, D, Q, atclose, exited, uaf, sv, k, tc, my, 
                      last, ds, sd >>

a2 == /\ pc[ACC] = "a2"
      /\ srvmx = 0 /\ \A i \in 1..Len(workers) : W[workers[i]].run \/ pc[TCP(workers[i])] = "Done"
      /\ workers' = SelectSeq(workers, LAMBDA w : W[w].run)
      /\ txinit' = (txinit /\ \E i \in 1..Len(workers') : Kind(workers'[i]) = "tx")
      /\ rxinit' = (rxinit /\ \E i \in 1..Len(workers') : Kind(workers'[i]) = "rx")
      /\ pc' = [pc EXCEPT ![ACC] = "a5"]
      /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, srvmx, W, 
                      dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, my, 
                      last, ds, sd >>

a5 == /\ pc[ACC] = "a5"
      /\ IF Kind(cur) = "bad"
            THEN /\ LET r == Play(S, bad, (<<Resp(cur, FAILURE, INVALID), Ev("sclose", cur)>>)) IN
                      /\ S' = r.s
                      /\ bad' = r.b
                 /\ pc' = [pc EXCEPT ![ACC] = "a0"]
                 /\ Q' = Q
            ELSE /\ IF Kind(cur) = "ping"
                       THEN /\ LET r == Play(S, bad, (<<Resp(cur, SUCCESS, 0), Ev("sclose", cur)>>)) IN
                                 /\ S' = r.s
                                 /\ bad' = r.b
                            /\ pc' = [pc EXCEPT ![ACC] = "a0"]
                            /\ Q' = Q
                       ELSE /\ IF Kind(cur) = "rx"
                                  THEN /\ Q' = [Q EXCEPT ![cur].start = TRUE]
                                       /\ pc' = [pc EXCEPT ![ACC] = "a7"]
                                  ELSE /\ pc' = [pc EXCEPT ![ACC] = "t1"]
                                       /\ Q' = Q
                            /\ UNCHANGED << S, bad >>
      /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, workers, 
                      W, txinit, rxinit, dev, D, atclose, exited, uaf, sv, cur, 
                      k, tc, my, last, ds, sd >>

a7 == /\ pc[ACC] = "a7"
      /\ srvmx = 0
      /\ srvmx' = ACC
      /\ IF RxT = "sdr"
            THEN /\ LET f == {i \in 1..Len(workers) : LET x == W[workers[i]].sdr IN x # 0 /\ Key(x) = Key(cur) /\ (~D[x].stopped \/ Bug = "join_ended")} IN
                      IF f # {}
                         THEN /\ W' = [W EXCEPT ![cur].sdr = W[workers[Min(f)]].sdr]
                              /\ UNCHANGED << S, bad, D >>
                         ELSE /\ LET r == Play(S, bad, (<<EvS("sdrconn", cur), [ev |-> "sdrreq", s |-> cur, ver |-> 0, type |-> 0, dest |-> 1, band |-> Key(cur)[1], center |-> Key(cur)[2], rate |-> Key(cur)[3]],
                                                          [ev |-> "sdrresp", s |-> cur, ok |-> TRUE]>>)) IN
                                   /\ S' = r.s
                                   /\ bad' = r.b
                              /\ D' = [D EXCEPT ![cur].start = TRUE,
                                                ![cur].ready = (Bug = "no_wait")]
                              /\ W' = [W EXCEPT ![cur].sdr = cur]
                 /\ pc' = [pc EXCEPT ![ACC] = "a9"]
                 /\ dev' = dev
            ELSE /\ IF rxinit
                       THEN /\ pc' = [pc EXCEPT ![ACC] = "a13"]
                            /\ UNCHANGED << S, bad, W, dev, D >>
                       ELSE /\ LET r == Play(S, bad, ((IF dev = 0 THEN <<[ev |-> "ctxopen"]>> ELSE <<>>) \o <<[ev |-> "rxopen", c |-> cur, s |-> cur]>>)) IN
                                 /\ S' = r.s
                                 /\ bad' = r.b
                            /\ dev' = dev + 1
                            /\ D' = [D EXCEPT ![cur].start = TRUE,
                                              ![cur].ready = (Bug = "no_wait")]
                            /\ W' = [W EXCEPT ![cur].sdr = cur]
                            /\ pc' = [pc EXCEPT ![ACC] = "a9"]
      /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, workers, txinit, 
                      rxinit, Q, atclose, exited, uaf, sv, cur, k, tc, my, 
                      last, ds, sd >>

a9 == /\ pc[ACC] = "a9"
      /\ W' = [W EXCEPT ![cur].run = TRUE,
                        ![cur].start = TRUE]
      /\ LET r == Play(S, bad, (<<Resp(cur, SUCCESS, cur)>>)) IN
           /\ S' = r.s
           /\ bad' = r.b
      /\ IF Bug = "no_lock"
            THEN /\ srvmx' = 0
            ELSE /\ TRUE
                 /\ srvmx' = srvmx
      /\ pc' = [pc EXCEPT ![ACC] = "a11"]
      /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, workers, txinit, 
                      rxinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
                      my, last, ds, sd >>

a11 == /\ pc[ACC] = "a11"
       /\ LET x == W[cur].sdr IN
            IF x = 0
               THEN /\ uaf' = (uaf \cup {"add_to_nothing"})
                    /\ UNCHANGED << D, Q >>
               ELSE /\ IF pc[SDR(x)] = "Done" /\ D[x].off
                          THEN /\ uaf' = (uaf \cup {"add_to_released"})
                          ELSE /\ TRUE
                               /\ uaf' = uaf
                    /\ D' = [D EXCEPT ![x].dsps = Append(@, cur),
                                      ![x].ready = TRUE]
                    /\ IF D'[x].stopped /\ Bug # "no_pill"
                          THEN /\ Q' = [Q EXCEPT ![cur].pill = TRUE]
                          ELSE /\ TRUE
                               /\ Q' = Q
       /\ pc' = [pc EXCEPT ![ACC] = "a12"]
       /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, srvmx, 
                       workers, W, txinit, rxinit, dev, atclose, exited, sv, 
                       cur, k, tc, my, last, ds, sd >>

a12 == /\ pc[ACC] = "a12"
       /\ workers' = Append(workers, cur)
       /\ rxinit' = TRUE
       /\ srvmx' = 0
       /\ pc' = [pc EXCEPT ![ACC] = "a0"]
       /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, W, 
                       txinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
                       my, last, ds, sd >>

a13 == /\ pc[ACC] = "a13"
       /\ srvmx' = 0
       /\ Q' = [Q EXCEPT ![cur].pill = TRUE]
       /\ pc' = [pc EXCEPT ![ACC] = "a14"]
       /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, workers, 
                       W, txinit, rxinit, dev, D, atclose, exited, uaf, sv, 
                       cur, k, tc, my, last, ds, sd >>

a14 == /\ pc[ACC] = "a14"
       /\ pc[DSP(cur)] = "Done"
       /\ LET r == Play(S, bad, (<<Resp(cur, FAILURE, RX_BUSY), Ev("sclose", cur)>>)) IN
            /\ S' = r.s
            /\ bad' = r.b
       /\ pc' = [pc EXCEPT ![ACC] = "a0"]
       /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, workers, 
                       W, txinit, rxinit, dev, D, Q, atclose, exited, uaf, sv, 
                       cur, k, tc, my, last, ds, sd >>

t1 == /\ pc[ACC] = "t1"
      /\ srvmx = 0
      /\ IF txinit
            THEN /\ LET r == Play(S, bad, (<<Resp(cur, FAILURE, TX_BUSY), Ev("sclose", cur)>>)) IN
                      /\ S' = r.s
                      /\ bad' = r.b
                 /\ pc' = [pc EXCEPT ![ACC] = "a0"]
                 /\ UNCHANGED << txinit, dev >>
            ELSE /\ LET r == Play(S, bad, ((IF dev = 0 /\ TxT = "pluto" THEN <<[ev |-> "ctxopen"]>> ELSE <<>>) \o <<Ev("txopen", cur)>>)) IN
                      /\ S' = r.s
                      /\ bad' = r.b
                 /\ IF TxT = "pluto"
                       THEN /\ dev' = dev + 1
                       ELSE /\ TRUE
                            /\ dev' = dev
                 /\ txinit' = TRUE
                 /\ pc' = [pc EXCEPT ![ACC] = "t2"]
      /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, workers, 
                      W, rxinit, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
                      my, last, ds, sd >>

t2 == /\ pc[ACC] = "t2"
      /\ srvmx = 0
      /\ W' = [W EXCEPT ![cur].run = TRUE,
                        ![cur].start = TRUE]
      /\ workers' = Append(workers, cur)
      /\ LET r == Play(S, bad, (<<Resp(cur, SUCCESS, cur)>>)) IN
           /\ S' = r.s
           /\ bad' = r.b
      /\ pc' = [pc EXCEPT ![ACC] = "a0"]
      /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, txinit, 
                      rxinit, dev, D, Q, atclose, exited, uaf, sv, cur, k, tc, 
                      my, last, ds, sd >>

aend == /\ pc[ACC] = "aend"
        /\ k' = 1
        /\ pc' = [pc EXCEPT ![ACC] = "ae1"]
        /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, srvmx, 
                        workers, W, txinit, rxinit, dev, D, Q, atclose, exited, 
                        uaf, sv, cur, tc, my, last, ds, sd >>

ae1 == /\ pc[ACC] = "ae1"
       /\ IF k <= Len(workers)
             THEN /\ W' = [W EXCEPT ![workers[k]].run = FALSE]
                  /\ pc' = [pc EXCEPT ![ACC] = "ae2"]
             ELSE /\ pc' = [pc EXCEPT ![ACC] = "ae3"]
                  /\ W' = W
       /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, srvmx, 
                       workers, txinit, rxinit, dev, D, Q, atclose, exited, 
                       uaf, sv, cur, k, tc, my, last, ds, sd >>

ae2 == /\ pc[ACC] = "ae2"
       /\ pc[TCP(workers[k])] = "Done"
       /\ k' = k + 1
       /\ pc' = [pc EXCEPT ![ACC] = "ae1"]
       /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, srvmx, 
                       workers, W, txinit, rxinit, dev, D, Q, atclose, exited, 
                       uaf, sv, cur, tc, my, last, ds, sd >>

ae3 == /\ pc[ACC] = "ae3"
       /\ exited' = TRUE
       /\ LET r == Play(S, bad, (<<[ev |-> "exit", code |-> 0]>> \o
                                 (LET r == SelectSeq([i \in 1..Len(Setup) |-> i], LAMBDA c : Kind(c) = "rx" /\ Conn(S, c).good) IN [i \in 1..Len(r) |-> EndRx(r[i], Q[r[i]].file, atclose[r[i]])]))) IN
            /\ S' = r.s
            /\ bad' = r.b
       /\ pc' = [pc EXCEPT ![ACC] = "Done"]
       /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, workers, 
                       W, txinit, rxinit, dev, D, Q, atclose, uaf, sv, cur, k, 
                       tc, my, last, ds, sd >>

acceptor == a0 \/ a2 \/ a5 \/ a7 \/ a9 \/ a11 \/ a12 \/ a13 \/ a14 \/ t1
               \/ t2 \/ aend \/ ae1 \/ ae2 \/ ae3

w0(self) == /\ pc[self] = "w0"
            /\ W[tc[self]].start
            /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            atclose, exited, uaf, sv, cur, k, tc, my, last, ds, 
                            sd >>

w1(self) == /\ pc[self] = "w1"
            /\ srvmx = 0 \/ Bug = "no_start_lock"
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            atclose, exited, uaf, sv, cur, k, tc, my, last, ds, 
                            sd >>

w2(self) == /\ pc[self] = "w2"
            /\ IF W[tc[self]].run
                  THEN /\ \/ /\ inq[tc[self]] # <<>>
                             /\ IF Head(inq[tc[self]]) = "bye"
                                   THEN /\ inq' = [inq EXCEPT ![tc[self]] = Tail(inq[tc[self]])]
                                        /\ pc' = [pc EXCEPT ![self] = "w4"]
                                        /\ UNCHANGED << S, bad >>
                                   ELSE /\ inq' = [inq EXCEPT ![tc[self]] = Tail(inq[tc[self]])]
                                        /\ LET r == Play(S, bad, (<<[ev |-> "txput", c |-> tc[self], n |-> 8], Resp(tc[self], SUCCESS, 0)>>)) IN
                                             /\ S' = r.s
                                             /\ bad' = r.b
                                        /\ pc' = [pc EXCEPT ![self] = "w2"]
                          \/ /\ (cgone[tc[self]] /\ inq[tc[self]] = <<>>) \/ rdshut[tc[self]]
                             /\ pc' = [pc EXCEPT ![self] = "w4"]
                             /\ UNCHANGED <<S, bad, inq>>
                          \/ /\ ~W[tc[self]].run
                             /\ pc' = [pc EXCEPT ![self] = "w4"]
                             /\ UNCHANGED <<S, bad, inq>>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w4"]
                       /\ UNCHANGED << S, bad, inq >>
            /\ UNCHANGED << backlog, cgone, rdshut, listening, srvmx, workers, 
                            W, txinit, rxinit, dev, D, Q, atclose, exited, uaf, 
                            sv, cur, k, tc, my, last, ds, sd >>

w4(self) == /\ pc[self] = "w4"
            /\ srvmx = 0 \/ Bug = "no_lock"
            /\ my' = [my EXCEPT ![self] = W[tc[self]].sdr]
            /\ IF Bug # "late_forget"
                  THEN /\ W' = [W EXCEPT ![tc[self]].sdr = 0]
                  ELSE /\ TRUE
                       /\ W' = W
            /\ pc' = [pc EXCEPT ![self] = "w5"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, txinit, rxinit, dev, D, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, last, ds, sd >>

w5(self) == /\ pc[self] = "w5"
            /\ IF my[self] # 0
                  THEN /\ D' = [D EXCEPT ![my[self]].dsps = Del(@, tc[self])]
                       /\ last' = [last EXCEPT ![self] = Del(D'[my[self]].dsps, tc[self]) = <<>>]
                       /\ pc' = [pc EXCEPT ![self] = "w6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w11"]
                       /\ UNCHANGED << D, last >>
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, my, ds, sd >>

w6(self) == /\ pc[self] = "w6"
            /\ Q' = [Q EXCEPT ![tc[self]].pill = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "w7"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

w7(self) == /\ pc[self] = "w7"
            /\ IF Bug # "no_join"
                  THEN /\ pc[DSP(tc[self])] = "Done"
                  ELSE /\ TRUE
            /\ atclose' = [atclose EXCEPT ![tc[self]] = Len(Q[tc[self]].file)]
            /\ IF last[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "w8"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w11"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

w8(self) == /\ pc[self] = "w8"
            /\ D' = [D EXCEPT ![my[self]].ready = TRUE,
                              ![my[self]].shut = (D[my[self]].shut \/ (RxT = "sdr" /\ ~D[my[self]].eof))]
            /\ IF RxT = "sdr" /\ ~D'[my[self]].eof
                  THEN /\ LET r == Play(S, bad, (<<EvS("sdrshut", my[self])>>)) IN
                            /\ S' = r.s
                            /\ bad' = r.b
                  ELSE /\ TRUE
                       /\ UNCHANGED << S, bad >>
            /\ pc' = [pc EXCEPT ![self] = "w9"]
            /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                            workers, W, txinit, rxinit, dev, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

w9(self) == /\ pc[self] = "w9"
            /\ D' = [D EXCEPT ![my[self]].off = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "w10"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

w10(self) == /\ pc[self] = "w10"
             /\ pc[SDR(my[self])] = "Done"
             /\ IF RxT = "sdr"
                   THEN /\ LET r == Play(S, bad, (<<EvS("sdrclosed", my[self])>>)) IN
                             /\ S' = r.s
                             /\ bad' = r.b
                        /\ dev' = dev
                   ELSE /\ LET r == Play(S, bad, (<<Ev("rxclose", tc[self])>> \o (IF dev = 1 THEN <<[ev |-> "ctxclose"]>> ELSE <<>>))) IN
                             /\ S' = r.s
                             /\ bad' = r.b
                        /\ dev' = dev - 1
             /\ pc' = [pc EXCEPT ![self] = "w11"]
             /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                             workers, W, txinit, rxinit, D, Q, atclose, exited, 
                             uaf, sv, cur, k, tc, my, last, ds, sd >>

w11(self) == /\ pc[self] = "w11"
             /\ IF Kind(tc[self]) = "tx"
                   THEN /\ LET r == Play(S, bad, (<<Ev("txclose", tc[self])>> \o (IF TxT = "pluto" /\ dev = 1 THEN <<[ev |-> "ctxclose"]>> ELSE <<>>))) IN
                             /\ S' = r.s
                             /\ bad' = r.b
                        /\ IF TxT = "pluto"
                              THEN /\ dev' = dev - 1
                              ELSE /\ TRUE
                                   /\ dev' = dev
                   ELSE /\ TRUE
                        /\ UNCHANGED << S, bad, dev >>
             /\ pc' = [pc EXCEPT ![self] = "w12"]
             /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                             workers, W, txinit, rxinit, D, Q, atclose, exited, 
                             uaf, sv, cur, k, tc, my, last, ds, sd >>

w12(self) == /\ pc[self] = "w12"
             /\ IF Bug = "close_first"
                   THEN /\ LET r == Play(S, bad, (<<Ev("sclose", tc[self])>>)) IN
                             /\ S' = r.s
                             /\ bad' = r.b
                        /\ W' = W
                   ELSE /\ W' = [W EXCEPT ![tc[self]].run = FALSE,
                                          ![tc[self]].sdr = 0]
                        /\ UNCHANGED << S, bad >>
             /\ pc' = [pc EXCEPT ![self] = "w13"]
             /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                             workers, txinit, rxinit, dev, D, Q, atclose, 
                             exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

w13(self) == /\ pc[self] = "w13"
             /\ IF Bug = "close_first"
                   THEN /\ W' = [W EXCEPT ![tc[self]].run = FALSE,
                                          ![tc[self]].sdr = 0]
                        /\ UNCHANGED << S, bad >>
                   ELSE /\ LET r == Play(S, bad, (<<Ev("sclose", tc[self])>>)) IN
                             /\ S' = r.s
                             /\ bad' = r.b
                        /\ W' = W
             /\ pc' = [pc EXCEPT ![self] = "Done"]
             /\ UNCHANGED << backlog, inq, cgone, rdshut, listening, srvmx, 
                             workers, txinit, rxinit, dev, D, Q, atclose, 
                             exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

tcp(self) == w0(self) \/ w1(self) \/ w2(self) \/ w4(self) \/ w5(self)
                \/ w6(self) \/ w7(self) \/ w8(self) \/ w9(self)
                \/ w10(self) \/ w11(self) \/ w12(self) \/ w13(self)

d1(self) == /\ pc[self] = "d1"
            /\ Q[ds[self]].start
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            atclose, exited, uaf, sv, cur, k, tc, my, last, ds, 
                            sd >>

d2(self) == /\ pc[self] = "d2"
            /\ Q[ds[self]].buf # <<>> \/ Q[ds[self]].pill
            /\ IF Q[ds[self]].pill /\ (Q[ds[self]].buf = <<>> \/ Bug = "pill_first")
                  THEN /\ pc' = [pc EXCEPT ![self] = "d4"]
                       /\ Q' = Q
                  ELSE /\ Q' = [Q EXCEPT ![ds[self]].file = Append(@, Head(Q[ds[self]].buf)),
                                         ![ds[self]].buf = Tail(@)]
                       /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

d4(self) == /\ pc[self] = "d4"
            /\ rdshut' = [rdshut EXCEPT ![ds[self]] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, listening, srvmx, 
                            workers, W, txinit, rxinit, dev, D, Q, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

dsp(self) == d1(self) \/ d2(self) \/ d4(self)

s1(self) == /\ pc[self] = "s1"
            /\ D[sd[self]].start /\ D[sd[self]].ready
            /\ pc' = [pc EXCEPT ![self] = "s2"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, D, Q, 
                            atclose, exited, uaf, sv, cur, k, tc, my, last, ds, 
                            sd >>

s2(self) == /\ pc[self] = "s2"
            /\ \/ /\ D[sd[self]].read < D[sd[self]].data /\ ~D[sd[self]].off
                  /\ Q' = [c \in Cl |-> IF \E i \in 1..Len(D[sd[self]].dsps) : D[sd[self]].dsps[i] = c THEN [Q[c] EXCEPT !.buf = Append(@, <<sd[self], D[sd[self]].read>>)] ELSE Q[c]]
                  /\ D' = [D EXCEPT ![sd[self]].read = @ + 1]
                  /\ pc' = [pc EXCEPT ![self] = "s2"]
               \/ /\ (D[sd[self]].eof /\ D[sd[self]].read = D[sd[self]].data) \/ D[sd[self]].off
                  /\ pc' = [pc EXCEPT ![self] = "s4"]
                  /\ UNCHANGED <<D, Q>>
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

s4(self) == /\ pc[self] = "s4"
            /\ D' = [D EXCEPT ![sd[self]].stopped = TRUE]
            /\ Q' = [c \in Cl |-> IF \E i \in 1..Len(D'[sd[self]].dsps) : D'[sd[self]].dsps[i] = c THEN [Q[c] EXCEPT !.pill = TRUE] ELSE Q[c]]
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << S, bad, backlog, inq, cgone, rdshut, listening, 
                            srvmx, workers, W, txinit, rxinit, dev, atclose, 
                            exited, uaf, sv, cur, k, tc, my, last, ds, sd >>

sdr(self) == s1(self) \/ s2(self) \/ s4(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == admin \/ acceptor
           \/ (\E self \in Cl: client(self))
           \/ (\E self \in {SRV(c) : c \in Cl}: sdrserver(self))
           \/ (\E self \in {TCP(c) : c \in Cl}: tcp(self))
           \/ (\E self \in {DSP(c) : c \in Cl}: dsp(self))
           \/ (\E self \in {SDR(c) : c \in Cl}: sdr(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Setup_rr == <<<<"rx", "a">>, <<"rx", "a">>>>
Setup_rs == <<<<"rx", "a">>, <<"rx", "b">>>>
Setup_rrr == <<<<"rx", "a">>, <<"rx", "a">>, <<"rx", "a">>>>
Setup_tt == <<<<"tx", "a">>, <<"tx", "a">>>>
Setup_ttt == <<<<"tx", "a">>, <<"tx", "a">>, <<"tx", "a">>>>
Setup_tr == <<<<"tx", "a">>, <<"rx", "a">>>>
Setup_rtr == <<<<"rx", "a">>, <<"tx", "a">>, <<"rx", "a">>>>
Setup_pbr == <<<<"ping", "a">>, <<"bad", "a">>, <<"rx", "a">>>>
\* the server (not the environment) has nothing to do
Internal == acceptor \/ (\E c \in Cl : tcp(TCP(c)) \/ dsp(DSP(c)) \/ sdr(SDR(c)))
           \/ (\E c \in Cl : D[c].shut /\ sdrserver(SRV(c)))
Quiet == ~ENABLED Internal
Rxs == {c \in Cl : Kind(c) = "rx" /\ Conn(S, c).good}
Conforms == bad = {}
NoUse == uaf = {}
\* nothing is left undone when the server waits
Settled == (Quiet /\ ~exited) => (/\ Failed(S, [ev |-> "quiesce"]) = {}
                       /\ \A c \in Rxs : Failed(Effect(S, [ev |-> "quiesce"]), EndRx(c, Q[c].file, IF atclose[c] >= 0 THEN atclose[c] ELSE Len(Q[c].file))) = {})
\* the server exits after the stop
Stops == (Quiet /\ S.stop) => exited
=============================================================================
