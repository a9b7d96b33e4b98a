------------------------------- MODULE Modem -------------------------------
(***************************************************************************)
(* Observable behaviour of the whole modem: a labelled transition system   *)
(* over the events that can be seen from outside of the process (bytes on  *)
(* the control connections, bytes on the connections to sdr-server, calls  *)
(* to the radio, files, process exit).                                     *)
(*                                                                         *)
(* For every event e and state S:                                          *)
(*   Guards(S, e)  - set of <<name, bool>>: what must be true for the      *)
(*                   event to be allowed.  The name starts with the ids    *)
(*                   of the properties it belongs to.                      *)
(*   Effect(S, e)  - the next state.                                       *)
(* Events of the environment have no guards.                               *)
(*                                                                         *)
(*   ModemMC.tla    explores all event sequences allowed by the guards     *)
(*   ModemImpl.tla  thread level model of the server; each visible step    *)
(*                  must satisfy the guards                                *)
(*   ModemTrace.tla events recorded from the real code must satisfy the    *)
(*                  guards                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Requests, PlutoHw

SUCCESS == 0
FAILURE == 1
NO_DETAILS == 0
INVALID == 1
INTERNAL == 3
TX_BUSY == 4
RX_BUSY == 5

DEST_FILE == 0
DEST_SOCKET == 1

NewConn == [
    radio |-> <<>>,      \* settings of PlutoSDR: frequency, rate (2 numbers each), mode, gain
    kind |-> "none",     \* none, rx, tx, ping, other
    exp |-> "invalid",   \* expected class of the answer when resources are available: ok, invalid, internal, ping
    key |-> <<"", "", "">>, \* <<band, center, rate>>
    sps |-> 1, dump |-> FALSE, dest |-> 0,
    req |-> FALSE,       \* first byte of the request was sent
    sent |-> FALSE,      \* the request was sent completely
    acc |-> FALSE,       \* accepted by the server
    resp |-> 0,          \* number of answers on the request
    good |-> FALSE,      \* the answer was SUCCESS
    id |-> -1,
    gone |-> FALSE,      \* client closed (or half-closed) the connection
    bye |-> FALSE,       \* client sent SHUTDOWN
    sclosed |-> FALSE,   \* server closed the connection
    clean |-> FALSE,     \* ... because the stream has ended
    mb |-> FALSE,        \* the device could be seen as busy
    must |-> {},         \* clients that owned the device before the request
    hit |-> FALSE,       \* a fault was injected while the request was handled
    soft |-> FALSE,      \* a fault was injected into the stream of this client
    tf |-> FALSE,        \* the radio failed during the current transmission
    ends |-> FALSE,      \* the output of this client has failed, it should be disconnected
    dev |-> "no",        \* no, open, closed
    put |-> 0, base |-> 0,
    q |-> <<>>,          \* messages not yet answered
    sess |-> -1, creator |-> FALSE,
    bound |-> -1,        \* all samples after this one belong to the client
    settled |-> -1 ]     \* all samples before this one should be already received

NewSess == [ key |-> <<"", "", "">>, req |-> FALSE, ok |-> FALSE, answered |-> FALSE,
             pushing |-> 0, pushed |-> 0, eof |-> FALSE, shut |-> FALSE, closed |-> FALSE ]

InitState(cfg) == [
    cfg |-> cfg,
    C |-> <<>>, D |-> <<>>,       \* functions with growing domains
    ids |-> {}, stop |-> FALSE, unlisten |-> FALSE, exited |-> FALSE,
    hw |-> NewHw, ctx |-> 0, refused |-> FALSE, anyfault |-> FALSE ]

Conns(S) == DOMAIN S.C
Sess(S) == DOMAIN S.D
Conn(S, c) == IF c \in Conns(S) THEN S.C[c] ELSE NewConn
Ses(S, s) == IF s \in Sess(S) THEN S.D[s] ELSE NewSess

\* client is connected and did nothing to leave
Stable(S, c) == /\ Conn(S, c).good /\ ~Conn(S, c).gone /\ ~Conn(S, c).bye
                /\ ~Conn(S, c).sclosed /\ ~Conn(S, c).soft /\ ~S.stop
Pending(r) == r.req /\ r.resp = 0 /\ ~r.sclosed
Shared(S) == S.cfg.rx = "sdr"

TxHolders(S) == {c \in Conns(S) : S.C[c].kind = "tx" /\ S.C[c].dev = "open"}
PlutoHolders(S) == {c \in Conns(S) : S.C[c].dev = "open" /\ ((S.C[c].kind = "tx" /\ S.cfg.tx = "pluto") \/ (S.C[c].kind = "rx" /\ S.cfg.rx = "pluto"))}
RxHolders(S) == {c \in Conns(S) : S.C[c].kind = "rx" /\ S.C[c].dev = "open"}
\* from the point of view of a client: granted and not closed by the server
Owners(S, k) == {c \in Conns(S) : S.C[c].kind = k /\ (S.C[c].good \/ S.C[c].dev # "no") /\ ~S.C[c].sclosed}

LiveSess(S, k) == {s \in Sess(S) : S.D[s].key = k /\ S.D[s].ok /\ ~S.D[s].closed}
Bound(S, s) == {c \in Conns(S) : S.C[c].good /\ S.C[c].sess = s}
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
\* sessions that can serve a new client with the same tuning
Joinable(S, k) == {s \in LiveSess(S, k) : ~S.D[s].eof /\ ~S.D[s].shut /\ \E c \in Bound(S, s) : Stable(S, c)}

(***************************************************************************)
(* Answers                                                                 *)
(***************************************************************************)
BusyCode(k) == IF k = "tx" THEN TX_BUSY ELSE RX_BUSY
Exclusive(S, k) == k = "tx" \/ (k = "rx" /\ S.cfg.rx = "pluto")

\* answer on the first message of the connection
FirstAnswer(S, c, e) ==
    LET r == Conn(S, c)
        k == r.kind
        fail(d) == e.st = FAILURE /\ e.det = d IN
    { <<"C06:answer_status", e.st \in {SUCCESS, FAILURE}>>,
      <<"C06:answer_details", e.st = FAILURE => e.det \in {INVALID, INTERNAL, TX_BUSY, RX_BUSY}>> } \cup
    (IF r.exp = "ping"
     THEN { <<"C06:ping_answer", e.st = SUCCESS /\ e.det = NO_DETAILS>> }
     ELSE IF r.exp = "invalid" \/ ~r.req
     THEN { <<"C06,C07,C08:invalid_request_answer", fail(INVALID)>> }
     ELSE IF r.exp = "internal"
     THEN { <<"C06,C07:internal_answer", fail(INTERNAL) \/ (fail(BusyCode(k)) /\ Exclusive(S, k) /\ r.mb)>> }
     ELSE \* correct request
       { <<"C06,C07:correct_request_rejected", ~fail(INVALID) \/ (r.gone /\ ~r.sent)>>,
         <<"C02,C06:wrong_busy_code", (e.st = FAILURE /\ e.det \in {TX_BUSY, RX_BUSY}) => (Exclusive(S, k) /\ e.det = BusyCode(k))>>,
         <<"C02,C06:busy_but_free", fail(BusyCode(k)) => r.mb>>,
         <<"C02,C06:not_refused", (Exclusive(S, k) /\ \E o \in r.must : Stable(S, o) /\ S.C[o].dev = "open") =>
                                  (fail(BusyCode(k)) \/ (fail(INTERNAL) /\ r.hit))>>,
         <<"C06,C10:internal_error_without_reason", fail(INTERNAL) =>
              (r.hit \/ (k = "rx" /\ Shared(S) /\ (S.refused \/ \E s \in Sess(S) : S.D[s].key = r.key /\ ~S.D[s].ok)))>>,
         <<"C06:id_reused", e.st = SUCCESS => e.det \notin S.ids>>,
         <<"C02:success_without_device", (e.st = SUCCESS /\ Exclusive(S, k)) => r.dev = "open">>,
         <<"C03,C18:success_without_session", (e.st = SUCCESS /\ k = "rx" /\ Shared(S)) => LiveSess(S, r.key) # {}>> })

\* answer on TX_DATA
DataAnswer(S, c, e) ==
    LET r == Conn(S, c)
        h == Head(r.q) IN
    IF r.kind # "tx" \/ r.q = <<>>
    THEN { <<"C06,C08:extra_answer", FALSE>> }
    ELSE IF h.t = "tx"
    THEN { <<"C06,C08,C09:tx_answer", (e.st = SUCCESS /\ e.det = NO_DETAILS) \/ (e.st = FAILURE /\ e.det = INTERNAL)>>,
           <<"C06,C08,C09:acked_before_transmitted", e.st = SUCCESS => r.put = r.base + 8 * r.sps * h.n>>,
           <<"C09,C17,C19:ack_of_failed", e.st = SUCCESS => ~r.tf>>,
           <<"C09,C19:failure_without_reason", e.st = FAILURE => r.tf>> }
    ELSE { <<"C06,C08,C09:malformed_tx_answer", e.st = FAILURE /\ e.det = INVALID>> }

Guards_resp(S, e) ==
    LET r == Conn(S, e.c) IN
    { <<"C06:answer_after_close", ~r.sclosed>> } \cup
    (IF r.resp = 0 THEN FirstAnswer(S, e.c, e)
     ELSE { <<"C06:answer_after_failure", r.good /\ r.kind # "ping">> } \cup DataAnswer(S, e.c, e))

\* connection to sdr-server to which the successful client is attached
Attach(S, r) == IF r.kind = "rx" /\ Shared(S) /\ LiveSess(S, r.key) # {} THEN Max(LiveSess(S, r.key)) ELSE r.sess

Effect_resp(S, e) ==
    LET r == Conn(S, e.c)
        first == r.resp = 0
        good == IF first THEN e.st = SUCCESS ELSE r.good
        ss == IF first /\ good THEN Attach(S, r) ELSE r.sess
        r2 == [r EXCEPT !.resp = @ + 1, !.good = good,
                        !.id = IF first /\ good THEN e.det ELSE @,
                        !.sess = ss,
                        !.creator = IF first /\ good /\ ss >= 0 THEN Bound(S, ss) = {} ELSE @,
                        !.q = IF first \/ @ = <<>> THEN @ ELSE Tail(@),
                        !.tf = IF first THEN @ ELSE FALSE,
                        !.base = IF first THEN @ ELSE r.put]
        others == [x \in Conns(S) \ {e.c} |->
                     IF first /\ good /\ S.C[x].kind = r.kind /\ Pending(S.C[x]) THEN [S.C[x] EXCEPT !.mb = TRUE] ELSE S.C[x]] IN
    [S EXCEPT !.C = others @@ (e.c :> r2),
              !.ids = IF first /\ good /\ r.kind \in {"rx", "tx"} THEN @ \cup {e.det} ELSE @]

(***************************************************************************)
(* Radio                                                                   *)
(***************************************************************************)
Radio(t) == [freq |-> <<t[1], t[2]>>, rate |-> <<t[3], t[4]>>, mode |-> t[5], gain |-> t[6]]
Guards_radio(S, r, dir) ==
    IF Len(r.radio) # 6 THEN {}
    ELSE LET cfg == Radio(r.radio)
             d == Dec(cfg.rate) IN
         Configured(S.hw, dir, cfg)
         \cup { <<"C20:fir_filter", FirOk(S.hw, IF dir = "rx" THEN d ELSE 0, IF dir = "tx" THEN d ELSE 0)>>,
                <<"C20:timeout", S.hw.timeout = S.cfg.timeout>>,
                <<"C20:unsupported_rate", Supported(cfg.rate)>>,
                <<"C20:tx_oscillator_is_on", dir = "tx" \/ r.hit \/ S.hw.pd.tx = 1 \/ (\E x \in Conns(S) : S.C[x].kind = "tx" /\ S.C[x].req)>> }
\* commands sent to PlutoSDR
Guards_hw(S, e) ==
    HwGuards(S.hw, e)
    \cup { <<"C02,C05,C12:other_direction_disturbed", CASE Disturbs(e) = "tx" -> TxHolders(S) = {}
                                                        [] Disturbs(e) = "rx" -> RxHolders(S) = {}
                                                        [] OTHER -> TRUE>> }
Guards_txopen(S, e) ==
    (IF S.cfg.tx = "pluto" THEN Guards_radio(S, Conn(S, e.c), "tx") ELSE {}) \cup
    { <<"C02:two_transmitters", TxHolders(S) \ {e.c} = {}>>,
      <<"C02,C07:open_without_request", Pending(Conn(S, e.c)) /\ Conn(S, e.c).kind = "tx" /\ Conn(S, e.c).exp # "invalid">>,
      <<"C02:opened_twice", Conn(S, e.c).dev = "no">> }
Guards_rxopen(S, e) ==
    (IF S.cfg.rx = "pluto" THEN Guards_radio(S, Conn(S, e.c), "rx") ELSE {}) \cup
    { <<"C02:two_receivers", S.cfg.rx = "file" \/ RxHolders(S) \ {e.c} = {}>>,
      <<"C02,C07:open_without_request", Pending(Conn(S, e.c)) /\ Conn(S, e.c).kind = "rx" /\ Conn(S, e.c).exp # "invalid">>,
      <<"C02:opened_twice", Conn(S, e.c).dev = "no">> }
Guards_close(S, e) ==
    { <<"C02:closed_not_opened", Conn(S, e.c).dev = "open">>,
      \* the radio is not taken away from the client
      <<"C02,C05:radio_lost", ~Stable(S, e.c) \/ (Conn(S, e.c).sess \in Sess(S) /\ Ses(S, Conn(S, e.c).sess).eof)>> }
RECURSIVE Requested(_)
Requested(q) == IF q = <<>> THEN 0 ELSE Head(q).n + Requested(Tail(q))
Guards_txput(S, e) ==
    LET r == Conn(S, e.c) IN
    { <<"C02,C09:transmit_without_device", r.dev = "open">>,
      \* answers are not visible when the client has left
      <<"C08,C09:transmit_not_requested", IF r.gone THEN r.put + e.n <= r.base + 8 * r.sps * Requested(r.q)
            ELSE r.good /\ r.q # <<>> /\ Head(r.q).t = "tx" /\ r.put + e.n <= r.base + 8 * r.sps * Head(r.q).n>> }

SetDev(S, c, v) == [S EXCEPT !.C = [x \in Conns(S) \cup {c} |->
    IF x = c THEN [Conn(S, x) EXCEPT !.dev = v]
    ELSE IF v = "open" /\ S.C[x].kind = Conn(S, c).kind /\ Pending(S.C[x]) THEN [S.C[x] EXCEPT !.mb = TRUE] ELSE S.C[x]]]

(***************************************************************************)
(* sdr-server                                                              *)
(***************************************************************************)
Guards_sdrreq(S, e) ==
    LET k == <<e.band, e.center, e.rate>> IN
    { <<"C18:request_header", e.ver = 0 /\ e.type = 0 /\ e.dest = 1>>,
      <<"C03,C07,C18:session_nobody_asked_for", \E c \in Conns(S) : /\ S.C[c].kind = "rx" /\ S.C[c].key = k
                                                              /\ Pending(S.C[c]) /\ S.C[c].exp # "invalid">>,
      <<"C03:session_not_shared", Joinable(S, k) = {}>> }
\* connection to sdr-server is kept while it is in use
Guards_sdrclosed(S, e) ==
    LET d == Ses(S, e.s) IN
    { <<"C03:closed_twice", ~d.closed>>,
      <<"C18:closed_without_shutdown", d.eof \/ d.shut \/ Bound(S, e.s) = {}>>,
      <<"C03,C05:session_lost", d.eof \/ \A c \in Bound(S, e.s) : ~Stable(S, c)>> }
Guards_sdrshut(S, e) ==
    { <<"C03,C05:session_lost", Ses(S, e.s).eof \/ \A c \in Bound(S, e.s) : ~Stable(S, c)>> }

(***************************************************************************)
(* Connection is closed by the server                                      *)
(***************************************************************************)
Ended(S, r) == r.sess \in Sess(S) /\ (S.D[r.sess].eof \/ S.D[r.sess].shut)
Guards_sclose(S, e) ==
    LET r == Conn(S, e.c) IN
    { <<"C06,C10:closed_twice", ~r.sclosed>>,
      <<"C06:closed_without_answer", r.resp > 0 \/ r.gone \/ S.stop \/ r.hit>>,
      <<"C05,C06:healthy_client_closed", r.good /\ r.kind # "ping" => (r.gone \/ r.bye \/ S.stop \/ r.soft \/ Ended(S, r))>>,
      <<"C02,C10:device_kept_after_close", r.dev # "open">> }

(***************************************************************************)
(* The whole run is over                                                   *)
(***************************************************************************)
\* nothing happens for a long time: everything that is not used is released
Guards_quiesce(S, e) ==
    { <<"C05,C10,C11:connection_not_closed", \A c \in Conns(S) :
          LET r == S.C[c] IN (r.acc /\ (r.gone \/ r.bye \/ (r.resp > 0 /\ ~r.good) \/ r.kind = "ping" \/ (r.good /\ r.sess \in Sess(S) /\ S.D[r.sess].eof))) => r.sclosed>>,
      <<"C05,C19:client_with_failed_output_not_closed", \A c \in Conns(S) : S.C[c].ends => S.C[c].sclosed>>,
      <<"C06,C08,C09:message_not_answered", \A c \in Conns(S) : Stable(S, c) => S.C[c].q = <<>>>>,
      <<"C05,C11:not_accepted", S.stop \/ \A c \in Conns(S) : S.C[c].req => S.C[c].acc>>,
      <<"C03,C10:session_not_released", \A s \in Sess(S) : S.D[s].closed \/ \E c \in Bound(S, s) : ~S.C[c].sclosed>>,
      <<"C02,C10:device_not_released", \A c \in TxHolders(S) \cup RxHolders(S) : S.C[c].good /\ ~S.C[c].sclosed>>,
      <<"C12:context_not_released", (PlutoHolders(S) = {}) => S.ctx = 0>> }
Guards_exit(S, e) ==
    { <<"C11,C05:exit_without_stop", S.stop>>,
      <<"C11:exit_code", e.code = 0>>,
      <<"C03,C10,C11:session_left", \A s \in Sess(S) : S.D[s].closed>>,
      <<"C02,C10,C11:device_left", TxHolders(S) \cup RxHolders(S) = {}>>,
      <<"C12,C10:context_left", S.ctx = 0>>,
      <<"C10,C11:connection_left", \A c \in Conns(S) : S.C[c].acc => S.C[c].sclosed>> }
Guards_account(S, e) ==
    { <<"C10,C11:thread_left", e.alive = 0>>,
      <<"C10:thread_not_joined", e.unjoined = 0>>,
      <<"C10:descriptor_leak", e.fds = 0>>,
      <<"C10:file_leak", e.files = 0>>,
      <<"C10:memory_leak", e.mem = 0 /\ e.pb = 0 /\ e.cfg = 0>>,
      <<"C10:mutex_left_locked", e.mutex = 0>>,
      <<"C10,C12:radio_leak", e.iio = 0>> }

(***************************************************************************)
(* What the client got (known at the end of the run)                       *)
(***************************************************************************)
Run(x) == [s |-> x[1], from |-> x[2], len |-> x[3]]
Guards_endrx(S, e) ==
    LET r == Conn(S, e.c)
        d == Ses(S, r.sess)
        n == Len(e.runs)
        run(i) == Run(e.runs[i])
        last == IF n = 0 THEN 0 ELSE run(n).from + run(n).len
        hasDump == r.dump
        known == \A i \in 1..n : run(i).s # -1 IN
    (IF ~hasDump THEN {} ELSE
    { <<"C04,C18:unknown_samples", known>>,
      <<"C03,C04:wrong_stream", known => \A i \in 1..n : run(i).s = r.sess>>,
      <<"C04:order", ~e.trunc /\ \A i \in 1..(n - 1) : run(i + 1).from >= run(i).from + run(i).len>>,
      <<"C04:gap", S.cfg.over \/ n <= 1>>,
      <<"C04:beginning_lost", (r.creator /\ n > 0) => run(1).from = 0>>,
      <<"C04:samples_after_join_lost", (~r.creator /\ n > 0 /\ r.bound >= 0) => run(1).from <= r.bound>>,
      <<"C04,C19:tail_lost", r.clean => (IF n > 0 THEN last = d.pushed
                                         ELSE (r.creator => d.pushed = 0) /\ (r.bound >= 0 => d.pushed <= r.bound))>>,
      <<"C04:not_received_in_time", (r.settled >= 0 /\ ~S.cfg.over /\ ~r.soft) =>
                                         (IF n > 0 THEN last >= r.settled ELSE (r.creator => r.settled = 0) /\ (r.bound >= 0 => r.settled <= r.bound))>>,
      <<"C04,C18,C19:partial_samples", e.dump = 8 * e.total>>,
      <<"C04:more_than_received", n > 0 => last <= d.pushing>> }) \cup
    (IF ~e.hasref THEN {} ELSE
    { <<"C04,C14,C15:demodulated_file", r.dest # DEST_SOCKET => (e.fmatch = e.file \/ e.file = -1)>>,
      <<"C04,C19:demodulated_file_incomplete", (r.dest # DEST_SOCKET /\ r.clean) => e.file = e.ref>>,
      <<"C04,C05,C06,C14,C15:demodulated_stream", r.dest # DEST_FILE => e.smatch = e.sock>>,
      <<"C04,C05:demodulated_stream_incomplete", (r.dest # DEST_FILE /\ r.clean) => e.sent = e.ref>> }) \cup
    { <<"C04,C06:unexpected_data", r.dest = DEST_FILE => e.sent = 0>>,
      <<"C19:file_written_after_close", r.sclosed => (e.atclose[1] = e.dump /\ e.atclose[2] = e.file)>>,
      <<"C19:file_missing", r.good => ((r.dump => e.dump >= 0) /\ (r.dest # DEST_SOCKET => e.file >= 0))>> }

Guards_endtx(S, e) ==
    LET r == Conn(S, e.c) IN
    { <<"C08,C09,C15:transmitted_content", r.soft \/ e.dmatch = e.dev \/ e.dev = -1>>,
      <<"C08,C09:transmitted_total", e.dev = -1 \/ e.dev = r.put>>,
      <<"C09,C15,C19:tx_dump_content", ~r.dump \/ r.soft \/ (e.dump = e.dumpmatch /\ e.dump = r.put)>>,
      <<"C19:tx_dump_after_close", (r.sclosed /\ r.dump) => e.atclose[2] = 8 * e.dump>>,
      <<"C17,C19:tx_file_after_close", (r.sclosed /\ S.cfg.tx = "file" /\ e.dev >= 0) => e.atclose[1] = 8 * e.dev>> }

(***************************************************************************)
(* All events                                                              *)
(***************************************************************************)
Guards(S, e) ==
    CASE e.ev = "resp" -> Guards_resp(S, e)
      [] e.ev = "badframe" -> { <<"C06,C08:not_a_response", FALSE>> }
      [] e.ev = "data" -> { <<"C06,C04:unexpected_data", Conn(S, e.c).good /\ Conn(S, e.c).kind = "rx" /\ Conn(S, e.c).dest # DEST_FILE>> }
      [] e.ev = "txopen" -> Guards_txopen(S, e)
      [] e.ev = "rxopen" -> Guards_rxopen(S, e)
      [] e.ev \in {"txclose", "rxclose"} -> Guards_close(S, e)
      [] e.ev = "txput" -> Guards_txput(S, e)
      [] e.ev = "ctxopen" -> { <<"C12:two_contexts", S.ctx = 0>> }
      [] e.ev = "ctxclose" -> { <<"C12:context_closed_under_device", S.ctx = 1 /\ PlutoHolders(S) = {}>> }
      [] e.ev = "sdrreq" -> Guards_sdrreq(S, e)
      [] e.ev = "sdrshut" -> Guards_sdrshut(S, e)
      [] e.ev = "sdrclosed" -> Guards_sdrclosed(S, e)
      [] e.ev = "sclose" -> Guards_sclose(S, e)
      [] e.ev = "conn" -> { <<"C05,C11:connection_refused", e.ok \/ S.stop>> }
      [] e.ev = "giveup" -> { <<"C05,C06,C11:no_reaction", S.stop /\ ~Conn(S, e.c).acc>> }
      [] e.ev = "anomaly" -> { <<"ALL:anomaly_" \o e.kind, FALSE>> }
      [] e.ev = "quiesce" -> Guards_quiesce(S, e)
      [] e.ev = "exit" -> Guards_exit(S, e)
      [] e.ev = "account" -> Guards_account(S, e)
      [] e.ev = "endrx" -> Guards_endrx(S, e)
      [] e.ev = "endtx" -> Guards_endtx(S, e)
      [] e.ev \in {"iioll", "iiostr", "iiod", "iiobool", "iiodevbool", "iioraw", "iiotimeout"} -> Guards_hw(S, e)
      [] OTHER -> {}

UpdConn(S, c, r) == [S EXCEPT !.C = (c :> r) @@ @]
UpdSess(S, s, d) == [S EXCEPT !.D = (s :> d) @@ @]

Effect_creq(S, e) ==
    LET own == Owners(S, e.kind) IN
    UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.req = TRUE, !.kind = e.kind,
        !.exp = IF "r" \in DOMAIN e THEN RequestClass(S.cfg, e.kind, e.r) ELSE e.exp, !.key = <<e.band, e.center, e.rate>>,
        !.radio = IF "radio" \in DOMAIN e THEN e.radio ELSE <<>>, !.sps = e.sps, !.dump = e.dump, !.dest = e.dest,
        !.mb = own # {}])

\* an owner that stays during the whole request makes it fail
MustRefuse(S, c) == {o \in Conns(S) \ {c} : S.C[o].kind = S.C[c].kind /\ S.C[o].dev = "open" /\ Stable(S, o)}

Effect(S, e) ==
    CASE e.ev = "conn" -> IF e.ok THEN UpdConn(S, e.c, NewConn) ELSE S
      [] e.ev = "creq" -> Effect_creq(S, e)
      [] e.ev = "csent" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.sent = TRUE])
      [] e.ev = "ctx" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.q = Append(@, [t |-> "tx", n |-> e.n])])
      [] e.ev = "cbadtx" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.q = Append(@, [t |-> "bad", n |-> 0])])
      [] e.ev = "cbye" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.bye = TRUE])
      [] e.ev \in {"cclose", "cshut"} -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.gone = TRUE])
      [] e.ev = "acc" -> \* the acceptor is done with all previous clients
           LET S1 == [S EXCEPT !.C = [x \in Conns(S) |->
                   IF S.C[x].good /\ S.C[x].sess \in Sess(S) /\ S.C[x].bound < 0
                   THEN [S.C[x] EXCEPT !.bound = S.D[S.C[x].sess].pushing] ELSE S.C[x]]] IN
           UpdConn(S1, e.c, [Conn(S1, e.c) EXCEPT !.acc = TRUE, !.must = MustRefuse(S1, e.c)])
      [] e.ev = "resp" -> Effect_resp(S, e)
      [] e.ev = "txopen" -> SetDev(S, e.c, "open")
      [] e.ev = "rxopen" -> LET S1 == SetDev(S, e.c, "open") IN
                            UpdSess(UpdConn(S1, e.c, [Conn(S1, e.c) EXCEPT !.sess = e.s, !.creator = TRUE]), e.s, [NewSess EXCEPT !.ok = TRUE])
      [] e.ev \in {"txclose", "rxclose"} -> LET S1 == SetDev(S, e.c, "closed")
                                                d == Conn(S, e.c).sess IN
                                            IF e.ev = "rxclose" /\ d \in Sess(S) THEN UpdSess(S1, d, [Ses(S1, d) EXCEPT !.closed = TRUE]) ELSE S1
      [] e.ev = "txput" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.put = @ + e.n])
      [] e.ev = "ctxopen" -> [S EXCEPT !.ctx = @ + 1, !.hw = NewHw]
      [] e.ev = "ctxclose" -> [S EXCEPT !.ctx = @ - 1]
      [] e.ev = "sdrconn" -> UpdSess(S, e.s, NewSess)
      [] e.ev = "sdrreq" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.req = TRUE, !.key = <<e.band, e.center, e.rate>>])
      [] e.ev = "sdrresp" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.answered = TRUE, !.ok = e.ok])
      [] e.ev = "pushing" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.pushing = e.n])
      [] e.ev = "push" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.pushed = e.n, !.pushing = IF @ < e.n THEN e.n ELSE @])
      [] e.ev = "sdreof" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.eof = TRUE])
      [] e.ev = "sdrshut" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.shut = TRUE])
      [] e.ev = "sdrclosed" -> UpdSess(S, e.s, [Ses(S, e.s) EXCEPT !.closed = TRUE])
      [] e.ev = "sdrrefused" -> [S EXCEPT !.refused = TRUE]
      [] e.ev = "sndto" -> UpdConn(S, e.c, [Conn(S, e.c) EXCEPT !.soft = TRUE, !.ends = (@ \/ (Conn(S, e.c).kind = "rx" /\ Conn(S, e.c).good))])
      [] e.ev = "fault" ->
           [S EXCEPT !.anyfault = TRUE,
                     !.C = [x \in Conns(S) |->
                        LET r == S.C[x] IN
                        IF r.resp = 0 /\ ~r.sclosed THEN [r EXCEPT !.hit = TRUE]
                        ELSE IF e.c = x \/ (e.dev = r.kind /\ r.dev = "open") THEN [r EXCEPT !.soft = TRUE, !.tf = (e.dev = "tx"),
                                                                                                     !.ends = (@ \/ (r.kind = "rx" /\ e.c = x))] ELSE r]]
      [] e.ev = "sclose" ->
           LET r == Conn(S, e.c) IN
           UpdConn(S, e.c, [r EXCEPT !.sclosed = TRUE,
                !.clean = r.good /\ ~r.gone /\ ~r.bye /\ ~S.stop /\ ~r.soft /\ Ended(S, r) /\ S.D[r.sess].eof /\ ~S.D[r.sess].shut])
      [] e.ev = "stop" -> [S EXCEPT !.stop = TRUE]
      [] e.ev = "quiesce" -> [S EXCEPT !.C = [x \in Conns(S) |->
                                IF Stable(S, x) /\ S.C[x].kind = "rx" /\ S.C[x].sess \in Sess(S)
                                THEN [S.C[x] EXCEPT !.settled = S.D[S.C[x].sess].pushed] ELSE S.C[x]]]
      [] e.ev = "unlisten" -> [S EXCEPT !.unlisten = TRUE]
      [] e.ev = "exit" -> [S EXCEPT !.exited = TRUE]
      [] e.ev \in {"iioll", "iiostr", "iiod", "iiobool", "iiodevbool", "iioraw", "iiotimeout"} -> [S EXCEPT !.hw = HwEffect(@, e)]
      [] OTHER -> S

Failed(S, e) == {g[1] : g \in {x \in Guards(S, e) : ~x[2]}}
=============================================================================
