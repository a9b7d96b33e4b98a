------------------------------- MODULE SdrTrace -------------------------------
(* Executions of sdr_server_client.c against a scripted server               *)
EXTENDS SdrClient, Replay
SBegin(e) == NewClient([band |-> e.band, offset |-> e.offset, rate |-> e.rate, max |-> e.max, timeout |-> e.timeout, listening |-> e.listening, prompt |-> e.prompt, steady |-> e.steady])
Seven(a) == SubSeq(a, 1, Min2(7, Len(a)))
SGuards(s, e) ==
    CASE e.ev = "request" -> { <<"C18:request_bytes", e.b = Request(s.p.band, s.p.offset, s.p.rate)>> }
      [] e.ev = "created" ->
            { <<"C18:started_without_positive_answer", e.r = 0 => Positive(Seven(s.answer))>>,
              <<"C18:positive_answer_ignored", e.r # 0 => ~(Positive(Seven(s.answer)) /\ s.p.prompt /\ ~s.rst /\ ~s.fault)>>,
              \* every byte of the answer may come after the pause shorter than timeout
              <<"C18:answer_timeout", e.ms <= 8 * s.p.timeout + 100>> }
      [] e.ev = "rx" ->
            { <<"C18:more_than_buffer", e.n <= s.p.max>>,
              <<"C18:success_without_data", e.r = "ok" => e.n > 0>> } \cup
            (IF s.stop THEN {}
             ELSE { <<"C18:samples", Len(e.s) = 2 * e.n /\ \A k \in 1..e.n : << e.s[2 * k - 1], e.s[2 * k] >> = Sample(s.pos + k - 1)>>,
                    <<"C18:not_sent_samples", 8 * (s.pos + e.n) <= s.sending>>,
                    <<"C18:data_after_end", s.ended => e.n = 0>>,
                    <<"C18:end_without_disconnect", e.r = "end" => s.fin>>,
                    <<"C18:timeout_too_early", e.r = "timeout" => e.ms >= s.p.timeout>>,
                    <<"C18:tail_lost", (e.r = "end" /\ e.n = 0 /\ s.fin /\ ~s.rst) => s.pos = s.sent \div 8>>,
                    <<"C18:read_time", e.ms <= s.p.steady + s.p.timeout + 100>> })
      [] e.ev = "got" -> { <<"C18:unexpected_message", s.stop>>, <<"C18:shutdown_bytes", ShutdownMessages(s.got \o e.b)>> }
      [] e.ev = "stopped" -> { \* the connection is kept until sdr-server closes it or stays silent
                               <<"C18:not_waited_for_server", e.ms >= s.p.timeout \/ s.left \/ s.rst \/ s.fault \/ s.stopped>>,
                               <<"C18:stop_time", e.ms <= s.p.steady + s.p.timeout + 100>> }
      [] e.ev = "fin" -> \* the server reads until the client closes the connection, the client was stopped
            { <<"C18:shutdown_not_sent", (e.waited /\ s.stop /\ ~s.fin) => Len(s.got) >= 2>> }
      [] e.ev = "released" -> { <<"C18,C10:leak", e.mem = 0 /\ e.fds = 0 /\ e.mutex = 0>> }
      [] OTHER -> {}
SEffect(s, e) ==
    CASE e.ev = "answer" -> [s EXCEPT !.answer = @ \o e.b]
      [] e.ev = "sending" -> [s EXCEPT !.sending = e.n]
      [] e.ev = "sent" -> [s EXCEPT !.sent = e.n]
      [] e.ev = "fin" -> [s EXCEPT !.fin = TRUE, !.rst = @ \/ e.rst, !.left = @ \/ e.own]
      [] e.ev = "stopped" -> [s EXCEPT !.stopped = TRUE]
      [] e.ev = "fault" -> [s EXCEPT !.fault = TRUE]
      [] e.ev = "created" -> [s EXCEPT !.created = (e.r = 0)]
      [] e.ev = "rx" -> [s EXCEPT !.pos = @ + e.n, !.ended = @ \/ (e.r = "end" /\ e.n = 0)]
      [] e.ev = "stop" -> [s EXCEPT !.stop = TRUE]
      [] e.ev = "got" -> [s EXCEPT !.got = @ \o e.b]
      [] OTHER -> s
=============================================================================
