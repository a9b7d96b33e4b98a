-------------------------------- MODULE Config --------------------------------
(* Settings of the configuration file (property C13). A value is a record:    *)
(*   t - type: "none" (not present), "int", "big" (integer of 64 bits),       *)
(*       "float", "str", "bool", "group"                                      *)
(*   i - the number (multiplied by 100 when it is float), s - the string      *)
EXTENDS Integers, Sequences

Names == {"bind_address", "port", "read_timeout_seconds", "buffer_size", "queue_size", "base_path", "rx_sdr_type", "tx_sdr_type", "rx_sdr_server_address",
          "rx_sdr_server_port", "rx_file_base_path", "tx_file_base_path", "tx_plutosdr_gain", "rx_plutosdr_gain", "tx_plutosdr_timeout_millis"}
MaxInt == 2147483647
Ints == [ port |-> << 0, 65535, 8091 >>, read_timeout_seconds |-> << 1, MaxInt, 5 >>, buffer_size |-> << 1, MaxInt, 262144 >>, queue_size |-> << 1, 65535, 64 >>,
          rx_sdr_server_port |-> << 0, 65535, 8090 >>, tx_plutosdr_timeout_millis |-> << 0, MaxInt, 10000 >> ]
Floats == {"tx_plutosdr_gain", "rx_plutosdr_gain"}
RxTypes == << "sdr-server", "plutosdr", "file" >>
TxTypes == << "none", "plutosdr", "file" >>
Strings == {"bind_address", "base_path", "rx_sdr_server_address", "rx_file_base_path", "tx_file_base_path"}
Range(x) == {x[k] : k \in DOMAIN x}

Valid(n, v) ==
    \/ v.t = "none"
    \/ n \in DOMAIN Ints /\ v.t = "int" /\ v.i \in Ints[n][1]..Ints[n][2]
    \/ n \in Floats /\ v.t \in {"int", "float"}
    \/ n \in Strings /\ v.t = "str"
    \/ n = "rx_sdr_type" /\ v.t = "str" /\ v.s \in Range(RxTypes)
    \/ n = "tx_sdr_type" /\ v.t = "str" /\ v.s \in Range(TxTypes)
\* whole number is not required from the file
Unclear(n, v) == n \in DOMAIN Ints /\ v.t = "float"

Index(x, s) == CHOOSE k \in DOMAIN x : x[k] = s
RxType(c) == IF c.rx_sdr_type.t = "none" THEN 0 ELSE Index(RxTypes, c.rx_sdr_type.s) - 1
TxType(c) == IF c.tx_sdr_type.t = "none" THEN 0 ELSE Index(TxTypes, c.tx_sdr_type.s) - 1
TypesValid(c) == Valid("rx_sdr_type", c.rx_sdr_type) /\ Valid("tx_sdr_type", c.tx_sdr_type)
Relevant(c, n) ==
    CASE n \in {"rx_sdr_server_address", "rx_sdr_server_port"} -> TypesValid(c) /\ RxType(c) = 0
      [] n \in {"tx_plutosdr_gain", "tx_plutosdr_timeout_millis"} -> TypesValid(c) /\ TxType(c) = 1
      [] n = "rx_plutosdr_gain" -> TypesValid(c) /\ RxType(c) = 1
      [] n = "rx_file_base_path" -> TypesValid(c) /\ RxType(c) = 2
      [] n = "tx_file_base_path" -> TypesValid(c) /\ TxType(c) = 2
      [] OTHER -> TRUE
Pluto(c) == RxType(c) = 1 \/ TxType(c) = 1
\* settings that are not used may be ignored
MustRefuse(c) == \E n \in Names : Relevant(c, n) /\ ~Valid(n, c[n]) /\ ~Unclear(n, c[n])
MayRefuse(c) == \E n \in Names : ~Valid(n, c[n])

IntValue(n, v) == IF v.t = "none" THEN Ints[n][3] ELSE v.i
\* gain is multiplied by 100
FloatValue(v) == IF v.t = "none" THEN 0 ELSE IF v.t = "int" THEN 100 * v.i ELSE v.i
StringValue(n, v, folder) == IF v.t # "none" THEN v.s ELSE IF n \in {"bind_address", "rx_sdr_server_address"} THEN "127.0.0.1" ELSE folder
=============================================================================
