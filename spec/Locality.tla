------------------------------ MODULE Locality ------------------------------
(***************************************************************************)
(* Histories of threads that use two containers (environment variable TWO).  *)
(* Linearizability is a local property (Herlihy, Wing): containers are        *)
(* independent of each other iff the events of each of them, without those    *)
(* of the other one, are a behaviour of one container.  History i gives        *)
(* behaviours 2i - 1 (first container) and 2i (second one).  An abnormal end   *)
(* (x = 0) belongs to both.  Of two spsc_queues thread 1 is the producer of   *)
(* the first and the consumer of the second, thread 2 the other way round.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
Role(e, k) == IF IOEnv.TWO = "rings" /\ k = 2 /\ "t" \in DOMAIN e /\ e.t \in {1, 2} THEN [e EXCEPT !.t = 3 - @] ELSE e
Part(h, k) == LET s == SelectSeq(h.ev, LAMBDA e : e.x \in {0, k}) IN
              [h EXCEPT !.ev = [j \in 1..Len(s) |-> Role(s[j], k)], !.init = [j \in 1..Len(@) |-> IF k = 2 THEN @[j] + 50 ELSE @[j]]]
Histories(raw) == IF "TWO" \notin DOMAIN IOEnv THEN raw
                  ELSE [i \in 1..(2 * Len(raw)) |-> Part(raw[(i + 1) \div 2], 2 - (i % 2))]
============================================================================
