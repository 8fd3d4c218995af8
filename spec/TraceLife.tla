----------------------------- MODULE TraceLife -----------------------------
(* Recorded element events of the real stack and spsc_queue against Lifetime.  *)
EXTENDS Lifetime, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<live, call, made, gone, tid, l>>
Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Step  == l' = l + 1 /\ UNCHANGED tid
Quiet == \A t \in Thread : call[t].o = "idle"

TInit == LInit /\ tid \in 1..Len(Traces) /\ l = 1

EvPay == /\ At("P")
         /\ \/ Cur.k = "C" /\ Construct(Cur.t, Cur.l, Cur.v)
            \/ Cur.k = "R" /\ Read(Cur.t, Cur.l, Cur.v)
            \/ Cur.k = "W" /\ Assign(Cur.t, Cur.l, Cur.v)
            \/ Cur.k = "D" /\ Destroy(Cur.t, Cur.l, Cur.v)
EvCall == At("c") /\ Begin(Cur.t, [o |-> Cur.o, a |-> Cur.a, n |-> Cur.n, v |-> Cur.v])
EvRet  == At("r") /\ End(Cur.t)
EvSkip == More /\ Cur.e \in {"d", "B", "Y", "a", "f", "J", "E", "K"} /\ UNCHANGED lvars
EvFork == \* the initial content is alive, nothing else
          At("G") /\ Bag(Content) = Bag(Traces[tid].init) /\ UNCHANGED lvars
EvDead == At("Z") /\ Quiet /\ live = {} /\ Cur.l = 0 /\ UNCHANGED lvars

TNext == (EvPay \/ EvCall \/ EvRet \/ EvSkip \/ EvFork \/ EvDead) /\ Step
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
OneCellOneElement == \A p, q \in live : p[1] = q[1] => p = q
============================================================================
