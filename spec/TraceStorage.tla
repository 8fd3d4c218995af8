---------------------------- MODULE TraceStorage ----------------------------
(* Recorded memory accesses of the real containers against Storage.             *)
EXTENDS Storage, Json, IOUtils, TLC, Sequences

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<own, user, live, tid, l>>
Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Step  == l' = l + 1 /\ UNCHANGED tid
ES    == Traces[tid].es

TInit == SInit /\ tid \in 1..Len(Traces) /\ l = 1
EvElem == \/ At("C") /\ Construct(Cur.l, ES, Traces[tid].ea)
          \/ At("D") /\ Destroy(Cur.l)
TNext == /\ \/ More /\ Cur.e \in {"O", "b"} /\ Obtain(Cur.l, Cur.s)
            \/ At("u") /\ Lend(Cur.l, Cur.s)
            \/ At("z") /\ End(Cur.l)
            \/ At("x") /\ Access(Cur.k, Cur.l, Cur.s, ES)
            \/ EvElem
         /\ Step
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
