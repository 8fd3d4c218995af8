--------------------------- MODULE TraceFreeList ---------------------------
(***************************************************************************)
(* Histories of the real free lists against FreeListAbs.  Nodes are         *)
(* numbered; the first event (N) lists the nodes that the free list starts   *)
(* with.  al/alu: .n is the node obtained (0: none); fr: .v is the node.     *)
(***************************************************************************)
EXTENDS FreeListAbs, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ci
tvars == <<freeset, owned, pend, tid, l, ci>>
Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Step  == l' = l + 1 /\ UNCHANGED tid
Exp(t) == Ev[ci[t]]
ToSet(s) == {s[i] : i \in 1..Len(s)}

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ ci = [t \in Thread |-> 0]
         /\ freeset = 1..Traces[tid].cap
         /\ owned = [t \in Thread |-> {}]
         /\ pend = [t \in Thread |-> Idle]

EvCall == /\ At("c")
          /\ Call(Cur.t, Cur.o, IF Cur.o = "fr" /\ Len(Cur.v) = 1 THEN Cur.v[1] ELSE 0)
          /\ ci' = [ci EXCEPT ![Cur.t] = l] /\ Step
EvRet  == /\ At("r") /\ Return(Cur.t)
          /\ pend[Cur.t].res = Exp(Cur.t).n
          /\ ci' = [ci EXCEPT ![Cur.t] = 0] /\ Step
\* at the end all free nodes are taken out, one by one
EvEnd  == /\ At("E") /\ \A t \in Thread : ~Busy(t)
          /\ Len(Cur.v) = Cardinality(freeset) /\ ToSet(Cur.v) = freeset
          /\ UNCHANGED <<freeset, owned, pend, ci>> /\ Step
EvFill == At("K") /\ Cur.n = 0 /\ UNCHANGED <<freeset, owned, pend, ci>> /\ Step   \* nothing else to fill
Guided(t) ==
    /\ Running(t)
    /\ UNCHANGED <<tid, l, ci>>
    /\ \/ Exp(t).n > 0 /\ Allocate(t, Exp(t).n)
       \/ SeeNone(t)
       \/ Exp(t).n > 0 /\ Create(t, Exp(t).n)
       \/ Release(t)
       \/ Nothing(t)
Lazy == More /\ Cur.e # "c"
TNext == EvCall \/ EvRet \/ EvEnd \/ EvFill \/ (Lazy /\ \E t \in Thread : Guided(t))
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
