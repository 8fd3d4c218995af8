--------------------------- MODULE TraceProgress ---------------------------
(***************************************************************************)
(* Progress.  A return event carries .so, the longest run of own steps of   *)
(* the call during which nobody else moved, and .st, all its own steps      *)
(* (a step: one atomic operation, element access, functor or allocator      *)
(* call).  Whatever the others have done before they stopped:               *)
(*   - a call finishes within a bounded number of own uninterrupted steps;  *)
(*   - WaitFree: also within a bounded number of own steps in total;        *)
(*   - an execution ends with every call finished (a stuck or endless call  *)
(*     is recorded as event X, which is not a behaviour).                   *)
(* The bounds are linear in the number of elements that the call handles.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANTS Thread, WaitFree
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, running
Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]

Elements(c) == Len(c.a) + Len(c.v) + (IF c.o = "popv" THEN 1 ELSE 0)
Bound(c)    == 250 + 60 * Elements(c)
\* wait-free: whatever arrives during the call, no more than the capacity is there to be handled
Handled(c)  == LET n == Elements(c) IN IF n < Traces[tid].cap THEN n ELSE Traces[tid].cap
WFBound(c)  == 250 + 60 * Handled(c)

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ running = [t \in Thread |-> 0]
Begin == /\ Cur.e = "c" /\ running[Cur.t] = 0 /\ running' = [running EXCEPT ![Cur.t] = l]
End   == /\ Cur.e = "r" /\ running[Cur.t] # 0
         /\ Cur.so <= Bound(Ev[running[Cur.t]])
         /\ WaitFree => Cur.st <= WFBound(Ev[running[Cur.t]])
         /\ running' = [running EXCEPT ![Cur.t] = 0]
Over  == Cur.e \in {"E", "K"} /\ (\A t \in Thread : running[t] = 0) /\ UNCHANGED running
Other == Cur.e = "d" /\ UNCHANGED running
TNext == More /\ (Begin \/ End \/ Over \/ Other) /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<tid, l, running>>

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
