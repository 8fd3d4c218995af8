--------------------------- MODULE TraceLockFree ---------------------------
(***************************************************************************)
(* is_lock_free() on a platform where atomic objects of the sizes .free     *)
(* are lock-free: the answer is "yes" iff every atomic object that the      *)
(* operations of the container touch (.used: their sizes) is lock-free, and  *)
(* it is the same at any time (.ev: the answers between the operations).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Ev    == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
\* the platform rounds the size of an object up to the next power of two
Lower(s)    == {x \in {1, 2, 4, 8, 16} : x >= s}
Rounded(s)  == CHOOSE x \in Lower(s) : \A y \in Lower(s) : x <= y
LockFree(s) == Lower(s) # {} /\ Rounded(s) \in Range(Traces[tid].free)
Truth       == \A s \in Range(Traces[tid].used) : LockFree(s)

TInit == tid \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ Traces[tid].used # <<>> /\ Ev[l] = Truth /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<tid, l>>

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
