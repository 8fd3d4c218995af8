----------------------------- MODULE TraceSizes -----------------------------
(***************************************************************************)
(* Containers of any size, used by one thread.  Elements are numbered so    *)
(* that the content always is an interval lo..hi (a stack holds 1..hi, a    *)
(* queue lo..hi); thus containers with 2^16 elements are handled exactly    *)
(* and recorded runs of equal operations are single steps.                 *)
(*                                                                         *)
(*   free   node based: nodes in the pool;  otherwise: unused capacity      *)
(* Events:  new / refused (al: bytes left behind), push, bpush (n accepted  *)
(* values f, f+d, ...; al allocations), pushfail, bpushfail, pop (n values), *)
(* popfail, res, empty, gone (al: bytes left behind); range, brange, take,   *)
(* takerev: bulk operations; ra, wa: observers.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS Kind,     \* "stack", "queue", "spsc"
          Limit     \* most elements an array based container must support: 2^16-2, as documented
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES phase, lo, hi, free, tid, l
tvars == <<phase, lo, hi, free, tid, l>>

Cls   == Traces[tid].cfg
Cap   == Traces[tid].cap
Nodes == Cls = "N"
Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Size  == hi - lo + 1
Max(a, b) == IF a > b THEN a ELSE b

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ phase = "none" /\ lo = 1 /\ hi = 0 /\ free = 0

\* array based: indices have 16 bits, and a queue keeps one node for itself
CanExist  == Kind = "spsc" \/ Nodes \/ Cap <= (IF Kind = "stack" THEN 65535 ELSE 65534)
MustExist == Cls = "C" \/ Kind = "spsc" \/ Nodes \/ Cap <= Limit

New == /\ At("new") /\ phase = "none" /\ CanExist
       /\ Cls = "C" => Cur.al = 0
       /\ free' = IF Nodes THEN Max(Cap, Cur.al - (IF Kind = "queue" THEN 1 ELSE 0)) ELSE Cap
       /\ phase' = "live" /\ UNCHANGED <<lo, hi>>
Refused == /\ At("refused") /\ phase = "none" /\ ~MustExist
           /\ Cur.al = 0                      \* nothing left behind
           /\ phase' = "gone" /\ UNCHANGED <<lo, hi, free>>

\* n pushes in a row were accepted
Accept == /\ phase = "live" /\ Cur.n >= 1
          /\ Cur.f = hi + 1 /\ Cur.d = 1
          /\ hi' = hi + Cur.n /\ UNCHANGED <<lo, phase>>
Push  == /\ At("push") /\ Accept
         /\ IF Nodes THEN Cur.al = Max(0, Cur.n - free) ELSE Cur.n <= free /\ Cur.al = 0
         /\ free' = Max(0, free - Cur.n)
BPush == /\ At("bpush") /\ Accept
         /\ Cur.n <= free /\ Cur.al = 0
         /\ free' = free - Cur.n
Fail  == /\ More /\ phase = "live" /\ UNCHANGED <<phase, lo, hi, free>>
         /\ Cur.al = 0 /\ free = 0
         /\ Cur.e = "bpushfail" \/ (Cur.e = "pushfail" /\ ~Nodes)

Pop == /\ At("pop") /\ phase = "live" /\ Cur.n >= 1 /\ Cur.n <= Size
       /\ IF Kind = "stack" THEN /\ Cur.f = hi /\ (Cur.n > 1 => Cur.d = -1)
                                 /\ hi' = hi - Cur.n /\ UNCHANGED lo
                            ELSE /\ Cur.f = lo /\ (Cur.n > 1 => Cur.d = 1)
                                 /\ lo' = lo + Cur.n /\ UNCHANGED hi
       /\ free' = free + Cur.n /\ UNCHANGED phase
PopFail == At("popfail") /\ phase = "live" /\ Size = 0 /\ UNCHANGED <<phase, lo, hi, free>>

\* many elements at once.  Range: k asked for, n accepted.
Range == /\ At("range") /\ phase = "live" /\ Cur.f = hi + 1 /\ Cur.d = 1
         /\ Cur.n = (IF Nodes \/ Cur.k <= free THEN Cur.k ELSE free)
         /\ Cur.al = (IF Nodes THEN Max(0, Cur.k - free) ELSE 0)
         /\ hi' = hi + Cur.n /\ free' = Max(0, free - Cur.n) /\ UNCHANGED <<lo, phase>>
BRange == /\ At("brange") /\ phase = "live" /\ Cur.f = hi + 1 /\ Cur.d = 1
          /\ Cur.n = (IF Cur.k <= free THEN Cur.k ELSE free) /\ Cur.al = 0
          /\ hi' = hi + Cur.n /\ free' = free - Cur.n /\ UNCHANGED <<lo, phase>>
\* Take: the k oldest (newest) elements, or all (k = -1), were delivered in order and al says how many
Take == /\ At("take") /\ phase = "live"
        /\ Cur.n = (IF Cur.k = -1 \/ Cur.k > Size THEN Size ELSE Cur.k) /\ Cur.al = Cur.n
        /\ IF Kind = "stack" THEN /\ (Cur.n > 0 => Cur.f = hi) /\ (Cur.n > 1 => Cur.d = -1)
                                  /\ hi' = hi - Cur.n /\ UNCHANGED lo
                             ELSE /\ (Cur.n > 0 => Cur.f = lo) /\ (Cur.n > 1 => Cur.d = 1)
                                  /\ lo' = lo + Cur.n /\ UNCHANGED hi
        /\ free' = free + Cur.n /\ UNCHANGED phase
TakeReversed == /\ At("takerev") /\ phase = "live" /\ Kind = "stack"
                /\ Cur.n = Size /\ Cur.al = Cur.n
                /\ (Cur.n > 0 => Cur.f = 1) /\ (Cur.n > 1 => Cur.d = 1)
                /\ hi' = 0 /\ free' = free + Cur.n /\ UNCHANGED <<phase, lo>>
ReadAvailable  == At("ra") /\ phase = "live" /\ Cur.n = Size /\ UNCHANGED <<phase, lo, hi, free>>
WriteAvailable == At("wa") /\ phase = "live" /\ Cur.n = Cap - Size /\ UNCHANGED <<phase, lo, hi, free>>

\* reserve(n): at least n nodes more
Reserve == /\ At("res") /\ phase = "live" /\ Nodes
           /\ Cur.al >= Cur.n
           /\ free' = free + Cur.al /\ UNCHANGED <<phase, lo, hi>>
Empty == At("empty") /\ phase = "live" /\ Cur.n = (IF Size = 0 THEN 1 ELSE 0) /\ UNCHANGED <<phase, lo, hi, free>>
Gone  == At("gone") /\ phase = "live" /\ Cur.al = 0 /\ phase' = "gone" /\ UNCHANGED <<lo, hi, free>>

TNext == (New \/ Refused \/ Push \/ BPush \/ Fail \/ Pop \/ PopFail \/ Range \/ BRange \/ Take \/ TakeReversed \/ ReadAvailable \/ WriteAvailable \/ Reserve \/ Empty \/ Gone) /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
Conserved == phase = "live" /\ ~Nodes => Size + free = Cap
============================================================================
