----------------------------- MODULE RingProof -----------------------------
(***************************************************************************)
(* The ring buffer of spsc_queue for EVERY size, every batch size, every     *)
(* offset and every length of history: an inductive invariant, discharged     *)
(* symbolically by Apalache (all quantities are unbounded integers).         *)
(*                                                                         *)
(* Elements are numbered in the order of insertion.  K is an arbitrary       *)
(* element number: what holds for K holds for all.  slotK is the slot whose  *)
(* last written value is element K (-1: none).  Each side works on what it    *)
(* has last seen of the other index, which may be arbitrarily old (this is    *)
(* what acquire loads permit), writes and reads slot by slot, and publishes   *)
(* its own index last.  The index arithmetic is the one of spsc_queue.hpp.    *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
    \* @type: Int;
    Size,       \* slots: capacity + 1
    \* @type: Int;
    K,
    \* @type: Str;
    Fault       \* "" or the name of a fault that the proof must refute

VARIABLES
    \* @type: Int;
    w,          \* write_index_
    \* @type: Int;
    r,          \* read_index_
    \* @type: Int;
    P,          \* elements inserted
    \* @type: Int;
    C,          \* elements removed
    \* @type: Int;
    sw,         \* write index last seen by the consumer ...
    \* @type: Int;
    sP,         \* ... and the number of elements it stands for
    \* @type: Int;
    sr,         \* read index last seen by the producer
    \* @type: Int;
    sC,
    \* @type: Int;
    np,         \* elements of the push in progress (0: none)
    \* @type: Int;
    ip,         \* of these, already written
    \* @type: Int;
    nc,         \* elements of the removal in progress
    \* @type: Int;
    ic,         \* of these, already read
    \* @type: Int;
    slotK,
    \* @type: Bool;
    bad         \* element K was read from a slot that does not hold it, or overwritten before its removal was seen

vars == <<w, r, P, C, sw, sP, sr, sC, np, ip, nc, ic, slotK, bad>>

\* ---------------------------------------------------------------- spsc_queue.hpp
NextIndex(x) == IF x + 1 >= Size THEN (x + 1) - Size ELSE x + 1
ReadAvailable(wi, ri) == IF wi >= ri THEN wi - ri ELSE wi + Size - ri
WriteAvailable(wi, ri) == LET n == ri - wi - 1 IN
    IF Fault = "allslots" THEN (IF wi >= ri THEN n + Size + 1 ELSE n + 1)
    ELSE IF (IF Fault = "wastrict" THEN wi > ri ELSE wi >= ri) THEN n + Size ELSE n
\* slot of the i-th element (from 0) of a batch of n at index x: one section or two
Slot(x, n, i) == IF x + n > Size THEN (IF i < Size - x THEN x + i ELSE i - (Size - x)) ELSE x + i
NewIndex(x, n) == IF x + n > Size THEN (x + n) - Size
                  ELSE IF x + n = Size /\ Fault # "noreset" THEN 0 ELSE x + n

\* the index d elements before (after) index x
Back(x, d) == IF x - d >= 0 THEN x - d ELSE x - d + Size
Fwd(x, d)  == IF x + d < Size THEN x + d ELSE x + d - Size

Init == /\ w = 0 /\ r = 0 /\ P = 0 /\ C = 0 /\ sw = 0 /\ sP = 0 /\ sr = 0 /\ sC = 0
        /\ np = 0 /\ ip = 0 /\ nc = 0 /\ ic = 0 /\ slotK = -1 /\ bad = FALSE

\* the producer looks at the read index (any value between the last one seen and the current one) and starts a push of n
PBegin == /\ np = 0
          /\ \E c \in Int, n \in Int :
               /\ sC <= c /\ c <= C
               /\ sC' = c /\ sr' = Back(w, P - c)
               /\ 0 <= n /\ n <= WriteAvailable(w, Back(w, P - c))
               /\ np' = n /\ ip' = 0
          /\ UNCHANGED <<w, r, P, C, sw, sP, nc, ic, slotK, bad>>
PWrite == /\ ip < np
          /\ LET s == Slot(w, np, ip) IN
               /\ slotK' = (IF P + ip = K THEN s ELSE IF s = slotK THEN -1 ELSE slotK)
               /\ bad' = (bad \/ s < 0 \/ s >= Size \/ (s = slotK /\ P + ip # K /\ K >= sC))
          /\ ip' = ip + 1
          /\ IF Fault = "publishfirst" /\ ip = 0 THEN w' = NewIndex(w, np) /\ P' = P + np /\ np' = np /\ UNCHANGED <<sr, sC>>
             ELSE UNCHANGED <<w, P, np, sr, sC>>
          /\ UNCHANGED <<r, C, sw, sP, nc, ic>>
PPublish == /\ np > 0 /\ ip = np
            /\ w' = (IF np = 1 THEN NextIndex(w) ELSE NewIndex(w, np)) /\ P' = P + np
            /\ np' = 0 /\ ip' = 0
            /\ UNCHANGED <<r, C, sw, sP, sr, sC, nc, ic, slotK, bad>>

CBegin == /\ nc = 0
          /\ \E p \in Int, n \in Int :
               /\ sP <= p /\ p <= P
               /\ sP' = p /\ sw' = Fwd(r, p - C)
               /\ 0 <= n /\ n <= ReadAvailable(Fwd(r, p - C), r) + (IF Fault = "peekahead" THEN 1 ELSE 0)
               /\ nc' = n /\ ic' = 0
          /\ UNCHANGED <<w, r, P, C, sr, sC, np, ip, slotK, bad>>
CRead == /\ ic < nc
         /\ LET s == Slot(r, nc, ic) IN bad' = (bad \/ s < 0 \/ s >= Size \/ (C + ic = K /\ s # slotK))
         /\ ic' = ic + 1
         /\ UNCHANGED <<w, r, P, C, sw, sP, sr, sC, np, ip, nc, slotK>>
CRelease == /\ nc > 0 /\ ic = nc
            /\ r' = (IF nc = 1 THEN NextIndex(r) ELSE NewIndex(r, nc)) /\ C' = C + nc
            /\ nc' = 0 /\ ic' = 0
            /\ UNCHANGED <<w, P, sw, sP, sr, sC, np, ip, slotK, bad>>

Next == PBegin \/ PWrite \/ PPublish \/ CBegin \/ CRead \/ CRelease

\* ---------------------------------------------------------------- what is proved
\* w stands d elements after r
Rel(wi, ri, d) == 0 <= d /\ d < Size /\ ((wi >= ri /\ d = wi - ri) \/ (wi < ri /\ d = wi - ri + Size))
Index(x) == 0 <= x /\ x < Size

Safety == ~bad
Exact  == /\ ReadAvailable(w, r) = P - C                       \* the observers, when nothing else moves
          /\ WriteAvailable(w, r) = Size - 1 - (P - C)
Seen   == /\ ReadAvailable(sw, r) = sP - C /\ sP <= P           \* and on old values: never too much
          /\ WriteAvailable(w, sr) = Size - 1 - (P - sC) /\ sC <= C

Inductive ==
    /\ ~bad
    /\ Index(w) /\ Index(r) /\ Index(sw) /\ Index(sr)
    /\ 0 <= sC /\ sC <= C /\ C <= sP /\ sP <= P
    /\ Rel(w, r, P - C) /\ Rel(w, sr, P - sC) /\ Rel(sw, r, sP - C)
    /\ 0 <= ip /\ ip <= np /\ np <= Size - 1 - (P - sC)
    /\ 0 <= ic /\ ic <= nc /\ nc <= sP - C
    /\ -1 <= slotK /\ slotK < Size
    /\ (sC <= K /\ K < P) => slotK = Fwd(sr, K - sC)
    /\ (P <= K /\ K < P + ip) => slotK = Fwd(w, K - P)
    /\ K >= P + ip => slotK = -1

\* every state that satisfies the invariant (not only reachable ones)
IndInit == /\ w \in Int /\ r \in Int /\ P \in Int /\ C \in Int /\ sw \in Int /\ sP \in Int /\ sr \in Int /\ sC \in Int
           /\ np \in Int /\ ip \in Int /\ nc \in Int /\ ic \in Int /\ slotK \in Int /\ bad \in BOOLEAN
           /\ Inductive
Goal == Safety /\ Exact /\ Seen

Consts      == Size \in Int /\ K \in Int /\ Size >= 2 /\ K >= 0
CInit       == Consts /\ Fault = ""
CAllSlots   == Consts /\ Fault = "allslots"
CWaStrict   == Consts /\ Fault = "wastrict"
CNoReset    == Consts /\ Fault = "noreset"
CPublish    == Consts /\ Fault = "publishfirst"
CPeek       == Consts /\ Fault = "peekahead"
============================================================================
