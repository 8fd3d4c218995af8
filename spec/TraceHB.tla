------------------------------ MODULE TraceHB ------------------------------
(***************************************************************************)
(* Recorded atomic operations, element accesses and calls of the real       *)
(* containers against the memory model: every access to an element whose    *)
(* result is used is ordered after its construction and before the reuse    *)
(* of its cell, and whoever receives an element is ordered after the call   *)
(* that inserted it.  Elements are conserved.                               *)
(*                                                                         *)
(* Plain memory besides the elements (links of nodes and free lists): a     *)
(* write is ordered after the last write and after every read that was      *)
(* used.  A read whose last write is not ordered before it has no value: a  *)
(* thread that has done such a read must not succeed with the               *)
(* read-modify-write that follows (the lock-free algorithms read links      *)
(* that may be gone already, but then their compare-exchange fails).        *)
(*                                                                         *)
(* Kind "queue": elements are copied out before the removal is decided, so  *)
(* only the last copy of a successful call is used.                        *)
(***************************************************************************)
EXTENDS MemoryModel, Json, IOUtils, TLC

CONSTANT Kind
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, op, wr, rd, cand, born, pool, anon, pl
tvars == <<clk, view, msgs, scview, facq, frel, tid, l, op, wr, rd, cand, born, pool, anon, pl>>

Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Step  == l' = l + 1 /\ UNCHANGED tid
NoOp   == [o |-> "idle"]
NoCand == [c |-> 0, e |-> 0, ok |-> TRUE]
Pushes == {"push", "bpush", "rpush", "rbpush", "pushn"}
ToSet(s) == {s[i] : i \in 1..Len(s)}

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ MMInit(Traces[tid].nl)
         /\ op = [t \in Thread |-> NoOp]
         /\ wr = [c \in 1..Traces[tid].nc |-> <<0, 0>>]          \* last write of a cell: <<thread, moment>>
         /\ rd = [c \in 1..Traces[tid].nc |-> {}]                \* used reads since then
         /\ cand = [t \in Thread |-> NoCand]                      \* queue: copy that may turn out to be used
         /\ born = {}                                            \* <<value, thread, moment>> of running or finished insertions
         /\ anon = 0                                             \* elements removed without being shown
         /\ pl = [wr |-> [g \in 1..Traces[tid].np |-> <<0, 0>>],     \* plain memory: last write,
                   rd |-> [g \in 1..Traces[tid].np |-> {}],          \* used reads since then,
                   pend |-> [t \in Thread |-> {}],                   \* reads that may turn out to be used,
                   bad |-> {}]                                       \* threads that have read a racing link
         /\ pool = ToSet(Traces[tid].init)                       \* values that can still be received

Fresh(t) == pl' = [pl EXCEPT !.pend[t] = {}, !.bad = @ \ {t}]      \* t starts over
Used(t)  == /\ t \notin pl.bad
            /\ pl' = [pl EXCEPT !.pend[t] = {},
                        !.rd = [g \in DOMAIN pl.rd |-> pl.rd[g] \cup {<<t, x[2]>> : x \in {y \in pl.pend[t] : y[1] = g}}]]
EvAtomic ==
    /\ At("A") /\ Step /\ UNCHANGED <<op, wr, rd, cand, born, pool, anon>>
    /\ \/ Cur.k = "L" /\ Load(Cur.t, Cur.l, Cur.m, Cur.i) /\ Fresh(Cur.t)
       \/ Cur.k = "F" /\ Load(Cur.t, Cur.l, Cur.m, Cur.i) /\ Fresh(Cur.t)
       \/ Cur.k = "S" /\ Store(Cur.t, Cur.l, Cur.m) /\ UNCHANGED pl
       \/ Cur.k = "R" /\ Rmw(Cur.t, Cur.l, Cur.m) /\ Used(Cur.t)
       \/ Cur.k = "N" /\ Fence(Cur.t, Cur.m) /\ UNCHANGED pl
       \/ Cur.k = "U" /\ Overwrite(Cur.l) /\ UNCHANGED pl

\* a write hits reads of others that may still turn out to be used
Hit(G) == {u \in Thread \ {Cur.t} : \E x \in pl.pend[u] : x[1] \in G /\ ~Ordered(u, x[2], Cur.t)}
PlainWritten(g) == /\ Ordered(pl.wr[g][1], pl.wr[g][2], Cur.t)
                   /\ \A r \in pl.rd[g] : Ordered(r[1], r[2], Cur.t)
EvPlain ==
    /\ At("M") /\ Step /\ UNCHANGED <<mmvars, op, wr, rd, cand, born, pool, anon>>
    /\ LET G == ToSet(Cur.g) IN
       \/ /\ Cur.k = "R"
          /\ pl' = [pl EXCEPT !.pend[Cur.t] = @ \cup {<<g, Now(Cur.t)>> : g \in G},
                              !.bad = IF \A g \in G : Ordered(pl.wr[g][1], pl.wr[g][2], Cur.t) THEN @ ELSE @ \cup {Cur.t}]
       \/ /\ Cur.k = "W" /\ \A g \in G : PlainWritten(g)
          /\ pl' = [pl EXCEPT !.bad = @ \cup Hit(G), !.wr = [g \in DOMAIN @ |-> IF g \in G THEN <<Cur.t, Now(Cur.t)>> ELSE @[g]],
                              !.rd = [g \in DOMAIN @ |-> IF g \in G THEN {} ELSE @[g]]]
       \/ /\ Cur.k = "A"       \* an atomic write to the same memory
          /\ pl' = [pl EXCEPT !.bad = @ \cup Hit(G), !.wr = [g \in DOMAIN @ |-> IF g \in G THEN <<Cur.t, Now(Cur.t)>> ELSE @[g]]]

WriteOK(c, t) == /\ Ordered(wr[c][1], wr[c][2], t)
                 /\ \A r \in rd[c] : Ordered(r[1], r[2], t)
EvWrite ==
    /\ At("P") /\ Cur.k \in {"C", "W", "D"}
    /\ WriteOK(Cur.l, Cur.t)
    /\ wr' = [wr EXCEPT ![Cur.l] = <<Cur.t, Now(Cur.t)>>]
    /\ rd' = [rd EXCEPT ![Cur.l] = {}]
    /\ cand' = [u \in Thread |-> IF cand[u].c = Cur.l /\ u # Cur.t /\ ~Ordered(u, cand[u].e, Cur.t)
                                THEN [cand[u] EXCEPT !.ok = FALSE] ELSE cand[u]]
    /\ UNCHANGED <<mmvars, op, born, pool, anon, pl>> /\ Step
EvRead ==
    /\ At("P") /\ Cur.k = "R"
    /\ IF Kind = "queue"
       THEN /\ cand' = [cand EXCEPT ![Cur.t] = [c |-> Cur.l, e |-> Now(Cur.t), ok |-> Ordered(wr[Cur.l][1], wr[Cur.l][2], Cur.t)]]
            /\ UNCHANGED rd
       ELSE /\ Ordered(wr[Cur.l][1], wr[Cur.l][2], Cur.t)
            /\ rd' = [rd EXCEPT ![Cur.l] = @ \cup {<<Cur.t, Now(Cur.t)>>}]
            /\ UNCHANGED cand
    /\ UNCHANGED <<mmvars, op, wr, born, pool, anon, pl>> /\ Step
EvCall ==
    /\ At("c") /\ op[Cur.t].o = "idle"
    /\ op' = [op EXCEPT ![Cur.t] = [o |-> Cur.o, a |-> Cur.a, n |-> Cur.n, v |-> Cur.v]]
    /\ cand' = [cand EXCEPT ![Cur.t] = NoCand]
    /\ LET ins == IF Cur.o \in Pushes THEN ToSet(SubSeq(Cur.a, 1, Cur.n)) ELSE {} IN
       /\ born' = born \cup {<<v, Cur.t, Now(Cur.t)>> : v \in ins}
       /\ pool' = pool \cup ins
    /\ UNCHANGED <<mmvars, wr, rd, anon, pl>> /\ Step
EvRet ==
    /\ At("r") /\ op[Cur.t].o # "idle"
    /\ LET x == op[Cur.t] IN
       /\ op' = [op EXCEPT ![Cur.t] = NoOp]
       /\ x.o \notin Pushes => \A i \in 1..Len(x.v) : \A b \in born : b[1] = x.v[i] => Ordered(b[2], b[3], Cur.t)
       /\ Len(x.v) > 0 => cand[Cur.t].ok
       \* received exactly once
       /\ \A i, j \in 1..Len(x.v) : x.v[i] = x.v[j] => i = j
       /\ IF x.o = "front" THEN ToSet(x.v) \subseteq pool /\ UNCHANGED pool
                           ELSE ToSet(x.v) \subseteq pool /\ pool' = pool \ ToSet(x.v)
       /\ anon' = IF x.o = "popv" THEN anon + x.n ELSE anon
    /\ UNCHANGED <<mmvars, wr, rd, cand, born, pl>> /\ Step
EvFork == At("G") /\ Fork /\ UNCHANGED <<op, wr, rd, cand, born, pool, anon, pl>> /\ Step
EvJoin == At("J") /\ JoinT /\ UNCHANGED <<op, wr, rd, cand, born, pool, anon, pl>> /\ Step
EvEnd  == At("E") /\ ToSet(Cur.v) \subseteq pool /\ Cardinality(ToSet(Cur.v)) = Len(Cur.v)
          /\ Len(Cur.v) = Cardinality(pool) - anon /\ pool' = {} /\ anon' = 0
          /\ UNCHANGED <<mmvars, op, wr, rd, cand, born, pl>> /\ Step
EvSkip == More /\ Cur.e \in {"d", "B", "Y", "K", "Z"} /\ UNCHANGED <<mmvars, op, wr, rd, cand, born, pool, anon, pl>> /\ Step

TNext == EvAtomic \/ EvPlain \/ EvWrite \/ EvRead \/ EvCall \/ EvRet \/ EvFork \/ EvJoin \/ EvEnd \/ EvSkip
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
