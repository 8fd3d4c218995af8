-------------------------- MODULE TraceContainer --------------------------
(***************************************************************************)
(* Are histories recorded from the real stack / queue behaviours of        *)
(* AbsContainer?  A file holds one history per line; every history starts  *)
(* its own behaviour.  Events: c call, d functor call, r return, a memory  *)
(* obtained from the allocator, E content found at the end, K number of    *)
(* bounded pushes accepted at the end.  Any other event (crash, stuck      *)
(* thread, use of freed memory) is not a behaviour of the specification.   *)
(*                                                                         *)
(* A call event carries its result, so that the internal moments are       *)
(* resolved towards it.  Internal steps are taken as late as possible      *)
(* (only when the next event is not a call), which loses no behaviour:     *)
(* a call event commutes to the left of other threads' internal steps.     *)
(***************************************************************************)
EXTENDS AbsContainer, MemDiscipline, Locality, Json, IOUtils, TLC

CONSTANTS CheckEmpty,  \* check results of overlapped empty() calls
          CheckMem     \* check the use of the allocator
Traces == Histories(ndJsonDeserialize(IOEnv.TRACE_FILE))

VARIABLES tid, l, ci, mem
tvars == <<content, pend, free, tid, l, ci, mem>>

Ev     == Traces[tid].ev
More   == l <= Len(Ev)
Cur    == Ev[l]
Exp(t) == Ev[ci[t]]                 \* the call event of t's pending call: .n and .v are its result
At(e)  == More /\ Cur.e = e
Next1  == l' = l + 1 /\ UNCHANGED tid
Step   == Next1 /\ UNCHANGED mem
Max(a, b) == IF a > b THEN a ELSE b

InitContent(tr) == IF Kind = "stack" THEN Reverse(tr.init) ELSE tr.init

TInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ ci = [t \in Thread |-> 0]
    /\ content = InitContent(Traces[tid])
    /\ pend = [t \in Thread |-> Idle]
    /\ mem = MemInit
    /\ free = Max(Traces[tid].cap, Len(Traces[tid].init)) - Len(Traces[tid].init)

IsPrefixAt(s, x, i) == i <= Len(s) /\ s[i] = x

EvCall == /\ At("c")
          /\ Call(Cur.t, Cur.o, Cur.a)
          /\ ci' = [ci EXCEPT ![Cur.t] = l]
          /\ Step
EvRet  == /\ At("r")
          /\ Return(Cur.t)
          /\ pend[Cur.t].res = Exp(Cur.t).n
          /\ pend[Cur.t].got = Exp(Cur.t).v
          /\ ci' = [ci EXCEPT ![Cur.t] = 0]
          /\ Step
EvDeliver == At("d") /\ Deliver(Cur.t) /\ Step /\ UNCHANGED ci
EvAlloc == /\ At("a")
           /\ (IF Cur.t = 0 THEN UNCHANGED absvars
               ELSE IF Strict THEN Alloc(Cur.t) \/ ReserveAlloc(Cur.t) ELSE UNCHANGED absvars)
           /\ LET r == MemAlloc(mem, Traces[tid].cfg, Cur.t, Cur.w, Cur.b, Cur.s) IN
              /\ CheckMem => r.ok
              /\ mem' = r.m
           /\ Next1 /\ UNCHANGED ci
EvFree  == /\ At("f") /\ UNCHANGED absvars
           /\ LET r == MemFree(mem, Cur.w, Cur.b, Cur.s) IN
              /\ CheckMem => r.ok
              /\ mem' = r.m
           /\ Next1 /\ UNCHANGED ci
Quiet   == \A t \in Thread : ~Busy(t)
EvEnd   == /\ At("E") /\ Quiet
           /\ Cur.v = content
           /\ content' = <<>> /\ free' = free + Len(content)
           /\ UNCHANGED pend /\ Step /\ UNCHANGED ci
EvFill  == /\ At("K") /\ Quiet
           /\ Strict => Cur.n = free
           /\ UNCHANGED absvars /\ Step /\ UNCHANGED ci
Phase   == [B |-> "use", Y |-> "dtor", G |-> mem.phase, J |-> mem.phase]
EvMark  == /\ More /\ Cur.e \in {"B", "G", "J", "Y"} /\ Quiet /\ UNCHANGED absvars
           /\ mem' = MemPhase(mem, Phase[Cur.e])
           /\ Next1 /\ UNCHANGED ci
EvDead  == /\ At("Z") /\ Quiet
           /\ CheckMem => Cur.o = 0 /\ MemClean(mem) /\ (Kind = "stack" => Cur.l = 0)
           /\ UNCHANGED absvars /\ Step /\ UNCHANGED ci

EvThrow == /\ At("T")
           /\ IF Cur.t = 0 THEN UNCHANGED absvars ELSE Throw(Cur.t)
           /\ Step /\ UNCHANGED ci
\* the construction was refused because an allocation failed
EvRefused == /\ At("V") /\ l > 1
             /\ Cur.w = 1 /\ \E i \in 1..(l - 1) : Ev[i].e = "T"
             /\ UNCHANGED absvars /\ mem' = MemPhase(mem, "dtor") /\ Next1 /\ UNCHANGED ci

Event == EvThrow \/ EvRefused \/ EvCall \/ EvRet \/ EvDeliver \/ EvAlloc \/ EvFree \/ EvEnd \/ EvFill \/ EvMark \/ EvDead

\* internal steps, guided by the known result of the call
Guided(t) ==
    LET p == pend[t]  x == Exp(t) IN
    /\ Running(t) \/ (Strict /\ Busy(t))
    /\ UNCHANGED <<tid, l, ci, mem>>
    /\ \/ /\ p.o \in PushOps
          /\ \/ p.h < (IF x.n < 0 THEN Len(x.a) ELSE x.n) /\ Take(t)
             \/ (x.n < Len(x.a) \/ p.o \notin BoundedOps) /\ SeeFull(t)
             \/ x.n >= 0 /\ Link(t, x.n)
       \/ p.o \in RemOps /\ content # <<>> /\ IsPrefixAt(x.v, content[1], Len(p.got) + 1) /\ Remove(t)
       \/ p.o \in RemOps /\ x.n = Len(p.got) /\ SeeEmpty(t)
       \/ p.o \in AllOps /\ Len(x.v) = Len(content) /\ RemoveAll(t)
       \/ Release(t)
       \/ ReserveDone(t)
       \/ x.n = Thrown /\ Fail(t)
       \/ p.o = "empty" /\ Observe(t)
       \/ p.o = "cyc" /\ Cycle(t)
       \/ \* overlapped empty() of a queue is only advisory
          /\ p.o = "empty" /\ ~CheckEmpty /\ ~p.done
          /\ \E u \in Thread \ {t} : Busy(u)
          /\ Upd(t, [p EXCEPT !.done = TRUE, !.res = x.n])
          /\ UNCHANGED <<content, free>>

Lazy == More /\ Cur.e \notin {"c", "f", "B", "Y"}

TNext == Event \/ (Lazy /\ \E t \in Thread : Guided(t))

TSpec == TInit /\ [][TNext]_tvars

----------------------------------------------------------------------------
\* bookkeeping (single worker): register i = furthest event of history i
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))    \* accepted: look no further
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)

\* sanity of the specification itself, evaluated in every state of every history
Total == IF tid = 0 THEN 0 ELSE Max(Traces[tid].cap, Len(Traces[tid].init))
TypeOK == /\ free >= 0
          /\ \A t \in Thread : (Busy(t) /\ pend[t].o # "res") => pend[t].dl <= Len(pend[t].got)
          /\ \A i, j \in 1..Len(content) : content[i] = content[j] => i = j
============================================================================
