----------------------------- MODULE TraceSpsc -----------------------------
(***************************************************************************)
(* Are histories recorded from the real spsc_queue behaviours of SpscAbs?   *)
(* Thread 1 is the producer, thread 2 the consumer.  See TraceContainer     *)
(* for the format.                                                         *)
(***************************************************************************)
EXTENDS SpscAbs, MemDiscipline, Locality, Json, IOUtils, TLC

CONSTANTS CheckMem,
          CheckFill    \* check that the whole capacity is available at the end

Traces == Histories(ndJsonDeserialize(IOEnv.TRACE_FILE))

VARIABLES tid, l, pi, ki, mem
tvars == <<q, held, prod, cons, cap, tid, l, pi, ki, mem>>

Ev    == Traces[tid].ev
More  == l <= Len(Ev)
Cur   == Ev[l]
At(e) == More /\ Cur.e = e
Next1 == l' = l + 1 /\ UNCHANGED tid
Step  == Next1 /\ UNCHANGED mem
PX    == Ev[pi]
CX    == Ev[ki]

TInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ pi = 0 /\ ki = 0
    /\ q = Traces[tid].init
    /\ held = 0 /\ prod = Idle /\ cons = Idle
    /\ cap = Traces[tid].cap
    /\ mem = MemInit

EvCall == /\ At("c")
          /\ \/ Cur.t = 1 /\ ProdCall(Cur.o, Cur.a) /\ pi' = l /\ UNCHANGED ki
             \/ Cur.t = 2 /\ ConsCall(Cur.o, Cur.a) /\ ki' = l /\ UNCHANGED pi
          /\ Step
EvRet == /\ At("r")
         /\ \/ /\ Cur.t = 1 /\ ProdReturn
               /\ ProdResult = PX.n
               /\ pi' = 0 /\ UNCHANGED ki
            \/ /\ Cur.t = 2 /\ ConsReturn
               /\ ConsResult = CX.n
               /\ cons.o # "popv" => cons.got = CX.v
               /\ ki' = 0 /\ UNCHANGED pi
         /\ Step
Quiet == ~PBusy /\ ~CBusy
EvEnd == /\ At("E") /\ Quiet /\ Cur.v = q
         /\ q' = <<>> /\ UNCHANGED <<held, prod, cons, cap, pi, ki>> /\ Step
EvFill == /\ At("K") /\ Quiet
          /\ CheckFill => Cur.n = Space
          /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>> /\ Step
EvAlloc == /\ At("a") /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>>
           /\ LET r == MemAlloc(mem, IF Traces[tid].cfg = "R" THEN "F" ELSE "C", Cur.t, Cur.w, Cur.b, Cur.s) IN
              /\ CheckMem => r.ok
              /\ mem' = r.m
           /\ Next1
EvFree == /\ At("f") /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>>
          /\ LET r == MemFree(mem, Cur.w, Cur.b, Cur.s) IN
             /\ CheckMem => r.ok
             /\ mem' = r.m
          /\ Next1
Phase  == [B |-> "use", Y |-> "dtor", G |-> mem.phase, J |-> mem.phase]
EvMark == /\ More /\ Cur.e \in {"B", "G", "J", "Y"} /\ Quiet
          /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>>
          /\ mem' = MemPhase(mem, Phase[Cur.e])
          /\ Next1
EvDead == /\ At("Z") /\ Quiet
          /\ CheckMem => Cur.o = 0 /\ MemClean(mem) /\ Cur.l = 0
          /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>> /\ Step

\* guided internal steps
Silent ==
    /\ UNCHANGED <<tid, l, pi, ki, mem>>
    /\ \/ PBusy /\ prod.j < PX.n /\ Publish
       \/ PBusy /\ prod.o \in PushOps /\ prod.lim < 0 /\ PX.n < Len(prod.a) /\ prod.j + Space = PX.n /\ SeeSpace
       \/ CBusy /\ Len(cons.got) < CX.n /\ Take /\ (cons.o # "popv" => Len(cons.got) < Len(CX.v) /\ CX.v[Len(cons.got) + 1] = Head(q))
       \/ CBusy /\ cons.o \in PopOps /\ cons.lim < 0 /\ CX.n < cons.want /\ Len(cons.got) + Len(q) = CX.n /\ SeeAvail
       \/ CBusy /\ Release
       \/ PBusy /\ prod.o = "wa" /\ ObsValue("wa") = PX.n /\ ProdObserve
       \/ CBusy /\ cons.o = "ra" /\ ObsValue("ra") = CX.n /\ ConsObserve
       \/ CBusy /\ cons.o = "front" /\ ObsValue("front") = CX.n /\ ConsObserve
       \/ \* other observers answer exactly if nobody else is active; otherwise they are only advisory
          /\ PBusy /\ prod.o \in {"ra", "empty"}
          /\ IF CBusy THEN prod.res = -1 /\ prod' = [prod EXCEPT !.res = PX.n] /\ UNCHANGED <<q, held, cons, cap>>
                      ELSE ProdObserve
       \/ /\ CBusy /\ cons.o \in {"wa", "empty"}
          /\ IF PBusy THEN cons.res = -1 /\ cons' = [cons EXCEPT !.res = CX.n] /\ UNCHANGED <<q, held, prod, cap>>
                      ELSE ConsObserve

Lazy == More /\ Cur.e \notin {"c", "f", "a", "B", "Y"}
EvThrow == /\ At("T")
           /\ IF Cur.t = 0 THEN UNCHANGED <<q, held, prod, cons, cap>> ELSE Cur.t = 1 /\ ProdThrow
           /\ Step /\ UNCHANGED <<pi, ki>>
EvRefused == /\ At("V") /\ l > 1
             /\ Cur.w = 1 /\ \E i \in 1..(l - 1) : Ev[i].e = "T"
             /\ UNCHANGED <<q, held, prod, cons, cap, pi, ki>> /\ mem' = MemPhase(mem, "dtor") /\ Next1
TNext == EvThrow \/ EvRefused \/ EvCall \/ EvRet \/ EvEnd \/ EvFill \/ EvAlloc \/ EvFree \/ EvMark \/ EvDead \/ (Lazy /\ Silent)
TSpec == TInit /\ [][TNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
TypeOK == Bounded
============================================================================
