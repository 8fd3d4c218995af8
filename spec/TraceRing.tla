----------------------------- MODULE TraceRing -----------------------------
(***************************************************************************)
(* Does the code follow SpscRing?  As TraceTreiber, for the ring.  Every     *)
(* atomic operation of the code is the step of the algorithm on the same     *)
(* index, with an order at least as strong; a load returns the message the   *)
(* real one did.  Constants Size, Rotated and Init0 come from the programs:  *)
(* one run of TLC for each combination.                                     *)
(***************************************************************************)
EXTENDS SpscRing, Json, IOUtils

VARIABLES tid, l, lm, running
tvars == <<vars, tid, l, lm, running>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ev  == Traces[tid].ev
At(e) == l <= Len(Ev) /\ Ev[l].e = e
Cur == Ev[l]
Next1 == l' = l + 1 /\ UNCHANGED tid
ForkAt == CHOOSE i \in 1..Len(Ev) : Ev[i].e = "G"
\* messages written before the fork
Base(loc_) == Cardinality({i \in 1..ForkAt : Ev[i].e = "A" /\ Ev[i].l = loc_ /\ Ev[i].k \in {"S", "R"}})
ThisMessage(loc_) == {Cur.i - Base(Cur.l)}
RealOrders == [own |-> "r", pushsees |-> "a", publish |-> "l", popsees |-> "a", release |-> "l"]
Content0 == <<>>
Content1 == <<1>>
Content2 == <<1, 2>>

TInit == /\ tid \in 1..Len(Traces)
         /\ l = ForkAt + 1
         /\ TLCSet(tid, 1)
         /\ lm = <<>> /\ running = 0
         /\ Init
Settled == IF running = 0 THEN TRUE ELSE pc[running] \notin {"p2", "c2", "c3", "c5"}
Silent == ~Settled /\ (P2 \/ C2 \/ C3 \/ C5) /\ UNCHANGED <<was, tid, l, lm, running>>
Count_(o, a) == CASE o \in {"pop", "popv", "c1"} -> <<1>> [] o = "popn" -> a [] OTHER -> <<1000000>>
EvCall == /\ Settled /\ At("c") /\ pc[Cur.t] = "idle"
          /\ IF Cur.t = P THEN Begin(P, "push", Cur.a) ELSE Begin(C, "pop", Count_(Cur.o, Cur.a))
          /\ running' = Cur.t /\ Next1 /\ NoCell /\ UNCHANGED <<mmvars, hist, sent, recv, prog, was, lm>>
Where == [p0 |-> W, p1 |-> R, p3 |-> W, c0 |-> W, c1 |-> R, c4 |-> R]
Role  == [p0 |-> "own", p1 |-> "pushsees", p3 |-> "publish", c0 |-> "popsees", c1 |-> "own", c4 |-> "release"]
Strong(m, o) == \/ m = o \/ m = "s" \/ (m = "x" /\ o \in {"a", "l"}) \/ (m = "c" /\ o = "a") \/ o = "r"
EvAtomic == /\ Settled /\ At("A") /\ Cur.t # 0 /\ Cur.k \in {"L", "S"}
            /\ pc[Cur.t] \in DOMAIN Where
            /\ LET w == Where[pc[Cur.t]]  b == {i \in 1..Len(lm) : lm[i][1] = Cur.l}  u == {i \in 1..Len(lm) : lm[i][2] = w} IN
               IF b = {} THEN u = {} /\ lm' = Append(lm, <<Cur.l, w>>) ELSE b = u /\ lm' = lm
            /\ Strong(Cur.m, Ord[Role[pc[Cur.t]]])
            /\ (Cur.k = "S") = (pc[Cur.t] \in {"p3", "c4"})
            /\ IF Cur.t = P THEN P0 \/ P1 \/ P3 ELSE C0 \/ C1 \/ C4
            /\ running' = Cur.t /\ Next1 /\ UNCHANGED was
Exp(t) == Ev[CHOOSE i \in 1..l : Ev[i].e = "c" /\ Ev[i].t = t /\ \A j \in i + 1..l : ~(Ev[j].e = "c" /\ Ev[j].t = t)]
EvRet == /\ Settled /\ At("r") /\ pc[Cur.t] = "ret"
         /\ x(Cur.t).res = Exp(Cur.t).n /\ (Cur.t = C => x(C).got = Exp(C).v)
         /\ Go(Cur.t, "idle", x(Cur.t))
         /\ running' = 0 /\ Next1 /\ NoCell /\ UNCHANGED <<mmvars, hist, sent, recv, prog, was, lm>>
EvOther == /\ Settled /\ l <= Len(Ev) /\ (Cur.e \notin {"c", "A", "r", "X", "E", "J"} \/ (Cur.e = "A" /\ Cur.k \in {"N", "U"})) /\ Next1 /\ UNCHANGED <<vars, lm, running>>
EvJoin == /\ Settled /\ At("J") /\ pc[P] = "idle" /\ pc[C] = "idle"
          /\ \A j \in l..Len(Ev) : Ev[j].e = "E" => Ev[j].v = SubSeq(sent, Len(recv) + 1, Len(sent))
          /\ NoRace /\ Fifo
          /\ l' = Len(Ev) + 1 /\ UNCHANGED <<vars, tid, lm, running>>
TNext == Silent \/ EvCall \/ EvAtomic \/ EvRet \/ EvOther \/ EvJoin
TSpec == TInit /\ [][TNext]_tvars

Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
