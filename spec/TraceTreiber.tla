---------------------------- MODULE TraceTreiber ----------------------------
(***************************************************************************)
(* Does the code follow TreiberStack?  Histories with every atomic operation *)
(* (c call, A atomic operation, r return) recorded from the real stack are   *)
(* replayed on the algorithm: each A must be the next atomic step of that    *)
(* thread's call on the matching location with the matching outcome, and     *)
(* each r must find the call finished with the recorded result.  Locations   *)
(* are bound to tos and pool when they are first used.  Plain steps of a      *)
(* thread are taken at once: the real thread is not interrupted there.        *)
(***************************************************************************)
EXTENDS TreiberStack, Json, IOUtils

VARIABLES tid, l, lm, running
tvars == <<vars, tid, l, lm, running>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Ev  == Traces[tid].ev
At(e) == l <= Len(Ev) /\ Ev[l].e = e
Cur == Ev[l]
Next1 == l' = l + 1 /\ UNCHANGED tid
Fixed == Traces[tid].cfg \in {"C", "F"}
Op(o) == CASE Fixed /\ o = "push" -> "bpush" [] Fixed /\ o = "rpush" -> "rbpush" [] OTHER -> o
Max(a, b) == IF a > b THEN a ELSE b

TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1 + (CHOOSE i \in 1..Len(Ev) : Ev[i].e = "G")     \* after the fork
         /\ TLCSet(tid, 1)
         /\ lm = <<>> /\ running = 0
         /\ prog = <<>> /\ solo = [t |-> 0, c |-> 0]
         /\ LET tr == Traces[tid]  m == Len(tr.init)  n == Max(tr.cap, m) IN
            /\ link = [i \in Node |-> IF i < m THEN i + 1 ELSE IF i = m THEN NULL ELSE IF i < n THEN i + 1 ELSE NULL]
            /\ val = [i \in Node |-> IF i <= m THEN tr.init[m + 1 - i] ELSE 0]
            /\ tos = H(IF m > 0 THEN 1 ELSE NULL, 0)
            /\ pool = H(IF n > m THEN m + 1 ELSE NULL, 0)
            /\ made = n
         /\ th = [t \in Thread |-> IdleTh]

Silent == {"alN", "con", "al1", "pu1", "po1", "del", "fr1", "rv0", "tr0", "rs0", "rs1"}
Quiet == IF running = 0 THEN TRUE ELSE th[running].pc \notin Silent
Plain == /\ ~Quiet
         /\ LET t == running IN AlN(t) \/ Con(t) \/ Al1(t) \/ Pu1(t) \/ Po1(t) \/ Del(t) \/ Fr1(t) \/ Rv0(t) \/ Tr0(t) \/ Rs0(t) \/ Rs1(t)
         /\ UNCHANGED <<tid, l, lm, running, solo>>

EvCall == /\ Quiet /\ At("c") /\ th[Cur.t].pc = "idle"
          /\ Set(Cur.t, Begin(Op(Cur.o), Cur.a))
          /\ running' = Cur.t /\ Next1 /\ UNCHANGED <<tos, pool, link, val, made, prog, solo, lm>>
Where == [al0 |-> "pool", al2 |-> "pool", fr0 |-> "pool", fr2 |-> "pool", pu0 |-> "tos", pu2 |-> "tos", po0 |-> "tos", po2 |-> "tos",
          ca0 |-> "tos", ca1 |-> "tos"]
IsLoad == {"al0", "fr0", "pu0", "po0", "ca0"}
Won(t) == IF Where[x(t).pc] = "pool" THEN pool' # pool ELSE tos' # tos
Atomic(t) == Al0(t) \/ Al2(t) \/ Fr0(t) \/ Fr2(t) \/ Pu0(t) \/ Pu2(t) \/ Po0(t) \/ Po2(t) \/ Ca0(t) \/ Ca1(t)
EvAtomic == /\ Quiet /\ At("A") /\ Cur.t # 0 /\ Cur.k \notin {"N", "U"}
            /\ th[Cur.t].pc \in DOMAIN Where
            /\ LET w == Where[th[Cur.t].pc]  b == {i \in 1..Len(lm) : lm[i][1] = Cur.l}  u == {i \in 1..Len(lm) : lm[i][2] = w} IN
               IF b = {} THEN u = {} /\ lm' = Append(lm, <<Cur.l, w>>) ELSE b = u /\ lm' = lm
            /\ Atomic(Cur.t)
            /\ IF th[Cur.t].pc \in IsLoad THEN Cur.k = "L"
               ELSE (Cur.k = "R" /\ Won(Cur.t)) \/ (Cur.k = "F" /\ ~Won(Cur.t))
            /\ running' = Cur.t /\ Next1 /\ UNCHANGED solo
\* the result the call event announced
Exp(t) == Ev[CHOOSE i \in 1..l : Ev[i].e = "c" /\ Ev[i].t = t /\ \A j \in i + 1..l : ~(Ev[j].e = "c" /\ Ev[j].t = t)]
EvRet == /\ Quiet /\ At("r") /\ th[Cur.t].pc = "ret"
         /\ x(Cur.t).res = Exp(Cur.t).n /\ x(Cur.t).got = Exp(Cur.t).v
         /\ Set(Cur.t, IdleTh)
         /\ running' = 0 /\ Next1 /\ UNCHANGED <<tos, pool, link, val, made, prog, solo, lm>>
\* deliveries, fences, notes that a location was changed by a plain access
EvOther == /\ Quiet /\ l <= Len(Ev) /\ (Cur.e \notin {"c", "A", "r", "X", "E", "J"} \/ (Cur.e = "A" /\ Cur.k \in {"N", "U"})) /\ Next1 /\ UNCHANGED <<vars, lm, running>>
\* at the join: every call is over, the content found at the end is the content of the model
EvJoin == /\ Quiet /\ At("J") /\ \A t \in Thread : th[t].pc = "idle"
          /\ \A j \in l..Len(Ev) : Ev[j].e = "E" => Ev[j].v = AbsContent
          /\ l' = Len(Ev) + 1 /\ UNCHANGED <<vars, tid, lm, running>>
TNext == Plain \/ EvCall \/ EvAtomic \/ EvRet \/ EvOther \/ EvJoin
TSpec == TInit /\ [][TNext]_tvars

Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
