---------------------------- MODULE TraceMSQueue ----------------------------
(***************************************************************************)
(* Does the code follow MSQueue?  As TraceTreiber, for the queue.  Locations *)
(* are head, tail, pool and the next field of every node, bound when first   *)
(* used.  consume_all is a sequence of pops that ends with an empty one.      *)
(***************************************************************************)
EXTENDS MSQueue, Json, IOUtils

VARIABLES tid, l, lm, running, acc     \* acc: elements consume_all has taken so far, per thread
tvars == <<vars, tid, l, lm, running, acc>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Ev  == Traces[tid].ev
At(e) == l <= Len(Ev) /\ Ev[l].e = e
Cur == Ev[l]
Next1 == l' = l + 1 /\ UNCHANGED tid
Fixed == Traces[tid].cfg \in {"C", "F"}
Max(a, b) == IF a > b THEN a ELSE b
Op(o) == CASE o = "push" -> IF Fixed THEN "bpush" ELSE "push" [] o \in {"bpush", "res"} -> o [] OTHER -> "pop"
Ghosts == UNCHANGED <<wasEmpty, wasFull, solo>>

TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1 + (CHOOSE i \in 1..Len(Ev) : Ev[i].e = "G")     \* after the fork
         /\ TLCSet(tid, 1)
         /\ lm = <<>> /\ running = 0 /\ acc = [t \in Thread |-> <<>>]
         /\ prog = <<>> /\ solo = [t |-> 0, c |-> 0]
         /\ wasEmpty = [t \in Thread |-> FALSE] /\ wasFull = [t \in Thread |-> FALSE]
         /\ LET tr == Traces[tid]  m == Len(tr.init)  n == Max(tr.cap, m) + 1 IN
            /\ next = [i \in Node |-> H(IF i <= m THEN i + 1 ELSE IF i = m + 1 THEN NULL ELSE IF i < n THEN i + 1 ELSE NULL, 0)]
            /\ val = [i \in Node |-> IF i \in 2..m + 1 THEN tr.init[i - 1] ELSE 0]
            /\ head = H(1, 0) /\ tail = H(m + 1, 0)
            /\ pool = H(IF n > m + 1 THEN m + 2 ELSE NULL, 0)
            /\ made = n
         /\ th = [t \in Thread |-> IdleTh]

Where(t) == CASE x(t).pc \in {"al0", "al2", "fr0", "fr2"} -> <<"pool", 0>>
              [] x(t).pc \in {"con0", "con1"} -> <<"next", x(t).n>>
              [] x(t).pc \in {"e0", "e2", "e4", "e5", "d1", "d6"} -> <<"tail", 0>>
              [] x(t).pc \in {"e1", "e3"} -> <<"next", x(t).tl.p>>
              [] x(t).pc \in {"d0", "d3", "d5"} -> <<"head", 0>>
              [] x(t).pc = "d2" -> <<"next", x(t).hd.p>>
Loads  == {"al0", "fr0", "con0", "e0", "e1", "e2", "d0", "d1", "d2", "d3"}
Stores == {"con1"}
Silent == {"alN", "al1", "d4", "fr1", "rs0"}
Atomics == Loads \cup Stores \cup {"al2", "fr2", "e3", "e4", "e5", "d5", "d6"}
Quiet == IF running = 0 THEN TRUE ELSE th[running].pc \notin Silent
Plain == /\ ~Quiet
         /\ LET t == running IN AlN(t) \/ Al1(t) \/ D4(t) \/ Fr1(t) \/ Rs0(t)
         /\ UNCHANGED <<tid, l, lm, running, acc>> /\ Ghosts

Begin(o, a) == [IdleTh EXCEPT !.o = o, !.a = a, !.pc = First(o)]
EvCall == /\ Quiet /\ At("c") /\ th[Cur.t].pc = "idle"
          /\ Set(Cur.t, Begin(Op(Cur.o), Cur.a))
          /\ acc' = [acc EXCEPT ![Cur.t] = <<>>]
          /\ running' = Cur.t /\ Next1 /\ UNCHANGED <<mem, prog, lm>> /\ Ghosts
Won == mem' # mem
EvAtomic == /\ Quiet /\ At("A") /\ Cur.t # 0 /\ Cur.k \notin {"N", "U"}
            /\ th[Cur.t].pc \in Atomics
            /\ LET w == Where(Cur.t)  b == {i \in 1..Len(lm) : lm[i][1] = Cur.l}  u == {i \in 1..Len(lm) : lm[i][2] = w} IN
               IF b = {} THEN u = {} /\ lm' = Append(lm, <<Cur.l, w>>) ELSE b = u /\ lm' = lm
            /\ LET t == Cur.t IN Al0(t) \/ Al2(t) \/ Con0(t) \/ Con1(t) \/ E0(t) \/ E1(t) \/ E2(t) \/ E3(t) \/ E4(t) \/ E5(t)
                                 \/ D0(t) \/ D1(t) \/ D2(t) \/ D3(t) \/ D5(t) \/ D6(t) \/ Fr0(t) \/ Fr2(t)
            /\ IF th[Cur.t].pc \in Loads THEN Cur.k = "L"
               ELSE IF th[Cur.t].pc \in Stores THEN Cur.k = "S"
               ELSE IF Won THEN Cur.k = "R" ELSE Cur.k = "F"
            /\ running' = Cur.t /\ Next1 /\ UNCHANGED acc /\ Ghosts
Exp(t) == Ev[CHOOSE i \in 1..l : Ev[i].e = "c" /\ Ev[i].t = t /\ \A j \in i + 1..l : ~(Ev[j].e = "c" /\ Ev[j].t = t)]
\* consume_all goes on after a successful pop
Again(t) == /\ th[t].pc = "ret" /\ Exp(t).o = "call" /\ x(t).res = 1
            /\ acc' = [acc EXCEPT ![t] = Append(@, x(t).v)]
            /\ Set(t, Begin("pop", <<>>))
            /\ UNCHANGED <<mem, prog, tid, l, lm, running>> /\ Ghosts
EvRet == /\ Quiet /\ At("r") /\ th[Cur.t].pc = "ret"
         /\ LET t == Cur.t  e == Exp(t) IN
            IF e.o = "call" THEN x(t).res = 0 /\ e.v = acc[t] /\ e.n = Len(acc[t])
            ELSE e.n = x(t).res /\ (x(t).o = "pop" /\ x(t).res = 1 => e.v = <<x(t).v>>)
         /\ Set(Cur.t, IdleTh)
         /\ running' = 0 /\ Next1 /\ UNCHANGED <<mem, prog, lm, acc>> /\ Ghosts
\* deliveries, fences, notes that a location was changed by a plain access
EvOther == /\ Quiet /\ l <= Len(Ev) /\ (Cur.e \notin {"c", "A", "r", "X", "E", "J"} \/ (Cur.e = "A" /\ Cur.k \in {"N", "U"})) /\ Next1 /\ UNCHANGED <<vars, lm, running, acc>>
EvJoin == /\ Quiet /\ At("J") /\ \A t \in Thread : th[t].pc = "idle"
          /\ \A j \in l..Len(Ev) : Ev[j].e = "E" => Ev[j].v = Content
          /\ l' = Len(Ev) + 1 /\ UNCHANGED <<vars, tid, lm, running, acc>>
TNext == Plain \/ EvCall \/ EvAtomic \/ EvRet \/ EvOther \/ EvJoin \/ (Quiet /\ \E t \in Thread : Again(t))
TSpec == TInit /\ [][TNext]_tvars

Track == /\ (IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE)
         /\ (l > Len(Ev) \/ TLCGet(tid) <= Len(Ev))
Post  == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j].ev)}}>>)
============================================================================
