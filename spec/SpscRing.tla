------------------------------ MODULE SpscRing ------------------------------
(***************************************************************************)
(* The algorithm of boost::lockfree::spsc_queue on the memory model: two     *)
(* indices (location 1 written by the producer, location 2 by the consumer), *)
(* Size = capacity + 1 cells of plain memory.  Loads may return any message  *)
(* the memory model admits (unless SC), cells are accessed without           *)
(* synchronisation of their own, so every access must be ordered.           *)
(* Orders: the memory orders of the implementation, by role.                *)
(***************************************************************************)
EXTENDS MemoryModel, TLC

CONSTANTS Size, Progs, SC, Rotated, Ord, Faults,
          Init0,         \* elements in the ring at the start
          Choice(_)      \* the messages of a location a load may return (AnyMessage, unless a trace says which)
P == 1   C == 2      \* producer, consumer (thread 0 constructs)
W == 1   R == 2      \* locations

VARIABLES hist,      \* values of the messages of the locations
          cell,      \* values of the cells, 0: no element
          wr, rd,    \* last write / reads since then, with their moments
          pc, loc,   \* per thread
          prog, sent, recv, race, was
vars == <<mmvars, hist, cell, wr, rd, pc, loc, prog, sent, recv, race, was>>

Nx(i) == IF i + 1 >= Size THEN (i + 1) - Size ELSE i + 1
Mod(i) == IF i >= Size THEN i - Size ELSE i
Avail(w, r) == IF w >= r THEN w - r ELSE w + Size - r           \* elements
Space(w, r) == LET s == r - w - 1 IN IF w >= r THEN s + Size ELSE s
StartW == Mod(Rotated + Len(Init0))
CurW == IF hist[W] = <<>> THEN StartW ELSE hist[W][Len(hist[W])]
CurR == IF hist[R] = <<>> THEN Rotated ELSE hist[R][Len(hist[R])]
Len_ == Avail(CurW, CurR)

Init == /\ MMInit(2) /\ hist = <<<<>>, <<>>>>
        /\ cell = [i \in 0..Size - 1 |-> LET k == IF i >= Rotated THEN i - Rotated ELSE i + Size - Rotated IN IF k < Len(Init0) THEN Init0[k + 1] ELSE 0]
        /\ wr = [i \in 0..Size - 1 |-> <<0, 0>>] /\ rd = [i \in 0..Size - 1 |-> {}]
        /\ pc = [t \in {P, C} |-> "idle"]
        /\ loc = [t \in {P, C} |-> [o |-> "", a |-> <<>>, w |-> 0, r |-> 0, i |-> 0, n |-> 0, res |-> 0, got |-> <<>>]]
        /\ prog \in Progs
        /\ sent = Init0 /\ recv = <<>> /\ race = FALSE
        /\ was = [empty |-> FALSE, full |-> FALSE]    \* since the beginning of the running pop / push

x(t) == loc[t]
Value(l, i) == IF i = 0 THEN (IF l = W THEN StartW ELSE Rotated) ELSE hist[l][i]
AnyMessage(l) == IF SC THEN {Len(msgs[l])} ELSE 0..Len(msgs[l])
\* t loads location l with order m: any admissible message
LoadAny(t, l, m, cont(_)) ==
    \E i \in Choice(l) : Load(t, l, m, i) /\ cont(Value(l, i))
StoreV(t, l, m, v) == Store(t, l, m) /\ hist' = [hist EXCEPT ![l] = Append(@, v)]

WriteCell(t, c, v) ==
    /\ cell' = [cell EXCEPT ![c] = v]
    /\ race' = (race \/ ~Ordered(wr[c][1], wr[c][2], t) \/ \E q \in rd[c] : ~Ordered(q[1], q[2], t))
    /\ wr' = [wr EXCEPT ![c] = <<t, Now(t)>>] /\ rd' = [rd EXCEPT ![c] = {}]
ReadCell(t, c) ==
    /\ race' = (race \/ ~Ordered(wr[c][1], wr[c][2], t))
    /\ rd' = [rd EXCEPT ![c] = @ \cup {<<t, Now(t)>>}]
    /\ UNCHANGED <<cell, wr>>
NoCell == UNCHANGED <<cell, wr, rd, race>>
Go(t, p, r) == pc' = [pc EXCEPT ![t] = p] /\ loc' = [loc EXCEPT ![t] = r]

Begin(t, o, a) == Go(t, IF t = P THEN "p0" ELSE "c0", [o |-> o, a |-> a, w |-> 0, r |-> 0, i |-> 0, n |-> 0, res |-> 0, got |-> <<>>])
Start(t) == /\ pc[t] = "idle" /\ prog[t] # <<>>
            /\ LET c == Head(prog[t]) IN Begin(t, c.o, c.a)
            /\ prog' = [prog EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<mmvars, hist, sent, recv>> /\ NoCell
End(t) == /\ pc[t] = "ret" /\ Go(t, "idle", x(t)) /\ UNCHANGED <<mmvars, hist, sent, recv, prog>> /\ NoCell

\* ---- producer: push of the elements a (o = "push": all or nothing of one element; "pushn": as many as possible)
P0 == /\ pc[P] = "p0" /\ LoadAny(P, W, Ord.own, LAMBDA v : Go(P, "p1", [x(P) EXCEPT !.w = v]))
      /\ UNCHANGED <<hist, sent, recv, prog>> /\ NoCell
P1 == /\ pc[P] = "p1" /\ LoadAny(P, R, Ord.pushsees, LAMBDA v :
             LET s == Space(x(P).w, v)
                 k == IF s < Len(x(P).a) THEN s ELSE Len(x(P).a) IN
             IF s = 0 THEN Go(P, "ret", [x(P) EXCEPT !.r = v, !.n = 0, !.res = 0])
                      ELSE Go(P, IF "publishfirst" \in Faults \/ k = 0 THEN "p3" ELSE "p2", [x(P) EXCEPT !.r = v, !.n = k]))
      /\ UNCHANGED <<hist, sent, recv, prog>> /\ NoCell
P2 == /\ pc[P] = "p2"           \* construct the next element
      /\ WriteCell(P, Mod(x(P).w + x(P).i), x(P).a[x(P).i + 1])
      /\ Go(P, IF x(P).i + 1 = x(P).n THEN (IF "publishfirst" \in Faults THEN "ret" ELSE "p3") ELSE "p2", [x(P) EXCEPT !.i = @ + 1])
      /\ UNCHANGED <<mmvars, hist, sent, recv, prog>>
P3 == /\ pc[P] = "p3"           \* publish
      /\ StoreV(P, W, Ord.publish, Mod(x(P).w + x(P).n))
      /\ sent' = sent \o SubSeq(x(P).a, 1, x(P).n)
      /\ Go(P, IF "publishfirst" \in Faults /\ x(P).n > 0 THEN "p2" ELSE "ret", [x(P) EXCEPT !.res = x(P).n])
      /\ UNCHANGED <<recv, prog>> /\ NoCell
\* ---- consumer: a = <<k>>: at most k elements
C0 == /\ pc[C] = "c0" /\ LoadAny(C, W, Ord.popsees, LAMBDA v : Go(C, "c1", [x(C) EXCEPT !.w = v]))
      /\ UNCHANGED <<hist, sent, recv, prog>> /\ NoCell
C1 == /\ pc[C] = "c1" /\ LoadAny(C, R, Ord.own, LAMBDA v :
             LET s == Avail(x(C).w, v)
                 k == IF s < x(C).a[1] THEN s ELSE x(C).a[1] IN
             IF s = 0 THEN Go(C, "ret", [x(C) EXCEPT !.r = v, !.n = 0, !.res = 0])
                      ELSE Go(C, IF "releasefirst" \in Faults \/ k = 0 THEN "c4" ELSE "c2", [x(C) EXCEPT !.r = v, !.n = k]))
      /\ UNCHANGED <<hist, sent, recv, prog>> /\ NoCell
C2 == /\ pc[C] = "c2"           \* read the element ...
      /\ LET c == Mod(x(C).r + x(C).i) IN ReadCell(C, c) /\ Go(C, "c3", [x(C) EXCEPT !.got = Append(@, cell[c])])
      /\ UNCHANGED <<mmvars, hist, sent, recv, prog>>
C3 == /\ pc[C] = "c3"           \* ... and destroy it
      /\ WriteCell(C, Mod(x(C).r + x(C).i), 0)
      /\ Go(C, IF x(C).i + 1 = x(C).n THEN (IF "releasefirst" \in Faults THEN "c5" ELSE "c4") ELSE "c2", [x(C) EXCEPT !.i = @ + 1])
      /\ UNCHANGED <<mmvars, hist, sent, recv, prog>>
C4 == /\ pc[C] = "c4"           \* free the cells
      /\ StoreV(C, R, Ord.release, Mod(x(C).r + x(C).n))
      /\ Go(C, IF "releasefirst" \in Faults /\ x(C).n > 0 THEN "c2" ELSE "c5", x(C))
      /\ UNCHANGED <<sent, recv, prog>> /\ NoCell
C5 == /\ pc[C] = "c5"
      /\ recv' = recv \o x(C).got /\ Go(C, "ret", [x(C) EXCEPT !.res = x(C).n])
      /\ UNCHANGED <<mmvars, hist, sent, prog>> /\ NoCell

Move == Start(P) \/ Start(C) \/ End(P) \/ End(C) \/ P0 \/ P1 \/ P2 \/ P3 \/ C0 \/ C1 \/ C2 \/ C3 \/ C4 \/ C5
Next == Move /\ was' = [empty |-> (was.empty /\ pc[C] # "idle") \/ Len_' = 0, full |-> (was.full /\ pc[P] # "idle") \/ Len_' = Size - 1]
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NoRace == ~race
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Fifo == Prefix(recv, sent) /\ (pc[C] = "ret" => \A i \in 1..Len(x(C).got) : x(C).got[i] # 0)
\* indices stay in range, never more elements than the capacity
InRange == CurW \in 0..Size - 1 /\ CurR \in 0..Size - 1 /\ Len_ <= Size - 1
\* with nobody running every element sent is received or in the ring
Quiet == pc[P] = "idle" /\ pc[C] = "idle"
         => \A i \in 1..Len(sent) - Len(recv) : cell[Mod(CurR + i - 1)] = sent[Len(recv) + i]
Count == Quiet => (pc[P] = "idle" /\ pc[C] = "idle" => Len(sent) - Len(recv) = Len_)
\* sequentially consistent execution: an incomplete answer is the truth of some moment of the call
Answers == SC => /\ (pc[P] = "ret" /\ x(P).res < Len(x(P).a) /\ Size - 1 >= Len(x(P).a)) => (x(P).res > 0 \/ was.full)
                 /\ (pc[C] = "ret" /\ x(C).res = 0) => was.empty
============================================================================
