------------------------------ MODULE MSQueue ------------------------------
(***************************************************************************)
(* The algorithm of boost::lockfree::queue (Michael and Scott, tagged       *)
(* handles, nodes recycled through a free list whose links overlay the       *)
(* next fields), one step per atomic operation and one for the copy of the  *)
(* element.                                                               *)
(*                                                                         *)
(* Ghosts: got (what a successful pop removed), wasEmpty / wasFull (the      *)
(* queue / the pool was empty at some moment of the running call).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread, Progs, Init0, Nodes, MaxNodes, TagMod, Spurious, Faults

VARIABLES head, tail, pool, next, val, made, th, prog, wasEmpty, wasFull, solo
mem  == <<head, tail, pool, next, val, made>>
vars == <<head, tail, pool, next, val, made, th, prog, wasEmpty, wasFull, solo>>

NULL == 0
Node == 1..MaxNodes
H(p, t) == [p |-> p, t |-> t]
Tag1(t) == (t + 1) % TagMod
HeadTag(t) == IF "headtag" \in Faults THEN t ELSE Tag1(t)
LinkTag(t) == IF "nexttag" \in Faults THEN t ELSE Tag1(t)
PoolTag(t) == IF "pooltag" \in Faults THEN t ELSE Tag1(t)
TailTag(t) == IF "tailtag" \in Faults THEN t ELSE Tag1(t)

RECURSIVE Chain(_, _, _)
Chain(nx, p, k) == IF p = NULL \/ k = 0 THEN <<>> ELSE <<p>> \o Chain(nx, nx[p].p, k - 1)
Content == LET c == Chain(next, next[head.p].p, MaxNodes + 1) IN [i \in 1..Len(c) |-> val[c[i]]]
Free    == Chain(next, pool.p, MaxNodes + 1)

IdleTh == [pc |-> "idle", o |-> "idle", a |-> <<>>, n |-> NULL, old |-> H(NULL, 0), hd |-> H(NULL, 0), tl |-> H(NULL, 0), nx |-> H(NULL, 0),
           v |-> 0, got |-> 0, res |-> -1, k |-> 0]

Init == /\ prog \in Progs
        /\ LET m == Len(Init0) IN     \* node 1 is the dummy, then the content
           /\ next = [n \in Node |-> H(IF n <= m THEN n + 1 ELSE IF n = m + 1 THEN NULL ELSE IF n < Nodes THEN n + 1 ELSE NULL, 0)]
           /\ val = [n \in Node |-> IF n \in 2..m + 1 THEN Init0[n - 1] ELSE 0]
           /\ head = H(1, 0) /\ tail = H(m + 1, 0)
           /\ pool = H(IF Nodes > m + 1 THEN m + 2 ELSE NULL, 0)
        /\ made = Nodes
        /\ th = [t \in Thread |-> IdleTh]
        /\ wasEmpty = [t \in Thread |-> FALSE] /\ wasFull = [t \in Thread |-> FALSE]
        /\ solo = [t |-> 0, c |-> 0]

x(t) == th[t]
Set(t, r) == th' = [th EXCEPT ![t] = r]

First(o) == IF o = "pop" THEN "d0" ELSE IF o = "res" THEN "rs0" ELSE "al0"
Call(t) == /\ x(t).pc = "idle" /\ prog[t] # <<>>
           /\ prog' = [prog EXCEPT ![t] = Tail(@)]
           /\ LET c == Head(prog[t]) IN Set(t, [IdleTh EXCEPT !.o = c.o, !.a = c.a, !.pc = First(c.o)])
           /\ UNCHANGED mem
Return(t) == /\ x(t).pc = "ret" /\ Set(t, IdleTh) /\ UNCHANGED <<prog, mem>>

\* ---- node from the pool or the allocator
SawPool(t) == [x(t) EXCEPT !.old = pool, !.pc = IF pool.p = NULL THEN "alN" ELSE "al1"]
Al0(t) == x(t).pc = "al0" /\ Set(t, SawPool(t)) /\ UNCHANGED <<prog, mem>>
Al1(t) == x(t).pc = "al1" /\ Set(t, [x(t) EXCEPT !.nx = next[x(t).old.p], !.pc = "al2"]) /\ UNCHANGED <<prog, mem>>
Al2(t) == /\ x(t).pc = "al2"
          /\ \/ /\ pool = x(t).old
                /\ pool' = H(x(t).nx.p, PoolTag(pool.t))
                /\ Set(t, [x(t) EXCEPT !.n = x(t).old.p, !.pc = "con0"])
             \/ /\ pool # x(t).old \/ Spurious
                /\ Set(t, SawPool(t)) /\ UNCHANGED pool
          /\ UNCHANGED <<prog, head, tail, next, val, made>>
AlN(t) == /\ x(t).pc = "alN"
          /\ IF x(t).o = "push" /\ made < MaxNodes
             THEN /\ made' = made + 1
                  /\ next' = [next EXCEPT ![made + 1] = H(NULL, 0)]
                  /\ Set(t, [x(t) EXCEPT !.n = made + 1, !.pc = "con0"])
                  /\ UNCHANGED <<prog, head, tail, pool, val>>
             ELSE Set(t, [x(t) EXCEPT !.res = 0, !.pc = "ret"]) /\ UNCHANGED <<prog, mem>>
Con0(t) == /\ x(t).pc = "con0"       \* element, old tag of the next field
           /\ val' = [val EXCEPT ![x(t).n] = x(t).a[1]]
           /\ Set(t, [x(t) EXCEPT !.nx = next[x(t).n], !.pc = "con1"])
           /\ UNCHANGED <<prog, head, tail, pool, next, made>>
Con1(t) == /\ x(t).pc = "con1"
           /\ next' = [next EXCEPT ![x(t).n] = H(NULL, IF "ctortag" \in Faults THEN 0 ELSE LinkTag(x(t).nx.t))]
           /\ Set(t, [x(t) EXCEPT !.pc = "e0"])
           /\ UNCHANGED <<prog, head, tail, pool, val, made>>
\* ---- push
E0(t) == x(t).pc = "e0" /\ Set(t, [x(t) EXCEPT !.tl = tail, !.pc = "e1"]) /\ UNCHANGED <<prog, mem>>
E1(t) == x(t).pc = "e1" /\ Set(t, [x(t) EXCEPT !.nx = next[x(t).tl.p], !.pc = IF "notail2" \in Faults THEN (IF next[x(t).tl.p].p = NULL THEN "e3" ELSE "e4") ELSE "e2"])
         /\ UNCHANGED <<prog, mem>>
E2(t) == /\ x(t).pc = "e2"          \* still the tail?
         /\ Set(t, [x(t) EXCEPT !.pc = IF tail # x(t).tl THEN "e0" ELSE IF x(t).nx.p = NULL THEN "e3" ELSE "e4"])
         /\ UNCHANGED <<prog, mem>>
E3(t) == /\ x(t).pc = "e3"          \* link
         /\ \/ /\ next[x(t).tl.p] = x(t).nx
               /\ next' = [next EXCEPT ![x(t).tl.p] = H(x(t).n, LinkTag(x(t).nx.t))]
               /\ Set(t, [x(t) EXCEPT !.res = 1, !.pc = "e5"])
            \/ /\ next[x(t).tl.p] # x(t).nx \/ Spurious
               /\ Set(t, [x(t) EXCEPT !.pc = "e0"]) /\ UNCHANGED next
         /\ UNCHANGED <<prog, head, tail, pool, val, made>>
Swing(t, p, pc) ==                  \* strong CAS of the tail, the result does not matter
    /\ tail' = IF tail = x(t).tl THEN H(p, TailTag(tail.t)) ELSE tail
    /\ Set(t, [x(t) EXCEPT !.pc = pc])
    /\ UNCHANGED <<prog, head, pool, next, val, made>>
E4(t) == x(t).pc = "e4" /\ Swing(t, x(t).nx.p, "e0")     \* help
E5(t) == x(t).pc = "e5" /\ Swing(t, x(t).n, "ret")
\* ---- pop
D0(t) == x(t).pc = "d0" /\ Set(t, [x(t) EXCEPT !.hd = head, !.pc = "d1"]) /\ UNCHANGED <<prog, mem>>
D1(t) == x(t).pc = "d1" /\ Set(t, [x(t) EXCEPT !.tl = tail, !.pc = "d2"]) /\ UNCHANGED <<prog, mem>>
Decide(t, r) == IF r.hd.p = r.tl.p
                THEN IF r.nx.p = NULL \/ "nohelp" \in Faults THEN [r EXCEPT !.res = 0, !.pc = "ret"] ELSE [r EXCEPT !.pc = "d6"]
                ELSE IF r.nx.p = NULL THEN [r EXCEPT !.pc = "d0"] ELSE [r EXCEPT !.pc = IF "copyafter" \in Faults THEN "d5" ELSE "d4"]
D2(t) == /\ x(t).pc = "d2"
         /\ LET r == [x(t) EXCEPT !.nx = next[x(t).hd.p], !.pc = "d3"] IN Set(t, IF "nohead2" \in Faults THEN Decide(t, r) ELSE r)
         /\ UNCHANGED <<prog, mem>>
D3(t) == x(t).pc = "d3" /\ Set(t, IF head # x(t).hd THEN [x(t) EXCEPT !.pc = "d0"] ELSE Decide(t, x(t))) /\ UNCHANGED <<prog, mem>>
D4(t) == x(t).pc = "d4" /\ Set(t, [x(t) EXCEPT !.v = val[x(t).nx.p], !.pc = "d5"]) /\ UNCHANGED <<prog, mem>>
D5(t) == /\ x(t).pc = "d5"
         /\ \/ /\ head = x(t).hd
               /\ head' = H(x(t).nx.p, HeadTag(head.t))
               /\ Set(t, [x(t) EXCEPT !.got = val[next[head.p].p], !.n = x(t).hd.p, !.res = 1,
                                      !.pc = IF "copyafter" \in Faults THEN "d7" ELSE "fr0"])
            \/ /\ head # x(t).hd \/ Spurious
               /\ Set(t, [x(t) EXCEPT !.pc = "d0"]) /\ UNCHANGED head
         /\ UNCHANGED <<prog, tail, pool, next, val, made>>
D6(t) == x(t).pc = "d6" /\ Swing(t, x(t).nx.p, "d0")     \* help
D7(t) == x(t).pc = "d7" /\ Set(t, [x(t) EXCEPT !.v = val[x(t).nx.p], !.pc = "fr0"]) /\ UNCHANGED <<prog, mem>>
\* ---- release the old dummy
Fr0(t) == x(t).pc = "fr0" /\ Set(t, [x(t) EXCEPT !.old = pool, !.pc = "fr1"]) /\ UNCHANGED <<prog, mem>>
Fr1(t) == /\ x(t).pc = "fr1"
          /\ next' = [next EXCEPT ![x(t).n].p = x(t).old.p]     \* the tag stays
          /\ Set(t, [x(t) EXCEPT !.pc = "fr2"])
          /\ UNCHANGED <<prog, head, tail, pool, val, made>>
Fr2(t) == /\ x(t).pc = "fr2"
          /\ \/ /\ pool = x(t).old
                /\ pool' = H(x(t).n, pool.t)
                /\ Set(t, [x(t) EXCEPT !.pc = IF x(t).o = "res" THEN "rs0" ELSE "ret"])
             \/ /\ pool # x(t).old \/ Spurious
                /\ Set(t, [x(t) EXCEPT !.old = pool, !.pc = "fr1"]) /\ UNCHANGED pool
          /\ UNCHANGED <<prog, head, tail, next, val, made>>

\* ---- reserve: nodes from the allocator go to the free list, one after the other
Rs0(t) == /\ x(t).pc = "rs0"
          /\ IF x(t).k = x(t).a[1] THEN Set(t, [x(t) EXCEPT !.n = NULL, !.res = 0, !.pc = "ret"]) /\ UNCHANGED <<prog, mem>>
             ELSE /\ made < MaxNodes
                  /\ made' = made + 1
                  /\ next' = [next EXCEPT ![made + 1] = H(NULL, 0)]
                  /\ Set(t, [x(t) EXCEPT !.n = made + 1, !.k = @ + 1, !.pc = "fr0"])
                  /\ UNCHANGED <<prog, head, tail, pool, val>>

Move(t) == \/ Call(t) \/ Return(t) \/ Al0(t) \/ Al1(t) \/ Al2(t) \/ AlN(t) \/ Con0(t) \/ Con1(t) \/ E0(t) \/ E1(t) \/ E2(t) \/ E3(t) \/ E4(t) \/ E5(t)
           \/ D0(t) \/ D1(t) \/ D2(t) \/ D3(t) \/ D4(t) \/ D5(t) \/ D6(t) \/ D7(t) \/ Fr0(t) \/ Fr1(t) \/ Fr2(t) \/ Rs0(t)
Ghost(t) == /\ wasEmpty' = [u \in Thread |-> th'[u].pc # "idle" /\ ((wasEmpty[u] /\ x(u).pc # "idle") \/ Content' = <<>>)]
            /\ wasFull'  = [u \in Thread |-> th'[u].pc # "idle" /\ ((wasFull[u] /\ x(u).pc # "idle") \/ pool'.p = NULL)]
Step(t) == Move(t) /\ Ghost(t)
Alone(t) == solo' = IF th[t].pc = "idle" THEN [t |-> t, c |-> 1] ELSE [t |-> t, c |-> IF solo.t = t THEN solo.c + 1 ELSE 1]
Next     == \E t \in Thread : Step(t) /\ UNCHANGED solo
NextSolo == \E t \in Thread : Step(t) /\ Alone(t)
Spec     == Init /\ [][Next]_vars
SpecSolo == Init /\ [][NextSolo]_vars

----------------------------------------------------------------------------
\* the queue behind this state changes in one step per successful call, and calls answer accordingly
Linked(t)  == x(t).pc = "e3" /\ th'[t].pc = "e5"
Unlinked(t) == x(t).pc = "d5" /\ th'[t].res = 1
AbsStep(t) == \/ Linked(t) /\ Content' = Append(Content, x(t).a[1])
              \/ Unlinked(t) /\ Content # <<>> /\ Content' = Tail(Content) /\ th'[t].got = Head(Content)
              \/ ~Linked(t) /\ ~Unlinked(t) /\ Content' = Content
Refines == [][\E t \in Thread : th'[t] # th[t] /\ AbsStep(t)]_vars
Answers == \A t \in Thread : x(t).pc = "ret" =>
             CASE x(t).o = "pop" /\ x(t).res = 0 -> wasEmpty[t]
               [] x(t).o = "pop" /\ x(t).res = 1 -> x(t).v = x(t).got
               [] x(t).o \in {"push", "bpush"} /\ x(t).res = 0 -> wasFull[t]
               [] OTHER -> TRUE
\* every node is in the queue, in the pool, or held by exactly one call
Holds(t) == IF x(t).pc \in {"con0", "con1", "e0", "e1", "e2", "e3", "e4", "fr0", "fr1", "fr2", "d7"} /\ x(t).n # NULL THEN {x(t).n} ELSE {}
Owners == LET q == Chain(next, head.p, MaxNodes + 1) IN
          /\ Len(q) + Len(Free) + Cardinality(UNION {Holds(t) : t \in Thread}) = made
          /\ Cardinality({q[i] : i \in 1..Len(q)} \cup {Free[i] : i \in 1..Len(Free)} \cup UNION {Holds(t) : t \in Thread}) = made
          /\ \A t, u \in Thread : t # u => Holds(t) \cap Holds(u) = {}
\* the tail is in the queue, at the last node or one before
TailOK == LET q == Chain(next, head.p, MaxNodes + 1) IN
          \E i \in 1..Len(q) : q[i] = tail.p /\ i >= Len(q) - 1
SoloBound == solo.c <= 40
============================================================================
