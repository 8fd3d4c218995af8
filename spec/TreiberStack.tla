---------------------------- MODULE TreiberStack ----------------------------
(***************************************************************************)
(* The algorithm of boost::lockfree::stack together with its free list:     *)
(* two tagged list heads (tos, pool), one step per atomic operation, plain   *)
(* links read and written in steps of their own.  Tags are counted modulo    *)
(* TagMod; pops advance them, pushes do not.  It refines AbsContainer        *)
(* (Kind = "stack", Strict = TRUE): see Refines.                             *)
(*                                                                         *)
(* Faults: a set of deliberate mistakes, empty for the real algorithm; each  *)
(* of them must be refuted (this is how the model itself is tested).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread, Progs,       \* Progs: set of functions [Thread -> sequence of [o, a]]
          Init0,               \* initial content, top first
          Nodes,               \* nodes in existence at the start
          MaxNodes,            \* unbounded pushes may create nodes up to this number
          TagMod, Spurious, Faults

VARIABLES tos, pool, link, val, made, th, prog, solo
vars == <<tos, pool, link, val, made, th, prog, solo>>

NULL == 0
Node == 1..MaxNodes
H(p, t) == [p |-> p, t |-> t]
NextTag(t) == IF "notag" \in Faults THEN t ELSE (t + 1) % TagMod

RECURSIVE Chain(_, _, _)
Chain(lk, p, k) == IF p = NULL \/ k = 0 THEN <<>> ELSE <<p>> \o Chain(lk, lk[p], k - 1)
Vals(s) == [i \in 1..Len(s) |-> val[s[i]]]

IdleTh == [pc |-> "idle", o |-> "idle", a |-> <<>>, n |-> NULL, old |-> H(NULL, 0), nx |-> NULL, top |-> NULL, end |-> NULL,
           i |-> 0, got |-> <<>>, dl |-> 0, h |-> 0, res |-> -1, done |-> FALSE, full |-> FALSE, k |-> 0]

Init == /\ prog \in Progs
        /\ LET m == Len(Init0) IN
           /\ link = [n \in Node |-> IF n < m THEN n + 1 ELSE IF n = m THEN NULL ELSE IF n < Nodes THEN n + 1 ELSE NULL]
           /\ val = [n \in Node |-> IF n <= m THEN Init0[n] ELSE 0]
           /\ tos = H(IF m > 0 THEN 1 ELSE NULL, 0)
           /\ pool = H(IF Nodes > m THEN m + 1 ELSE NULL, 0)
        /\ made = Nodes
        /\ th = [t \in Thread |-> IdleTh]
        /\ solo = [t |-> 0, c |-> 0]

x(t) == th[t]
Pushes == {"push", "bpush", "rpush", "rbpush"}
Bnd(t) == x(t).o \in {"bpush", "rbpush"}
Set(t, r) == th' = [th EXCEPT ![t] = r]
Begin(o, a) == IF o = "res" THEN [IdleTh EXCEPT !.o = o, !.a = a, !.pc = IF a[1] = 0 THEN "rs1" ELSE "rs0"]
               ELSE IF o \in Pushes /\ a = <<>> THEN [IdleTh EXCEPT !.o = o, !.done = TRUE, !.res = 0, !.pc = "ret"]
               ELSE [IdleTh EXCEPT !.o = o, !.a = a, !.pc = IF o \in Pushes THEN "al0" ELSE IF o \in {"pop", "c1", "call"} THEN "po0" ELSE "ca0"]

Call(t) == /\ x(t).pc = "idle" /\ prog[t] # <<>>
           /\ prog' = [prog EXCEPT ![t] = Tail(@)]
           /\ Set(t, Begin(Head(prog[t]).o, Head(prog[t]).a))
           /\ UNCHANGED <<tos, pool, link, val, made>>

Return(t) == /\ x(t).pc = "ret"
             /\ Set(t, IdleTh)
             /\ UNCHANGED <<tos, pool, link, val, made, prog>>

\* ---- free list: allocate
Al0(t) == /\ x(t).pc = "al0"        \* old := pool
          /\ Set(t, [x(t) EXCEPT !.old = pool, !.full = pool.p = NULL, !.pc = IF pool.p = NULL THEN "alN" ELSE "al1"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Al1(t) == /\ x(t).pc = "al1"        \* plain read of the link
          /\ Set(t, [x(t) EXCEPT !.nx = link[x(t).old.p], !.pc = "al2"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Got(t, n) ==        \* the node n is ours: construct the element, chain it before the others of the range
    [x(t) EXCEPT !.n = n, !.h = @ + 1, !.full = FALSE, !.pc = "con"]
Al2(t) == /\ x(t).pc = "al2"        \* CAS
          /\ \/ /\ pool = x(t).old
                /\ pool' = H(x(t).nx, NextTag(pool.t))
                /\ Set(t, Got(t, x(t).old.p))
             \/ /\ pool # x(t).old \/ Spurious
                /\ Set(t, [x(t) EXCEPT !.old = pool, !.full = pool.p = NULL, !.pc = IF pool.p = NULL THEN "alN" ELSE "al1"])
                /\ UNCHANGED pool
          /\ UNCHANGED <<tos, link, val, made, prog>>
AlN(t) == /\ x(t).pc = "alN"        \* nothing in the pool
          /\ \/ /\ ~Bnd(t) /\ made < MaxNodes
                /\ made' = made + 1
                /\ Set(t, Got(t, made + 1))
                /\ UNCHANGED <<tos, pool, link, val, prog>>
             \/ /\ Bnd(t)
                /\ Set(t, IF x(t).top = NULL THEN [x(t) EXCEPT !.done = TRUE, !.res = 0, !.pc = "ret"] ELSE [x(t) EXCEPT !.pc = "pu0"])
                /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Con(t) == /\ x(t).pc = "con"
          /\ val' = [val EXCEPT ![x(t).n] = x(t).a[x(t).i + 1]]
          /\ link' = [link EXCEPT ![x(t).n] = x(t).top]
          /\ LET last == x(t).i + 1 = Len(x(t).a) IN
             Set(t, [x(t) EXCEPT !.i = @ + 1, !.top = x(t).n, !.end = IF @ = NULL THEN x(t).n ELSE @, !.pc = IF last THEN "pu0" ELSE "al0"])
          /\ UNCHANGED <<tos, pool, made, prog>>
\* ---- push
Pu0(t) == /\ x(t).pc = "pu0"        \* old := tos
          /\ Set(t, [x(t) EXCEPT !.old = tos, !.pc = "pu1"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Pu1(t) == /\ x(t).pc = "pu1"        \* link of the last node
          /\ link' = [link EXCEPT ![x(t).end] = x(t).old.p]
          /\ Set(t, [x(t) EXCEPT !.pc = "pu2"])
          /\ UNCHANGED <<tos, pool, val, made, prog>>
Pu2(t) == /\ x(t).pc = "pu2"
          /\ \/ /\ tos = x(t).old
                /\ tos' = H(x(t).top, x(t).old.t)
                /\ Set(t, [x(t) EXCEPT !.done = TRUE, !.res = x(t).i, !.h = 0, !.pc = "ret"])
             \/ /\ tos # x(t).old \/ Spurious
                /\ Set(t, [x(t) EXCEPT !.old = tos, !.pc = IF "pushstale" \in Faults THEN "pu2" ELSE "pu1"])
                /\ UNCHANGED tos
          /\ UNCHANGED <<pool, link, val, made, prog>>
\* ---- pop, consume_one, consume_all
SawTos(t) ==
    IF tos.p = NULL THEN [x(t) EXCEPT !.old = tos, !.done = TRUE, !.res = Len(x(t).got), !.pc = "ret"]
                    ELSE [x(t) EXCEPT !.old = tos, !.pc = "po1"]
Po0(t) == /\ x(t).pc = "po0" /\ Set(t, SawTos(t)) /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Po1(t) == /\ x(t).pc = "po1"        \* plain read of the link, perhaps of a node that is gone
          /\ Set(t, [x(t) EXCEPT !.nx = link[x(t).old.p], !.pc = "po2"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Po2(t) == /\ x(t).pc = "po2"
          /\ \/ /\ IF "popnotag" \in Faults THEN tos.p = x(t).old.p ELSE tos = x(t).old
                /\ tos' = H(x(t).nx, NextTag(tos.t))
                /\ LET one == x(t).o # "call" IN
                   Set(t, [x(t) EXCEPT !.got = Append(@, val[x(t).old.p]), !.n = x(t).old.p, !.h = @ + 1, !.done = one,
                                       !.res = IF one THEN 1 ELSE -1, !.pc = "del"])
             \/ /\ tos # x(t).old \/ Spurious
                /\ Set(t, SawTos(t))
                /\ UNCHANGED tos
          /\ UNCHANGED <<pool, link, val, made, prog>>
Del(t) == /\ x(t).pc = "del"        \* the functor sees the element
          /\ Set(t, [x(t) EXCEPT !.dl = @ + 1, !.pc = "fr0"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
\* ---- free list: release n
Fr0(t) == /\ x(t).pc = "fr0"
          /\ Set(t, [x(t) EXCEPT !.old = pool, !.pc = "fr1"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Fr1(t) == /\ x(t).pc = "fr1"
          /\ link' = [link EXCEPT ![x(t).n] = x(t).old.p]
          /\ Set(t, [x(t) EXCEPT !.pc = "fr2"])
          /\ UNCHANGED <<tos, pool, val, made, prog>>
AfterRelease(t) == IF x(t).o = "res" THEN (IF x(t).dl < x(t).a[1] THEN "rs0" ELSE "rs1") ELSE IF x(t).o = "call" THEN "po0" ELSE IF x(t).o \in {"cata", "catr"} /\ x(t).k # NULL THEN "tr0" ELSE "ret"
Fr2(t) == /\ x(t).pc = "fr2"
          /\ \/ /\ pool = x(t).old
                /\ pool' = H(x(t).n, IF "freetag" \in Faults THEN 0 ELSE pool.t)
                /\ Set(t, [x(t) EXCEPT !.h = @ - 1, !.pc = AfterRelease(t)])
             \/ /\ pool # x(t).old \/ Spurious
                /\ Set(t, [x(t) EXCEPT !.old = pool, !.pc = "fr1"])
                /\ UNCHANGED pool
          /\ UNCHANGED <<tos, link, val, made, prog>>
\* ---- reserve: nodes from the allocator go to the free list, one after the other
Rs0(t) == /\ x(t).pc = "rs0" /\ made < MaxNodes
          /\ made' = made + 1
          /\ Set(t, [x(t) EXCEPT !.n = made + 1, !.h = @ + 1, !.dl = @ + 1, !.pc = IF "resnosync" \in Faults THEN "rsX" ELSE "fr0"])
          /\ UNCHANGED <<tos, pool, link, val, prog>>
Rs1(t) == /\ x(t).pc = "rs1"
          /\ Set(t, [x(t) EXCEPT !.done = TRUE, !.res = 0, !.pc = "ret"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>
RsX(t) == /\ x(t).pc \in {"rsX", "rsY", "rsZ"}        \* the mistake: the free list is overwritten instead of compared and exchanged
          /\ CASE x(t).pc = "rsX" -> Set(t, [x(t) EXCEPT !.old = pool, !.pc = "rsY"]) /\ UNCHANGED <<link, pool>>
               [] x(t).pc = "rsY" -> Set(t, [x(t) EXCEPT !.pc = "rsZ"]) /\ link' = [link EXCEPT ![x(t).n] = x(t).old.p] /\ UNCHANGED pool
               [] x(t).pc = "rsZ" -> Set(t, [x(t) EXCEPT !.h = @ - 1, !.pc = AfterRelease(t)]) /\ pool' = H(x(t).n, pool.t) /\ UNCHANGED link
          /\ UNCHANGED <<tos, val, made, prog>>
\* ---- consume_all_atomic(_reversed): take the whole list
SawAll(t) ==
    IF tos.p = NULL THEN [x(t) EXCEPT !.old = tos, !.done = TRUE, !.res = 0, !.pc = "ret"]
                    ELSE [x(t) EXCEPT !.old = tos, !.pc = "ca1"]
Ca0(t) == /\ x(t).pc = "ca0" /\ Set(t, SawAll(t)) /\ UNCHANGED <<tos, pool, link, val, made, prog>>
Ca1(t) == /\ x(t).pc = "ca1"
          /\ \/ /\ tos = x(t).old
                /\ tos' = H(NULL, IF "alltag" \in Faults THEN tos.t ELSE NextTag(tos.t))
                /\ LET c == Vals(Chain(link, tos.p, MaxNodes))
                       g == IF x(t).o = "cata" THEN c ELSE [i \in 1..Len(c) |-> c[Len(c) + 1 - i]] IN
                   Set(t, [x(t) EXCEPT !.got = g, !.h = @ + Len(c), !.done = TRUE, !.res = Len(c), !.k = tos.p,
                                       !.nx = NULL, !.pc = IF x(t).o = "cata" THEN "tr0" ELSE "rv0"])
             \/ /\ tos # x(t).old \/ Spurious
                /\ Set(t, SawAll(t))
                /\ UNCHANGED tos
          /\ UNCHANGED <<pool, link, val, made, prog>>
Rv0(t) == /\ x(t).pc = "rv0"        \* reverse the private list: k current, nx last
          /\ link' = [link EXCEPT ![x(t).k] = x(t).nx]
          /\ LET m == link[x(t).k] IN
             Set(t, [x(t) EXCEPT !.nx = x(t).k, !.k = IF m = NULL THEN @ ELSE m, !.pc = IF m = NULL THEN "tr0" ELSE "rv0"])
          /\ UNCHANGED <<tos, pool, val, made, prog>>
Tr0(t) == /\ x(t).pc = "tr0"        \* deliver k, go on to the next, give k back
          /\ Assert(val[x(t).k] = x(t).got[x(t).dl + 1], "another element is delivered")
          /\ Set(t, [x(t) EXCEPT !.dl = @ + 1, !.n = x(t).k, !.k = link[x(t).k], !.pc = "fr0"])
          /\ UNCHANGED <<tos, pool, link, val, made, prog>>

Step(t) == \/ Call(t) \/ Return(t) \/ Al0(t) \/ Al1(t) \/ Al2(t) \/ AlN(t) \/ Con(t) \/ Pu0(t) \/ Pu1(t) \/ Pu2(t)
           \/ Po0(t) \/ Po1(t) \/ Po2(t) \/ Del(t) \/ Fr0(t) \/ Fr1(t) \/ Fr2(t) \/ Ca0(t) \/ Ca1(t) \/ Rv0(t) \/ Tr0(t)
           \/ Rs0(t) \/ Rs1(t) \/ RsX(t)
\* own steps of the running call since another thread moved
Alone(t) == solo' = IF th[t].pc = "idle" THEN [t |-> t, c |-> 1]
                    ELSE [t |-> t, c |-> IF solo.t = t THEN solo.c + 1 ELSE 1]
Next     == \E t \in Thread : Step(t) /\ UNCHANGED solo
NextSolo == \E t \in Thread : Step(t) /\ Alone(t)
Spec     == Init /\ [][Next]_vars
SpecSolo == Init /\ [][NextSolo]_vars

----------------------------------------------------------------------------
\* the abstract container behind this state
AbsContent == Vals(Chain(link, tos.p, MaxNodes))
AbsFree    == Len(Chain(link, pool.p, MaxNodes))
AbsPend    == [t \in Thread |-> IF x(t).pc = "idle" THEN [o |-> "idle"]
                               ELSE [o |-> x(t).o, a |-> x(t).a, done |-> x(t).done, res |-> x(t).res, got |-> x(t).got,
                                     dl |-> x(t).dl, h |-> x(t).h, full |-> x(t).full, thr |-> FALSE]]
Abs == INSTANCE AbsContainer WITH Kind <- "stack", Strict <- TRUE, content <- AbsContent, pend <- AbsPend, free <- AbsFree
\* an unbounded push sees the pool empty and then asks the allocator; a later failed CAS may find nodes again
AbsStep(t) == \/ \E o \in Pushes \cup {"pop", "c1", "call", "cata", "catr", "res"} : Abs!Call(t, o, th'[t].a)
              \/ Abs!Silent(t) \/ Abs!Alloc(t) \/ Abs!ReserveAlloc(t) \/ Abs!Deliver(t) \/ Abs!Return(t)
Refines == [][\E t \in Thread : AbsStep(t)]_<<AbsContent, AbsPend, AbsFree>>

\* structure: no node is in two lists or owned twice, lists are acyclic
Held(t) == CASE x(t).pc \in {"con"} -> {x(t).n}
             [] OTHER -> {}
Lists == LET a == Chain(link, tos.p, MaxNodes + 1)  b == Chain(link, pool.p, MaxNodes + 1) IN
         /\ Len(a) + Len(b) <= made
         /\ \A i \in 1..Len(a), j \in 1..Len(b) : a[i] # b[j]
\* what a call has taken stays as it was until it is delivered
Stable == \A t \in Thread : x(t).pc = "del" => val[x(t).n] = x(t).got[Len(x(t).got)]
\* nothing is lost: nodes in lists and nodes held by calls are all nodes
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN x(t).h + Sum(S \ {t})
Conserved == Len(AbsContent) + AbsFree + Sum(Thread) = made
\* a call that runs alone ends within a number of steps that depends on the content only
SoloBound == solo.c <= 12 * (MaxNodes + 1)
============================================================================
