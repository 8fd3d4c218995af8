---------------------------- MODULE MemoryModel ----------------------------
(***************************************************************************)
(* C++ release/acquire memory model, operationally.  Every atomic location  *)
(* has its modification order, a sequence of messages.  A thread has        *)
(*   view[t]  for every location the oldest message it may still read       *)
(*            (coherence), and                                              *)
(*   clk[t]   a vector clock: which moments of the other threads            *)
(*            happen-before its present.                                    *)
(* A release write puts both into its message, an acquire read that reads   *)
(* the message (or a later one of its release sequence) takes them over.    *)
(* A read may return any message that its view admits, not only the last.   *)
(* Fences: facq[t] is what t has read without acquiring it (an acquire      *)
(* fence takes it over), frel[t] what t knew at its last release fence      *)
(* (every later write carries it).                                         *)
(* seq_cst operations additionally synchronise their views (not their       *)
(* clocks) through one global view; memory_order_consume counts as acquire. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Thread                 \* thread 0 constructs, forks, joins and destroys
VARIABLES clk, view, msgs, scview, facq, frel
mmvars == <<clk, view, msgs, scview, facq, frel>>

Acq(m) == m \in {"a", "c", "x", "s"}     \* r relaxed, c consume, a acquire, l release, x acq_rel, s seq_cst
Rel(m) == m \in {"l", "x", "s"}

Max2(a, b)  == IF a > b THEN a ELSE b
Join(f, g)  == [i \in DOMAIN f |-> Max2(f[i], g[i])]
NoClock     == [t \in Thread |-> 0]
NoView(n)   == [l \in 1..n |-> 0]

MMInit(n) ==
    /\ clk = [t \in Thread |-> [u \in Thread |-> IF u = t THEN 1 ELSE 0]]
    /\ view = [t \in Thread |-> NoView(n)]
    /\ msgs = [l \in 1..n |-> <<>>]
    /\ scview = NoView(n)
    /\ facq = [t \in Thread |-> [view |-> NoView(n), clk |-> NoClock]]
    /\ frel = [t \in Thread |-> [view |-> NoView(n), clk |-> NoClock]]

\* view of t when an operation with order m begins
Before(t, m) == IF m = "s" THEN Join(view[t], scview) ELSE view[t]
After(t, m, v) == /\ view' = [view EXCEPT ![t] = v]
                  /\ scview' = IF m = "s" THEN Join(scview, v) ELSE scview

Unacquired(t, m, l, i) ==     \* a read that does not acquire may be followed by an acquire fence
    facq' = IF Acq(m) \/ i = 0 THEN facq
            ELSE [facq EXCEPT ![t] = [view |-> Join(@.view, msgs[l][i].view), clk |-> Join(@.clk, msgs[l][i].clk)]]

\* t reads message i of l (i = 0: the location has never been written)
Load(t, l, m, i) ==
    LET v0 == Before(t, m)
        v1 == [v0 EXCEPT ![l] = Max2(@, i)]
        sync == Acq(m) /\ i > 0
    IN /\ i \in 0..Len(msgs[l]) /\ i >= v0[l]
       /\ Unacquired(t, m, l, i) /\ UNCHANGED frel
       /\ After(t, m, IF sync THEN Join(v1, msgs[l][i].view) ELSE v1)
       /\ clk' = IF sync THEN [clk EXCEPT ![t] = Join(@, msgs[l][i].clk)] ELSE clk
       /\ UNCHANGED msgs

Message(t, m, l, i, v, c, pv, pc) ==   \* pv, pc: inherited from the release sequence
    [view |-> LET w == Join(pv, IF Rel(m) THEN v ELSE frel[t].view) IN [w EXCEPT ![l] = i],
     clk  |-> Join(pc, IF Rel(m) THEN c ELSE frel[t].clk)]

Tick(c, t, m) == IF Rel(m) THEN [c EXCEPT ![t][t] = @ + 1] ELSE c

Store(t, l, m) ==
    LET i == Len(msgs[l]) + 1
        v == [Before(t, m) EXCEPT ![l] = i]
    IN /\ msgs' = [msgs EXCEPT ![l] = Append(@, Message(t, m, l, i, v, clk[t], NoView(Len(msgs)), NoClock))]
       /\ clk' = Tick(clk, t, m)
       /\ After(t, m, v)
       /\ UNCHANGED <<facq, frel>>

\* reads the last message, appends the next one
Rmw(t, l, m) ==
    LET n == Len(msgs[l])
        v0 == [Before(t, m) EXCEPT ![l] = n]
        sync == Acq(m) /\ n > 0
        v1 == IF sync THEN Join(v0, msgs[l][n].view) ELSE v0
        c1 == IF sync THEN Join(clk[t], msgs[l][n].clk) ELSE clk[t]
        v2 == [v1 EXCEPT ![l] = n + 1]
        pv == IF n > 0 THEN msgs[l][n].view ELSE NoView(Len(msgs))
        pc == IF n > 0 THEN msgs[l][n].clk ELSE NoClock
    IN /\ msgs' = [msgs EXCEPT ![l] = Append(@, Message(t, m, l, n + 1, v2, c1, pv, pc))]
       /\ clk' = Tick([clk EXCEPT ![t] = c1], t, m)
       /\ After(t, m, v2)
       /\ Unacquired(t, m, l, n) /\ UNCHANGED frel

Fence(t, m) ==
    LET v0 == Before(t, m)
        v1 == IF Acq(m) THEN Join(v0, facq[t].view) ELSE v0
        c1 == IF Acq(m) THEN Join(clk[t], facq[t].clk) ELSE clk[t]
    IN /\ After(t, m, v1)
       /\ frel' = IF Rel(m) THEN [frel EXCEPT ![t] = [view |-> v1, clk |-> c1]] ELSE frel
       /\ clk' = Tick([clk EXCEPT ![t] = c1], t, m)
       /\ UNCHANGED <<msgs, facq>>

RECURSIVE JoinAll(_, _)
JoinAll(f, S) == LET t == CHOOSE t \in S : TRUE IN IF Cardinality(S) = 1 THEN f[t] ELSE Join(f[t], JoinAll(f, S \ {t}))

\* memory was recycled by plain accesses (links of the free list): such a write is outside the memory model.
\* Everybody sees it, and who reads it has the views of everybody (the strongest assumption), but no clocks.
Overwrite(l) ==
    LET i == Len(msgs[l]) + 1 IN
    /\ msgs' = [msgs EXCEPT ![l] = Append(@, [view |-> JoinAll(view, Thread), clk |-> NoClock])]
    /\ view' = [t \in Thread |-> [view[t] EXCEPT ![l] = i]]
    /\ UNCHANGED <<clk, scview, facq, frel>>

Fork == /\ clk' = [t \in Thread |-> IF t = 0 THEN [clk[0] EXCEPT ![0] = @ + 1] ELSE Join(clk[t], clk[0])]
        /\ view' = [t \in Thread |-> view[0]]
        /\ UNCHANGED <<msgs, scview, facq, frel>>
JoinT == /\ clk' = [clk EXCEPT ![0] = JoinAll(clk, Thread)]
         /\ view' = [view EXCEPT ![0] = JoinAll(view, Thread)]
         /\ UNCHANGED <<msgs, scview, facq, frel>>

\* moment e of thread u happens-before the present of t
Ordered(u, e, t) == clk[t][u] >= e
Now(t) == clk[t][t]

MMOK == \A t \in Thread : \A l \in DOMAIN msgs : view[t][l] <= Len(msgs[l])
============================================================================
