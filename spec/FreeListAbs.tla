---------------------------- MODULE FreeListAbs ----------------------------
(***************************************************************************)
(* A free list for its users: a set of nodes.  Allocation takes any node    *)
(* out of the set and makes the caller its only owner, or reports that the  *)
(* set was empty (then a node-based, unbounded allocation may create a      *)
(* node); release puts a node back.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread
VARIABLES freeset, owned, pend
flvars == <<freeset, owned, pend>>

Idle == [o |-> "idle"]
Busy(t) == pend[t].o # "idle"
Running(t) == Busy(t) /\ ~pend[t].done

Call(t, op, node) ==
    /\ ~Busy(t)
    /\ (op = "fr" /\ node # 0) => node \in owned[t]
    /\ pend' = [pend EXCEPT ![t] = [o |-> op, node |-> node, done |-> FALSE, res |-> -1, full |-> FALSE]]
    /\ UNCHANGED <<freeset, owned>>

Allocate(t, n) ==
    /\ Running(t) /\ pend[t].o \in {"al", "alu"}
    /\ n \in freeset
    /\ freeset' = freeset \ {n}
    /\ owned' = [owned EXCEPT ![t] = @ \cup {n}]
    /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = n]

SeeNone(t) ==    \* the set was empty at this moment
    /\ Running(t) /\ pend[t].o \in {"al", "alu"} /\ ~pend[t].full
    /\ freeset = {}
    /\ pend' = [pend EXCEPT ![t].full = TRUE, ![t].done = (pend[t].o = "al"), ![t].res = IF pend[t].o = "al" THEN 0 ELSE -1]
    /\ UNCHANGED <<freeset, owned>>

Create(t, n) ==  \* a new node, never seen before
    /\ Running(t) /\ pend[t].o = "alu" /\ pend[t].full
    /\ n \notin freeset /\ \A u \in Thread : n \notin owned[u]
    /\ owned' = [owned EXCEPT ![t] = @ \cup {n}]
    /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = n]
    /\ UNCHANGED freeset

Release(t) ==
    /\ Running(t) /\ pend[t].o = "fr"
    /\ pend[t].node # 0
    /\ owned' = [owned EXCEPT ![t] = @ \ {pend[t].node}]
    /\ freeset' = freeset \cup {pend[t].node}
    /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = 1]

Nothing(t) ==    \* release without owning a node; allocation and release of one node, any number of times
    /\ Running(t) /\ ((pend[t].o = "fr" /\ pend[t].node = 0) \/ pend[t].o = "cyc")
    /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = IF pend[t].o = "cyc" THEN 1 ELSE 0]
    /\ UNCHANGED <<freeset, owned>>

Return(t) ==
    /\ Busy(t) /\ pend[t].done
    /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ UNCHANGED <<freeset, owned>>

\* no node has two owners, no node is owned and free
Exclusive == /\ \A t, u \in Thread : t # u => owned[t] \cap owned[u] = {}
             /\ \A t \in Thread : owned[t] \cap freeset = {}
============================================================================
