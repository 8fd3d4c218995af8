---------------------------- MODULE MCTreiberInf ----------------------------
(***************************************************************************)
(* TreiberStack without any bound on the number of calls or on the tags:     *)
(* every thread goes on calling operations for ever.  The number of nodes is  *)
(* the only bound.  Tags are not counted modulo anything; a snapshot of a     *)
(* list head matters only as "still current" or "outdated for ever" (tags of *)
(* a head only grow), which is what the view keeps of it.  So the finite      *)
(* graph that TLC explores covers histories of every length.                 *)
(***************************************************************************)
EXTENDS TreiberStack
CONSTANTS Ops, Values
Content0 == <<1>>
Content1 == <<1, 2>>
Nothing  == {[t \in Thread |-> <<>>]}
Args(o)  == IF o \in {"push", "bpush"} THEN {<<v>> : v \in Values}
            ELSE IF o \in {"rpush", "rbpush"} THEN {<<v, w>> : v \in Values, w \in Values} ELSE {<<>>}
CallAny(t) == /\ x(t).pc = "idle"
              /\ \E o \in Ops : \E a \in Args(o) : Set(t, Begin(o, a))
              /\ UNCHANGED <<tos, pool, link, val, made, prog>>
INext == \E t \in Thread : (Step(t) \/ CallAny(t)) /\ UNCHANGED solo
ISpec == Init /\ [][INext]_vars

\* which head the snapshot belongs to
OfPool(pc) == pc \in {"al1", "al2", "fr1", "fr2"}
OfTos(pc)  == pc \in {"pu1", "pu2", "po1", "po2", "ca1"}
Norm(r) == LET cur == IF OfPool(r.pc) THEN pool ELSE tos IN
           [r EXCEPT !.old = IF OfPool(r.pc) \/ OfTos(r.pc) THEN H(r.old.p, IF r.old = cur THEN 0 ELSE IF r.old.t = cur.t THEN 1 ELSE 2) ELSE H(NULL, 0),
                     !.nx = IF r.pc \in {"al2", "po2", "rv0"} THEN @ ELSE NULL,
                     !.n = IF r.pc \in {"con", "del", "fr0", "fr1", "fr2"} THEN @ ELSE NULL]
InfView == <<tos.p, pool.p, link, val, made, [t \in Thread |-> Norm(th[t])]>>
=============================================================================
