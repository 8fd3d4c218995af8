----------------------------- MODULE MCQueueInf -----------------------------
(***************************************************************************)
(* MSQueue without any bound on the number of calls or on the tags (compare  *)
(* MCTreiberInf).  Every tag belongs to one location (head, tail, pool, the   *)
(* next field of one node) and only grows, so a snapshot of a location is     *)
(* either of its present tag or outdated for ever; the view keeps just that.  *)
(***************************************************************************)
EXTENDS MSQueue
CONSTANTS Ops, Values
Content0 == <<>>
Content1 == <<1>>
Nothing  == {[t \in Thread |-> <<>>]}
CallAny(t) == /\ x(t).pc = "idle"
              /\ \E o \in Ops : \E v \in Values :
                    /\ o = "pop" => v = CHOOSE u \in Values : TRUE
                    /\ Set(t, [IdleTh EXCEPT !.o = o, !.a = IF o = "pop" THEN <<>> ELSE <<v>>, !.pc = IF o = "pop" THEN "d0" ELSE "al0"])
              /\ UNCHANGED <<mem, prog>>
              /\ Ghost(t)
INext == \E t \in Thread : (Step(t) \/ CallAny(t)) /\ UNCHANGED solo
ISpec == Init /\ [][INext]_vars

Rel(h, cur) == H(h.p, IF h.t = cur.t THEN 0 ELSE 1)
None == H(NULL, 0)
Norm(r) == [r EXCEPT
    !.old = IF r.pc \in {"al1", "al2", "fr1", "fr2"} THEN Rel(@, pool) ELSE None,
    !.hd  = IF r.pc \in {"d1", "d2", "d3", "d4", "d5", "d6"} THEN Rel(@, head) ELSE None,
    !.tl  = IF r.pc \in {"e1", "e2", "e3", "e4", "e5", "d2", "d3", "d6"} THEN Rel(@, tail) ELSE None,
    !.nx  = CASE r.pc \in {"al2", "e4", "d3", "d4", "d5", "d6", "d7"} -> H(@.p, 0)
              [] r.pc \in {"e2", "e3"} -> Rel(@, next[r.tl.p])
              [] r.pc = "con1" -> H(NULL, @.t - next[r.n].t)
              [] OTHER -> None,
    !.n   = IF r.pc \in {"con0", "con1", "e0", "e1", "e2", "e3", "e4", "e5", "fr0", "fr1", "fr2", "d7"} THEN @ ELSE NULL,
    !.v   = IF r.pc \in {"d5", "fr0", "fr1", "fr2", "ret"} THEN @ ELSE 0]
InfView == <<head.p, tail.p, pool.p, [n \in Node |-> next[n].p], val, made, [t \in Thread |-> Norm(th[t])], wasEmpty, wasFull>>
=============================================================================
