--------------------------- MODULE MemDiscipline ---------------------------
(***************************************************************************)
(* The contract between a container and its allocator.  A container is     *)
(* constructed, used and destroyed; cls says which kind it is:             *)
(*   "C" capacity<> (no allocator), "F" fixed_sized or run-time sized ring  *)
(*   buffer (construction only), "N" node based (construction and use).    *)
(* live is the set of <<block, size>> that were obtained and not returned.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT Owner      \* identity of the allocator the container was given

MemInit == [phase |-> "ctor", live |-> {}]

\* thread 0 is the thread that constructs and destroys
MemAlloc(m, cls, t, w, b, s) ==
    [ok |-> /\ w = Owner
            /\ cls # "C"
            /\ cls = "F" => m.phase = "ctor"
            /\ m.phase \in {"ctor", "use"}
            /\ m.phase = "ctor" <=> t = 0
            /\ b \notin {x[1] : x \in m.live},
     m |-> [m EXCEPT !.live = @ \cup {<<b, s>>}]]

MemFree(m, w, b, s) ==
    [ok |-> w = Owner /\ m.phase \in {"ctor", "dtor"} /\ <<b, s>> \in m.live,    \* a failing construction gives everything back
     m |-> [m EXCEPT !.live = @ \ {<<b, s>>}]]

MemPhase(m, p) == [m EXCEPT !.phase = p]

\* a failed construction gives everything back; so does destruction
MemClean(m) == m.live = {}
============================================================================
