------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Which memory a container may touch: its own object, blocks it has        *)
(* obtained from its allocator and not given back, and the buffer a caller  *)
(* hands to a call.  Elements lie inside the container's memory, aligned    *)
(* for their type and apart from each other; nothing but the element's own  *)
(* functions writes to the bytes of a living element; atomic objects are    *)
(* naturally aligned.                                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Apart     \* BOOLEAN: the end of an element's life is known (it has a destructor)
VARIABLES own,      \* memory of the container: set of <<base, size>>
          user,     \* memory of the callers
          live      \* addresses of living elements
svars == <<own, user, live>>

Inside(a, n, m)    == \E b \in m : b[1] <= a /\ a + n <= b[1] + b[2]
Overlap(a, n, b, k) == a < b + k /\ b < a + n

SInit == own = {} /\ user = {} /\ live = {}
Fresh(a, n) == \A b \in own \cup user : n = 0 \/ b[2] = 0 \/ ~Overlap(a, n, b[1], b[2])
Obtain(a, n) == Fresh(a, n) /\ own' = own \cup {<<a, n>>} /\ UNCHANGED <<user, live>>
Lend(a, n)   == Fresh(a, n) /\ user' = user \cup {<<a, n>>} /\ UNCHANGED <<own, live>>
\* a block, the object or a caller's buffer ends; no element may live in it
End(a) == \/ /\ \E b \in own : b[1] = a
             /\ own' = {b \in own : b[1] # a}
             /\ Apart => \A x \in live : \A b \in own : b[1] = a => ~(b[1] <= x /\ x < b[1] + b[2])
             /\ UNCHANGED <<user, live>>
          \/ /\ \E b \in user : b[1] = a
             /\ user' = {b \in user : b[1] # a} /\ UNCHANGED <<own, live>>

Construct(a, size, align) ==
    /\ Inside(a, size, own) /\ a % align = 0
    /\ Apart => \A x \in live : ~Overlap(a, size, x, size)
    /\ live' = live \cup {a} /\ UNCHANGED <<own, user>>
Destroy(a) == a \in live /\ live' = live \ {a} /\ UNCHANGED <<own, user>>
\* kinds: Read, Write, Atomic, Element (a write by a function of the element itself)
Access(k, a, n, size) ==
    /\ Inside(a, n, own \cup user)
    /\ k = "A" => a % n = 0 /\ n \in {1, 2, 4, 8, 16} /\ Inside(a, n, own)
    /\ Apart /\ k \in {"A", "W"} => \A x \in live : ~Overlap(a, n, x, size)
    /\ UNCHANGED svars
=============================================================================
