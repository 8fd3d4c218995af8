---------------------------- MODULE TaggedHandle ----------------------------
(***************************************************************************)
(* Tagged handles: an address (or index) together with a 16 bit tag.  Two   *)
(* handles x, y and an atomic cell a are worked on by every operation the   *)
(* handle classes offer.  TLC enumerates all states over a set of tags that *)
(* includes the wrap-around and all byte boundaries, and prints every       *)
(* transition; the driver replays them on the real classes with many        *)
(* different concrete addresses / indices for the abstract ones.            *)
(* Null is the null address.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Addrs,   \* abstract addresses, 0 is null
          Tags

Modulus   == 65536
NextTag(t) == (t + 1) % Modulus
H          == [p : Addrs, t : Tags]

VARIABLES x, y, a, op
vars == <<x, y, a, op>>
View == <<x, y, a>>

Do(o, p, t, r) == op' = [o |-> o, p |-> p, t |-> t, r |-> r]

Init == x = [p |-> 0, t |-> 0] /\ y = x /\ a = x /\ op = [o |-> "init", p |-> 0, t |-> 0, r |-> 0]

Construct == \E p \in Addrs, t \in Tags : x' = [p |-> p, t |-> t] /\ UNCHANGED <<y, a>> /\ Do("new", p, t, 0)
Construct1 == \E p \in Addrs : x' = [p |-> p, t |-> 0] /\ UNCHANGED <<y, a>> /\ Do("new1", p, 0, 0)
Set     == \E p \in Addrs, t \in Tags : x' = [p |-> p, t |-> t] /\ UNCHANGED <<y, a>> /\ Do("set", p, t, 0)
SetPtr  == \E p \in Addrs : x' = [x EXCEPT !.p = p] /\ UNCHANGED <<y, a>> /\ Do("setp", p, 0, 0)
SetTag  == \E t \in Tags : x' = [x EXCEPT !.t = t] /\ UNCHANGED <<y, a>> /\ Do("sett", 0, t, 0)
\* what the containers do to renew a handle
Bump    == /\ NextTag(x.t) \in Tags
           /\ x' = [x EXCEPT !.t = NextTag(@)] /\ UNCHANGED <<y, a>> /\ Do("bump", 0, 0, 0)
Copy    == y' = x /\ UNCHANGED <<x, a>> /\ Do("copy", 0, 0, 0)
Swap    == x' = y /\ y' = x /\ UNCHANGED a /\ Do("swap", 0, 0, 0)
Store   == a' = x /\ UNCHANGED <<x, y>> /\ Do("store", 0, 0, 0)
Load    == x' = a /\ UNCHANGED <<y, a>> /\ Do("load", 0, 0, 0)
\* compare_exchange_strong: x expected, y desired
Cas     == IF x = a THEN a' = y /\ UNCHANGED <<x, y>> /\ Do("cas", 0, 0, 1)
                    ELSE x' = a /\ UNCHANGED <<y, a>> /\ Do("cas", 0, 0, 0)

Next == Construct \/ Construct1 \/ Set \/ SetPtr \/ SetTag \/ Bump \/ Copy \/ Swap \/ Store \/ Load \/ Cas
Spec == Init /\ [][Next]_vars

\* what is visible of a state
Obs(h) == <<h.p, h.t, NextTag(h.t)>>
Edge == PrintT("EDGE " \o ToJson(<<Obs(x), Obs(y), Obs(a), op'.o, op'.p, op'.t, op'.r, Obs(x'), Obs(y'), Obs(a'), IF x' = y' THEN 1 ELSE 0>>))

TypeOK == x \in H /\ y \in H /\ a \in H
\* address and tag are independent
Independent == [][/\ op'.o = "setp" => x'.t = x.t
                  /\ op'.o \in {"sett", "bump"} => x'.p = x.p
                  /\ op'.o = "bump" => x'.t # x.t]_vars
============================================================================
