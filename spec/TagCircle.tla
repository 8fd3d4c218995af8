----------------------------- MODULE TagCircle -----------------------------
(* TaggedHandle over all 2^16 tags: one handle and its successors.  *)
EXTENDS TaggedHandle
AllTags == 0..65535
Init1 == \E p \in Addrs : x = [p |-> p, t |-> 0] /\ y = x /\ a = x /\ op = [o |-> "init", p |-> 0, t |-> 0, r |-> 0]
\* y and a follow x, so that there is one state per handle
Bump1   == x' = [x EXCEPT !.t = NextTag(@)] /\ UNCHANGED <<y, a>> /\ Do("bump", 0, 0, 0)
SetPtr1 == \E p \in Addrs : x' = [x EXCEPT !.p = p] /\ UNCHANGED <<y, a>> /\ Do("setp", p, 0, 0)
Next1   == Bump1 \/ SetPtr1
Spec1   == Init1 /\ [][Next1]_vars
TypeOK1 == x.p \in Addrs /\ x.t \in 0..65535
============================================================================
