------------------------------ MODULE MCTreiber ------------------------------
\* instances of TreiberStack for TLC: every thread does every sequence of operations up to a length
EXTENDS TreiberStack
CONSTANTS Ops, MaxLen, MaxTotal
Seqs == UNION {[1..n -> Ops] : n \in 0..MaxLen}
\* operands: distinct for every call
Val(t, i, j) == 100 * t + 10 * i + j
Args(t, i, o) == IF o \in {"push", "bpush"} THEN <<Val(t, i, 1)>> ELSE IF o \in {"rpush", "rbpush"} THEN <<Val(t, i, 1), Val(t, i, 2)>> ELSE IF o = "res" THEN <<1>> ELSE <<>>
Ordered(f) == TRUE
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Len(f[t]) + Total(f, S \ {t})
ToProg(f) == [t \in Thread |-> [i \in 1..Len(f[t]) |-> [o |-> f[t][i], a |-> Args(t, i, f[t][i])]]]
AllProgs == {ToProg(f) : f \in {g \in [Thread -> Seqs] : Total(g, Thread) <= MaxTotal /\ \A t \in Thread : g[t] # <<>>}}
Content0 == <<1>>
Content1 == <<1, 2>>
Content2 == <<1, 2, 3>>
=============================================================================
