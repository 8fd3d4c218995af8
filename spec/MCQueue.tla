------------------------------- MODULE MCQueue -------------------------------
\* instances of MSQueue for TLC: every thread does every sequence of operations up to a length
EXTENDS MSQueue
CONSTANTS Ops, MaxLen, MaxTotal
Seqs == UNION {[1..n -> Ops] : n \in 1..MaxLen}
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Len(f[t]) + Total(f, S \ {t})
ToProg(f) == [t \in Thread |-> [i \in 1..Len(f[t]) |-> [o |-> f[t][i], a |-> IF f[t][i] = "pop" THEN <<>> ELSE IF f[t][i] = "res" THEN <<1>> ELSE <<10 * t + i>>]]]
AllProgs == {ToProg(f) : f \in {g \in [Thread -> Seqs] : Total(g, Thread) <= MaxTotal}}
Content0 == <<>>
Content1 == <<1>>
Content2 == <<1, 2>>
==============================================================================
