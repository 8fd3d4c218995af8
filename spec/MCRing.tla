------------------------------- MODULE MCRing -------------------------------
EXTENDS SpscRing
CONSTANTS MaxP, MaxC, Batch
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == Seqs(S, n - 1) IN T \cup {Append(s, e) : s \in {u \in T : Len(u) = n - 1}, e \in S}
Pushes(b) == {s \in Seqs(1..Batch, MaxP) : Len(s) = MaxP}
\* producer: MaxP calls with 1..Batch elements each, numbered consecutively; consumer: MaxC calls for at most 1..Batch elements
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
PProg(s) == [i \in 1..Len(s) |-> LET b == Sum(SubSeq(s, 1, i - 1)) IN [o |-> "push", a |-> [j \in 1..s[i] |-> b + j]]]
CProg(s) == [i \in 1..Len(s) |-> [o |-> "pop", a |-> <<s[i]>>]]
AllProgs == {<<PProg(s), CProg(u)>> : s \in Pushes(0), u \in {v \in Seqs(1..Batch, MaxC) : Len(v) = MaxC}}
Real == [own |-> "r", pushsees |-> "a", publish |-> "l", popsees |-> "a", release |-> "l"]
RPushSees == [Real EXCEPT !.pushsees = "r"]
RPublish  == [Real EXCEPT !.publish = "r"]
RPopSees  == [Real EXCEPT !.popsees = "r"]
RRelease  == [Real EXCEPT !.release = "r"]
Content0 == <<>>
Content1 == <<91>>
==============================================================================
