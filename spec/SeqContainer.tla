---------------------------- MODULE SeqContainer ----------------------------
(***************************************************************************)
(* The sequential meaning of every operation of stack, queue and            *)
(* spsc_queue.  TLC enumerates all states within the bounds and prints      *)
(* every transition; the driver replays all of them on the real containers  *)
(* in every overload and configuration.                                    *)
(*                                                                         *)
(*   content  the elements, next to be removed first                       *)
(*   free     node-based: nodes in the pool; fixed size: unused capacity    *)
(*   off      spsc: number of removals modulo ring size                     *)
(*   last     the last call and its result (not part of the view)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,    \* "stack", "queue", "spsc"
          Class,   \* "N" node based, "B" bounded by its capacity
          Cap,     \* B: capacity, N: nodes allocated by the constructor
          MaxLen, MaxFree, MaxN  \* bounds of the exploration

VARIABLES content, free, off, last
vars == <<content, free, off, last>>
View == <<content, free, off>>

Min(a, b)  == IF a < b THEN a ELSE b
Max(a, b)  == IF a > b THEN a ELSE b
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Values     == 1..(MaxLen + MaxN + 1)
Used       == {content[i] : i \in 1..Len(content)}

\* k values that are not in the container, in ascending order
RECURSIVE Fresh(_, _)
Fresh(k, used) ==
    IF k = 0 THEN <<>>
    ELSE LET v == CHOOSE x \in Values \ used : \A y \in Values \ used : x <= y
         IN <<v>> \o Fresh(k - 1, used \cup {v})

Insert(s) == IF Kind = "stack" THEN Reverse(s) \o content ELSE content \o s
Ring(k)   == IF Kind = "spsc" THEN (off + k) % (Cap + 1) ELSE 0

Ret(op, args, n, dlv) == last' = [o |-> op, a |-> args, n |-> n, d |-> dlv]

\* a push of the elements s of which m are accepted and p of the used nodes come from the pool
Accept(op, s, m, p, n) ==
    /\ content' = Insert(SubSeq(s, 1, m))
    /\ free' = free - p
    /\ UNCHANGED off
    /\ Ret(op, s, n, <<>>)

Room == IF Class = "N" THEN MaxLen - Len(content) ELSE MaxN

Push(op) ==    \* push, bpush
    LET s == Fresh(1, Used)
        m == IF Class = "N" /\ op = "push" THEN 1 ELSE Min(1, free)
    IN /\ Room >= 1
       /\ Accept(op, s, m, Min(m, free), m)

PushRange(op, k) ==    \* rpush, rbpush (stack), pushn (spsc)
    LET s == Fresh(k, Used)
        m == IF Class = "N" /\ op = "rpush" THEN k ELSE Min(k, free)
    IN /\ k <= Room
       /\ Accept(op, s, m, Min(m, free), m)

\* the first m elements are removed and delivered in the order of dlv
RemoveN(op, args, m, dlv, n) ==
    /\ content' = SubSeq(content, m + 1, Len(content))
    /\ free' = free + m
    /\ off' = Ring(m)
    /\ Ret(op, args, n, dlv)

Pop(op) == LET m == Min(1, Len(content)) IN RemoveN(op, <<>>, m, SubSeq(content, 1, m), m)   \* pop, c1, popv
PopN(k) == LET m == Min(k, Len(content)) IN RemoveN("popn", <<k>>, m, SubSeq(content, 1, m), m)
All(op) == RemoveN(op, <<>>, Len(content), IF op = "catr" THEN Reverse(content) ELSE content, Len(content))
Reset   == /\ content' = <<>> /\ free' = Cap /\ off' = 0 /\ Ret("reset", <<>>, 0, <<>>)
Reserve(k) == /\ Class = "N" /\ free + k <= MaxFree
              /\ free' = free + k /\ UNCHANGED <<content, off>> /\ Ret("res", <<k>>, 0, <<>>)

Observe(op) ==
    /\ UNCHANGED <<content, free, off>>
    /\ op = "front" => content # <<>>
    /\ Ret(op, <<>>, CASE op = "empty" -> IF content = <<>> THEN 1 ELSE 0
                       [] op = "ra"    -> Len(content)
                       [] op = "wa"    -> Cap - Len(content)
                       [] op = "front" -> 1,
           IF op = "front" THEN <<content[1]>> ELSE <<>>)

Init == content = <<>> /\ free = Cap /\ off = 0 /\ last = [o |-> "init", a |-> <<>>, n |-> 0, d |-> <<>>]

Next ==
    \/ Push("push")
    \/ Pop("pop") \/ Pop("c1") \/ All("call") \/ Observe("empty")
    \/ Kind # "spsc" /\ Push("bpush")
    \/ \E k \in 0..2 : Kind # "spsc" /\ Reserve(k)
    \/ Kind = "stack" /\ (All("cata") \/ All("catr"))
    \/ \E k \in 0..MaxN : Kind = "stack" /\ (PushRange("rpush", k) \/ PushRange("rbpush", k))
    \/ Kind = "spsc" /\ (Pop("popv") \/ All("popi") \/ Reset \/ Observe("ra") \/ Observe("wa") \/ Observe("front"))
    \/ \E k \in 0..MaxN : Kind = "spsc" /\ (PushRange("pushn", k) \/ PopN(k))

Spec == Init /\ [][Next]_vars

\* every transition is printed
Edge == PrintT("EDGE " \o ToJson([s |-> <<content, free, off>>, o |-> last'.o, a |-> last'.a, n |-> last'.n, d |-> last'.d,
                                  t |-> <<content', free', off'>>]))

Bounds == Len(content) <= MaxLen /\ free <= MaxFree

----------------------------------------------------------------------------
\* what the model itself guarantees
TypeOK == /\ free >= 0 /\ Len(content) <= Max(MaxLen, Cap)
          /\ \A i, j \in 1..Len(content) : content[i] = content[j] => i = j
          /\ Class = "B" => Len(content) + free = Cap
\* elements only enter by a push and leave in order
Conserved == [][/\ Len(content') - Len(content) \in -Len(content)..MaxN
                /\ (Len(content') < Len(content) /\ last'.o # "reset" /\ last'.o # "catr")
                     => content = last'.d \o content' \/ (last'.o = "popv")]_vars
============================================================================
