--------------------------- MODULE AbsContainer ---------------------------
(***************************************************************************)
(* What a boost.lockfree stack or queue is for its users: a sequence of    *)
(* elements acted on by calls that overlap in time.  Every call is split    *)
(* into Call, the internal moments at which it takes effect, and Return.    *)
(*                                                                         *)
(* content[1] is the element removed next (top of the stack / front of the *)
(* queue).  A push may have to obtain nodes from the pool (Take, SeeFull,  *)
(* Alloc), then becomes visible in one step (Link).  A removal takes       *)
(* effect in one step per element (Remove), or in one step for everything  *)
(* (RemoveAll), and gives the node back some time later (Release).         *)
(*                                                                         *)
(* With Strict = FALSE the pool is ignored: a push may then fail at will.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Kind,     \* "stack" or "queue"
          Strict,   \* BOOLEAN: account for nodes
          Thread    \* set of thread identifiers

VARIABLES content,  \* sequence of elements
          pend,     \* [Thread -> pending call]
          free      \* number of nodes in the pool

absvars == <<content, pend, free>>

Idle == [o |-> "idle"]
NewCall(op, args) == [o |-> op, a |-> args, done |-> FALSE, res |-> -1,
                      got |-> <<>>, dl |-> 0, h |-> 0, full |-> FALSE, thr |-> FALSE]

PushOps    == {"push", "bpush", "rpush", "rbpush"}
BoundedOps == {"bpush", "rbpush"}
PopOps     == {"pop", "c1"}
AllOps     == {"cata", "catr"}
LoopOps    == {"call"}
RemOps     == PopOps \cup AllOps \cup LoopOps

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Busy(t)    == pend[t].o # "idle"
Running(t) == Busy(t) /\ ~pend[t].done
Upd(t, r)  == pend' = [pend EXCEPT ![t] = r]

----------------------------------------------------------------------------
Call(t, op, args) ==
    /\ ~Busy(t)
    /\ Upd(t, NewCall(op, args))
    /\ UNCHANGED <<content, free>>

\* obtain one node from the pool
Take(t) ==
    /\ Strict /\ Running(t) /\ pend[t].o \in PushOps /\ ~pend[t].thr
    /\ pend[t].h < Len(pend[t].a)
    /\ free > 0
    /\ free' = free - 1
    /\ Upd(t, [pend[t] EXCEPT !.h = @ + 1, !.full = FALSE])
    /\ UNCHANGED content

\* the moment at which a push finds the pool exhausted
SeeFull(t) ==
    /\ Running(t) /\ pend[t].o \in PushOps
    /\ ~pend[t].full
    /\ Strict => free = 0 /\ pend[t].h < Len(pend[t].a)
    /\ Upd(t, [pend[t] EXCEPT !.full = TRUE])
    /\ UNCHANGED <<content, free>>

\* a node comes from the allocator; only after the pool was exhausted, never for bounded pushes
Alloc(t) ==
    /\ Strict /\ Running(t) /\ ~pend[t].thr /\ pend[t].o \in PushOps \ BoundedOps
    /\ pend[t].full
    /\ Upd(t, [pend[t] EXCEPT !.h = @ + 1, !.full = FALSE])
    /\ UNCHANGED <<content, free>>

\* reserve(n): n nodes come from the allocator and go to the pool, unconditionally
ReserveAlloc(t) ==
    /\ Strict /\ Running(t) /\ pend[t].o = "res"
    /\ pend[t].dl < pend[t].a[1] /\ ~pend[t].thr
    /\ Upd(t, [pend[t] EXCEPT !.h = @ + 1, !.dl = @ + 1])
    /\ UNCHANGED <<content, free>>
ReserveDone(t) ==
    /\ Running(t) /\ pend[t].o = "res" /\ ~pend[t].thr
    /\ Strict => pend[t].dl = pend[t].a[1] /\ pend[t].h = 0
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = 0])
    /\ UNCHANGED <<content, free>>

\* the first k elements of the argument become visible, all at once
Insert(k, s) ==
    IF Kind = "stack" THEN Reverse(SubSeq(s, 1, k)) \o content
                      ELSE content \o SubSeq(s, 1, k)

Link(t, k) ==
    /\ Running(t) /\ pend[t].o \in PushOps /\ ~pend[t].thr
    /\ k \in 0..Len(pend[t].a)
    /\ k < Len(pend[t].a) => pend[t].full
    /\ Strict => pend[t].h = k
    /\ content' = Insert(k, pend[t].a)
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = k, !.h = 0])
    /\ UNCHANGED free

\* one element is removed
Remove(t) ==
    /\ Running(t) /\ pend[t].o \in PopOps \cup LoopOps
    /\ content # <<>>
    /\ pend[t].dl = Len(pend[t].got)     \* a loop delivers an element before it takes the next one
    /\ content' = Tail(content)
    /\ Upd(t, [pend[t] EXCEPT !.got = Append(@, Head(content)),
                              !.done = pend[t].o \in PopOps,
                              !.res  = IF pend[t].o \in PopOps THEN 1 ELSE -1,
                              !.h    = IF Strict THEN @ + 1 ELSE @])
    /\ UNCHANGED free

\* the moment at which a removal finds the container empty
SeeEmpty(t) ==
    /\ Running(t) /\ pend[t].o \in RemOps
    /\ content = <<>>
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = Len(pend[t].got)])
    /\ UNCHANGED <<content, free>>

\* everything is removed in one step
RemoveAll(t) ==
    /\ Running(t) /\ pend[t].o \in AllOps
    /\ content # <<>>
    /\ content' = <<>>
    /\ Upd(t, [pend[t] EXCEPT !.got = IF pend[t].o = "cata" THEN content ELSE Reverse(content),
                              !.done = TRUE, !.res = Len(content),
                              !.h    = IF Strict THEN @ + Len(content) ELSE @])
    /\ UNCHANGED free

\* a removed node goes back to the pool
Release(t) ==
    /\ Strict /\ Busy(t)
    /\ pend[t].o \in RemOps \cup {"res"} \/ pend[t].thr
    /\ pend[t].h > 0
    /\ free' = free + 1
    /\ Upd(t, [pend[t] EXCEPT !.h = @ - 1])
    /\ UNCHANGED content

\* an allocation or an element copy fails inside a push or reserve: from here on the call only gives back what it holds
Throw(t) ==
    /\ Running(t) /\ pend[t].o \in PushOps \cup {"res"} /\ ~pend[t].thr
    /\ Upd(t, [pend[t] EXCEPT !.thr = TRUE])
    /\ UNCHANGED <<content, free>>
Thrown == -2
Fail(t) ==
    /\ Running(t) /\ pend[t].thr
    /\ Strict => pend[t].h = 0
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = Thrown])
    /\ UNCHANGED <<content, free>>

\* the functor is called with the next removed element
Deliver(t) ==
    /\ Busy(t) /\ pend[t].o \in RemOps
    /\ pend[t].dl < Len(pend[t].got)
    /\ Upd(t, [pend[t] EXCEPT !.dl = @ + 1])
    /\ UNCHANGED <<content, free>>

\* empty(): the answer of some moment during the call
Observe(t) ==
    /\ Running(t) /\ pend[t].o = "empty"
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = IF content = <<>> THEN 1 ELSE 0])
    /\ UNCHANGED <<content, free>>

\* k times: remove one element and insert it again (no step of another call in between)
Rotate(s, k) == IF Kind = "stack" THEN s
                ELSE LET m == k % Len(s) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
Cycle(t) ==
    /\ Running(t) /\ pend[t].o = "cyc"
    /\ content' = IF content = <<>> THEN <<>> ELSE Rotate(content, pend[t].a[1])
    /\ Upd(t, [pend[t] EXCEPT !.done = TRUE, !.res = IF content = <<>> THEN 0 ELSE 1])
    /\ UNCHANGED free

Return(t) ==
    /\ Busy(t) /\ pend[t].done
    /\ Strict => pend[t].h = 0
    /\ pend[t].o \in AllOps \cup LoopOps => pend[t].dl = Len(pend[t].got)
    /\ Upd(t, Idle)
    /\ UNCHANGED <<content, free>>

Silent(t) == \/ Take(t) \/ SeeFull(t) \/ Remove(t) \/ SeeEmpty(t) \/ RemoveAll(t)
             \/ Release(t) \/ ReserveDone(t) \/ Observe(t) \/ Cycle(t)
             \/ (\E k \in 0..(IF Running(t) THEN Len(pend[t].a) ELSE 0) : Link(t, k))
============================================================================
