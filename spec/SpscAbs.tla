------------------------------ MODULE SpscAbs ------------------------------
(***************************************************************************)
(* spsc_queue for its users: a FIFO of capacity Cap between one producer    *)
(* and one consumer.  The producer publishes elements, the consumer takes   *)
(* them; a slot is occupied from publication until the consumer releases    *)
(* it, which may be later than the delivery of the element.                *)
(*                                                                         *)
(* A call that transfers fewer elements than it could have been asked for   *)
(* must have looked (SeeSpace, SeeAvail) at a moment at which exactly that  *)
(* little was possible.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES q,     \* published elements that have not been taken
          held,  \* slots whose element was taken but which are not free yet
          prod,  \* pending call of the producer
          cons,  \* pending call of the consumer
          cap    \* capacity (constant during a behaviour)

spvars == <<q, held, prod, cons, cap>>

Idle == [o |-> "idle"]

\* operations of the producer: push (one) and pushn (many); observers wa, ra, empty
\* operations of the consumer: pop, popn, popi (everything), c1, call, popv; observers ra, wa, empty, front
PushOps == {"push", "pushn"}
OnePop  == {"pop", "c1", "popv"}
AllPop  == {"popi", "call"}
PopOps  == OnePop \cup AllPop \cup {"popn"}
Space   == cap - Len(q) - held
Infinity == 1000000

Want(o, a) == IF o \in OnePop THEN 1 ELSE IF o = "popn" THEN a[1] ELSE IF o \in AllPop THEN Infinity ELSE 0

PBusy == prod.o # "idle"
CBusy == cons.o # "idle"

ProdCall(o, a) ==
    /\ ~PBusy
    /\ prod' = [o |-> o, a |-> a, j |-> 0, lim |-> -1, res |-> -1, thr |-> FALSE]
    /\ UNCHANGED <<q, held, cons, cap>>
ConsCall(o, a) ==
    /\ ~CBusy
    /\ cons' = [o |-> o, want |-> Want(o, a), got |-> <<>>, dl |-> 0, lim |-> -1, res |-> -1]
    /\ UNCHANGED <<q, held, prod, cap>>

\* the next element of the argument becomes visible to the consumer
Publish ==
    /\ PBusy /\ prod.o \in PushOps /\ ~prod.thr
    /\ prod.j < Len(prod.a)
    /\ Space > 0
    /\ q' = Append(q, prod.a[prod.j + 1])
    /\ prod' = [prod EXCEPT !.j = @ + 1]
    /\ UNCHANGED <<held, cons, cap>>
\* the producer looks how much space is left
SeeSpace ==
    /\ PBusy /\ prod.o \in PushOps
    /\ prod' = [prod EXCEPT !.lim = prod.j + Space]
    /\ UNCHANGED <<q, held, cons, cap>>
ProdReturn ==
    /\ PBusy
    /\ prod.o \in PushOps => prod.j = Len(prod.a) \/ prod.lim = prod.j \/ prod.thr
    /\ prod.o \notin PushOps => prod.res >= 0
    /\ prod' = Idle
    /\ UNCHANGED <<q, held, cons, cap>>
\* an element copy fails: nothing may be visible of the call, before and after
Thrown == -2
ProdThrow ==
    /\ PBusy /\ prod.o \in PushOps /\ prod.j = 0 /\ ~prod.thr
    /\ prod' = [prod EXCEPT !.thr = TRUE]
    /\ UNCHANGED <<q, held, cons, cap>>
ProdResult == IF prod.o \in PushOps /\ prod.thr THEN Thrown ELSE IF prod.o \in PushOps THEN prod.j ELSE prod.res

Take ==
    /\ CBusy /\ cons.o \in PopOps
    /\ q # <<>> /\ Len(cons.got) < cons.want
    /\ q' = Tail(q) /\ held' = held + 1
    /\ cons' = [cons EXCEPT !.got = Append(@, Head(q))]
    /\ UNCHANGED <<prod, cap>>
SeeAvail ==
    /\ CBusy /\ cons.o \in PopOps
    /\ cons' = [cons EXCEPT !.lim = Len(cons.got) + Len(q)]
    /\ UNCHANGED <<q, held, prod, cap>>
Release ==
    /\ CBusy /\ held > 0
    /\ held' = held - 1
    /\ UNCHANGED <<q, prod, cons, cap>>
ConsReturn ==
    /\ CBusy
    /\ cons.o \in PopOps => /\ Len(cons.got) = cons.want \/ cons.lim = Len(cons.got)
                            /\ held = 0
    /\ cons.o \notin PopOps => cons.res >= 0
    /\ cons' = Idle
    /\ UNCHANGED <<q, held, prod, cap>>
ConsResult == IF cons.o \in PopOps THEN Len(cons.got) ELSE cons.res

\* observers: the answer of one moment
ObsValue(o) == CASE o = "ra" -> Len(q)
                 [] o = "wa" -> Space
                 [] o = "empty" -> IF q = <<>> THEN 1 ELSE 0
                 [] o = "front" -> IF q = <<>> THEN 0 ELSE 1
ProdObserve ==
    /\ PBusy /\ prod.o \in {"wa", "ra", "empty"} /\ prod.res = -1
    /\ prod' = [prod EXCEPT !.res = ObsValue(prod.o)]
    /\ UNCHANGED <<q, held, cons, cap>>
ConsObserve ==
    /\ CBusy /\ cons.o \in {"wa", "ra", "empty", "front"} /\ cons.res = -1
    /\ cons' = [cons EXCEPT !.res = ObsValue(cons.o),
                            !.got = IF cons.o = "front" /\ q # <<>> THEN <<Head(q)>> ELSE @]
    /\ UNCHANGED <<q, held, prod, cap>>

\* nothing accepted is overwritten: occupied slots never exceed the capacity
Bounded == Len(q) + held <= cap /\ held >= 0
============================================================================
