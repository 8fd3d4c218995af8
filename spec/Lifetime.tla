----------------------------- MODULE Lifetime -----------------------------
(***************************************************************************)
(* Life of the elements stored in a container.  A storage cell is raw or    *)
(* holds a live element.  An insertion constructs elements (copies of its   *)
(* arguments) in raw cells; a removal destroys the elements it removed, and *)
(* nothing else; elements are read only while they are alive.              *)
(*                                                                         *)
(* made[t], gone[t]: what the running call of thread t has constructed and  *)
(* destroyed so far (sequences of <<cell, value>>).  Thread 0 constructs    *)
(* the container, fills and drains it, and destroys it.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Thread
VARIABLES live,   \* cell -> value, for the live cells (a set of pairs)
          call,   \* thread -> pending operation
          made, gone
lvars == <<live, call, made, gone>>

NoCall == [o |-> "idle"]
Pushes == {"push", "bpush", "rpush", "rbpush", "pushn"}
Removes == {"pop", "popn", "popv", "popi", "c1", "call", "cata", "catr", "reset"}

LInit == live = {} /\ call = [t \in Thread |-> NoCall] /\ made = [t \in Thread |-> <<>>] /\ gone = [t \in Thread |-> <<>>]

Alive(c)  == \E p \in live : p[1] = c
ToSet(s)  == {s[i] : i \in 1..Len(s)}
Bag(s)    == [v \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = v})]
Values(s) == [i \in 1..Len(s) |-> s[i][2]]

Begin(t, c) == /\ call[t].o = "idle" /\ call' = [call EXCEPT ![t] = c]
               /\ made' = [made EXCEPT ![t] = <<>>] /\ gone' = [gone EXCEPT ![t] = <<>>]
               /\ UNCHANGED live

\* a copy is constructed in a raw cell; within a call it is a copy of the next argument
Construct(t, c, v) ==
    /\ ~Alive(c)
    /\ t # 0 => /\ call[t].o \in Pushes
                /\ v \in ToSet(call[t].a)
    /\ live' = live \cup {<<c, v>>}
    /\ made' = [made EXCEPT ![t] = Append(@, <<c, v>>)]
    /\ UNCHANGED <<call, gone>>

Read(t, c, v) == <<c, v>> \in live /\ UNCHANGED lvars

\* assignment to a stored element: only to a live one
Assign(t, c, v) == /\ Alive(c)
                   /\ live' = {p \in live : p[1] # c} \cup {<<c, v>>}
                   /\ UNCHANGED <<call, made, gone>>

\* a call destroys what it removes, or takes back its own copies
Destroy(t, c, v) ==
    /\ <<c, v>> \in live
    /\ t # 0 => call[t].o \in Removes \/ (call[t].o \in Pushes /\ <<c, v>> \in ToSet(made[t]))
    /\ live' = live \ {<<c, v>>}
    /\ IF t # 0 /\ call[t].o \in Pushes
       THEN made' = [made EXCEPT ![t] = SelectSeq(@, LAMBDA p : p # <<c, v>>)] /\ UNCHANGED gone
       ELSE gone' = [gone EXCEPT ![t] = Append(@, <<c, v>>)] /\ UNCHANGED made
    /\ UNCHANGED call

\* the call is over: exactly the inserted elements were made, exactly the removed ones are gone
End(t) ==
    /\ call[t].o # "idle"
    /\ call[t].o \in Pushes =>
            /\ Len(made[t]) = call[t].n
            /\ Bag(Values(made[t])) = Bag(SubSeq(call[t].a, 1, call[t].n))
    /\ call[t].o \in Removes \ {"popv", "reset"} => Bag(Values(gone[t])) = Bag(call[t].v)
    /\ call[t].o = "popv" => Len(gone[t]) = call[t].n
    /\ call[t].o = "reset" => live = {}          \* nobody else is active
    /\ call[t].o \notin Pushes => made[t] = <<>>
    /\ call[t].o \notin Pushes \cup Removes => gone[t] = <<>>
    /\ call' = [call EXCEPT ![t] = NoCall]
    /\ UNCHANGED <<live, made, gone>>

\* values of the live elements while no call is running
Content == LET RECURSIVE F(_)
               F(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p[2]>> \o F(S \ {p})
           IN F(live)
============================================================================
