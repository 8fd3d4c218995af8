-------------------------- MODULE SeveralContainers --------------------------
(***************************************************************************)
(* Two containers of the same type used in turn by one thread, one of them    *)
(* destroyed and constructed again at any time: the state of a container is    *)
(* its own.  content, free and off belong to the container in use (who),      *)
(* parked is the state of the other one.                                   *)
(***************************************************************************)
EXTENDS SeqContainer
VARIABLES parked, who
svars == <<content, free, off, last, parked, who>>
SView == <<content, free, off, parked, who>>
State == <<content, free, off>>
Empty == <<<<>>, Cap, 0>>
SInit == Init /\ parked = Empty /\ who = 1
\* go on with the other container
Use   == /\ content' = parked[1] /\ free' = parked[2] /\ off' = parked[3]
         /\ parked' = State /\ who' = 3 - who
         /\ Ret("use", <<who'>>, 0, <<>>)
\* destroy the container in use, construct another one in its place
Renew == /\ content' = Empty[1] /\ free' = Empty[2] /\ off' = Empty[3]
         /\ UNCHANGED <<parked, who>>
         /\ Ret("new", <<who>>, 0, <<>>)
\* take everything out of the container in use; the functor (output iterator) pushes it into the other one
Move  == LET m == Len(content)
             k == IF Class = "N" THEN m ELSE Min(m, parked[2])
             s == Fresh(k, {parked[1][i] : i \in 1..Len(parked[1])})      \* what the elements are called over there
         IN /\ Class = "N" => Len(parked[1]) + m <= MaxLen
            /\ content' = <<>> /\ free' = free + m /\ off' = Ring(m)
            /\ parked' = <<IF Kind = "stack" THEN Reverse(s) \o parked[1] ELSE parked[1] \o s, parked[2] - Min(k, parked[2]), parked[3]>>
            /\ UNCHANGED who
            /\ Ret("mv", s, m, content)
\* take everything out of the container in use; the functor, when it sees the first element, takes everything out of the other one
Nest  == LET m == Len(content)  k == Len(parked[1]) IN
         /\ m > 0
         /\ content' = <<>> /\ free' = free + m /\ off' = Ring(m)
         /\ parked' = <<<<>>, parked[2] + k, IF Kind = "spsc" THEN (parked[3] + k) % (Cap + 1) ELSE 0>>
         /\ UNCHANGED who
         /\ Ret("nst", <<k>>, m, content)
SNext == (Next /\ UNCHANGED <<parked, who>>) \/ Use \/ Renew \/ Move \/ Nest
SSpec == SInit /\ [][SNext]_svars
SEdge == PrintT("EDGE " \o ToJson([s |-> <<content, free, off, parked, who>>, o |-> last'.o, a |-> last'.a, n |-> last'.n, d |-> last'.d,
                                   t |-> <<content', free', off', parked', who'>>]))
\* each container alone: nothing happens to it but its own calls and its own renewal
Of(i) == IF who = i THEN State ELSE parked
Its(i)      == who = i /\ who' = i /\ (Next \/ Of(i)' = Empty)
Independent == [][\A i \in {1, 2} : Of(i)' # Of(i) => (Its(i) \/ (who' = who /\ (Move \/ Nest)))]_svars
==============================================================================
