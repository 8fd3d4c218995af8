--------------------------- MODULE MappedContainer ---------------------------
(* A container whose memory is visible at several addresses: every call goes *)
(* through one of the mappings (via), and they all mean the same container.  *)
EXTENDS SeqContainer
CONSTANT Mappings
VARIABLE via      \* the mapping of the last call
mvars == <<content, free, off, last, via>>
MView == <<content, free, off, via>>
MInit == Init /\ via = 1
MNext == Next /\ via' \in Mappings
MSpec == MInit /\ [][MNext]_mvars
MEdge == PrintT("EDGE " \o ToJson([s |-> <<content, free, off, via>>, o |-> last'.o \o "@" \o ToString(via'), a |-> last'.a, n |-> last'.n, d |-> last'.d,
                                   t |-> <<content', free', off', via'>>]))
\* forgetting the mappings gives the container itself
Refinement == Spec
==============================================================================
