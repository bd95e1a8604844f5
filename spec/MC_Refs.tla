------------------------------- MODULE MC_Refs -------------------------------
(* Every reference of at most MaxLen characters of an alphabet, and every short list of references. *)
EXTENDS KRefOrder, FiniteSets, Json
CONSTANTS MaxLen, Alphabet, Pool, MaxList
VARIABLES s, list
Init == \/ s = "" /\ list = <<>>
        \/ s = "-" /\ list = <<>>
Next == \/ /\ s # "-" /\ Len(s) < MaxLen
           /\ \E c \in Alphabet : s' = s \o c /\ list' = list
        \/ /\ s = "-" /\ Len(list) < MaxList
           /\ \E r \in Pool : list' = Append(list, r) /\ s' = s
Sorted == RefSort(list)
InOrder == \A i \in 1..(Len(Sorted) - 1) : ~KeyLess(RefKey(Sorted[i + 1]), RefKey(Sorted[i]))
SameItems == \A r \in Pool : Cardinality({i \in 1..Len(list) : list[i] = r}) = Cardinality({i \in 1..Len(Sorted) : Sorted[i] = r})
Emit == PrintT("@@" \o ToJson(IF s = "-" /\ list # <<>> THEN [list |-> list, out |-> Sorted] ELSE [ref |-> s, out |-> RefKey(s)]))
==============================================================================
