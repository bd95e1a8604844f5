-------------------------------- MODULE MC_Names --------------------------------
(***************************************************************************)
(* All short net names under the block rule, and automatic names.          *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Letters, MaxLen, Froms, Tos
VARIABLES s, kind

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET p == Strings(n - 1) IN p \cup {x \o l : x \in p, l \in Letters}
Autos == {"Net-(" \o a \o "-" \o b \o ")" : a \in {"R1", "", "a b", "/x/R1"}, b \in {"Pad1", "", "1"}}
         \cup {"Net-(R1)", "Net-(R1-Pad1", "Net-(R-1-Pad1)", "net-(R1-Pad1)", "Net-R1-Pad1", "Net-((R1-Pad1)", "xNet-(R1-Pad1)", "Net-(", "", "N", "Net-(R1-(Pad1))"}
Init == \/ kind = "block" /\ s \in Strings(MaxLen)
        \/ kind = "auto" /\ s \in Autos
Next == FALSE /\ UNCHANGED <<s, kind>>

(* the parts of a path *)
RECURSIVE PathParts(_, _, _)
PathParts(x, from, i) ==
    IF i > Len(x) THEN <<Part(x, from, Len(x))>>
    ELSE IF Part(x, i, i) = "/" THEN <<Part(x, from, i - 1)>> \o PathParts(x, i + 1, i + 1) ELSE PathParts(x, from, i + 1)
RECURSIVE JoinParts(_, _)
JoinParts(p, i) == IF i > Len(p) THEN "" ELSE IF i = 1 THEN p[1] \o JoinParts(p, 2) ELSE "/" \o p[i] \o JoinParts(p, i + 1)
(* theorem: the block rule replaces exactly the inner path parts that match *)
ByParts == kind = "block" =>
    \A f \in Froms, o \in Tos :
        LET p == PathParts(s, 1, 1)
        IN Block(s, 1, f, o) = JoinParts([i \in 1..Len(p) |-> IF i > 1 /\ i < Len(p) /\ p[i] = f THEN o ELSE p[i]], 1)
Emit == PrintT("@@" \o ToJson(
    IF kind = "block" THEN [s |-> s, kind |-> kind, rules |-> SetToSeq({[from |-> f, to |-> o, out |-> Block(s, 1, f, o)] : f \in Froms, o \in Tos})]
    ELSE [s |-> s, kind |-> kind, un |-> Unnamed(s), set |-> LET r == SetUnnamed(s, "Q7") IN IF r.ok THEN [ok |-> r.v] ELSE [err |-> TRUE]]))
================================================================================
