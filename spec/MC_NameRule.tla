----------------------------- MODULE MC_NameRule ------------------------------
(***************************************************************************)
(* Bounded model of the naming rule: every name up to MaxLen characters,   *)
(* every section of the convention, and every group of findings up to two  *)
(* deep and three wide.                                                    *)
(***************************************************************************)
EXTENDS KSymCheck, TLC, Json
CONSTANTS Letters, MaxLen
VARIABLES what, v

F(i) == [rule |-> IF i = 1 THEN "4.1" ELSE "10.12", item |-> "a", msg |-> "m", info |-> i = 1]
Groups(S) == {[more |-> g] : g \in UNION {[1..n -> S] : n \in 0..3}}
Init ==
    \/ what = "name" /\ v = ""
    \/ what = "section" /\ v \in 1..10
    \/ what = "flat" /\ v \in {F(1), F(2)}
    \/ what = "flat" /\ v \in Groups({F(1), F(2)})
    \/ what = "flat" /\ v \in {[more |-> <<g>>] : g \in Groups({F(1), F(2)})}
    \/ what = "flat" /\ v \in {[more |-> <<g, F(1)>>] : g \in Groups({F(1), F(2)})}
Next == what = "name" /\ Len(v) < MaxLen /\ (\E x \in Letters : v' = v \o x) /\ UNCHANGED what

Out == CASE what = "name" -> NameAllowed(v) [] what = "section" -> [n |-> ToString(v), title |-> SectionTitles[v]] [] what = "flat" -> Flatter(v)
(* theorems: a name is allowed exactly when all its characters are, each other one is reported once *)
CharByChar == what = "name" => NameAllowed(v).ok = \A i \in 1..Len(v) : NameAllowed(Char(v, i)).ok
OneEach == what = "name" => Len(NameFindings(v)) = Cardinality({i \in 1..Len(v) : Char(v, i) \notin NameChars})
FlatOnce == what = "flat" => (Flatter(v) = v \/ Flatter(v) = v.more[1])
Emit == PrintT("@@" \o ToJson([what |-> what, v |-> v, out |-> Out]))
================================================================================
