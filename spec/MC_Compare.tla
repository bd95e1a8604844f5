------------------------------ MODULE MC_Compare ------------------------------
(***************************************************************************)
(* Bounded model of comparing: every item kind against items that differ   *)
(* from it in up to MaxChanges fields, against every other kind, and net   *)
(* classes.                                                                *)
(***************************************************************************)
EXTENDS MCDocs, KCompare, Json, TLC
CONSTANTS MaxChanges, Cross      \* Cross: also every pair of kinds
VARIABLES kind, a, b, c, n

TextUser == [Text0 EXCEPT !.name = "user"]
TextValue == [Text0 EXCEPT !.name = "value"]
PadFull == [Pad0 EXCEPT !.rect_delta = <<Xy("rect_delta", "0", "1")>>, !.drill = <<Drill0>>, !.net = <<[num |-> "3", name |-> "a"]>>, !.zone_connect = <<"3">>,
                        !.spm = <<"1">>, !.smm = <<"1">>, !.clearance = <<"1">>, !.thermal_gap = <<"1">>, !.layers = <<F0, [s |-> "B", t |-> "Mask"]>>]
AltClass(e) ==
    {[e EXCEPT !.name = x] : x \in Words} \cup {[e EXCEPT !.desc = x] : x \in Words} \cup {[e EXCEPT !.clearance = x] : x \in Nums}
    \cup {[e EXCEPT !.trace_width = x] : x \in Nums} \cup {[e EXCEPT !.via_dia = x] : x \in Nums} \cup {[e EXCEPT !.via_drill = x] : x \in Nums}
    \cup {[e EXCEPT !.uvia_dia = x] : x \in Nums} \cup {[e EXCEPT !.uvia_drill = x] : x \in Nums}
    \cup {[e EXCEPT !.diff_pair_gap = x] : x \in Opt(Nums)} \cup {[e EXCEPT !.diff_pair_width = x] : x \in Opt(Nums)}
    \cup {[e EXCEPT !.nets = x] : x \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}}
AltNet(e) == {[e EXCEPT !.num = x] : x \in Ints} \cup {[e EXCEPT !.name = x] : x \in Words}
Changed(e) == CASE kind = "fpel" -> Alt(e) [] kind = "class" -> AltClass(e) [] kind = "net" -> AltNet(e)

Bases == FpBases \cup {TextUser, TextValue, PadFull}
Init ==
    /\ n = 0
    /\ \/ kind = "fpel" /\ a \in Bases
       \/ kind = "fpel" /\ a = LayerItem0
       \/ kind = "class" /\ a = Class0
       \/ kind = "net" /\ a = Net0
    /\ b = a /\ c = a
Next ==
    \/ /\ n < MaxChanges
       /\ \E x \in Changed(c) : c' = x
       /\ b' = c /\ n' = n + 1 /\ UNCHANGED <<kind, a>>
    \/ /\ Cross /\ n = 0 /\ kind = "fpel"
       /\ \E x \in Bases : b' = x /\ c' = x
       /\ n' = MaxChanges /\ UNCHANGED <<kind, a>>

Equal(x, y) == Compared(kind, x, y).eq
(* theorems: comparing is an equivalence *)
Reflexive == Equal(c, c)
Symmetric == Equal(a, c) = Equal(c, a)
Transitive == (Equal(a, b) /\ Equal(b, c)) => Equal(a, c)
(* mirroring the board sides or renumbering nets is not seen *)
EqualIsSame == a = c => Equal(a, c)
Emit == PrintT("@@" \o ToJson([kind |-> kind, a |-> a, b |-> c, out |-> Compared(kind, a, c)]))
================================================================================
