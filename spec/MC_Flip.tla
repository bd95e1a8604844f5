--------------------------------- MODULE MC_Flip ---------------------------------
(***************************************************************************)
(* Bounded model of flips and turns of footprints and their items.         *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Angles, Turns, MaxOps
VARIABLES kind, start, doc, ops

S1 == P("start", U, 0 - 2 * U)
E1 == P("end", 3 * U, 0)
Ps == <<P("xy", U, 0), P("xy", 0, 2 * U), P("xy", 0 - U, 0 - U)>>
Sides == {"F", "B", "*", "In1", "", "Edge"}
Init ==
    /\ ops = <<>>
    /\ \/ \E r \in Angles, s \in Sides, j \in {"none", "mirror", "left", "right"} :
             kind = "fpel" /\ start = TextItem("user", "x", At0(U, 2 * U, r), Ly(s, "SilkS"), j)
       \/ \E r \in Angles, s1, s2 \in Sides :
             kind = "fpel" /\ start = [PadItem("1", "smd", At0(0 - U, 2 * U, r), U, 2 * U, OnNet1("a")) EXCEPT !.layers = <<Ly(s1, "Cu"), Ly(s2, "Mask")>>]
       \/ \E r \in Angles : kind = "fpel" /\ start = PlaceItem(0 - U, 3 * U, r)
       \/ \E s \in Sides :
             \/ kind = "fpel" /\ start = LineItem(S1, E1, Ly(s, "Fab"))
             \/ kind = "fpel" /\ start = ArcItem(S1, E1, Ly(s, "Fab"))
             \/ kind = "fpel" /\ start = CircleItem(P("center", U, U), E1, Ly(s, "Cu"))
             \/ kind = "fpel" /\ start = PolyItem(Ps, Ly(s, "~Top"))
             \/ kind = "fpel" /\ start = [k |-> "layer", v |-> Ly(s, "Cu")]
       \/ kind = "fpel" /\ start = ModelItem("m")
       \/ kind = "fpel" /\ start \in {[k |-> "attr", v |-> "smd"], [k |-> "descr", v |-> "F.Cu"], [k |-> "tstamp", v |-> "5A"]}
       \/ \E r, q \in Angles : kind = "fp" /\
             start = Fp("F", <<PlaceItem(U, 0, r), [k |-> "layer", v |-> Ly("F", "Cu")], TextItem("reference", "U1", At0(U, 2 * U, q), Ly("F", "SilkS"), "none"),
                               PadItem("1", "smd", At0(0 - U, 2 * U, q), U, 2 * U, <<>>), LineItem(S1, E1, Ly("F", "Fab")), ModelItem("m"), PolyItem(Ps, Ly("B", "Cu"))>>)
    /\ doc = start
Op(o, d) ==
    CASE kind = "fp" -> IF o.op = "flip" THEN FlipFp(d) ELSE TurnFp(d, o.r)
      [] kind = "fpel" -> IF o.op = "flip" THEN FlipFpItem(d) ELSE TurnFpItem(d, o.r)
FlipOp == [op |-> "flip", r |-> 0]
TurnOp(r) == [op |-> "rotate", r |-> r]
Next ==
    /\ Len(ops) < MaxOps
    /\ \/ ops' = Append(ops, FlipOp) /\ doc' = Op(FlipOp, doc)
       \/ \E r \in Turns : ops' = Append(ops, TurnOp(r)) /\ doc' = Op(TurnOp(r), doc)
    /\ UNCHANGED <<kind, start>>

Whole(d) == IF kind = "fp" THEN WholeFp(d) ELSE WholeFpItem(d)
HasSideText == kind = "fpel" /\ start.k = "fp_text" /\ start.effects.justify \in {"left", "right"}
(* theorems *)
TwiceRestores == ~HasSideText => Whole(Op(FlipOp, Op(FlipOp, doc))) = Whole(doc)
FullTurn == \A r \in Turns : Whole(Op(TurnOp(Turn - r), Op(TurnOp(r), doc))) = Whole(doc)
WithinOneTurn == (ops # <<>> /\ ops[Len(ops)].op = "rotate" /\ kind = "fpel" /\ start.k \in {"pad", "fp_text"}) => doc.at.rot >= 0 /\ doc.at.rot < Turn
Emit == IF Len(ops) = MaxOps THEN PrintT("@@" \o ToJson([kind |-> kind, doc |-> start, ops |-> ops, after |-> doc])) ELSE TRUE
================================================================================
