------------------------------- MODULE KFpEdit -------------------------------
(***************************************************************************)
(* Edits of a footprint and what its look-ups give.                        *)
(***************************************************************************)
EXTENDS KGeometry

MapEl(m, F(_)) == [m EXCEPT !.el = [i \in 1..Len(m.el) |-> F(m.el[i])]]
OfKind(m, k) == SelectSeq(m.el, LAMBDA e : e.k = k)
Texts(m, which) == SelectSeq(m.el, LAMBDA e : IF e.k = "fp_text" THEN e.name = which ELSE FALSE)
FirstOf(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
ValueOf(s) == IF s = <<>> THEN <<>> ELSE <<s[1].v>>

HasReference(m, r) == \E i \in 1..Len(Texts(m, "reference")) : Texts(m, "reference")[i].value = r
SetReference(m, old, new) ==
    MapEl(m, LAMBDA e : IF e.k # "fp_text" THEN e
                        ELSE IF e.name = "reference" /\ e.value = old THEN [e EXCEPT !.value = new] ELSE e)
RenameNet(m, old, new) ==
    MapEl(m, LAMBDA e : IF e.k # "pad" THEN e ELSE IF e.net = <<>> THEN e
                        ELSE IF e.net[1].name = old THEN [e EXCEPT !.net[1].name = new] ELSE e)
Append1(m, e) == [m EXCEPT !.el = Append(@, e)]
(* the first text of that name *)
SetText(m, which, v) ==
    LET hits == {i \in 1..Len(m.el) : IF m.el[i].k = "fp_text" THEN m.el[i].name = which ELSE FALSE}
    IN IF hits = {} THEN [hit |-> FALSE, doc |-> m]
       ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
            IN [hit |-> TRUE, doc |-> [m EXCEPT !.el[i].value = v]]

SmdAttr(m) == \E i \in 1..Len(m.el) : IF m.el[i].k = "attr" THEN m.el[i].v = "smd" ELSE FALSE
FpLook(m, ref, which) ==
    LET refs == Texts(m, "reference")
        sides == OfKind(m, "layer")
    IN [is_ref |-> HasReference(m, ref),
        reference |-> IF refs = <<>> THEN <<>> ELSE <<refs[1].value>>,
        text |-> FirstOf(Texts(m, which)), ref_text |-> FirstOf(refs), ref2_text |-> FirstOf(Texts(m, "user")),
        value_text |-> FirstOf(Texts(m, "value")), smd |-> SmdAttr(m),
        tstamp |-> ValueOf(OfKind(m, "tstamp")), tedit |-> ValueOf(OfKind(m, "tedit")),
        x |-> PlaceOf(m).x, y |-> PlaceOf(m).y, rot |-> PlaceOf(m).rot,
        front |-> IF sides = <<>> THEN TRUE ELSE sides[1].v.s = "F",
        pads |-> OfKind(m, "pad"), lines |-> OfKind(m, "fp_line")]

(* one edit; `e` is the operation with its arguments *)
FpEdits == {"set_reference", "adjust_at", "rename_net", "append", "set_text", "flip", "rotate", "adjust"}
FpEdit(m, e) ==
    CASE e.op = "set_reference" -> SetReference(m, e.old, e.new)
      [] e.op \in {"adjust_at", "adjust"} -> MoveFp(m, e.x, e.y)
      [] e.op = "rename_net" -> RenameNet(m, e.old, e.new)
      [] e.op = "append" -> Append1(m, e.el)
      [] e.op = "set_text" -> SetText(m, e.which, e.v).doc
      [] e.op = "flip" -> FlipFp(m)
      [] e.op = "rotate" -> TurnFp(m, e.r)
(* what the edit reports *)
FpEditOut(m, e) == IF e.op = "set_text" THEN SetText(m, e.which, e.v) ELSE FpEdit(m, e)
==============================================================================
