----------------------------- MODULE MC_CompEdit -----------------------------
(***************************************************************************)
(* All histories of edits of a component, up to a number of edits.         *)
(***************************************************************************)
EXTENDS MCLines, KComponent, FiniteSets, Json

CONSTANTS MaxEdits, FieldNames, Values, WithNew     \* WithNew: also add fields without looking for the name

VARIABLES doc, past
vars == <<doc, past>>

Field(i, n, v) == [F4 EXCEPT !.i = i, !.name = n, !.value = v]
FourFields == [Comp0 EXCEPT !.fields = <<Field("0", "Reference", "R1"), Field("1", "Value", "R"), Field("2", "Footprint", ""), Field("3", "UserDocLink", "~")>>]
Starts == {FourFields,
           [FourFields EXCEPT !.fields = @ \o <<[Field("4", "MPN", "x") EXCEPT !.o = "V", !.bold = TRUE, !.visible = TRUE], Field("7", "Vendor", "")>>],
           [FourFields EXCEPT !.fields = <<Field("5", "MPN", "y"), @[2], @[1]>>],
           [FourFields EXCEPT !.fields = <<>>]}
Template == [Field("0", "Reference", "t") EXCEPT !.x = "25", !.y = "-100", !.o = "V", !.size = "10"]

Edits ==
    {[op |-> "update_reference", v |-> v] : v \in Values} \cup {[op |-> "update_name", v |-> v] : v \in Values}
    \cup {[op |-> "update_field", name |-> n, v |-> v] : n \in FieldNames, v \in Values}
    \cup {[op |-> "add_or_update_field", name |-> n, v |-> v, template |-> Template] : n \in FieldNames, v \in Values}
    \cup (IF WithNew THEN {[op |-> "add_new_field", name |-> n, v |-> v, template |-> Template] : n \in FieldNames, v \in {CHOOSE x \in Values : TRUE}} ELSE {})

Init == doc \in Starts /\ past = [start |-> doc, steps |-> <<>>]
Next == /\ Len(past.steps) < MaxEdits
        /\ \E e \in Edits : /\ doc' = CompEdit(doc, e)
                            /\ past' = [past EXCEPT !.steps = Append(@, [e |-> e, out |-> CompEditOut(doc, e)])]

(* ------------------------------- theorems -------------------------------- *)
Numbers(c) == {c.fields[j].i : j \in 1..Len(c.fields)}
FieldNamesOf(c) == {c.fields[j].name : j \in 1..Len(c.fields)}
DistinctNumbers == Cardinality(Numbers(doc)) = Len(doc.fields)
DistinctNames == ~WithNew => Cardinality(FieldNamesOf(doc)) = Len(doc.fields)
(* every field there was keeps its number, name, place and format; new ones come after *)
Format(f) == [f EXCEPT !.value = "", !.visible = FALSE]
KeepsFormat == /\ Len(doc.fields) >= Len(past.start.fields)
               /\ \A j \in 1..Len(past.start.fields) : Format(doc.fields[j]) = Format(past.start.fields[j])
NewHidden == \A j \in (Len(past.start.fields) + 1)..Len(doc.fields) : ~doc.fields[j].visible /\ doc.fields[j].x = Template.x /\ doc.fields[j].y = Template.y
(* what was given last is what is found, if the field is there *)
LastGiven ==
    past.steps # <<>> =>
    LET e == past.steps[Len(past.steps)].e
    IN CASE e.op = "update_reference" -> doc.ref = e.v
         [] e.op = "update_name" -> doc.name = e.v
         [] e.op = "update_field" -> FirstField(doc, e.name) # <<>> => FirstField(doc, e.name)[1].value = e.v
         [] e.op = "add_or_update_field" -> FirstField(doc, e.name)[1].value = e.v
         [] OTHER -> e.name \in FieldNamesOf(doc)
Looked == [n \in FieldNames |-> [value |-> LET f == FirstField(doc, n) IN IF f = <<>> THEN <<>> ELSE <<f[1].value>>,
                                 field |-> FirstField(doc, n), free |-> ToString(FreeField(doc)), hash |-> SetToSeq(FieldTable(doc))]]
Emit == Len(past.steps) = MaxEdits => PrintT("@@" \o ToJson([start |-> past.start, steps |-> past.steps, look |-> Looked]))
==============================================================================
