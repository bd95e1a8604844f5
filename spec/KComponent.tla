----------------------------- MODULE KComponent ------------------------------
(***************************************************************************)
(* Editing the fields of a component.                                      *)
(***************************************************************************)
EXTENDS KLines

(* numbers of fields are small; they appear as decimal text *)
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6
              [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] OTHER -> 0 - 1
NatOf(s) == FoldLeft(LAMBDA a, i : 10 * a + Digit(Char(s, i)), 0, [i \in 1..Len(s) |-> i])
NumOf(s) == IF StartsWith(s, "-") THEN 0 - NatOf(LineRest(s, 2)) ELSE NatOf(s)

FieldMax(a, b) == IF a > b THEN a ELSE b
FreeField(c) == 1 + FoldLeft(LAMBDA m, f : FieldMax(m, NumOf(f.i)), 0, c.fields)

FieldsNamed(c, n) == SelectSeq(c.fields, LAMBDA f : f.name = n)
FirstField(c, n) == LET s == FieldsNamed(c, n) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>

WithFields(c, P(_), E(_)) == [c EXCEPT !.fields = [k \in 1..Len(c.fields) |-> IF P(c.fields[k]) THEN E(c.fields[k]) ELSE c.fields[k]]]

SetReference(c, v) == WithFields([c EXCEPT !.ref = v], LAMBDA f : f.i = "0", LAMBDA f : [f EXCEPT !.value = v])
SetCompName(c, v) == WithFields([c EXCEPT !.name = v], LAMBDA f : f.i = "1", LAMBDA f : [f EXCEPT !.value = v])

(* Changing a field changes its value only. As the code stands every field *)
(* beyond reference and value is hidden on the way (known finding).        *)
HideRest(c) == IF Strict THEN c ELSE WithFields(c, LAMBDA f : NumOf(f.i) > 1, LAMBDA f : [f EXCEPT !.visible = FALSE])
SetField(c, n, v) == HideRest(WithFields(c, LAMBDA f : f.name = n, LAMBDA f : [f EXCEPT !.value = v]))

(* a new field is hidden, centred and horizontal, at the place of its template *)
NewField(i, n, v, t) ==
    [i |-> ToString(i), value |-> v, o |-> "H", x |-> t.x, y |-> t.y, size |-> "60", visible |-> FALSE, h |-> "C", v |-> "C",
     italic |-> FALSE, bold |-> FALSE, name |-> n]
GivenField(e) == [NewField(0, e.name, e.v, e) EXCEPT !.i = e.i]
AddField(c, t, n, v) == [c EXCEPT !.fields = Append(@, NewField(FreeField(c), n, v, t))]

(* [c: the component, res: what is reported] *)
AddOrSet(c, t, n, v) ==
    LET f == FirstField(c, n)
    IN IF f = <<>> THEN [c |-> AddField(c, t, n, v), res |-> <<"new">>]
       ELSE IF f[1].value = v THEN [c |-> c, res |-> <<"same">>]
       ELSE [c |-> SetField(c, n, v), res |-> <<"update", f[1].value>>]

(* the table of fields has for each name the value of the last field of that name *)
LastValue(c, n) == LET s == FieldsNamed(c, n) IN s[Len(s)].value
FieldTable(c) == {<<n, LastValue(c, n)>> : n \in {c.fields[k].name : k \in 1..Len(c.fields)}}

CompEdits == {"update_reference", "update_name", "update_field", "add_or_update_field", "add_new_field"}
CompEdit(c, e) ==
    CASE e.op = "update_reference" -> SetReference(c, e.v)
      [] e.op = "update_name" -> SetCompName(c, e.v)
      [] e.op = "update_field" -> SetField(c, e.name, e.v)
      [] e.op = "add_or_update_field" -> AddOrSet(c, e.template, e.name, e.v).c
      [] e.op = "add_new_field" -> AddField(c, e.template, e.name, e.v)
CompEditOut(c, e) ==
    IF e.op = "add_or_update_field"
    THEN LET r == AddOrSet(c, e.template, e.name, e.v) IN [res |-> r.res, changed |-> r.res # <<"same">>, doc |-> r.c]
    ELSE CompEdit(c, e)
==============================================================================
