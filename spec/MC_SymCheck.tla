----------------------------- MODULE MC_SymCheck -----------------------------
(***************************************************************************)
(* Symbols within a number of changes of one that keeps every rule of the  *)
(* convention.                                                             *)
(***************************************************************************)
EXTENDS MCLines, KSymCheck, FiniteSets, Json

CONSTANTS Spoilt, Changes, Coords, Lengths, Sizes, SymNames, PinNames, Refs

VARIABLES doc, free
vars == <<doc, free>>

GoodField(i) == [SF0 EXCEPT !.i = i, !.name = FieldName(i), !.visible = i \in {"0", "1"}]
GoodPin == [Pin0 EXCEPT !.name = "A", !.y = "100", !.len = "150"]
NcPin == [Pin0 EXCEPT !.name = "NC", !.number = "2", !.x = "-100", !.t = "N", !.visible = FALSE]
GoodRect == Rect0
GoodSym == [Sym0(<<GoodPin, GoodRect, DrawOther0>>) EXCEPT !.fields = <<GoodField("0"), GoodField("1"), GoodField("2"), GoodField("3")>>]

AltPinCheck(p) ==
    {[p EXCEPT !.x = x] : x \in Coords} \cup {[p EXCEPT !.y = x] : x \in Coords} \cup {[p EXCEPT !.len = x] : x \in Lengths}
    \cup {[p EXCEPT !.name = x] : x \in PinNames} \cup {[p EXCEPT !.t = x] : x \in PinKinds} \cup {[p EXCEPT !.visible = x] : x \in BOOLEAN}
    \cup {[p EXCEPT !.num_size = x] : x \in Sizes} \cup {[p EXCEPT !.name_size = x] : x \in Sizes} \cup {[p EXCEPT !.number = "5"], [p EXCEPT !.shape = "CI"]}
AltRectCheck(r) ==
    {[r EXCEPT !.fill = x] : x \in Fills} \cup {[r EXCEPT !.thickness = x] : x \in Sizes \cup {"10", "0"}} \cup {[r EXCEPT !.x1 = "25"]}
AltFieldCheck(f) ==
    {[f EXCEPT !.dim = x] : x \in Sizes} \cup {[f EXCEPT !.visible = x] : x \in BOOLEAN}
    \cup {[f EXCEPT !.i = x, !.name = IF x = "4" THEN "MPN" ELSE FieldName(x)] : x \in {"0", "1", "2", "3", "4"}} \cup {[f EXCEPT !.bold = TRUE, !.value = "x y"]}

(* one thing of a symbol changed *)
Change(y, z) ==
    \/ \E x \in SymNames : z = [y EXCEPT !.name = x]
    \/ \E x \in Refs : z = [y EXCEPT !.ref = x]
    \/ \E b \in BOOLEAN : z = [y EXCEPT !.power = b]
    \/ \E k \in 1..Len(y.fields) : \E f \in AltFieldCheck(y.fields[k]) : z = [y EXCEPT !.fields[k] = f]
    \/ Len(y.fields) > 0 /\ z = [y EXCEPT !.fields = Tail(@)]
    \/ \E k \in 1..Len(y.draw) :
         \/ z = [y EXCEPT !.draw = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
         \/ y.draw[k].k = "pin" /\ \E p \in AltPinCheck(y.draw[k]) : z = [y EXCEPT !.draw[k] = p]
         \/ y.draw[k].k = "rect" /\ \E p \in AltRectCheck(y.draw[k]) : z = [y EXCEPT !.draw[k] = p]
    \/ Len(y.draw) < 4 /\ \E d \in {GoodPin, NcPin} : z = [y EXCEPT !.draw = Append(@, d)]

Starts == {GoodSym, [GoodSym EXCEPT !.ref = "#PWR", !.fields[2].visible = FALSE, !.power = TRUE],
           [GoodSym EXCEPT !.ref = "#FLG", !.fields[1].visible = FALSE, !.fields[2].visible = FALSE, !.draw = <<DrawOther0, GoodRect>>],
           [GoodSym EXCEPT !.draw = <<NcPin, GoodRect, GoodPin>>]}
(* one that breaks every rule, and others that break them but are exempt *)
BadField(i) == [GoodField(i) EXCEPT !.dim = "40", !.visible = ~@]
BadPin == [GoodPin EXCEPT !.x = "-30", !.y = "10", !.len = "330", !.name = "NC", !.num_size = "40", !.name_size = "60", !.visible = FALSE]
BadSym == [GoodSym EXCEPT !.name = "a/b+", !.fields = <<BadField("0"), BadField("1"), BadField("2"), BadField("3"), BadField("4")>>,
                          !.draw = <<BadPin, [GoodRect EXCEPT !.fill = "N", !.thickness = "0"], [BadPin EXCEPT !.len = "-30", !.t = "N", !.visible = TRUE]>>]
Bads == {BadSym, [BadSym EXCEPT !.ref = "#PWR"], [BadSym EXCEPT !.ref = "#FLG"]}
Init == doc \in (IF Spoilt THEN Bads ELSE Starts) /\ free = Changes
Next == free > 0 /\ free' = free - 1 /\ Change(doc, doc')

(* ------------------------------- theorems -------------------------------- *)
StartsQuiet == (~Spoilt /\ free = Changes) => CheckSym(doc) = <<>>
Findings(fs) == FoldLeft(LAMBDA n, f : n + (IF "more" \in DOMAIN f THEN Len(f.more) ELSE 1), 0, fs)
(* power and graphic symbols are not judged by what they draw *)
DrawnFree == (SymPower(doc) \/ SymGraphics(doc)) =>
             CheckSym(doc) = CheckSym([doc EXCEPT !.draw = [k \in 1..Len(@) |-> IF @[k].k = "pin" THEN [@[k] EXCEPT !.x = "7", !.len = "1"] ELSE @[k]]])
(* the aliases, the values and texts of fields and the other lines never matter *)
OtherwiseFree == Len(CheckSym([doc EXCEPT !.aliases = <<"q">>, !.units = "3", !.draw = SelectSeq(@, LAMBDA d : d.k # "other")])) = Len(CheckSym(doc))
Exclusive == ~(SymPower(doc) /\ SymGraphics(doc))
Emit == PrintT("@@" \o ToJson([doc |-> doc, out |-> CheckSym(doc), look |-> SymLook(doc), n |-> Findings(CheckSym(doc))]))
==============================================================================
