------------------------------ MODULE MC_Lines -------------------------------
(***************************************************************************)
(* Every schematic or symbol library within Changes single-field changes   *)
(* of a plain one, and every sequence of up to three plain items; each is  *)
(* written and read back.                                                  *)
(***************************************************************************)
EXTENDS MCLines, Json

CONSTANTS Which, Changes,
          Echo      \* whether the last change also stands before and after the plain item

VARIABLES doc, free
vars == <<doc, free>>

Draws == {Pin0, Rect0, DrawOther0}
Init ==
    CASE Which = "sch" -> \/ \E e \in ElemBases : doc = SchDoc(<<e>>, <<>>) /\ free = Changes
                          \/ doc = SchDoc(<<>>, <<Sheet0>>) /\ free = Changes
                          \/ \E e \in ElemBases, f \in ElemBases, g \in ElemBases : doc = SchDoc(<<e, f, g>>, <<Sheet0>>) /\ free = 0
                          \/ doc = SchDoc(<<>>, <<>>) /\ free = 0
                          \/ \E e \in ElemBases : doc = SchDoc(<<e>>, <<Sheet0, [Sheet0 EXCEPT !.name = "b", !.labels = <<>>], Sheet0>>) /\ free = 0
      [] Which = "lib" -> \/ \E e \in Draws : doc = <<Sym0(<<e>>)>> /\ free = Changes
                          \/ doc = <<Sym0(<<>>)>> /\ free = Changes
                          \/ doc = <<>> /\ free = 0
                          \/ \E e \in Draws, f \in Draws, g \in Draws : doc = <<Sym0(<<e, f, g>>)>> /\ free = 0
                          \/ \E e \in Draws : \E y \in AltSym(Sym0(<<e>>)) : doc = <<y, Sym0(<<e>>), y>> /\ free = 0

Next ==
    /\ free > 0
    /\ free' = free - 1
    /\ CASE Which = "sch" -> \/ doc' \in AltSch(doc)
                             \/ Echo /\ free = 1 /\ doc.el # <<>> /\ \E e \in AltElem(doc.el[1]) : doc' = [doc EXCEPT !.el = <<e, doc.el[1], e>>]
                             \/ Echo /\ free = 1 /\ doc.sheets # <<>> /\ \E t \in AltSheet(doc.sheets[1]) : doc' = [doc EXCEPT !.sheets = <<t, doc.sheets[1], t>>]
         [] Which = "lib" -> \E y \in AltSym(doc[1]) : doc' = <<y>>

Written == IF Which = "sch" THEN SchLines(doc) ELSE LibLines(doc)
ReadIt(ls) == IF Which = "sch" THEN RSchematic(ls, Num) ELSE RLibrary(ls, Num)

ReadBack == ReadIt(Written) = Good(doc)
(* the text is the lines and nothing else *)
LinesAgain == LinesOf(TextOf(Written)) = Written
Emit == PrintT("@@" \o ToJson([doc |-> doc, lines |-> Append(Written, "")]))
==============================================================================
