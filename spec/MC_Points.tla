------------------------------ MODULE MC_Points ------------------------------
(***************************************************************************)
(* Point lists of every length up to MaxPoints, everywhere a point list    *)
(* may stand, followed by a second list of any of a few lengths; and runs  *)
(* of equal items up to MaxRun.                                            *)
(***************************************************************************)
EXTENDS MCDocs, Json

CONSTANTS MaxPoints, MaxRun

VARIABLES kind, doc
vars == <<kind, doc>>

Where == {"fp_poly", "polygon", "filled_polygon", "fill_segments", "crossbar", "nested"}
Second == {0, 1, 4, 5, 6}
At2(w, n, m) ==
    CASE w = "fp_poly" -> FpDoc(<<[Poly0 EXCEPT !.pts = PtsOf(n)], [Poly0 EXCEPT !.pts = PtsOf(m)]>>)
      [] w = "polygon" -> BoardDoc(<<[Zone0 EXCEPT !.polygons = <<PtsOf(n), PtsOf(m)>>]>>)
      [] w = "filled_polygon" -> BoardDoc(<<[Zone0 EXCEPT !.polygons = <<PtsOf(m)>>, !.filled_polygons = <<PtsOf(n)>>]>>)
      [] w = "fill_segments" -> BoardDoc(<<[Zone0 EXCEPT !.fill_segments = <<PtsOf(n)>>, !.filled_polygons = <<PtsOf(m)>>]>>)
      [] w = "crossbar" -> BoardDoc(<<[Dim0 EXCEPT !.crossbar = PtsOf(n), !.arrow1a = PtsOf(m)]>>)
      [] w = "nested" -> BoardDoc(<<[Module0 EXCEPT !.v.el = <<[Poly0 EXCEPT !.pts = PtsOf(n)]>>], [Zone0 EXCEPT !.polygons = <<PtsOf(m)>>]>>)

Init ==
    \/ \E w \in Where, n \in 0..MaxPoints, m \in Second :
         (n > 12 => m = 6) /\
         kind = (IF w = "fp_poly" THEN "fp" ELSE "lay") /\ doc = At2(w, n, m)
    \/ \E e \in BoardBases, f \in {Segment0, Module0, Net0, Other0}, n \in 1..MaxRun :
         kind = "lay" /\ doc = BoardDoc([i \in 1..n |-> e] \o <<f, e>>)
    \/ \E e \in FpBases, n \in 1..MaxRun : kind = "fp" /\ doc = FpDoc([i \in 1..n |-> e])
    \/ \E n \in 1..MaxRun : kind = "tab" /\ doc = [i \in 1..n |-> Lib0]
Next == FALSE /\ UNCHANGED vars

Node == Ser(kind, doc)
Pieces == Layout(Node, 0, AfterText(kind))
OnlyBlanks == SelectSeq(Pieces, LAMBDA p : ~IsBlank(p)) = Tokens(Node)
ReadBack == Parse(kind, Annotate(Node, Num)) = Good(doc)
Emit == PrintT("@@" \o ToJson([kind |-> kind, doc |-> doc, pieces |-> Pieces]))
==============================================================================
