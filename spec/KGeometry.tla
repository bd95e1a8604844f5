------------------------------- MODULE KGeometry -------------------------------
(***************************************************************************)
(* Geometry of footprints and boards: bounding boxes, moving, flipping and *)
(* turning. Documents have the shape of KFootprint and KLayout, but their  *)
(* numbers are integers, counting units of 1/12800 mm or degree.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, IOUtils

Turn == 360 * 12800
Quarter == 90 * 12800
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Dist(a, b) == IF a < b THEN b - a ELSE a - b

(* --------------------------------- boxes --------------------------------- *)
NoBox == [b |-> FALSE, x1 |-> 0, y1 |-> 0, x2 |-> 0, y2 |-> 0]
BoxOf(xa, ya, xb, yb) == [b |-> TRUE, x1 |-> Least(xa, xb), y1 |-> Least(ya, yb), x2 |-> Most(xa, xb), y2 |-> Most(ya, yb)]
Join(p, q) ==
    IF ~q.b THEN p ELSE IF ~p.b THEN q
    ELSE [b |-> TRUE, x1 |-> Least(p.x1, q.x1), y1 |-> Least(p.y1, q.y1), x2 |-> Most(p.x2, q.x2), y2 |-> Most(p.y2, q.y2)]
JoinAll(s) == FoldLeft(Join, NoBox, s)
Shift(p, x, y) == IF p.b THEN BoxOf(p.x1 + x, p.y1 + y, p.x2 + x, p.y2 + y) ELSE p
Around(p, d) == BoxOf(p.x - d, p.y - d, p.x + d, p.y + d)
Ordered(p) == p.x1 <= p.x2 /\ p.y1 <= p.y2
Inside(p, q) == p.b => (q.b /\ q.x1 <= p.x1 /\ q.y1 <= p.y1 /\ p.x2 <= q.x2 /\ p.y2 <= q.y2)
Width(p) == p.x2 - p.x1
Height(p) == p.y2 - p.y1

PointBox(p) == BoxOf(p.x, p.y, p.x, p.y)
PtsBox(ps) == JoinAll([i \in 1..Len(ps) |-> PointBox(ps[i])])
EndsBox(e) == BoxOf(e.start.x, e.start.y, e.end.x, e.end.y)

(* distance of two points where it is a whole number: along an axis, or the *)
(* long side of a right triangle similar to one of these                    *)
Triples == {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<15, 8, 17>>}
Radius(p, q) ==
    LET dx == Dist(p.x, q.x)
        dy == Dist(p.y, q.y)
    IN IF dx = 0 THEN dy ELSE IF dy = 0 THEN dx
       ELSE LET t == CHOOSE t \in Triples : dx % t[1] = 0 /\ dy % t[2] = 0 /\ dx \div t[1] = dy \div t[2]
            IN (dx \div t[1]) * t[3]
CircleBox(e) == Around(e.center, Radius(e.center, e.end))

(* a pad at a quarter turn *)
PadBox(e) ==
    LET odd == (e.at.rot \div Quarter) % 2 = 1
        w == (IF odd THEN e.size.y ELSE e.size.x) \div 2
        h == (IF odd THEN e.size.x ELSE e.size.y) \div 2
    IN BoxOf(e.at.x - w, e.at.y - h, e.at.x + w, e.at.y + h)

FpItemBox(e) ==
    CASE e.k = "pad" -> PadBox(e)
      [] e.k = "fp_poly" -> PtsBox(e.pts)
      [] e.k \in {"fp_line", "fp_arc"} -> EndsBox(e)
      [] e.k = "fp_circle" -> CircleBox(e)
      [] e.k = "fp_text" -> PointBox(e.at)
      [] OTHER -> NoBox

PlaceOf(m) ==
    LET s == SelectSeq(m.el, LAMBDA e : e.k = "at")
    IN IF s = <<>> THEN [x |-> 0, y |-> 0, rot |-> 0] ELSE s[1]

(* what a footprint takes up: its pads and its fabrication drawing, around its place *)
Drawn(e) == e.k = "pad" \/ (e.k \in {"fp_poly", "fp_line", "fp_arc", "fp_circle"} /\ e.layer.t = "Fab")
FpBox(m) ==
    LET p == PlaceOf(m)
        s == SelectSeq(m.el, Drawn)
    IN Join(PointBox(p), JoinAll([i \in 1..Len(s) |-> Shift(FpItemBox(s[i]), p.x, p.y)]))

ItemBox(e) ==
    CASE e.k = "module" -> FpBox(e.v)
      [] e.k \in {"gr_line", "gr_arc", "segment"} -> EndsBox(e)
      [] e.k = "gr_circle" -> CircleBox(e)
      [] e.k = "gr_text" -> PointBox(e.at)
      [] e.k = "via" -> Around(e.at, e.size \div 2)
      [] e.k = "dimension" ->
           JoinAll(<<PointBox(e.text.at), PtsBox(e.feature1), PtsBox(e.feature2), PtsBox(e.crossbar),
                     PtsBox(e.arrow1a), PtsBox(e.arrow1b), PtsBox(e.arrow2a), PtsBox(e.arrow2b)>>)
      [] e.k = "zone" ->
           LET all == e.polygons \o e.filled_polygons \o e.fill_segments
           IN JoinAll([i \in 1..Len(all) |-> PtsBox(all[i])])
      [] OTHER -> NoBox
BoardBox(d) == JoinAll([i \in 1..Len(d.el) |-> ItemBox(d.el[i])])

(* a schematic counts in mils, here taken as whole units: components by their place, *)
(* sheets with the room their names take                                             *)
MilBox(x1, y1, x2, y2) == BoxOf(12800 * x1, 12800 * y1, 12800 * x2, 12800 * y2)
PartBox(e) == IF e.k = "comp" THEN MilBox(e.x, e.y, e.x, e.y) ELSE NoBox
SheetBox(d) ==
    Join(JoinAll([i \in 1..Len(d.el) |-> PartBox(d.el[i])]),
         JoinAll([i \in 1..Len(d.sheets) |-> LET s == d.sheets[i] IN MilBox(s.x, s.y - 100, s.x + s.dimx, s.y + s.dimy + 100)]))

(* --------------------------------- moving -------------------------------- *)
MovePoint(p, x, y) == [p EXCEPT !.x = @ + x, !.y = @ + y]
MovePts(ps, x, y) == [i \in 1..Len(ps) |-> MovePoint(ps[i], x, y)]
MoveAll(pss, x, y) == [i \in 1..Len(pss) |-> MovePts(pss[i], x, y)]

(* a footprint moves by its place only *)
MoveFp(m, x, y) == [m EXCEPT !.el = [i \in 1..Len(m.el) |-> IF m.el[i].k = "at" THEN MovePoint(m.el[i], x, y) ELSE m.el[i]]]
MoveItem(e, x, y) ==
    CASE e.k = "module" -> [e EXCEPT !.v = MoveFp(@, x, y)]
      [] e.k \in {"gr_line", "gr_arc", "segment"} -> [e EXCEPT !.start = MovePoint(@, x, y), !.end = MovePoint(@, x, y)]
      [] e.k = "gr_circle" -> [e EXCEPT !.center = MovePoint(@, x, y), !.end = MovePoint(@, x, y)]
      [] e.k \in {"gr_text", "via"} -> [e EXCEPT !.at = MovePoint(@, x, y)]
      [] e.k = "dimension" ->
           [e EXCEPT !.text.at = MovePoint(@, x, y), !.feature1 = MovePts(@, x, y), !.feature2 = MovePts(@, x, y),
                     !.crossbar = MovePts(@, x, y), !.arrow1a = MovePts(@, x, y), !.arrow1b = MovePts(@, x, y),
                     !.arrow2a = MovePts(@, x, y), !.arrow2b = MovePts(@, x, y)]
      [] e.k = "zone" ->
           [e EXCEPT !.polygons = MoveAll(@, x, y), !.filled_polygons = MoveAll(@, x, y), !.fill_segments = MoveAll(@, x, y)]
      [] OTHER -> e
MoveBoard(d, x, y) == [d EXCEPT !.el = [i \in 1..Len(d.el) |-> MoveItem(d.el[i], x, y)]]

(* -------------------------------- flipping ------------------------------- *)
StrictGeometry == IOEnv.STRICT = "1"
FlipAt(a) == [a EXCEPT !.y = 0 - @, !.rot = Turn - @]
FlipXy(p) == [p EXCEPT !.y = 0 - @]
FlipSide(s) == CASE s = "F" -> "B" [] s = "B" -> "F" [] OTHER -> s
FlipLayer(y) == [y EXCEPT !.s = FlipSide(@)]
(* known deviation: a text that is justified to a side loses that *)
FlipJustify(j) == CASE j = "none" -> "mirror" [] j = "mirror" -> "none" [] OTHER -> IF StrictGeometry THEN j ELSE "none"
FlipFpItem(e) ==
    CASE e.k = "fp_text" -> [e EXCEPT !.at = FlipAt(@), !.layer = FlipLayer(@), !.effects.justify = FlipJustify(@)]
      [] e.k = "pad" -> [e EXCEPT !.at = FlipAt(@), !.layers = [i \in 1..Len(@) |-> FlipLayer(@[i])]]
      [] e.k = "fp_poly" -> [e EXCEPT !.pts = [i \in 1..Len(@) |-> FlipXy(@[i])], !.layer = FlipLayer(@)]
      [] e.k \in {"fp_line", "fp_arc"} -> [e EXCEPT !.start = FlipXy(@), !.end = FlipXy(@), !.layer = FlipLayer(@)]
      [] e.k = "fp_circle" -> [e EXCEPT !.center = FlipXy(@), !.end = FlipXy(@), !.layer = FlipLayer(@)]
      [] e.k = "at" -> FlipAt(e)
      [] e.k = "layer" -> [e EXCEPT !.v = FlipLayer(@)]
      [] OTHER -> e
FlipFp(m) == [m EXCEPT !.el = [i \in 1..Len(m.el) |-> FlipFpItem(m.el[i])]]

(* --------------------------------- turning ------------------------------- *)
TurnAt(a, r) == [a EXCEPT !.rot = (@ + r) % Turn]
TurnFpItem(e, r) ==
    CASE e.k \in {"fp_text", "pad"} -> [e EXCEPT !.at = TurnAt(@, r)]
      [] e.k = "at" -> TurnAt(e, r)
      [] OTHER -> e
TurnFp(m, r) == [m EXCEPT !.el = [i \in 1..Len(m.el) |-> TurnFpItem(m.el[i], r)]]

(* equal up to whole turns *)
WholeAt(a) == [a EXCEPT !.rot = @ % Turn]
WholeFpItem(e) == CASE e.k \in {"fp_text", "pad"} -> [e EXCEPT !.at = WholeAt(@)] [] e.k = "at" -> WholeAt(e) [] OTHER -> e
WholeFp(m) == [m EXCEPT !.el = [i \in 1..Len(m.el) |-> WholeFpItem(m.el[i])]]
================================================================================
