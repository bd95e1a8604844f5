--------------------------------- MODULE MC_Box ---------------------------------
(***************************************************************************)
(* Bounded model of bounding boxes: every item kind with its points on a   *)
(* small grid in every order, footprints and boards of two items, and all  *)
(* ways of merging a few boxes.                                            *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Coords, Quarters, Sizes
VARIABLES kind, doc

Pt(t) == {P(t, x, y) : x \in Coords, y \in Coords}
Ats == {At0(x, y, r) : x \in Coords, y \in Coords, r \in {0, 45 * U}}
Lists(n) == UNION {[1..k -> Pt("xy")] : k \in 0..n}
Radii == {<<0, 1>>, <<0 - 1, 0>>, <<3, 0 - 4>>, <<12, 5>>, <<0, 0>>}
Fab == Ly("F", "Fab")
BFab == Ly("B", "Fab")
Silk == Ly("F", "SilkS")

Lo == CHOOSE c \in Coords : \A d \in Coords : c <= d
Hi == CHOOSE c \in Coords : \A d \in Coords : c >= d
Pool(n) ==
    CASE n = 1 -> PadItem("1", "smd", At0(Hi, Lo, 0), 2 * U, 6400, <<>>)
      [] n = 2 -> PadItem("2", "np_thru_hole", At0(0, Hi, 3 * Quarter), 2 * U, 6400, <<>>)
      [] n = 3 -> LineItem(P("start", Hi, Lo), P("end", Lo, 0), Fab)
      [] n = 4 -> LineItem(P("start", 30 * U, Lo), P("end", Lo, 0), Silk)
      [] n = 5 -> ArcItem(P("start", 0, Hi), P("end", Lo, 0), BFab)
      [] n = 6 -> CircleItem(P("center", Lo, 0), P("end", Lo + 3 * U, 4 * U), Fab)
      [] n = 7 -> CircleItem(P("center", Lo, 0), P("end", Lo + 3 * U, 4 * U), Ly("F", "CrtYd"))
      [] n = 8 -> PolyItem(<<>>, Fab)
      [] n = 9 -> PolyItem(<<P("xy", Hi, Hi), P("xy", Lo, Lo)>>, Fab)
      [] n = 10 -> TextItem("user", "%R", At0(40 * U, 40 * U, 0), Fab, "none")
      [] n = 11 -> PlaceItem(7 * U, 0 - 9 * U, Quarter)
      [] n = 12 -> PlaceItem(0 - 3 * U, 2 * U, 0)
      [] n = 13 -> ModelItem("m")
      [] n = 14 -> PolyItem(<<P("xy", 50 * U, Hi)>>, Silk)
      [] n = 15 -> [k |-> "layer", v |-> Fab]
BPool(n) ==
    CASE n = 1 -> NetItem("1", "a")
      [] n = 2 -> ClassItem("c", <<"a">>)
      [] n = 3 -> OtherItem
      [] n = 4 -> GrTextItem("t", At0(Hi, Lo, 0))
      [] n = 5 -> GrLineItem("gr_line", P("start", Hi, Lo), P("end", Lo, 0))
      [] n = 6 -> GrCircleItem(P("center", 0, 0), P("end", 0, Lo))
      [] n = 7 -> SegmentItem(P("start", 0, Hi), P("end", Lo, 0))
      [] n = 8 -> ViaItem(At0(9 * U, 9 * U, 0), U)
      [] n = 9 -> ZoneItem("a", <<>>, <<<<>>>>, <<>>)
      [] n = 10 -> ZoneItem("a", <<<<P("xy", Hi, Hi), P("xy", Lo, Lo)>>>>, <<>>, <<<<P("xy", 20 * U, 0)>>>>)
      [] n = 11 -> DimensionItem(At0(0, 0 - 8 * U, 0), <<P("xy", Hi, Lo)>>, <<>>)
      [] n = 12 -> ModuleItem(Fp("m", <<Pool(11), Pool(1), Pool(3)>>))
      [] n = 13 -> ModuleItem(Fp("m", <<>>))

Boxes == {NoBox} \cup {BoxOf(x, y, x + w, y + h) : x \in {0 - 1, 0, 4}, y \in {0, 3}, w \in {0, 2}, h \in {0, 2}}

Init ==
    \/ \E a \in Pt("start"), b \in Pt("end") :
          \/ kind = "fpel" /\ doc = LineItem(a, b, Fab)
          \/ kind = "fpel" /\ doc = ArcItem(a, b, Silk)
          \/ kind = "layel" /\ doc = GrLineItem("gr_line", a, b)
          \/ kind = "layel" /\ doc = GrLineItem("gr_arc", a, b)
          \/ kind = "layel" /\ doc = SegmentItem(a, b)
    \/ \E a \in Pt("center"), r \in Radii, f \in {640, U} :
          \/ kind = "fpel" /\ doc = CircleItem(a, P("end", a.x + f * r[1], a.y + f * r[2]), Fab)
          \/ kind = "layel" /\ doc = GrCircleItem(a, P("end", a.x + f * r[1], a.y + f * r[2]))
    \/ \E a \in Pt("xy"), q \in Quarters, w \in Sizes, h \in Sizes :
          kind = "fpel" /\ doc = PadItem("1", "smd", At0(a.x, a.y, q * Quarter), w, h, <<>>)
    \/ \E a \in Ats :
          \/ kind = "fpel" /\ doc = TextItem("user", "x", a, Silk, "none")
          \/ kind = "fpel" /\ doc = PlaceItem(a.x, a.y, a.rot)
          \/ kind = "layel" /\ doc = GrTextItem("x", a)
          \/ \E s \in Sizes : kind = "layel" /\ doc = ViaItem(a, s)
    \/ \E ps \in Lists(2) :
          \/ kind = "fpel" /\ doc = PolyItem(ps, Fab)
          \/ \E qs \in Lists(1) :
                \/ kind = "layel" /\ doc \in {ZoneItem("a", <<ps>>, <<qs>>, <<>>), ZoneItem("a", <<>>, <<qs, ps>>, <<qs>>), ZoneItem("a", <<qs>>, <<>>, <<ps>>)}
                \/ kind = "layel" /\ doc = DimensionItem(At0(0, 0, 0), ps, qs)
    \/ \E i, j \in 1..15 : kind = "fp" /\ doc = Fp("n", <<Pool(i), Pool(j)>>)
    \/ \E i \in {11, 12, 1}, j, l \in 1..15 : kind = "fp" /\ doc = Fp("n", <<Pool(j), Pool(i), Pool(l)>>)
    \/ \E i, j \in 1..13 : kind = "lay" /\ doc = Board(<<BPool(i), BPool(j)>>, <<>>)
    \/ \E i, j, l \in 1..13 : i < j /\ j < l /\ kind = "lay" /\ doc = Board(<<BPool(i), BPool(l), BPool(j)>>, <<>>)
    \/ kind \in {"fp"} /\ doc = Fp("n", <<>>)
    \/ kind \in {"lay"} /\ doc = Board(<<>>, <<>>)
    \/ \E a, b, c \in Boxes : kind = "boxes" /\ doc = <<a, b, c>>
Next == FALSE /\ UNCHANGED <<kind, doc>>

BoxNow == CASE kind = "fp" -> FpBox(doc) [] kind = "fpel" -> FpItemBox(doc) [] kind = "lay" -> BoardBox(doc) [] kind = "layel" -> ItemBox(doc)
            [] kind = "boxes" -> JoinAll(doc)

(* theorems *)
SmallFirst == Ordered(BoxNow)
SwapEnds ==
    (kind \in {"fpel", "layel"} /\ doc.k \in {"fp_line", "fp_arc", "gr_line", "gr_arc", "segment"}) =>
       BoxNow = IF kind = "fpel" THEN FpItemBox([doc EXCEPT !.start = doc.end, !.end = doc.start]) ELSE ItemBox([doc EXCEPT !.start = doc.end, !.end = doc.start])
AnyOrder ==
    /\ kind = "fp" => (Len(OfKind(doc, "at")) < 2 => BoxNow = FpBox([doc EXCEPT !.el = Reverse(@)]))
    /\ kind = "lay" => BoxNow = BoardBox([doc EXCEPT !.el = Reverse(@)])
Parts ==
    /\ kind = "lay" => \A i \in 1..Len(doc.el) : Inside(ItemBox(doc.el[i]), BoxNow)
    /\ kind = "fp" => \A i \in 1..Len(doc.el) : Drawn(doc.el[i]) => Inside(Shift(FpItemBox(doc.el[i]), PlaceOf(doc).x, PlaceOf(doc).y), BoxNow)
MergeLaws ==
    kind = "boxes" =>
       /\ Join(doc[1], doc[2]) = Join(doc[2], doc[1])
       /\ Join(Join(doc[1], doc[2]), doc[3]) = Join(doc[1], Join(doc[2], doc[3]))
       /\ Join(doc[1], doc[1]) = doc[1] /\ Join(doc[1], NoBox) = doc[1] /\ Join(NoBox, doc[1]) = doc[1]
       /\ \A i \in 1..3 : Inside(doc[i], BoxNow)
       \* the smallest: every box around both is around the merged one
       /\ \A b \in Boxes : (Inside(doc[1], b) /\ Inside(doc[2], b)) => Inside(Join(doc[1], doc[2]), b)
Emit == PrintT("@@" \o ToJson([kind |-> kind, doc |-> doc, box |-> BoxNow,
                               steps |-> IF kind = "boxes" THEN <<Join(NoBox, doc[1]), JoinAll(SubSeq(doc, 1, 2)), JoinAll(doc)>> ELSE <<>>]))
================================================================================
