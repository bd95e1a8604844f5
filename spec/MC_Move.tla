--------------------------------- MODULE MC_Move ---------------------------------
(***************************************************************************)
(* Bounded model of moving: every item kind, footprints and boards, moved  *)
(* one to three times.                                                     *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Offsets, MaxMoves
VARIABLES kind, start, doc, moves

S1 == P("start", U, 0 - 2 * U)
E1 == P("end", 3 * U, 5 * U)
Ps == <<P("xy", U, 0), P("xy", 0, 2 * U), P("xy", 0 - U, 0 - U)>>
FpAt == Fp("m", <<PlaceItem(U, 2 * U, Quarter), TextItem("reference", "U1", At0(U, U, 0), Ly("F", "SilkS"), "none"), PadItem("1", "smd", At0(U, 0, 0), U, U, OnNet1("a")),
                  LineItem(S1, E1, Ly("F", "Fab")), ModelItem("m")>>)
FpTwo == Fp("m", <<PolyItem(Ps, Ly("F", "Cu")), PlaceItem(U, 2 * U, 0), CircleItem(P("center", U, 0 - 2 * U), E1, Ly("F", "Fab")), PlaceItem(0, 0, Quarter)>>)
FpNone == Fp("m", <<TextItem("reference", "U1", At0(U, U, 0), Ly("F", "SilkS"), "none"), ArcItem(S1, E1, Ly("B", "Fab"))>>)
Pool(n) ==
    CASE n = 1 -> GrTextItem("t", At0(U, 2 * U, Quarter))
      [] n = 2 -> GrLineItem("gr_line", S1, E1)
      [] n = 3 -> GrLineItem("gr_arc", S1, E1)
      [] n = 4 -> GrCircleItem(P("center", U, U), E1)
      [] n = 5 -> DimensionItem(At0(U, 2 * U, Quarter), Ps, SubSeq(Ps, 1, 2))
      [] n = 6 -> [DimensionItem(At0(U, 2 * U, Quarter), Ps, <<>>) EXCEPT !.arrow1b = Ps]
      [] n = 7 -> SegmentItem(S1, E1)
      [] n = 8 -> ViaItem(At0(U, 2 * U, 0), U)
      [] n = 9 -> ZoneItem("a", <<Ps, Ps>>, <<SubSeq(Ps, 2, 3), Ps>>, <<Ps>>)
      [] n = 10 -> ZoneItem("a", <<>>, <<>>, <<SubSeq(Ps, 1, 1)>>)
      [] n = 11 -> NetItem("1", "a")
      [] n = 12 -> ClassItem("c", <<"a">>)
      [] n = 13 -> OtherItem
      [] n = 14 -> ModuleItem(FpAt)
      [] n = 15 -> ModuleItem(FpTwo)
      [] n = 16 -> ModuleItem(FpNone)
N == 16

Init ==
    /\ moves = <<>>
    /\ \/ kind = "layel" /\ \E i \in 1..N : start = Pool(i)
       \/ kind = "fp" /\ start \in {FpAt}
       \/ kind = "fp" /\ start \in {FpTwo}
       \/ kind = "fp" /\ start \in {FpNone}
       \/ kind = "lay" /\ \E i, j \in 1..N : start = Board(<<Pool(i), Pool(j)>>, <<Entry("grid_origin", "1")>>)
    /\ doc = start
Moved(d, x, y) == CASE kind = "fp" -> MoveFp(d, x, y) [] kind = "lay" -> MoveBoard(d, x, y) [] kind = "layel" -> MoveItem(d, x, y)
Next ==
    /\ Len(moves) < MaxMoves
    /\ \E x, y \in Offsets : moves' = Append(moves, [x |-> x, y |-> y]) /\ doc' = Moved(doc, x, y)
    /\ UNCHANGED <<kind, start>>

SumX == FoldLeft(LAMBDA a, m : a + m.x, 0, moves)
SumY == FoldLeft(LAMBDA a, m : a + m.y, 0, moves)
(* theorems *)
AddsUp == doc = Moved(start, SumX, SumY)
Restores == Moved(doc, 0 - SumX, 0 - SumY) = start
BoxOfDoc(d) == CASE kind = "fp" -> FpBox(d) [] kind = "lay" -> BoardBox(d) [] kind = "layel" -> ItemBox(d)
(* the box moves along, wherever the whole geometry is absolute *)
AlongBox == (kind = "layel" /\ start.k # "module" /\ start.k # "gr_circle") => BoxOfDoc(doc) = Shift(BoxOfDoc(start), SumX, SumY)
Emit == IF Len(moves) = MaxMoves THEN PrintT("@@" \o ToJson([kind |-> kind, doc |-> start, moves |-> moves, after |-> doc])) ELSE TRUE
================================================================================
