------------------------------ MODULE TraceEdit ------------------------------
(***************************************************************************)
(* Recorded histories of edits, look-ups, geometry and convention checks   *)
(* over footprints, boards and their items.                                *)
(***************************************************************************)
EXTENDS KBoardEdit, KConvention, KCompare, Json, TLC, Agree

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, kind, doc
vars == <<t, k, kind, doc>>

Same(o) == [kind |-> kind, doc |-> doc, out |-> [v |-> o]]
After(d, o) == [kind |-> kind, doc |-> d, out |-> [v |-> o]]
Cfg(e) == [size |-> e.font_size, thickness |-> e.font_thickness]
BoxFor(kd, d) ==
    CASE kd = "fp" -> FpBox(d) [] kd = "fpel" -> FpItemBox(d) [] kd = "lay" -> BoardBox(d) [] kd = "layel" -> ItemBox(d)
      [] kd = "sch" -> SheetBox(d) [] kd = "comp" -> MilBox(d.x, d.y, d.x, d.y)

OnFp(e) ==
    CASE e.op \in FpEdits -> After(FpEdit(doc, e), FpEditOut(doc, e))
      [] e.op = "look" -> Same(FpLook(doc, e.ref, e.which))
      [] e.op = "check" -> Same(CheckFp(doc, Cfg(e)))
      [] e.op = "program" -> Same([ok |-> LoggedFp(doc)])
      [] e.op = "fix" -> LET d == FixFp(doc, Cfg(e)) IN After(d, d)
OnFpItem(e) ==
    CASE e.op = "flip" -> LET d == FlipFpItem(doc) IN After(d, d)
      [] e.op = "rotate" -> LET d == TurnFpItem(doc, e.r) IN After(d, d)
OnBoard(e) ==
    CASE e.op = "look" -> Same(BoardLook(doc, e.ref, e.net, e.setup))
      [] e.op = "program" -> Same([ok |-> BoardEdit(doc, [op |-> "adjust", x |-> 100 * 12800, y |-> 0])])
      [] OTHER -> After(IF Refuses(doc, e) THEN doc ELSE BoardEdit(doc, e), BoardEditOut(doc, e))
OnBoardItem(e) == CASE e.op = "adjust" -> LET d == MoveItem(doc, e.x, e.y) IN After(d, d)
OnBox(e) ==
    CASE e.op = "bupdate" -> LET b == Join(doc, e.b) IN After(b, b)
      [] e.op = "bdims" -> Same([w |-> Width(doc), h |-> Height(doc)])
OnNet(e) ==
    CASE e.op = "net" -> LET r == NetRule(e, doc) IN IF r.ok THEN After(r.v, [ok |-> r.v]) ELSE Same([err |-> TRUE])
      [] e.op = "unnamed" -> Same(Unnamed(doc))
      [] e.op = "set_unnamed" -> LET r == SetUnnamed(doc, e.to) IN IF r.ok THEN After(r.v, [ok |-> r.v]) ELSE Same([err |-> TRUE])
      [] e.op = "show" -> Same(doc)

Expect(e) ==
    CASE e.op = "mode" -> Same("ok")
      [] e.op = "new" -> [kind |-> e.kind, doc |-> e.doc, out |-> [v |-> "ok"]]
      [] e.op = "newbound" -> [kind |-> "bnd", doc |-> NoBox, out |-> [v |-> "ok"]]
      [] e.op = "corners" -> LET b == BoxOf(e.x1, e.y1, e.x2, e.y2) IN [kind |-> "bnd", doc |-> b, out |-> [v |-> b]]
      [] e.op = "get" -> Same(doc)
      [] e.op = "same" -> Same(Compared(e.kind, e.a, e.b))
      [] e.op = "bbox" -> Same(BoxFor(kind, doc))
      [] OTHER -> CASE kind = "fp" -> OnFp(e) [] kind = "fpel" -> OnFpItem(e) [] kind = "lay" -> OnBoard(e)
                    [] kind = "layel" -> OnBoardItem(e) [] kind = "bnd" -> OnBox(e) [] kind = "net" -> OnNet(e)

Init == t \in 1..Len(Traces) /\ k = 1 /\ kind = "none" /\ doc = <<>>
Next ==
    /\ k > 0
    /\ k <= Len(Traces[t].ev)
    /\ t' = t
    /\ LET e == Traces[t].ev[k]
           x == Expect(e)
       IN IF Agree(x.out, e.out)
          THEN k' = k + 1 /\ kind' = x.kind /\ doc' = x.doc
          ELSE /\ PrintT("@@" \o ToJson([t |-> t, k |-> k, want |-> x.out]))
               /\ k' = 0 - k /\ kind' = "rejected" /\ doc' = <<>>
==============================================================================
