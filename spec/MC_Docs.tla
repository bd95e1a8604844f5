------------------------------- MODULE MC_Docs -------------------------------
(***************************************************************************)
(* Every document within Changes single-field changes of a plain one, and  *)
(* every pair of plain items; each is written and read back.               *)
(***************************************************************************)
EXTENDS MCDocs, Json

CONSTANTS Which, Changes,
          Echo      \* whether the last change also stands before and after the plain item

VARIABLES doc, free    \* free: changes still allowed
vars == <<doc, free>>

Init ==
    CASE Which = "fp" -> \/ \E e \in FpBases \cup FpFull : doc = FpDoc(<<e>>) /\ free = Changes
                         \/ \E e \in FpBases, f \in FpBases : doc = FpDoc(<<e, f>>) /\ free = 0
                         \/ \E e \in FpBases : (doc = FpDoc(<<LayerItem0, e>>) \/ doc = FpDoc(<<e, LayerItem0>>)) /\ free = 0
                         \/ doc = FpDoc(<<LayerItem0>>) /\ free = Changes
                         \/ \E w \in Words : doc = [name |-> w, el |-> <<>>] /\ free = 0
      [] Which = "lay" -> \/ \E e \in BoardBases \cup BoardFull : doc = BoardDoc(<<e>>) /\ free = Changes
                          \/ \E e \in BoardBases, f \in BoardBases, g \in BoardBases : doc = BoardDoc(<<e, f, g>>) /\ free = 0
                          \/ doc \in AltHead(Board0) /\ free = 0
      [] Which = "tab" -> \/ doc = <<Lib0>> /\ free = Changes
                          \/ doc = <<>> /\ free = 0
                          \/ \E b \in AltLib(Lib0) : doc \in {<<b, Lib0>>, <<Lib0, b>>, <<Lib0, b, Lib0>>} /\ free = 0

Next ==
    /\ free > 0
    /\ free' = free - 1
    /\ CASE Which = "fp" -> \E e \in Alt(doc.el[1]) : doc' = FpDoc(<<e>>) \/ (Echo /\ free = 1 /\ doc' = FpDoc(<<e, doc.el[1], e>>))
         [] Which = "lay" -> \E e \in AltB(doc.el[1]) : doc' = BoardDoc(<<e>>) \/ (Echo /\ free = 1 /\ doc' = BoardDoc(<<e, doc.el[1], e>>))
         [] Which = "tab" -> \E e \in AltLib(doc[1]) : doc' = <<e>>

Node == Ser(Which, doc)
Pieces == Layout(Node, 0, AfterText(Which))

(* reading inverts writing *)
ReadBack == Parse(Which, Annotate(Node, Num)) = Good(doc)
(* only blanks are inserted between the tokens *)
OnlyBlanks == SelectSeq(Pieces, LAMBDA p : ~IsBlank(p)) = Tokens(Node)
Emit == PrintT("@@" \o ToJson([doc |-> doc, pieces |-> Pieces]))
==============================================================================
