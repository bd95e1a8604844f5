------------------------------ MODULE MC_Format ------------------------------
(***************************************************************************)
(* Every forest of at most MaxLists lists with names from Names, as the    *)
(* unknown sections of a board: all ways the layout rules can meet.        *)
(* A forest is its preorder, a sequence of [d: depth, n: name].            *)
(***************************************************************************)
EXTENDS MCDocs, Json
CONSTANTS Names, MaxLists
VARIABLE f

Init == f = <<>>
Next == /\ Len(f) < MaxLists
        /\ \E n \in Names, d \in 1..(IF f = <<>> THEN 1 ELSE f[Len(f)].d + 1) : f' = Append(f, [d |-> d, n |-> n])

(* the lists directly below position i (0: the top), and the subtree of a position *)
Below(i) == LET d == IF i = 0 THEN 0 ELSE f[i].d
                last == IF \E j \in (i + 1)..Len(f) : f[j].d <= d
                        THEN (CHOOSE j \in (i + 1)..Len(f) : f[j].d <= d /\ \A m \in (i + 1)..(j - 1) : f[m].d > d) - 1
                        ELSE Len(f)
            IN SelectSeq([m \in 1..(last - i) |-> i + m], LAMBDA j : f[j].d = d + 1)
RECURSIVE Sub(_)
Sub(i) == LET kids == Below(i)
              body == [m \in 1..Len(kids) |-> Sub(kids[m])]
          IN IF f[i].n = "" THEN L(body)
             ELSE NL(f[i].n, IF kids = <<>> THEN <<A("1")>> ELSE body)

Doc == LET tops == Below(0) IN BoardDoc([m \in 1..Len(tops) |-> [k |-> "other", v |-> Sub(tops[m])]])
Node == SBoard(Doc)
Pieces == Layout(Node, 0, "\n")
OnlyBlanks == SelectSeq(Pieces, LAMBDA p : ~IsBlank(p)) = Tokens(Node)
Emit == PrintT("@@" \o ToJson([doc |-> Doc, pieces |-> Pieces]))
==============================================================================
