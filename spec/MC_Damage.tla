------------------------------ MODULE MC_Damage ------------------------------
(***************************************************************************)
(* Small texts and everything that Damages token edits make of them: a     *)
(* token lost, repeated, replaced, inserted, exchanged with its neighbour, *)
(* or everything after it lost; a part that is known elsewhere put where   *)
(* it does not belong, a word almost spelled right.                        *)
(***************************************************************************)
EXTENDS MCDocs, Json
CONSTANTS Which, Damages, Stray, Misplaced, Misspelled
VARIABLES toks, free

RECURSIVE Raw(_)
Raw(n) == IF IsWord(n) THEN <<n.a>> ELSE <<"(">> \o FlattenSeq([i \in 1..Len(n.l) |-> Raw(n.l[i])]) \o <<")">>
(* only the changed item of a board matters; its head is cut to keep texts short *)
Text(d) == IF Which = "lay" /\ d # Board0 THEN Raw(L(<<A("kicad_pcb")>> \o [i \in 1..Len(d.el) |-> SElement(d.el[i])]))
           ELSE Raw(Ser(Which, d))

Init ==
    /\ free = Damages
    /\ CASE Which = "fp" -> \/ \E e \in FpBases : toks = Text(FpDoc(<<e>>))
                            \/ toks = Text(FpDoc(<<LayerItem0>>))
                            \/ \E e \in FpFull : toks = Text(FpDoc(<<e>>))
         [] Which = "lay" -> \/ \E e \in BoardBases : toks = Text(BoardDoc(<<e>>))
                             \/ \E e \in BoardFull : toks = Text(BoardDoc(<<e>>))
                             \/ toks = Text(Board0)
         [] Which = "tab" -> toks \in {Text(<<Lib0>>), Text(<<Lib0, Lib0>>)}
Ins(s, i, w) == SubSeq(s, 1, i - 1) \o w \o SubSeq(s, i, Len(s))
Next ==
    /\ free > 0 /\ free' = free - 1
    /\ \E i \in 1..Len(toks) :
          \/ toks' = RemoveAt(toks, i)
          \/ toks' = SubSeq(toks, 1, i - 1)
          \/ toks' = Ins(toks, i, <<toks[i]>>)
          \/ i < Len(toks) /\ toks' = [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]]
          \/ \E w \in Stray : toks' = Ins(toks, i, <<w>>)
          \/ \E w \in Stray : toks' = [toks EXCEPT ![i] = w]
          \/ toks' = Ins(toks, i, <<"(", ")">>)
          \/ \E p \in Misplaced : toks' = Ins(toks, i, p)
          \/ toks[i] \in DOMAIN Misspelled /\ \E w \in Misspelled[toks[i]] : toks' = [toks EXCEPT ![i] = w]

(* token-level reading: the first complete node counts *)
RNum(w) == IF w \in DOMAIN Num THEN [a |-> w] @@ Num[w] ELSE [a |-> w, f |-> "", i |-> "", x |-> ""]
Shift(s, w) ==
    IF s.done THEN s
    ELSE IF w = "(" THEN [s EXCEPT !.stk = Append(@, <<>>)]
    ELSE IF s.stk = <<>> THEN [s EXCEPT !.done = TRUE, !.res = RNum(IF w = ")" THEN "" ELSE w)]
    ELSE IF w = ")" THEN
         LET n == L(s.stk[Len(s.stk)]) IN
         IF Len(s.stk) = 1 THEN [s EXCEPT !.done = TRUE, !.res = n]
         ELSE [s EXCEPT !.stk = Append(SubSeq(@, 1, Len(@) - 2), Append(@[Len(@) - 1], n))]
    ELSE [s EXCEPT !.stk[Len(s.stk)] = Append(@, RNum(w))]
Outcome == LET s == FoldLeft(Shift, [done |-> FALSE, stk |-> <<>>, res |-> A("")], toks)
               p == IF s.done THEN Parse(Which, s.res) ELSE Bad
           IN IF p.ok THEN [ok |-> p.v] ELSE [err |-> TRUE]
(* a text that was cut is never accepted: nothing is complete before the last parenthesis *)
CutRefused == (toks # <<>> /\ Cardinality({i \in 1..Len(toks) : toks[i] = "("}) > Cardinality({i \in 1..Len(toks) : toks[i] = ")"})
               /\ toks[1] = "(" /\ \A j \in 1..Len(toks) : Cardinality({i \in 1..j : toks[i] = "("}) > Cardinality({i \in 1..j : toks[i] = ")"}))
              => Outcome = [err |-> TRUE]
Emit == PrintT("@@" \o ToJson([toks |-> toks, out |-> Outcome]))
==============================================================================
