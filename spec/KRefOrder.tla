------------------------------ MODULE KRefOrder ------------------------------
(***************************************************************************)
(* The order of component references: by first character, then by the      *)
(* number in the (first) reference.                                        *)
(***************************************************************************)
EXTENDS KLines

(* the characters in use, in the order of their codes *)
CodeOrder == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~µéΩ"
CharRank(c) == CHOOSE i \in 1..Len(CodeOrder) : Char(CodeOrder, i) = c
Figures == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

FirstOfList(r) ==
    LET commas == {i \in 1..Len(r) : Char(r, i) = ","}
    IN IF commas = {} THEN r ELSE LineHead(r, (CHOOSE i \in commas : \A j \in commas : i <= j) - 1)

RECURSIVE DropZeros(_)
DropZeros(s) == IF s = "" THEN s ELSE IF Char(s, 1) = "0" THEN DropZeros(LineRest(s, 2)) ELSE s

(* decimal numbers as text without leading zeros *)
RECURSIVE LessText(_, _)
LessText(a, b) == IF a = "" THEN FALSE ELSE IF Char(a, 1) = Char(b, 1) THEN LessText(LineRest(a, 2), LineRest(b, 2)) ELSE CharRank(Char(a, 1)) < CharRank(Char(b, 1))
LessNum(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessText(a, b))
LargestNumber == "9223372036854775807"

(* all figures of the reference together; none, or more than a number can hold, count as 0 *)
RefNumber(r) ==
    LET f == FirstOfList(r)
        d == FoldLeft(LAMBDA s, i : IF Char(f, i) \in Figures THEN s \o Char(f, i) ELSE s, "", [i \in 1..Len(f) |-> i])
        z == DropZeros(d)
    IN IF z = "" \/ LessNum(LargestNumber, z) THEN "0" ELSE z
(* an empty reference counts as a blank one *)
RefKey(r) == [c |-> IF r = "" THEN " " ELSE Char(r, 1), n |-> RefNumber(r)]

KeyLess(a, b) == CharRank(a.c) < CharRank(b.c) \/ (a.c = b.c /\ LessNum(a.n, b.n))
(* equal keys keep their order *)
RECURSIVE RefInsert(_, _)
RefInsert(s, r) ==
    IF s = <<>> THEN <<r>>
    ELSE IF KeyLess(RefKey(r), RefKey(s[Len(s)])) THEN Append(RefInsert(SubSeq(s, 1, Len(s) - 1), r), s[Len(s)])
    ELSE Append(s, r)
RefSort(s) == FoldLeft(RefInsert, <<>>, s)
==============================================================================
