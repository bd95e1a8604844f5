------------------------------- MODULE KLines --------------------------------
(***************************************************************************)
(* The line formats of schematics and symbol libraries, below the level of *)
(* what the lines mean: text, lines, words.                                *)
(***************************************************************************)
EXTENDS KSexp

LineHead(s, n) == IF s = "" \/ n <= 0 THEN "" ELSE SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
LineRest(s, n) == IF n > Len(s) THEN "" ELSE SubSeq(s, n, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ LineHead(s, Len(p)) = p
CharOr(s, i, d) == IF i <= Len(s) THEN Char(s, i) ELSE d

(***************************************************************************)
(* A text is cut into lines at line feeds; one carriage return before the  *)
(* line feed belongs to the line end; an empty last line is none.          *)
(***************************************************************************)
DropReturn(s) == IF s = "" THEN s ELSE IF Char(s, Len(s)) = "\r" THEN LineHead(s, Len(s) - 1) ELSE s

LinesOf(text) ==
    LET n == Len(text)
        ends == SelectSeq([i \in 1..n |-> i], LAMBDA i : Char(text, i) = "\n")
        from(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
        full == [k \in 1..Len(ends) |-> DropReturn(IF ends[k] = from(k) THEN "" ELSE SubSeq(text, from(k), ends[k] - 1))]
        last == from(Len(ends) + 1)
    IN IF n = 0 THEN <<>> ELSE IF last > n THEN full ELSE Append(full, SubSeq(text, last, n))

(* and written: each line ends with a line feed *)
TextOf(lines) == FoldLeft(LAMBDA t, l : t \o l \o "\n", "", lines)

(***************************************************************************)
(* Words. In most lines words are separated by spaces, and double quotes   *)
(* protect spaces; the quotes themselves are not part of the word, and an  *)
(* empty pair of quotes is an empty word. A quote left open extends to the *)
(* end of the line.                                                        *)
(*   v finished words, w current word, q inside quotes, s quotes closed    *)
(***************************************************************************)
SplitInit == [v |-> <<>>, w |-> "", q |-> FALSE, s |-> FALSE]
SplitStep(z, c) ==
    CASE c = "\"" -> IF z.q THEN [z EXCEPT !.q = FALSE, !.s = TRUE] ELSE [z EXCEPT !.q = TRUE]
      [] c = " " /\ ~z.q -> [v |-> IF z.w # "" \/ z.s THEN Append(z.v, z.w) ELSE z.v, w |-> "", q |-> FALSE, s |-> FALSE]
      [] OTHER -> [z EXCEPT !.w = @ \o c]
Split(line) ==
    LET z == FoldLeft(LAMBDA a, i : SplitStep(a, Char(line, i)), SplitInit, [i \in 1..Len(line) |-> i])
    IN IF z.w # "" \/ z.s THEN Append(z.v, z.w) ELSE z.v

(* other lines have plain words between blanks of any kind *)
LineBlank == {" ", "\t", "\f", "\r", "\n"} \cup {"", "", " ", " ", " ", " ", " ", " ", " ", " ", " ",
              " ", " ", " ", " ", " ", " ", " ", " ", "　"}
PlainInit == [v |-> <<>>, w |-> ""]
PlainStep(z, c) ==
    IF c \in LineBlank THEN [v |-> IF z.w # "" THEN Append(z.v, z.w) ELSE z.v, w |-> ""] ELSE [z EXCEPT !.w = @ \o c]
Plainly(line) ==
    LET z == FoldLeft(LAMBDA a, i : PlainStep(a, Char(line, i)), PlainInit, [i \in 1..Len(line) |-> i])
    IN IF z.w # "" THEN Append(z.v, z.w) ELSE z.v

(* the word that says what a line is; "" for a blank line *)
RECURSIVE SkipBlanks(_, _), WordEnd(_, _)
SkipBlanks(s, i) == IF i > Len(s) THEN i ELSE IF Char(s, i) \in LineBlank THEN SkipBlanks(s, i + 1) ELSE i
WordEnd(s, i) == IF i > Len(s) THEN i ELSE IF Char(s, i) \in LineBlank THEN i ELSE WordEnd(s, i + 1)
FirstWord(s) ==
    LET a == SkipBlanks(s, 1) IN IF a > Len(s) THEN "" ELSE SubSeq(s, a, WordEnd(s, a) - 1)

(* numbers: num tells for a word its value as an integer (i) and as a decimal number (f), "" when it has none *)
IntOf(num, w) == IF w \in DOMAIN num THEN num[w].i ELSE ""
FloatOf(num, w) == IF w \in DOMAIN num THEN num[w].f ELSE ""
AllInts(num, ws) == \A j \in 1..Len(ws) : IntOf(num, ws[j]) # ""

(* line i, "" past the end *)
LineAt(ls, i) == IF i <= Len(ls) THEN ls[i] ELSE ""

(* writing *)
RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(s \o " ", n)
InQuotes(s) == "\"" \o s \o "\""
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o JoinWords(Tail(ws))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

(* the letters for horizontal and vertical, and for the justifications *)
Orientations == {"H", "V"}
Justifications == {"L", "R", "C", "B", "T"}
(* names of the first four fields, which carry none in the text *)
FieldName(i) == CASE i = "0" -> "Reference" [] i = "1" -> "Value" [] i = "2" -> "Footprint" [] i = "3" -> "UserDocLink" [] OTHER -> ""
Unnamed4 == {"0", "1", "2", "3"}
(* whether a field of that number is written with its name: numbers above 3 *)
NamedField(i) == i \notin Unnamed4 /\ ~StartsWith(i, "-")
(* the letters after the vertical justification: italic or not, bold or not *)
StyleLetters(f) == (IF f.italic THEN "I" ELSE "N") \o (IF f.bold THEN "B" ELSE "N")
StyleOk(w) == CharOr(w, 1, "") \in Justifications /\ CharOr(w, 2, "") \in {"I", "N"} /\ CharOr(w, 3, "") \in {"B", "N"}
==============================================================================
