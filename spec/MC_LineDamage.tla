---------------------------- MODULE MC_LineDamage ----------------------------
(***************************************************************************)
(* A small schematic or symbol library with damage: a line missing, doubled*)
(* or foreign, a word missing, doubled or foreign, or the end missing.     *)
(***************************************************************************)
EXTENDS MCLines, FiniteSets, Json

CONSTANTS Which, Damages, Stray, Codes, Swapped

VARIABLES lines, free, cut
vars == <<lines, free, cut>>

SchBase == SchDoc(<<[Comp0 EXCEPT !.fields = <<F4, FieldX>>, !.ar = <<"AR Path=\"/a b\"">>], Wire0, [Wire0 EXCEPT !.t = "Bus"], Conn0, NoConn0, Note0, [Note0 EXCEPT !.t = "Label"], [Note0 EXCEPT !.t = "GLabel", !.shape = <<"Input">>], Other0>>, <<Sheet0>>)
LibBase == <<[Sym0(<<Pin0, Rect0, DrawOther0, [Pin0 EXCEPT !.visible = FALSE, !.shape = "CI"]>>) EXCEPT !.aliases = <<"a", "b">>,
                                                                       !.fields = <<SF0, SF1, [SF0 EXCEPT !.i = "4", !.name = "MPN"]>>]>>
Base == IF Which = "sch" THEN SchLines(SchBase) ELSE LibLines(LibBase)

(* the words of a line as they stand, quotes included, and the line of such words *)
RawInit == [v |-> <<>>, w |-> "", q |-> FALSE]
RawStep(z, c) ==
    IF c = "\"" THEN [z EXCEPT !.q = ~@, !.w = @ \o c]
    ELSE IF c = " " /\ ~z.q THEN [z EXCEPT !.v = IF z.w = "" THEN @ ELSE Append(@, z.w), !.w = ""]
    ELSE [z EXCEPT !.w = @ \o c]
RawWords(s) ==
    LET z == FoldLeft(LAMBDA a, i : RawStep(a, Char(s, i)), RawInit, [i \in 1..Len(s) |-> i])
    IN IF z.w = "" THEN z.v ELSE Append(z.v, z.w)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Before(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* what the words that damage can make are as numbers *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Char(s, i) \in Digits
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Char(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
Whole(s) ==
    IF AllDigits(s) THEN NoZeros(s)
    ELSE IF Len(s) > 1 /\ Char(s, 1) \in {"-", "+"} /\ AllDigits(SubSeq(s, 2, Len(s)))
         THEN LET n == NoZeros(SubSeq(s, 2, Len(s))) IN IF Char(s, 1) = "-" /\ n # "0" THEN "-" \o n ELSE n
    ELSE ""
WordsIn(s) == ToSet(Split(s)) \cup ToSet(Plainly(s)) \cup Stray
Pieces(w) == {IF n < m THEN "" ELSE SubSeq(w, m, n) : m \in {1, 2}, n \in 1..Len(w)}
Spelled == UNION {Pieces(w) : w \in (UNION {WordsIn(Base[i]) : i \in 1..Len(Base)}) \cup {"0", "1", "2", "3"} \cup UNION {Swapped[x] : x \in DOMAIN Swapped}}
NumD == [w \in {x \in Spelled : Whole(x) # ""} |-> WholeNum(Whole(w))] @@ [w \in {"1.5"} |-> [i |-> "", f |-> w]]

StrayLines == {"", "x", "$EndComp", "F 0 \"a\"", "$Comp", "DRAW", "#", "Text Label 1", "1 2 3"}

DamageLine(i) ==
    \/ lines' = Without(lines, i) /\ cut' = FALSE
    \/ lines' = Before(lines, i, lines[i]) /\ cut' = FALSE
    \/ \E x \in StrayLines : lines' = Before(lines, i, x) /\ cut' = FALSE
    \/ lines' = SubSeq(lines, 1, i - 1) /\ cut' = TRUE
DamageWord(i) ==
    LET w == RawWords(lines[i])
        put(ws) == lines' = [lines EXCEPT ![i] = JoinWords(ws)] /\ cut' = FALSE
    IN \E j \in 1..Len(w) :
         \/ put(Without(w, j))
         \/ put(Before(w, j, w[j]))
         \/ \E x \in Stray : put([w EXCEPT ![j] = x])
         \/ Len(w[j]) > 1 /\ put([w EXCEPT ![j] = LineHead(w[j], Len(w[j]) - 1)])
         (* a code letter is exchanged; a word is spelled with the other case, or goes on *)
         \/ \E n \in 1..Len(w[j]) : Len(w[j]) <= 4 /\ Whole(w[j]) = "" /\ \E x \in Codes : put([w EXCEPT ![j] = LineHead(w[j], n - 1) \o x \o LineRest(w[j], n + 1)])
         \/ w[j] \in DOMAIN Swapped /\ \E x \in Swapped[w[j]] : put([w EXCEPT ![j] = x])

Init == lines = Base /\ free = Damages /\ cut = FALSE
Next == free > 0 /\ free' = free - 1 /\ ~cut /\ \E i \in 1..Len(lines) : DamageLine(i) \/ DamageWord(i)

Damaged == IF Which = "sch" THEN RSchematic(lines, NumD) ELSE RLibrary(lines, NumD)
Outcome == IF Damaged.ok THEN [ok |-> Damaged.v] ELSE [err |-> TRUE]

(* a text that ends inside a block is refused: what is read ends where a block ended *)
Opens == IF Which = "sch" THEN {"$Comp", "$Sheet", "$Descr"} ELSE {"DRAW"}
Closes == IF Which = "sch" THEN {"$EndComp", "$EndSheet", "$EndDescr"} ELSE {"ENDDRAW"}
Count(S) == Cardinality({i \in 1..Len(lines) : FirstWord(lines[i]) \in S})
CutRefused == (cut /\ Damages = 1 /\ Count(Opens) # Count(Closes)) => ~Damaged.ok
(* a line of a kind that is known, without its last word, is refused *)
Emit == PrintT("@@" \o ToJson([lines |-> lines, out |-> Outcome]))
==============================================================================
