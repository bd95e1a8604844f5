----------------------------- MODULE KSchematic ------------------------------
(***************************************************************************)
(* Schematics: what is written for a document and what is read from lines. *)
(***************************************************************************)
EXTENDS KLines

(***************************************************************************)
(* Writing: a document gives a sequence of lines.                          *)
(***************************************************************************)
FieldLine(f) ==
    JoinWords(<<"F", f.i, InQuotes(f.value), f.o, PadTo(f.x, 3), PadTo(f.y, 3), PadTo(f.size, 3),
                IF f.visible THEN "0000" ELSE "0001", f.h, f.v \o StyleLetters(f)>>
              \o (IF NamedField(f.i) THEN <<InQuotes(f.name)>> ELSE <<>>))

(* the unit of a component is the second word of its U line, 1 when there is none *)
UnitOf(u) == LET w == Plainly(u) IN IF Len(w) >= 2 THEN w[2] ELSE "1"

CompLines(c) ==
    <<"$Comp", JoinWords(<<"L", c.name, c.ref>>), c.u, JoinWords(<<"P", c.x, c.y>>)>>
    \o c.ar
    \o [k \in 1..Len(c.fields) |-> FieldLine(c.fields[k])]
    \o <<"\t" \o JoinWords(<<PadTo(UnitOf(c.u), 4), PadTo(c.x, 4), PadTo(c.y, 4)>>),
         "\t" \o JoinWords([k \in 1..4 |-> PadTo(c.rot[k], 4)]),
         "$EndComp">>

TextLines(t) ==
    <<JoinWords(<<"Text", t.t, PadTo(t.x, 4), PadTo(t.y, 4), PadTo(t.o, 4), PadTo(t.size, 4)>> \o t.shape
                \o <<IF t.italic THEN "Italic" ELSE "~", t.thickness>>),
      t.text>>

ElemLines(e) ==
    CASE e.k = "comp" -> CompLines(e)
      [] e.k = "wire" -> <<JoinWords(<<"Wire", e.t, "Line">>), "\t" \o JoinWords(<<e.x1, e.y1, e.x2, e.y2>>)>>
      [] e.k = "conn" -> <<JoinWords(<<"Connection", "~", e.x, e.y>>)>>
      [] e.k = "noconn" -> <<JoinWords(<<"NoConn", "~", e.x, e.y>>)>>
      [] e.k = "text" -> TextLines(e)
      [] e.k = "other" -> <<e.v>>

DescrLines(d) ==
    <<JoinWords(<<"$Descr", d.size, d.dimx, d.dimy>>), "encoding utf-8", JoinWords(<<"Sheet", d.sheet, d.sheet_count>>),
      "Title " \o InQuotes(d.title), "Date " \o InQuotes(d.date), "Rev " \o InQuotes(d.rev), "Comp " \o InQuotes(d.comp),
      "Comment1 " \o InQuotes(d.comment1), "Comment2 " \o InQuotes(d.comment2), "Comment3 " \o InQuotes(d.comment3),
      "Comment4 " \o InQuotes(d.comment4), "$EndDescr">>

SheetLines(t) ==
    <<"$Sheet", JoinWords(<<"S", t.x, t.y, t.dimx, t.dimy>>), "U " \o t.unique,
      JoinWords(<<"F0", InQuotes(t.name), t.name_size>>), JoinWords(<<"F1", InQuotes(t.filename), t.filename_size>>)>>
    \o [k \in 1..Len(t.labels) |->
          LET l == t.labels[k]
          IN JoinWords(<<"F" \o ToString(k + 1), InQuotes(l.name), l.form, l.side, l.x, l.y, l.size>>)]
    \o <<"$EndSheet">>

SchLines(d) ==
    <<"EESchema Schematic File Version 2">>
    \o [k \in 1..Len(d.libs) |-> "LIBS:" \o d.libs[k]]
    \o <<d.eelayer, "EELAYER END">>
    \o DescrLines(d.descr)
    \o Flat([k \in 1..Len(d.el) |-> ElemLines(d.el[k])])
    \o Flat([k \in 1..Len(d.sheets) |-> SheetLines(d.sheets[k])])
    \o <<"$EndSCHEMATC">>

(***************************************************************************)
(* Reading. Block readers take the lines and the number of the first line  *)
(* of the block; their result has the number of the block's last line.     *)
(***************************************************************************)
NoBlock == [ok |-> FALSE, v |-> <<>>, i |-> 0]
Block2(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

PlainDescr ==
    [size |-> "", dimx |-> "0", dimy |-> "0", title |-> "Normal", date |-> "Tue 19 May 2015", rev |-> "", comp |-> "",
     comment1 |-> "", comment2 |-> "", comment3 |-> "", comment4 |-> "", sheet |-> "1", sheet_count |-> "1"]

(* a line "Name value" with that name *)
IsEntry(line, name) == LET w == Split(line) IN Len(w) >= 2 /\ w[1] = name
DescrNames == <<"Title", "Date", "Rev", "Comp", "Comment1", "Comment2", "Comment3", "Comment4">>
DescrKeys == <<"title", "date", "rev", "comp", "comment1", "comment2", "comment3", "comment4">>

RDescr(ls, i, num) ==
    LET a == Split(ls[i])
        s == Split(LineAt(ls, i + 2))
        e == [k \in 1..8 |-> Split(LineAt(ls, i + 2 + k))]
    IN IF /\ Len(a) >= 4 /\ IntOf(num, a[3]) # "" /\ IntOf(num, a[4]) # ""
          /\ Len(s) >= 3 /\ s[1] = "Sheet" /\ IntOf(num, s[2]) # "" /\ IntOf(num, s[3]) # ""
          /\ \A k \in 1..8 : Len(e[k]) >= 2 /\ e[k][1] = DescrNames[k]
          /\ LineAt(ls, i + 11) = "$EndDescr"
       THEN Block2([size |-> a[2], dimx |-> IntOf(num, a[3]), dimy |-> IntOf(num, a[4]),
                    sheet |-> IntOf(num, s[2]), sheet_count |-> IntOf(num, s[3])]
                   @@ [n \in {DescrKeys[k] : k \in 1..8} |-> e[CHOOSE k \in 1..8 : DescrKeys[k] = n][2]],
                   i + 11)
       ELSE NoBlock

(* a component field line, from its words *)
RField(w, num) ==
    IF /\ Len(w) \in {10, 11}
       /\ IntOf(num, w[2]) # ""
       /\ Len(w) = 11 \/ IntOf(num, w[2]) \in Unnamed4
       /\ CharOr(w[4], 1, "") \in Orientations
       /\ FloatOf(num, w[5]) # "" /\ FloatOf(num, w[6]) # ""
       /\ IntOf(num, w[7]) # ""
       /\ w[8] \in {"0000", "0001"}
       /\ CharOr(w[9], 1, "") \in Justifications
       /\ StyleOk(w[10])
    THEN Good([i |-> IntOf(num, w[2]), value |-> w[3], o |-> Char(w[4], 1), x |-> FloatOf(num, w[5]), y |-> FloatOf(num, w[6]),
               size |-> IntOf(num, w[7]), visible |-> w[8] = "0000", h |-> Char(w[9], 1), v |-> Char(w[10], 1),
               italic |-> Char(w[10], 2) = "I", bold |-> Char(w[10], 3) = "B",
               name |-> IF Len(w) = 11 THEN w[11] ELSE FieldName(IntOf(num, w[2]))])
    ELSE Bad

PlainComp ==
    [k |-> "comp", name |-> "DUMMY", ref |-> "U1", u |-> "", x |-> "0", y |-> "0", ar |-> <<>>, fields |-> <<>>,
     rot |-> <<"0", "0", "0", "0">>]

RECURSIVE RComp(_, _, _, _)
RComp(ls, i, num, c) ==
    IF i > Len(ls) THEN NoBlock
    ELSE LET s == ls[i]
             w == Split(s)
             f == FirstWord(s)
         IN CASE s = "$EndComp" -> Block2(c, i)
              [] f = "L" -> IF Len(w) >= 3 THEN RComp(ls, i + 1, num, [c EXCEPT !.name = w[2], !.ref = w[3]]) ELSE NoBlock
              [] f = "U" -> RComp(ls, i + 1, num, [c EXCEPT !.u = s])
              [] f = "P" -> IF Len(w) >= 3 /\ AllInts(num, <<w[2], w[3]>>)
                            THEN RComp(ls, i + 1, num, [c EXCEPT !.x = IntOf(num, w[2]), !.y = IntOf(num, w[3])])
                            ELSE NoBlock
              [] f = "AR" -> RComp(ls, i + 1, num, [c EXCEPT !.ar = Append(@, s)])
              [] f = "F" -> LET r == RField(w, num)
                            IN IF r.ok THEN RComp(ls, i + 1, num, [c EXCEPT !.fields = Append(@, r.v)]) ELSE NoBlock
              (* the position is repeated on a line that starts with the unit; the rotation follows *)
              [] IntOf(num, f) # "" ->
                   LET r == Plainly(LineAt(ls, i + 1))
                   IN IF Len(r) = 4 /\ AllInts(num, r)
                      THEN RComp(ls, i + 2, num, [c EXCEPT !.rot = [k \in 1..4 |-> IntOf(num, r[k])]])
                      ELSE NoBlock
              (* lines of other kinds are passed over *)
              [] OTHER -> RComp(ls, i + 1, num, c)

PlainSheet ==
    [x |-> "0", y |-> "0", dimx |-> "0", dimy |-> "0", unique |-> "", name |-> "DUMMY", name_size |-> "60", filename |-> "",
     filename_size |-> "60", labels |-> <<>>]

LabelForms == {"I", "O", "B", "T", "U"}
LabelSides == {"L", "R", "T", "B"}

RSheetF(t, f, w, num) ==
    LET n == IntOf(num, LineRest(f, 2))
    IN CASE n = "" -> Bad
         [] n = "0" -> IF Len(w) >= 3 /\ IntOf(num, w[3]) # "" THEN Good([t EXCEPT !.name = w[2], !.name_size = IntOf(num, w[3])]) ELSE Bad
         [] n = "1" -> IF Len(w) >= 3 /\ IntOf(num, w[3]) # "" THEN Good([t EXCEPT !.filename = w[2], !.filename_size = IntOf(num, w[3])]) ELSE Bad
         [] OTHER -> IF Len(w) >= 7 /\ w[3] \in LabelForms /\ w[4] \in LabelSides /\ AllInts(num, SubSeq(w, 5, 7))
                     THEN Good([t EXCEPT !.labels = Append(@, [name |-> w[2], form |-> w[3], side |-> w[4], x |-> IntOf(num, w[5]),
                                                               y |-> IntOf(num, w[6]), size |-> IntOf(num, w[7])])])
                     ELSE Bad

RECURSIVE RSheet(_, _, _, _)
RSheet(ls, i, num, t) ==
    IF i > Len(ls) THEN NoBlock
    ELSE LET s == ls[i]
             w == Split(s)
             f == FirstWord(s)
         IN CASE s = "$EndSheet" -> Block2(t, i)
              [] f = "S" -> IF Len(w) >= 5 /\ AllInts(num, SubSeq(w, 2, 5))
                            THEN RSheet(ls, i + 1, num, [t EXCEPT !.x = IntOf(num, w[2]), !.y = IntOf(num, w[3]),
                                                                  !.dimx = IntOf(num, w[4]), !.dimy = IntOf(num, w[5])])
                            ELSE NoBlock
              [] f = "U" -> IF Len(w) >= 2 THEN RSheet(ls, i + 1, num, [t EXCEPT !.unique = w[2]]) ELSE NoBlock
              [] StartsWith(f, "F") -> LET r == RSheetF(t, f, w, num) IN IF r.ok THEN RSheet(ls, i + 1, num, r.v) ELSE NoBlock
              [] OTHER -> RSheet(ls, i + 1, num, t)

WireKinds == {"Wire", "Bus", "Notes"}
RWire(ls, i, num) ==
    LET a == Plainly(ls[i])
        b == Plainly(LineAt(ls, i + 1))
    IN IF Len(a) = 3 /\ a[2] \in WireKinds /\ Len(b) = 4 /\ AllInts(num, b)
       THEN Block2([k |-> "wire", t |-> a[2], x1 |-> IntOf(num, b[1]), y1 |-> IntOf(num, b[2]), x2 |-> IntOf(num, b[3]), y2 |-> IntOf(num, b[4])], i + 1)
       ELSE NoBlock

RPoint(ls, i, num, kd) ==
    LET a == Plainly(ls[i])
    IN IF Len(a) = 4 /\ AllInts(num, SubSeq(a, 3, 4)) THEN Block2([k |-> kd, x |-> IntOf(num, a[3]), y |-> IntOf(num, a[4])], i) ELSE NoBlock

(* labels that are not local have a shape word *)
RText(ls, i, num) ==
    LET a == Plainly(ls[i])
        shaped == IF Len(a) >= 2 THEN a[2] \in {"GLabel", "HLabel"} ELSE FALSE
        j == IF shaped THEN 8 ELSE 7
    IN IF Len(a) >= j + 1 /\ a[2] \in {"Label", "Notes", "GLabel", "HLabel"} /\ AllInts(num, SubSeq(a, 3, 6)) /\ IntOf(num, a[j + 1]) # ""
          /\ a[j] \in {"Italic", "~"} /\ i < Len(ls)
       THEN Block2([k |-> "text", t |-> a[2], x |-> IntOf(num, a[3]), y |-> IntOf(num, a[4]), o |-> IntOf(num, a[5]), size |-> IntOf(num, a[6]),
                    shape |-> IF shaped THEN <<a[7]>> ELSE <<>>, italic |-> a[j] = "Italic", thickness |-> IntOf(num, a[j + 1]),
                    text |-> ls[i + 1]], i + 1)
       ELSE NoBlock

RECURSIVE RTop(_, _, _, _)
RTop(ls, i, num, d) ==
    IF i > Len(ls) THEN Good(d)
    ELSE LET f == FirstWord(ls[i])
             elem(r) == IF r.ok THEN RTop(ls, r.i + 1, num, [d EXCEPT !.el = Append(@, r.v)]) ELSE Bad
         IN CASE f = "$Descr" -> LET r == RDescr(ls, i, num) IN IF r.ok THEN RTop(ls, r.i + 1, num, [d EXCEPT !.descr = r.v]) ELSE Bad
              [] f = "$Comp" -> elem(RComp(ls, i + 1, num, PlainComp))
              [] f = "$Sheet" -> LET r == RSheet(ls, i + 1, num, PlainSheet)
                                 IN IF r.ok THEN RTop(ls, r.i + 1, num, [d EXCEPT !.sheets = Append(@, r.v)]) ELSE Bad
              [] f = "$EndSCHEMATC" -> RTop(ls, i + 1, num, d)
              [] f = "Wire" -> elem(RWire(ls, i, num))
              [] f = "Connection" -> elem(RPoint(ls, i, num, "conn"))
              [] f = "NoConn" -> elem(RPoint(ls, i, num, "noconn"))
              [] f = "Text" -> elem(RText(ls, i, num))
              (* anything else is kept as it is *)
              [] OTHER -> RTop(ls, i + 1, num, [d EXCEPT !.el = Append(@, [k |-> "other", v |-> ls[i]])])

RECURSIVE LibCount(_, _)
LibCount(ls, i) == IF i > Len(ls) THEN 0 ELSE IF StartsWith(ls[i], "LIBS:") THEN 1 + LibCount(ls, i + 1) ELSE 0

RSchematic(ls, num) ==
    IF LineAt(ls, 1) # "EESchema Schematic File Version 2" THEN Bad
    ELSE LET n == LibCount(ls, 2)
         IN IF StartsWith(LineAt(ls, n + 2), "EELAYER ") /\ LineAt(ls, n + 3) = "EELAYER END"
            THEN RTop(ls, n + 4, num,
                      [libs |-> [k \in 1..n |-> LineRest(ls[k + 1], 6)], eelayer |-> ls[n + 2], descr |-> PlainDescr, el |-> <<>>, sheets |-> <<>>])
            ELSE Bad
==============================================================================
