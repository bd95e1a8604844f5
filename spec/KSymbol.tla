------------------------------- MODULE KSymbol -------------------------------
(***************************************************************************)
(* Symbol libraries: what is written for a library and what is read.       *)
(***************************************************************************)
EXTENDS KLines

SymFieldLine(f) ==
    JoinWords(<<"F" \o f.i, InQuotes(f.value), f.x, f.y, f.dim, f.o, IF f.visible THEN "V" ELSE "I", f.h, f.v \o StyleLetters(f)>>
              \o (IF NamedField(f.i) THEN <<InQuotes(f.name)>> ELSE <<>>))

(* the shape of a pin is left out when it is the plain line of a visible pin *)
PinLine(p) ==
    JoinWords(<<"X", p.name, p.number, p.x, p.y, p.len, p.o, p.num_size, p.name_size, p.unit, p.convert, p.t>>
              \o (IF p.visible THEN IF p.shape = "" THEN <<>> ELSE <<p.shape>> ELSE <<"N" \o p.shape>>))
RectLine(r) == JoinWords(<<"S", r.x1, r.y1, r.x2, r.y2, r.unit, r.convert, r.thickness, r.fill>>)
DrawLine(d) == CASE d.k = "pin" -> PinLine(d) [] d.k = "rect" -> RectLine(d) [] d.k = "other" -> d.v

YesNo(b, y, n) == IF b THEN y ELSE n
(* the comment above a symbol shows the text of its second field *)
SymTitle(y) == IF Len(y.fields) >= 2 THEN y.fields[2].value ELSE y.name

SymLines(y) ==
    <<"# " \o SymTitle(y), "#",
      JoinWords(<<"DEF", y.name, y.ref, "0", y.off, YesNo(y.pinnum, "Y", "N"), YesNo(y.pinname, "Y", "N"), y.units,
                  YesNo(y.locked, "L", "F"), YesNo(y.power, "P", "N")>>)>>
    \o [k \in 1..Len(y.fields) |-> SymFieldLine(y.fields[k])]
    \o (IF y.aliases = <<>> THEN <<>> ELSE <<JoinWords(<<"ALIAS">> \o y.aliases)>>)
    \o <<"DRAW">>
    \o [k \in 1..Len(y.draw) |-> DrawLine(y.draw[k])]
    \o <<"ENDDRAW", "ENDDEF", "#">>

LibHead == <<"EESchema-LIBRARY Version 2.3", "#encoding utf-8", "#">>
LibLines(d) == LibHead \o Flat([k \in 1..Len(d) |-> SymLines(d[k])]) \o <<"#End Library">>

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
RSymField(w, num) ==
    LET i == IntOf(num, LineRest(w[1], 2))
    IN IF /\ Len(w) \in {9, 10}
          /\ i # ""
          /\ Len(w) = 10 \/ i \in Unnamed4
          /\ FloatOf(num, w[3]) # "" /\ FloatOf(num, w[4]) # ""
          /\ IntOf(num, w[5]) # ""
          /\ CharOr(w[6], 1, "") \in Orientations
          /\ w[7] \in {"V", "I"}
          /\ CharOr(w[8], 1, "") \in Justifications
          /\ StyleOk(w[9])
       THEN Good([i |-> i, value |-> w[2], x |-> FloatOf(num, w[3]), y |-> FloatOf(num, w[4]), dim |-> IntOf(num, w[5]),
                  o |-> Char(w[6], 1), visible |-> w[7] = "V", h |-> Char(w[8], 1), v |-> Char(w[9], 1),
                  italic |-> Char(w[9], 2) = "I", bold |-> Char(w[9], 3) = "B",
                  name |-> IF Len(w) = 10 THEN w[10] ELSE FieldName(i)])
       ELSE Bad

PinSides == {"U", "D", "L", "R"}
PinKinds == {"I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"}
PinShapes == {"", "I", "C", "CI", "L", "CL", "V", "F", "X"}
Fills == {"F", "f", "N"}

RPin(w, num) ==
    IF Len(w) \notin {12, 13} THEN Bad
    ELSE LET s == IF Len(w) = 13 THEN w[13] ELSE "line"
             hidden == s = "" \/ StartsWith(s, "N")
             shape == IF s = "line" THEN "" ELSE IF StartsWith(s, "N") THEN LineRest(s, 2) ELSE s
         IN IF /\ AllInts(num, <<w[4], w[5], w[6], w[8], w[9], w[10], w[11]>>)
               /\ w[7] \in PinSides /\ w[12] \in PinKinds
               /\ Len(w) = 12 \/ shape \in PinShapes
            THEN Good([k |-> "pin", name |-> w[2], number |-> w[3], x |-> IntOf(num, w[4]), y |-> IntOf(num, w[5]), len |-> IntOf(num, w[6]),
                       o |-> w[7], num_size |-> IntOf(num, w[8]), name_size |-> IntOf(num, w[9]), unit |-> IntOf(num, w[10]),
                       convert |-> IntOf(num, w[11]), t |-> w[12],
                       visible |-> IF Len(w) = 12 THEN TRUE ELSE ~hidden, shape |-> IF Len(w) = 12 THEN "" ELSE shape])
            ELSE Bad

RRect(w, num) ==
    IF Len(w) # 9 THEN Bad
    ELSE IF AllInts(num, SubSeq(w, 2, 8)) /\ w[9] \in Fills
         THEN Good([k |-> "rect", x1 |-> IntOf(num, w[2]), y1 |-> IntOf(num, w[3]), x2 |-> IntOf(num, w[4]), y2 |-> IntOf(num, w[5]),
                    unit |-> IntOf(num, w[6]), convert |-> IntOf(num, w[7]), thickness |-> IntOf(num, w[8]), fill |-> w[9]])
         ELSE Bad

NoSym == [ok |-> FALSE, v |-> <<>>, i |-> 0]

(* the fields from line i on: their value and the number of the first other line *)
RECURSIVE RSymFields(_, _, _, _)
RSymFields(ls, i, num, fs) ==
    IF StartsWith(LineAt(ls, i), "F")
    THEN LET r == RSymField(Split(ls[i]), num)
         IN IF r.ok THEN RSymFields(ls, i + 1, num, Append(fs, r.v)) ELSE NoSym
    ELSE [ok |-> TRUE, v |-> fs, i |-> i]

(* the list of footprint filters is passed over *)
RECURSIVE FpListEnd(_, _)
FpListEnd(ls, i) == IF i > Len(ls) THEN i ELSE IF ls[i] = "$ENDFPLIST" THEN i + 1 ELSE FpListEnd(ls, i + 1)
AfterFpList(ls, i) == IF LineAt(ls, i) = "$FPLIST" THEN FpListEnd(ls, i + 1) ELSE i

RECURSIVE RDraw(_, _, _, _)
RDraw(ls, i, num, ds) ==
    IF i > Len(ls) THEN NoSym
    ELSE LET s == ls[i]
             r == CASE StartsWith(s, "X ") -> RPin(Split(s), num)
                    [] StartsWith(s, "S ") -> RRect(Split(s), num)
                    [] OTHER -> Good([k |-> "other", v |-> s])
         IN IF s = "ENDDRAW" THEN [ok |-> TRUE, v |-> ds, i |-> i + 1]
            ELSE IF r.ok THEN RDraw(ls, i + 1, num, Append(ds, r.v)) ELSE NoSym

FlagOk(w, y, n) == w \in {y, n}

(* a symbol starts with a comment line, whatever it says *)
RSymbol(ls, i, num) ==
    LET w == Split(LineAt(ls, i + 2))
        head == /\ LineAt(ls, i + 1) = "#"
                /\ Len(w) = 10
        ok0 == IF head THEN /\ w[1] = "DEF"
                            /\ FloatOf(num, w[5]) # "" /\ IntOf(num, w[8]) # ""
                            /\ FlagOk(w[6], "Y", "N") /\ FlagOk(w[7], "Y", "N") /\ FlagOk(w[9], "L", "F") /\ FlagOk(w[10], "P", "N")
               ELSE FALSE
        fs == RSymFields(ls, i + 3, num, <<>>)
        a == AfterFpList(ls, fs.i)
        hasAlias == StartsWith(LineAt(ls, a), "ALIAS")
        as == Split(LineAt(ls, a))
        d == IF hasAlias THEN a + 1 ELSE a
        dr == RDraw(ls, d + 1, num, <<>>)
    IN IF ~ok0 THEN NoSym
       ELSE IF ~fs.ok THEN NoSym
       ELSE IF LineAt(ls, d) # "DRAW" THEN NoSym
       ELSE IF ~dr.ok THEN NoSym
       ELSE IF LineAt(ls, dr.i) = "ENDDEF" /\ LineAt(ls, dr.i + 1) = "#"
       THEN [ok |-> TRUE, i |-> dr.i + 2,
             v |-> [name |-> w[2], ref |-> w[3], off |-> FloatOf(num, w[5]), pinnum |-> w[6] = "Y", pinname |-> w[7] = "Y",
                    units |-> IntOf(num, w[8]), locked |-> w[9] = "L", power |-> w[10] = "P", fields |-> fs.v,
                    aliases |-> IF hasAlias THEN SubSeq(as, 2, Len(as)) ELSE <<>>, draw |-> dr.v]]
       ELSE NoSym

RECURSIVE RSymbols(_, _, _, _)
RSymbols(ls, i, num, ys) ==
    IF i > Len(ls) THEN Good(ys)
    ELSE IF ls[i] = "#End Library" THEN Good(ys)
    ELSE LET r == RSymbol(ls, i, num) IN IF r.ok THEN RSymbols(ls, r.i, num, Append(ys, r.v)) ELSE Bad

(* ------------------------------- fresh parts ----------------------------- *)
FreshSym(name, ref) ==
    [name |-> name, ref |-> ref, off |-> "0", pinnum |-> FALSE, pinname |-> FALSE, units |-> "1", locked |-> FALSE, power |-> FALSE,
     fields |-> <<>>, aliases |-> <<>>, draw |-> <<>>]
FreshSymField == [i |-> "0", value |-> "", x |-> "0", y |-> "0", dim |-> "0", o |-> "H", visible |-> FALSE, h |-> "C", v |-> "C",
                  italic |-> FALSE, bold |-> FALSE, name |-> ""]
FreshPin == [k |-> "pin", name |-> "", number |-> "", x |-> "0", y |-> "0", len |-> "0", o |-> "U", num_size |-> "0", name_size |-> "0",
             unit |-> "0", convert |-> "0", t |-> "I", visible |-> FALSE, shape |-> ""]
FreshRect == [k |-> "rect", x1 |-> "0", y1 |-> "0", x2 |-> "0", y2 |-> "0", unit |-> "0", convert |-> "0", thickness |-> "0", fill |-> "N"]
(* added to the last symbol of a library *)
WithPart(lib, k) ==
    CASE k = "field" -> [lib EXCEPT ![Len(lib)].fields = Append(@, FreshSymField)]
      [] k = "pin" -> [lib EXCEPT ![Len(lib)].draw = Append(@, FreshPin)]
      [] k = "rect" -> [lib EXCEPT ![Len(lib)].draw = Append(@, FreshRect)]

RLibrary(ls, num) ==
    IF LineAt(ls, 1) = LibHead[1] /\ LineAt(ls, 2) = LibHead[2] /\ LineAt(ls, 3) = LibHead[3]
    THEN RSymbols(ls, 4, num, <<>>) ELSE Bad
==============================================================================
