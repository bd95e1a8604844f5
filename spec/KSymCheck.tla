------------------------------ MODULE KSymCheck ------------------------------
(***************************************************************************)
(* Looking at symbols, renaming them, and the symbol part of the library   *)
(* convention.                                                             *)
(***************************************************************************)
EXTENDS KSymbol, KComponent

SymPins(y) == SelectSeq(y.draw, LAMBDA d : d.k = "pin")
SymPower(y) == y.ref = "#PWR" /\ Len(SymPins(y)) = 1
SymGraphics(y) == StartsWith(y.ref, "#") /\ SymPins(y) = <<>>
SymBasic(y) == y.name \in {"L", "R", "C", "D"}
SymLook(y) == [pins |-> SymPins(y), power |-> SymPower(y), graphics |-> SymGraphics(y), basic |-> SymBasic(y)]
FindSym(d, n) == LET s == SelectSeq(d, LAMBDA y : y.name = n) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>

(* a name that hides the value keeps its leading ~; the second field shows the name *)
RenameSym(y, n) ==
    LET z == [y EXCEPT !.name = IF StartsWith(y.name, "~") THEN "~" \o n ELSE n]
    IN IF Len(y.fields) >= 2 THEN [z EXCEPT !.fields[2].value = n] ELSE z

(* ------------------------------- convention ------------------------------ *)
SymFinding(rule, item, msg, info) == [rule |-> rule, item |-> item, msg |-> msg, info |-> info]
IfSo(c, f) == IF c THEN <<f>> ELSE <<>>

NameLetters == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-."
NameChars == {Char(NameLetters, i) : i \in 1..Len(NameLetters)}
ShownName(y) == IF StartsWith(y.name, "~") THEN LineRest(y.name, 2) ELSE y.name
NameFindings(n) ==
    Flat([i \in 1..Len(n) |->
            IfSo(Char(n, i) \notin NameChars,
                 SymFinding("1.7", n, "Invalid char '" \o Char(n, i) \o "' at " \o ToString(i - 1) \o " in '" \o n \o "'", FALSE))])

NameAllowed(n) == [ok |-> NameFindings(n) = <<>>, items |-> NameFindings(n)]
SectionTitles == <<"General Rules", "Symbol Library Names", "Symbol Names", "General Rules for Symbols", "Footprint Library Names",
                   "Footprint Names", "General Rules for Footprints", "Rules for SMD Footprints", "Rules for Through-hole Footprints",
                   "Footprint Properties">>
(* a group of one finding is that finding *)
Flatter(f) == IF "more" \in DOMAIN f THEN IF Len(f.more) = 1 THEN f.more[1] ELSE f ELSE f

SymFieldFindings(y, f) ==
    IfSo(f.dim # "50", SymFinding("4.8", SymFieldLine(f), "field text is not 50mil", FALSE))
    \o CASE f.i = "0" ->
              IF SymGraphics(y) THEN IfSo(f.visible, SymFinding("4.9", y.name, "reference field should be invisible for graphics", FALSE))
              ELSE IfSo(~f.visible /\ ~SymPower(y), SymFinding("4.9", y.name, "reference field should be visible for normal symbols", FALSE))
         [] f.i = "1" ->
              IF SymGraphics(y) THEN IfSo(f.visible, SymFinding("4.9", y.name, "value field should be invisible for graphics", FALSE))
              ELSE IF SymPower(y) THEN IfSo(f.visible, SymFinding("4.9", y.name, "value field should be invisible for power", FALSE))
              ELSE IfSo(~f.visible, SymFinding("4.9", y.name, "value field should be visible for normal symbols", FALSE))
         [] f.i = "2" -> IfSo(f.visible, SymFinding("4.9", y.name, "Footprint field should be invisible", FALSE))
         [] f.i = "3" -> IfSo(f.visible, SymFinding("4.9", y.name, "Datasheet field should be invisible", FALSE))
         [] OTHER -> <<>>

(* lengths are in mil *)
OnGrid(t, step) == NumOf(t) % step = 0
NamesNc(n) == \E i \in 1..(Len(n) - 1) : Char(n, i) \in {"N", "n"} /\ Char(n, i + 1) \in {"C", "c"}
PinFindings(p) ==
    LET it == p.name \o ":" \o p.number
        F(c, rule, msg, info) == IfSo(c, SymFinding(rule, it, msg, info))
    IN F(~OnGrid(p.x, 100), "4.1", "pin x not on 100mil grid", FALSE)
       \o F(~OnGrid(p.y, 100), "4.1", "pin y not on 100mil grid", FALSE)
       \o F(~OnGrid(p.len, 50), "4.1", "pin length not on 50mil grid", FALSE)
       \o F(NumOf(p.len) < 100, "4.1", "pin length < 100mil", TRUE)
       \o F(NumOf(p.len) > 300, "4.1", "pin length > 300mil", TRUE)
       \o F(NamesNc(p.name) /\ p.t # "N", "4.7", "Pin should be of type Not Connected", FALSE)
       \o F(p.t = "N" /\ p.visible, "4.7", "Pin should be invisible", FALSE)
       \o F(p.t # "N" /\ ~p.visible, "4.7", "Pin should be visible", FALSE)
       \o F(p.num_size # "50", "4.8", "Pin Number should be 50mil", FALSE)
       \o F(p.name_size # "50", "4.8", "Pin Name should be 50mil", FALSE)
RectFindings(r) ==
    IfSo(r.fill # "f", SymFinding("4.2", RectLine(r), "Rectangle is not filled", FALSE))
    \o IfSo(r.thickness # "10", SymFinding("4.2", RectLine(r), "Rectangle is not using a 10mil line", FALSE))
DrawFindings(d) == CASE d.k = "pin" -> PinFindings(d) [] d.k = "rect" -> RectFindings(d) [] OTHER -> <<>>

(* the findings of one thing stand together *)
Grouped(fs) == IF Len(fs) > 1 THEN <<[more |-> fs]>> ELSE fs
CheckSym(y) ==
    Grouped(NameFindings(ShownName(y)))
    \o Flat([k \in 1..Len(y.fields) |-> Grouped(SymFieldFindings(y, y.fields[k]))])
    \o (IF SymPower(y) \/ SymGraphics(y) THEN <<>> ELSE Flat([k \in 1..Len(y.draw) |-> Grouped(DrawFindings(y.draw[k]))]))

(* the lines logged for the findings of a library, groups taken apart *)
LoggedSym(f) == [info |-> f.info, text |-> f.rule \o " " \o f.item \o ":" \o f.msg]
LoggedLib(d) ==
    LET fs == Flat([i \in 1..Len(d) |-> CheckSym(d[i])])
        one(f) == IF "more" \in DOMAIN f THEN [k \in 1..Len(f.more) |-> LoggedSym(f.more[k])] ELSE <<LoggedSym(f)>>
    IN Flat([i \in 1..Len(fs) |-> one(fs[i])])
==============================================================================
