------------------------------- MODULE MCLines -------------------------------
(***************************************************************************)
(* Small pools for schematics and symbol libraries. Alt…(x) is the set of  *)
(* values that differ from x in one field.                                 *)
(***************************************************************************)
EXTENDS KSchematic, KSymCheck

CONSTANTS Texts, Names, Ints, Floats     \* free texts, words, whole numbers, decimal numbers (all in canonical spelling)

SmallInts == {"0", "1", "2", "3", "4", "5", "10", "25", "50", "60", "100", "150", "-1", "1200", "-100", "12345"}
WholeNum(w) == [i |-> w, f |-> w]
Num == [w \in SmallInts \cup Ints |-> WholeNum(w)] @@ [w \in Floats |-> [i |-> "", f |-> w]]
       @@ ("0000" :> WholeNum("0")) @@ ("0001" :> WholeNum("1"))

(* --------------------------------- schematic ----------------------------- *)
F4 == [i |-> "0", value |-> "R1", o |-> "H", x |-> "100", y |-> "1200", size |-> "50", visible |-> TRUE, h |-> "C", v |-> "C",
       italic |-> FALSE, bold |-> FALSE, name |-> "Reference"]
AltStyle(f) ==
    {[f EXCEPT !.o = x] : x \in Orientations} \cup {[f EXCEPT !.visible = x] : x \in BOOLEAN}
    \cup {[f EXCEPT !.h = x] : x \in Justifications} \cup {[f EXCEPT !.v = x] : x \in Justifications}
    \cup {[f EXCEPT !.italic = x] : x \in BOOLEAN} \cup {[f EXCEPT !.bold = x] : x \in BOOLEAN}
AltNumber(f) ==
    {[f EXCEPT !.i = x, !.name = FieldName(x)] : x \in Unnamed4}
    \cup {[f EXCEPT !.i = x, !.name = n] : x \in {"4", "5", "10"}, n \in Texts}
AltF(f) ==
    AltStyle(f) \cup AltNumber(f) \cup {[f EXCEPT !.value = x] : x \in Texts}
    \cup {[f EXCEPT !.x = x] : x \in Ints \cup Floats} \cup {[f EXCEPT !.y = x] : x \in Ints \cup Floats}
    \cup {[f EXCEPT !.size = x] : x \in Ints}

Comp0 == [k |-> "comp", name |-> "R", ref |-> "R1", u |-> "U 1 1 5A0B", x |-> "100", y |-> "1200", ar |-> <<>>,
          fields |-> <<F4>>, rot |-> <<"1", "0", "0", "-1">>]
FieldX == [F4 EXCEPT !.i = "4", !.name = "MPN", !.value = "x y"]
AltComp(c) ==
    {[c EXCEPT !.name = x] : x \in Names} \cup {[c EXCEPT !.ref = x] : x \in Names}
    \cup {[c EXCEPT !.u = x] : x \in {"", "U 2 1 5A0B", "U 10 2 0"} \cup {"U " \o n \o " 1 5A0B" : n \in Ints}}
    \cup {[c EXCEPT !.x = x] : x \in Ints} \cup {[c EXCEPT !.y = x] : x \in Ints}
    \cup {[c EXCEPT !.ar = x] : x \in {<<"AR Path=\"/a b\" Ref=\"R1\"  Part=\"1\" ">>, <<"AR a", "AR  b ">>}}
    \cup {[c EXCEPT !.rot[i] = x] : i \in 1..4, x \in Ints}
    \cup {[c EXCEPT !.fields = x] : x \in {<<>>, <<F4, FieldX>>, <<FieldX, F4>>}}
    \cup (IF c.fields = <<>> THEN {} ELSE {[c EXCEPT !.fields[1] = x] : x \in AltF(c.fields[1])})

Wire0 == [k |-> "wire", t |-> "Wire", x1 |-> "100", y1 |-> "0", x2 |-> "1200", y2 |-> "0"]
AltWire(w) ==
    {[w EXCEPT !.t = x] : x \in WireKinds} \cup {[w EXCEPT !.x1 = x] : x \in Ints} \cup {[w EXCEPT !.y1 = x] : x \in Ints}
    \cup {[w EXCEPT !.x2 = x] : x \in Ints} \cup {[w EXCEPT !.y2 = x] : x \in Ints}
Conn0 == [k |-> "conn", x |-> "100", y |-> "0"]
NoConn0 == [k |-> "noconn", x |-> "100", y |-> "0"]
AltPoint(p) == {[p EXCEPT !.x = x] : x \in Ints} \cup {[p EXCEPT !.y = x] : x \in Ints}
Note0 == [k |-> "text", t |-> "Notes", x |-> "100", y |-> "0", o |-> "0", size |-> "60", shape |-> <<>>, italic |-> FALSE,
          thickness |-> "0", text |-> "a note"]
AltText(t) ==
    {[t EXCEPT !.t = x, !.shape = <<>>] : x \in {"Label", "Notes"}}
    \cup {[t EXCEPT !.t = x, !.shape = <<y>>] : x \in {"GLabel", "HLabel"}, y \in {"Input", "BiDi", "UnSpc"}}
    \cup {[t EXCEPT !.x = x] : x \in Ints} \cup {[t EXCEPT !.y = x] : x \in Ints} \cup {[t EXCEPT !.o = x] : x \in Ints}
    \cup {[t EXCEPT !.size = x] : x \in Ints} \cup {[t EXCEPT !.italic = x] : x \in BOOLEAN} \cup {[t EXCEPT !.thickness = x] : x \in Ints}
    \cup {[t EXCEPT !.text = x] : x \in Texts \cup {"$EndComp", "Text Notes 1 2", "\"q\""}}
Other0 == [k |-> "other", v |-> "Entry Wire Line"]
AltOther(o) == {[o EXCEPT !.v = x] : x \in {"\t100 200  300 400", "", "  ", "$Bitmap", "Data", "89 50 4E 47 ", "Kmarq B 1 2 \"x y\" F=1", "wire Wire Line",
                                            "$EndBitmap", "$EndDescr", "Sheet", "U", "EELAYER END", "LIBS:x", "WireX Wire Line",
                                            "Textual", "Connections ~ 1 2", "NoConnX", "$Comps", "$Sheets", "#", "$comp", "TEXT Notes 1 2 0 60 ~ 0", "$EndSheet", "$EndComp", "EndData"}}
AltElem(e) ==
    CASE e.k = "comp" -> AltComp(e) [] e.k = "wire" -> AltWire(e) [] e.k \in {"conn", "noconn"} -> AltPoint(e)
      [] e.k = "text" -> AltText(e) [] e.k = "other" -> AltOther(e)
ElemBases == {Comp0, Wire0, Conn0, NoConn0, Note0, Other0}

Label0 == [name |-> "sda", form |-> "I", side |-> "L", x |-> "100", y |-> "0", size |-> "60"]
Sheet0 == [x |-> "100", y |-> "1200", dimx |-> "0", dimy |-> "1", unique |-> "5A0B", name |-> "sub", name_size |-> "60",
           filename |-> "sub.sch", filename_size |-> "60", labels |-> <<Label0>>]
AltLabel(l) ==
    {[l EXCEPT !.name = x] : x \in Texts} \cup {[l EXCEPT !.form = x] : x \in LabelForms} \cup {[l EXCEPT !.side = x] : x \in LabelSides}
    \cup {[l EXCEPT !.x = x] : x \in Ints} \cup {[l EXCEPT !.y = x] : x \in Ints} \cup {[l EXCEPT !.size = x] : x \in Ints}
AltSheet(t) ==
    {[t EXCEPT !.x = x] : x \in Ints} \cup {[t EXCEPT !.y = x] : x \in Ints} \cup {[t EXCEPT !.dimx = x] : x \in Ints}
    \cup {[t EXCEPT !.dimy = x] : x \in Ints} \cup {[t EXCEPT !.unique = x] : x \in Names} \cup {[t EXCEPT !.name = x] : x \in Texts}
    \cup {[t EXCEPT !.name_size = x] : x \in Ints} \cup {[t EXCEPT !.filename = x] : x \in Texts}
    \cup {[t EXCEPT !.filename_size = x] : x \in Ints}
    \cup {[t EXCEPT !.labels = x] : x \in {<<>>, <<Label0, [Label0 EXCEPT !.name = "scl"]>>}}
    \cup (IF t.labels = <<>> THEN {} ELSE {[t EXCEPT !.labels[1] = x] : x \in AltLabel(t.labels[1])})

Descr0 == [size |-> "A4", dimx |-> "1200", dimy |-> "100", title |-> "t", date |-> "", rev |-> "1", comp |-> "", comment1 |-> "",
           comment2 |-> "", comment3 |-> "", comment4 |-> "", sheet |-> "1", sheet_count |-> "2"]
AltDescr(d) ==
    {[d EXCEPT !.size = x] : x \in Names} \cup {[d EXCEPT !.dimx = x] : x \in Ints} \cup {[d EXCEPT !.dimy = x] : x \in Ints}
    \cup {[d EXCEPT !.sheet = x] : x \in Ints} \cup {[d EXCEPT !.sheet_count = x] : x \in Ints}
    \cup UNION {{[d EXCEPT ![f] = x] : x \in Texts} : f \in {DescrKeys[k] : k \in 1..8}}

SchDoc(el, sheets) == [libs |-> <<"power">>, eelayer |-> "EELAYER 25 0", descr |-> Descr0, el |-> el, sheets |-> sheets]
AltSch(d) ==
    {[d EXCEPT !.libs = x] : x \in {<<>>, <<"", "a b">>}} \cup {[d EXCEPT !.eelayer = x] : x \in {"EELAYER 27 0", "EELAYER  END", "EELAYER END"}}
    \cup {[d EXCEPT !.descr = x] : x \in AltDescr(d.descr)}
    \cup (IF d.el = <<>> THEN {} ELSE {[d EXCEPT !.el[1] = x] : x \in AltElem(d.el[1])})
    \cup (IF d.sheets = <<>> THEN {} ELSE {[d EXCEPT !.sheets[1] = x] : x \in AltSheet(d.sheets[1])})

(* ------------------------------ symbol library --------------------------- *)
SF0 == [i |-> "0", value |-> "U", x |-> "0", y |-> "100", dim |-> "50", o |-> "H", visible |-> TRUE, h |-> "C", v |-> "C",
        italic |-> FALSE, bold |-> FALSE, name |-> "Reference"]
SF1 == [SF0 EXCEPT !.i = "1", !.value = "PART", !.name = "Value"]
AltSF(f) ==
    AltStyle(f) \cup AltNumber(f) \cup {[f EXCEPT !.value = x] : x \in Texts} \cup {[f EXCEPT !.x = x] : x \in Ints \cup Floats}
    \cup {[f EXCEPT !.y = x] : x \in Ints \cup Floats} \cup {[f EXCEPT !.dim = x] : x \in Ints}
Pin0 == [k |-> "pin", name |-> "VCC", number |-> "1", x |-> "0", y |-> "100", len |-> "150", o |-> "U", num_size |-> "50",
         name_size |-> "50", unit |-> "0", convert |-> "1", t |-> "I", visible |-> TRUE, shape |-> ""]
AltPin(p) ==
    {[p EXCEPT !.name = x] : x \in Names} \cup {[p EXCEPT !.number = x] : x \in Names} \cup {[p EXCEPT !.x = x] : x \in Ints}
    \cup {[p EXCEPT !.y = x] : x \in Ints} \cup {[p EXCEPT !.len = x] : x \in Ints} \cup {[p EXCEPT !.o = x] : x \in PinSides}
    \cup {[p EXCEPT !.num_size = x] : x \in Ints} \cup {[p EXCEPT !.name_size = x] : x \in Ints} \cup {[p EXCEPT !.unit = x] : x \in Ints}
    \cup {[p EXCEPT !.convert = x] : x \in Ints} \cup {[p EXCEPT !.t = x] : x \in PinKinds}
    \cup {[p EXCEPT !.visible = x, !.shape = y] : x \in BOOLEAN, y \in PinShapes}
Rect0 == [k |-> "rect", x1 |-> "-100", y1 |-> "100", x2 |-> "100", y2 |-> "-100", unit |-> "0", convert |-> "1", thickness |-> "10", fill |-> "f"]
AltRect(r) ==
    {[r EXCEPT !.x1 = x] : x \in Ints} \cup {[r EXCEPT !.y1 = x] : x \in Ints} \cup {[r EXCEPT !.x2 = x] : x \in Ints} \cup {[r EXCEPT !.y2 = x] : x \in Ints}
    \cup {[r EXCEPT !.unit = x] : x \in Ints} \cup {[r EXCEPT !.convert = x] : x \in Ints} \cup {[r EXCEPT !.thickness = x] : x \in Ints}
    \cup {[r EXCEPT !.fill = x] : x \in Fills}
DrawOther0 == [k |-> "other", v |-> "C 0 0 50 0 1 10 N"]
AltDraw(d) ==
    CASE d.k = "pin" -> AltPin(d) [] d.k = "rect" -> AltRect(d)
      [] d.k = "other" -> {[d EXCEPT !.v = x] : x \in {"", " X", "T 0 1 2 \"a b\"", "ENDDEF", "P 2 0 1 0  0 0 10 10 N", "X", "S", "DRAW", "#", "S\t0 0 1 1 0 1 0 N",
                                               "X\ta 1 0 0 1 U 1 1 0 1 I", " ENDDRAW", "ENDDRAWX", "enddraw", "s 0 0 1 1 0 1 0 N", "x a", "XX", "SS 0", "\"X\" a", "ENDDRAW ", "$FPLIST", "DEF a"}}
Sym0(draw) == [name |-> "PART", ref |-> "U", off |-> "0", pinnum |-> TRUE, pinname |-> TRUE, units |-> "1", locked |-> FALSE, power |-> FALSE,
               fields |-> <<SF0, SF1>>, aliases |-> <<>>, draw |-> draw]
AltSym(y) ==
    {[y EXCEPT !.name = x] : x \in Names} \cup {[y EXCEPT !.ref = x] : x \in Names} \cup {[y EXCEPT !.off = x] : x \in Ints \cup Floats}
    \cup {[y EXCEPT !.pinnum = x] : x \in BOOLEAN} \cup {[y EXCEPT !.pinname = x] : x \in BOOLEAN} \cup {[y EXCEPT !.units = x] : x \in Ints}
    \cup {[y EXCEPT !.locked = x] : x \in BOOLEAN} \cup {[y EXCEPT !.power = x] : x \in BOOLEAN}
    \cup {[y EXCEPT !.aliases = x] : x \in {<<"a">>, <<"a", "b", "~c">>}}
    \cup {[y EXCEPT !.fields = x] : x \in {<<>>, <<SF0>>, <<SF1, SF0>>, <<SF0, SF1, [SF0 EXCEPT !.i = "4", !.name = "MPN"]>>}}
    \cup (IF y.fields = <<>> THEN {} ELSE UNION {{[y EXCEPT !.fields[j] = x] : x \in AltSF(y.fields[j])} : j \in 1..Len(y.fields)})
    \cup (IF y.draw = <<>> THEN {} ELSE {[y EXCEPT !.draw[1] = x] : x \in AltDraw(y.draw[1])})
==============================================================================
