---------------------------------- MODULE MC_Klc ----------------------------------
(***************************************************************************)
(* Bounded model of the footprint convention: footprints with every        *)
(* combination of broken and kept rules, checked, fixed and checked again. *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Names, Sizes, Thicks, Level
VARIABLES m, cfg

T(n, v, s, t, h, sx, sy, th) ==
    [k |-> "fp_text", name |-> n, value |-> v, at |-> At0(U, 0 - U, 0), layer |-> Ly(s, t), effects |-> [sx |-> sx, sy |-> sy, thickness |-> th, italic |-> FALSE, justify |-> "none"],
     hide |-> h]
Cfgs == {[size |-> s, thickness |-> t] : s \in Sizes, t \in Thicks}
Cfg0 == CHOOSE c \in Cfgs : TRUE
RefOk == T("reference", "REF**", "F", "SilkS", FALSE, U, U, 1920)
ValOk(n) == T("value", n, "F", "Fab", FALSE, U, U, 1920)
UserOk == T("user", "%R", "F", "Fab", FALSE, U, U, 1920)
Court(n) == [i \in 1..n |-> LineItem(P("start", i * U, 0), P("end", 0, i * U), Ly(IF i % 2 = 0 THEN "F" ELSE "B", "CrtYd"))]
SmdPad(x) == PadItem("1", "smd", At0(x, 0, 0), U, 2 * U, <<>>)
PthPad == PadItem("2", "thru_hole", At0(0, U, Quarter), U, 2 * U, <<>>)
NpthPad == PadItem("", "np_thru_hole", At0(0, U, 0), U, U, <<>>)
PadSets == << <<>>, <<SmdPad(0)>>, <<PthPad>>, <<SmdPad(0), PthPad>>, <<NpthPad>>, <<NpthPad, SmdPad(U)>>, <<PthPad, NpthPad>> >>
Attrs == << <<>>, <<[k |-> "attr", v |-> "smd"]>>, <<[k |-> "attr", v |-> "virtual"]>>, <<[k |-> "attr", v |-> "virtual"], [k |-> "attr", v |-> "smd"]>> >>
FabLine(x, y) == LineItem(P("start", x, y), P("end", 0, 0), Ly("F", "Fab"))
Outlines == << <<>>, <<FabLine(0 - 2 * U, U)>>, <<FabLine(U, U), PlaceItem(3 * U, 0 - U, Quarter)>>,
               <<PlaceItem(U, U, 0), CircleItem(P("center", U, 0), P("end", U + 3 * 3200, 4 * 3200), Ly("F", "Fab")), PolyItem(<<P("xy", 0 - U, 0)>>, Ly("F", "SilkS"))>>,
               <<FabLine(2 * U, 3200)>>, <<FabLine(2 * U - 3200, 2 * U - 3200)>> >>

Texts1 == {T("reference", v, s, t, h, sx, sy, th) : v \in {"REF**", "U1"}, s \in {"F", "B"}, t \in {"SilkS", "Fab"}, h \in BOOLEAN, sx \in Sizes, sy \in Sizes, th \in Thicks}
Texts2(n) == {T("value", v, s, t, h, sx, sy, th) : v \in {n, "REF**"}, s \in {"F", "B"}, t \in {"SilkS", "Fab"}, h \in BOOLEAN, sx \in Sizes, sy \in Sizes, th \in Thicks}
Texts3 == {T("user", v, s, t, h, sx, sy, th) : v \in {"%R", "U1"}, s \in {"F", "B"}, t \in {"SilkS", "Fab"}, h \in BOOLEAN, sx \in Sizes, sy \in Sizes, th \in Thicks}

Init ==
    \* one text varied, the others as they should be or missing
    \/ \E n \in Names : \E t \in Texts1 : cfg \in Cfgs /\ m = Fp(n, <<t, ValOk(n), UserOk>> \o Court(4))
    \/ \E n \in Names : \E t \in Texts2(n) : cfg \in Cfgs /\ m = Fp(n, <<RefOk, t, UserOk>> \o Court(4))
    \/ \E n \in Names : \E t \in Texts3 : cfg \in Cfgs /\ m = Fp(n, <<t, RefOk, ValOk(n)>> \o Court(5))
    \* presence and order of texts
    \/ \E n \in Names : \E S \in SUBSET {1, 2, 3, 4, 5} : cfg = Cfg0 /\
          m = Fp(n, Court(3) \o (IF 1 \in S THEN <<T("value", "x", "F", "Fab", TRUE, U, U, 1920)>> ELSE <<>>) \o (IF 2 \in S THEN <<ValOk(n)>> ELSE <<>>)
                    \o (IF 3 \in S THEN <<RefOk>> ELSE <<>>) \o (IF 4 \in S THEN <<T("reference", "U1", "F", "SilkS", FALSE, U, U, 1920)>> ELSE <<>>)
                    \o (IF 5 \in S THEN <<UserOk, T("user", "q", "F", "SilkS", TRUE, U, U, 1280)>> ELSE <<>>))
    \* pads, attributes, outline and courtyard
    \/ \E n \in Names, p \in 1..Len(PadSets), a \in 1..Len(Attrs), o \in 1..Len(Outlines), k \in {0, 3, 4, 5} :
          (Level > 1 \/ k \in {0, 4} \/ p < 3) /\ cfg = Cfg0 /\ m = Fp(n, PadSets[p] \o <<RefOk, ValOk(n), UserOk>> \o Attrs[a] \o Outlines[o] \o Court(k))
Next == FALSE /\ UNCHANGED <<m, cfg>>

Found == CheckFp(m, cfg)
Fixed == FixFp(m, cfg)
Left == CheckFp(Fixed, cfg)
(* theorems *)
Msgs(s) == {s[i].msg : i \in 1..Len(s)}
Repairs == \A i \in 1..Len(Left) : Left[i].msg \in NotFixable \/ Left[i].rule = "9.1"
Twice == FixFp(Fixed, cfg) = Fixed
Nothing == (Found = <<>> /\ Texts(m, "user")[1].hide = FALSE) => Fixed = m
OnePerRule == \A i, j \in 1..Len(Found) : i # j => Found[i] # Found[j]
Informational == \A i \in 1..Len(Found) : Found[i].info => Found[i].rule = "7.3"
(* the courtyard that was added lies around pads and outline *)
Encloses ==
    Len(Courtyard(m)) < 4 =>
        LET s == SubSeq(Fixed.el, Len(Fixed.el) - 3, Len(Fixed.el))
            b == JoinAll([i \in 1..4 |-> FpItemBox(s[i])])
            p == PlaceOf(m)
        IN Inside(Shift(FpBox(m), 0 - p.x, 0 - p.y), b) /\ Width(b) = Width(FpBox(m)) + 2 * Clearance(m)
Emit == PrintT("@@" \o ToJson([doc |-> m, cfg |-> cfg, found |-> Found, fixed |-> Fixed, left |-> Left]))
================================================================================
