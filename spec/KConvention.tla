----------------------------- MODULE KConvention -----------------------------
(***************************************************************************)
(* The footprint part of the library convention: what the check reports    *)
(* and what the fix does. Sizes are integers as in KGeometry; a            *)
(* configuration is [size, thickness].                                     *)
(***************************************************************************)
EXTENDS KFpEdit

(* how a length is shown in a message *)
Shown(n) ==
    CASE n = 12800 -> "1" [] n = 1920 -> "0.15" [] n = 6400 -> "0.5" [] n = 1280 -> "0.1" [] n = 15360 -> "1.2"
      [] n = 10240 -> "0.8" [] n = 2560 -> "0.2" [] n = 19200 -> "1.5" [] n = 25600 -> "2"
Finding(rule, m, msg, info) == [rule |-> rule, item |-> m.name, msg |-> msg, info |-> info]
When(c, f) == IF c THEN <<f>> ELSE <<>>

(* findings about the size of one label *)
SizeFindings(m, t, what, cfg) ==
    When(t.effects.sy # cfg.size, Finding("7.3", m, what \o " label should have height " \o Shown(cfg.size), TRUE))
    \o When(t.effects.sx # cfg.size, Finding("7.3", m, what \o " label should have width " \o Shown(cfg.size), TRUE))
    \o When(t.effects.thickness # cfg.thickness, Finding("7.3", m, what \o " label thickness should be " \o Shown(cfg.thickness), TRUE))

ReferenceFindings(m, cfg) ==
    LET s == Texts(m, "reference")
    IN IF s = <<>> THEN <<Finding("7.3", m, "reference missing", FALSE)>>
       ELSE When(s[1].value # "REF**", Finding("7.3", m, "reference should be REF**", FALSE))
            \o When(s[1].layer.t # "SilkS", Finding("7.3", m, "reference should be on SilkS layertype", FALSE))
            \o When(s[1].hide, Finding("7.3", m, "reference should not be hidden", FALSE))
            \o When(s[1].effects.sx # s[1].effects.sy, Finding("7.3", m, "reference label font aspect ratio should be 1:1", FALSE))
            \o SizeFindings(m, s[1], "reference", cfg)
ValueFindings(m, cfg) ==
    LET s == Texts(m, "value")
    IN IF s = <<>> THEN <<Finding("7.4", m, "value missing", FALSE)>>
       ELSE When(s[1].value # m.name, Finding("7.4", m, "value text has to match footprint name", FALSE))
            \o When(s[1].layer.t # "Fab", Finding("7.4", m, "value text has to be on Fab layer", FALSE))
            \o When(s[1].hide, Finding("7.4", m, "value text should not be hidden", FALSE))
            \o SizeFindings(m, s[1], "value", cfg)
SecondFindings(m, cfg) ==
    LET s == Texts(m, "user")
    IN IF s = <<>> THEN <<Finding("7.4", m, "reference 2 missing", FALSE)>>
       ELSE When(s[1].value # "%R", Finding("7.4", m, "reference 2 should be %R", FALSE))
            \o When(s[1].layer.t # "Fab", Finding("7.4", m, "reference 2 should be on Fab layertype", FALSE))
            \o When(s[1].effects.sx # s[1].effects.sy, Finding("7.4", m, "reference 2 label font aspect ratio should be 1:1", FALSE))
            \o SizeFindings(m, s[1], "reference 2", cfg)

Courtyard(m) == SelectSeq(m.el, LAMBDA e : IF e.k = "fp_line" THEN e.layer.t = "CrtYd" ELSE FALSE)
HasPad(m, t) == \E i \in 1..Len(m.el) : IF m.el[i].k = "pad" THEN m.el[i].t = t ELSE FALSE
SurfaceOnly(m) == HasPad(m, "smd") /\ ~HasPad(m, "thru_hole")
ThroughOnly(m) == HasPad(m, "thru_hole") /\ ~HasPad(m, "smd")
Placement == "SMD components need to have placement Smd (Normal+Insert in Properties)"

CheckFp(m, cfg) ==
    ReferenceFindings(m, cfg) \o ValueFindings(m, cfg) \o SecondFindings(m, cfg)
    \o When(Len(Courtyard(m)) < 4, Finding("7.5", m, "missing courtyard on CrtYd layer", FALSE))
    \o When(SurfaceOnly(m) /\ ~SmdAttr(m), Finding("8.1", m, Placement, FALSE))
    \o When(ThroughOnly(m) /\ SmdAttr(m), Finding("9.1", m, Placement, FALSE))

(* ----------------------------------- fix --------------------------------- *)
FixedText(t, value, layer, cfg) ==
    [t EXCEPT !.value = value, !.layer.t = layer, !.hide = FALSE,
              !.effects.sx = cfg.size, !.effects.sy = cfg.size, !.effects.thickness = cfg.thickness]
FixFirst(m, which, value, layer, cfg) ==
    LET hits == {i \in 1..Len(m.el) : IF m.el[i].k = "fp_text" THEN m.el[i].name = which ELSE FALSE}
    IN IF hits = {} THEN m
       ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
            IN [m EXCEPT !.el[i] = FixedText(@, value, layer, cfg)]
NewSecond(cfg) ==
    [k |-> "fp_text", name |-> "user", value |-> "%R", at |-> [x |-> 0, y |-> 0, rot |-> 0], layer |-> [s |-> "F", t |-> "Fab"],
     effects |-> [sx |-> cfg.size, sy |-> cfg.size, thickness |-> cfg.thickness, italic |-> FALSE, justify |-> "none"], hide |-> FALSE]
FixSecond(m, cfg) == IF Texts(m, "user") = <<>> THEN Append1(m, NewSecond(cfg)) ELSE FixFirst(m, "user", "%R", "Fab", cfg)
FixPlacement(m) == IF SurfaceOnly(m) /\ ~SmdAttr(m) THEN Append1(m, [k |-> "attr", v |-> "smd"]) ELSE m

(* clearance of the courtyard around pads and outline *)
IsBga(m) == IF Len(m.name) < 3 THEN FALSE ELSE SubSeq(m.name, 1, 3) = "BGA"
Clearance(m) == LET b == FpBox(m) IN IF Width(b) < 2 * 12800 /\ Height(b) < 2 * 12800 THEN 1920 ELSE IF IsBga(m) THEN 1280 ELSE 3200
CourtLine(xa, ya, xb, yb) ==
    [k |-> "fp_line", start |-> [t |-> "start", x |-> xa, y |-> ya], end |-> [t |-> "end", x |-> xb, y |-> yb],
     layer |-> [s |-> "F", t |-> "CrtYd"], width |-> 640]
Rectangle(b) ==
    <<CourtLine(b.x1, b.y1, b.x2, b.y1), CourtLine(b.x2, b.y1, b.x2, b.y2),
      CourtLine(b.x2, b.y2, b.x1, b.y2), CourtLine(b.x1, b.y2, b.x1, b.y1)>>
FixCourtyard(m) ==
    IF Len(Courtyard(m)) >= 4 THEN m
    ELSE LET p == PlaceOf(m)
             b == Shift(FpBox(m), 0 - p.x, 0 - p.y)
             c == Clearance(m)
         IN [m EXCEPT !.el = @ \o Rectangle(BoxOf(b.x1 - c, b.y1 - c, b.x2 + c, b.y2 + c))]
FixFp(m, cfg) ==
    LET a == FixFirst(m, "reference", "REF**", "SilkS", cfg)
        b == FixFirst(a, "value", m.name, "Fab", cfg)
    IN FixCourtyard(FixPlacement(FixSecond(b, cfg)))
(* the line logged for a finding *)
Logged(f) == [info |-> f.info, text |-> f.rule \o " " \o f.item \o ":" \o f.msg]
LoggedFp(m) == LET fs == CheckFp(m, [size |-> 12800, thickness |-> 1920]) IN [i \in 1..Len(fs) |-> Logged(fs[i])]
(* what fixing leaves: texts that are not there, and the placement of through-hole parts *)
NotFixable == {"reference missing", "value missing"}
==============================================================================
