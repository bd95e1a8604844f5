------------------------------ MODULE KFootprint ------------------------------
(***************************************************************************)
(* Footprints ("modules"): documents, their s-expression, and the reading  *)
(* of an s-expression as a footprint.                                      *)
(*                                                                         *)
(* A document is [name, el] with el a sequence of items; an item is a      *)
(* record whose field k names its kind. Optional parts are sequences of at *)
(* most one element. Numbers are strings in canonical spelling.            *)
(***************************************************************************)
EXTENDS KSexp, FiniteSets, Integers

Zero(x) == x \in {"0", "-0"}
Positive(x) == ~Zero(x) /\ Char(x, 1) # "-"

(* -------------------------------- layers -------------------------------- *)
LayerSides == {"F", "B", "Dwgs", "Cmts", "Eco1", "Eco2", "Edge", "In1", "In2", "*"}
LayerTypes == {"Cu", "Paste", "Mask", "SilkS", "User", "Adhes", "Cuts", "CrtYd", "Fab", "Margin"}

LayerName(y) ==
    LET t == IF y.t \in LayerTypes THEN y.t ELSE SubSeq(y.t, 2, Len(y.t))
    IN IF y.s = "" THEN t ELSE y.s \o "." \o t

(* "side.type", or a name without a side; custom names keep their text after "~" *)
LayerOf(s) ==
    LET dots == {i \in 1..Len(s) : Char(s, i) = "."}
        Ty(t) == IF t \in LayerTypes THEN t ELSE "~" \o t
    IN IF Cardinality(dots) = 1
       THEN LET d == CHOOSE i \in dots : TRUE
                side == SubSeq(s, 1, d - 1)
            IN IF side \in LayerSides THEN Good([s |-> side, t |-> Ty(SubSeq(s, d + 1, Len(s)))]) ELSE Bad
       ELSE Good([s |-> "", t |-> Ty(s)])

SLayer(y) == N1("layer", LayerName(y))
PLayer(n) == IF SingleS(n, "layer") THEN LayerOf(n.l[2].a) ELSE Bad
SLayers(ys) == NL("layers", [i \in 1..Len(ys) |-> A(LayerName(ys[i]))])
PLayerWord(n) == IF IsWord(n) THEN LayerOf(n.a) ELSE Bad
PLayers(n) == IF Named(n, "layers") THEN AllOf(Tail(n.l), PLayerWord) ELSE Bad
FCu == [s |-> "F", t |-> "Cu"]

(* ---------------------------- points and places -------------------------- *)
XyKinds == {"xy", "start", "end", "size", "center", "rect_delta"}
Xy(t, x, y) == [t |-> t, x |-> x, y |-> y]
SXy(p) == N2(p.t, p.x, p.y)
PXyAny(n) ==
    IF HasName(n)
    THEN IF NameOf(n) \in XyKinds
         THEN IF Len(n.l) = 3 THEN IF IsF(n.l[2]) /\ IsF(n.l[3]) THEN Good(Xy(NameOf(n), n.l[2].f, n.l[3].f)) ELSE Bad
              ELSE Bad
         ELSE Bad
    ELSE Bad
PXy(n, t) == IF Named(n, t) THEN PXyAny(n) ELSE Bad
PStart(n) == PXy(n, "start")
PEnd(n) == PXy(n, "end")
PSize(n) == PXy(n, "size")
PCenter(n) == PXy(n, "center")
PRectDelta(n) == PXy(n, "rect_delta")

SPts(ps) == NL("pts", [i \in 1..Len(ps) |-> SXy(ps[i])])
PPts(n) == IF Named(n, "pts") THEN AllOf(Tail(n.l), PXyAny) ELSE Bad

SAt(a) == NL("at", <<A(a.x), A(a.y)>> \o (IF Zero(a.rot) THEN <<>> ELSE <<A(a.rot)>>))
PAt(n) == Close(OptF(ReqF(ReqF(Cur(n, "at"), "x"), "y"), "rot", "0"))
Origin == [x |-> "0", y |-> "0", rot |-> "0"]

SXyz(p) == NL("xyz", <<A(p.x), A(p.y), A(p.z)>>)
PXyz(n) == Close(ReqF(ReqF(ReqF(Cur(n, "xyz"), "x"), "y"), "z"))
(* (name (xyz ..)) *)
PXyzIn(n, name) == IF Single(n, name) THEN PXyz(n.l[2]) ELSE Bad

(* --------------------------------- texts --------------------------------- *)
PlainFont == [sx |-> "0", sy |-> "0", thickness |-> "0", italic |-> FALSE, justify |-> "none"]
SEffects(e) ==
    NL("effects",
       <<NL("font",
            (IF Positive(e.sx) \/ Positive(e.sy) THEN <<N2("size", e.sx, e.sy)>> ELSE <<>>)
            \o <<N1("thickness", e.thickness)>>
            \o (IF e.italic THEN <<A("italic")>> ELSE <<>>))>>
       \o (IF e.justify = "none" THEN <<>> ELSE <<N1("justify", e.justify)>>))
PFont(n) ==
    LET c == OptT(Cur(n, "font"), "size", PSize, Xy("size", "0", "0"))
    IN Close(Lit(OptFL(c, "thickness", "thickness", "0"), "italic", "italic"))
(* one of three words; what follows the first word is a known weakness, see known_findings *)
(* known deviation: words after the first are dropped *)
PJustify(n) ==
    IF Named(n, "justify")
    THEN IF (IF Strict THEN Len(n.l) = 2 ELSE Len(n.l) >= 2) THEN IF IsWord(n.l[2]) THEN IF n.l[2].a \in {"mirror", "left", "right"} THEN Good(n.l[2].a) ELSE Bad
                               ELSE Bad
         ELSE Bad
    ELSE Bad
PEffects(n) ==
    LET p == Close(OptT(ReqT(Cur(n, "effects"), "font", PFont), "justify", PJustify, "none"))
    IN IF p.ok THEN Good([sx |-> p.v.font.size.x, sy |-> p.v.font.size.y, thickness |-> p.v.font.thickness,
                          italic |-> p.v.font.italic, justify |-> p.v.justify])
       ELSE Bad

SText(t) ==
    NL("fp_text", <<A(t.name), A(t.value), SAt(t.at), SLayer(t.layer)>>
                  \o (IF t.hide THEN <<A("hide")>> ELSE <<>>) \o <<SEffects(t.effects)>>)
PText(n) ==
    LET c1 == ReqS(ReqS(Cur(n, "fp_text"), "name"), "value")
        c2 == OptT(OptT(c1, "at", PAt, Origin), "layer", PLayer, FCu)
    IN Close(OptT(Lit(c2, "hide", "hide"), "effects", PEffects, PlainFont))

(* --------------------------------- pads ---------------------------------- *)
SDrill(d) ==
    NL("drill",
       (IF d.shape = <<>> THEN <<>> ELSE <<A(d.shape[1])>>)
       \o (IF Positive(d.width) \/ d.height # d.width THEN <<A(d.width)>> ELSE <<>>)
       \o (IF d.height # d.width THEN <<A(d.height)>> ELSE <<>>)
       \o (IF Zero(d.ox) /\ Zero(d.oy) THEN <<>> ELSE <<N2("offset", d.ox, d.oy)>>))
POffset(n) == Close(ReqF(ReqF(Cur(n, "offset"), "x"), "y"))
PDrill(n) ==
    LET c1 == Lit(Cur(n, "drill"), "oval", "oval")
        c2 == OptF(c1, "width", "0")
        c3 == IF c2.ok THEN OptF(c2, "height", c2.v.width) ELSE c2
        p == Close(OptT(c3, "off", POffset, [x |-> "0", y |-> "0"]))
    IN IF p.ok THEN Good([shape |-> IF p.v.oval THEN <<"oval">> ELSE <<>>, width |-> p.v.width,
                          height |-> p.v.height, ox |-> p.v.off.x, oy |-> p.v.off.y])
       ELSE Bad

SNet(t) == N2("net", t.num, t.name)
PNet(n) == Close(ReqS(ReqI(Cur(n, "net"), "num"), "name"))

OptSer(name, q) == IF q = <<>> THEN <<>> ELSE <<N1(name, q[1])>>
SPad(p) ==
    NL("pad", <<A(p.name), A(p.t), A(p.shape), SAt(p.at), SXy(p.size)>>
              \o (IF p.rect_delta = <<>> THEN <<>> ELSE <<SXy(p.rect_delta[1])>>)
              \o (IF p.drill = <<>> THEN <<>> ELSE <<SDrill(p.drill[1])>>)
              \o <<SLayers(p.layers)>>
              \o (IF p.net = <<>> THEN <<>> ELSE <<SNet(p.net[1])>>)
              \o OptSer("zone_connect", p.zone_connect)
              \o OptSer("solder_paste_margin", p.spm)
              \o OptSer("solder_mask_margin", p.smm)
              \o OptSer("clearance", p.clearance)
              \o OptSer("thermal_gap", p.thermal_gap))

(* the trailing parts of a pad come in any order; a repeated one replaces the earlier *)
PPadPart(n) ==
    CASE SingleF(n, "solder_paste_margin") -> Good([f |-> "spm", x |-> n.l[2].f])
      [] SingleF(n, "solder_mask_margin") -> Good([f |-> "smm", x |-> n.l[2].f])
      [] SingleF(n, "clearance") -> Good([f |-> "clearance", x |-> n.l[2].f])
      [] SingleF(n, "thermal_gap") -> Good([f |-> "thermal_gap", x |-> n.l[2].f])
      [] SingleI(n, "zone_connect") -> Good([f |-> "zone_connect", x |-> n.l[2].i])
      [] OTHER -> LET p == PNet(n) IN IF p.ok THEN Good([f |-> "net", x |-> p.v]) ELSE Bad
LastOf(ps, f) ==
    LET at == {i \in 1..Len(ps) : ps[i].f = f}
    IN IF at = {} THEN <<>> ELSE <<ps[CHOOSE i \in at : \A j \in at : j <= i].x>>
PadTypes == {"smd", "thru_hole", "np_thru_hole"}
PadShapes == {"rect", "circle", "oval", "trapezoid"}
PPad(n) ==
    LET c1 == ReqS(ReqS(ReqS(Cur(n, "pad"), "name"), "t"), "shape")
        c2 == OptT(c1, "at", PAt, Origin)
        c3 == OptQ(OptT(c2, "size", PSize, Xy("size", "0", "0")), "rect_delta", PRectDelta)
        c4 == OptT(OptQ(c3, "drill", PDrill), "layers", PLayers, <<>>)
    IN IF ~c4.ok THEN Bad
       ELSE IF c4.v.t \notin PadTypes \/ c4.v.shape \notin PadShapes THEN Bad
       ELSE LET q == AllOf(c4.r, PPadPart)
            IN IF ~q.ok THEN Bad
               ELSE Good(c4.v @@ [net |-> LastOf(q.v, "net"), zone_connect |-> LastOf(q.v, "zone_connect"),
                                  spm |-> LastOf(q.v, "spm"), smm |-> LastOf(q.v, "smm"),
                                  clearance |-> LastOf(q.v, "clearance"), thermal_gap |-> LastOf(q.v, "thermal_gap")])

(* -------------------------------- graphics ------------------------------- *)
SPoly(e) == NL("fp_poly", <<SPts(e.pts), SLayer(e.layer), N1("width", e.width)>>)
PPoly(n) == Close(OptFL(OptT(OptT(Cur(n, "fp_poly"), "pts", PPts, <<>>), "layer", PLayer, FCu), "width", "width", "0"))
SLine(e) == NL("fp_line", <<SXy(e.start), SXy(e.end), SLayer(e.layer), N1("width", e.width)>>)
PLine(n) ==
    LET c == OptT(OptT(Cur(n, "fp_line"), "start", PStart, Xy("start", "0", "0")), "end", PEnd, Xy("end", "0", "0"))
    IN Close(OptFL(OptT(c, "layer", PLayer, FCu), "width", "width", "0"))
SCircle(e) == NL("fp_circle", <<SXy(e.center), SXy(e.end), SLayer(e.layer), N1("width", e.width)>>)
PCircle(n) ==
    LET c == OptT(OptT(Cur(n, "fp_circle"), "center", PCenter, Xy("center", "0", "0")), "end", PEnd, Xy("end", "0", "0"))
    IN Close(OptFL(OptT(c, "layer", PLayer, FCu), "width", "width", "0"))
SArc(e) == NL("fp_arc", <<SXy(e.start), SXy(e.end), N1("angle", e.angle), SLayer(e.layer), N1("width", e.width)>>)
PArc(n) ==
    LET c == OptT(OptT(Cur(n, "fp_arc"), "start", PStart, Xy("start", "0", "0")), "end", PEnd, Xy("end", "0", "0"))
    IN Close(OptFL(OptT(OptFL(c, "angle", "angle", "0"), "layer", PLayer, FCu), "width", "width", "0"))
SModel(e) ==
    NL("model", <<A(e.name), NL("at", <<SXyz(e.at)>>), NL("scale", <<SXyz(e.scale)>>), NL("rotate", <<SXyz(e.rotate)>>)>>)
PModel(n) ==
    Close(ReqT(ReqT(ReqT(ReqS(Cur(n, "model"), "name"),
                         "at", LAMBDA m : PXyzIn(m, "at")),
                    "scale", LAMBDA m : PXyzIn(m, "scale")),
               "rotate", LAMBDA m : PXyzIn(m, "rotate")))

(* --------------------------------- items --------------------------------- *)
WordItems == {"descr", "tags", "attr", "path"}
FloatItems == {"solder_mask_margin", "clearance"}
StampItems == {"tedit", "tstamp"}

SItem(e) ==
    CASE e.k \in WordItems \cup FloatItems \cup StampItems -> N1(e.k, e.v)
      [] e.k = "layer" -> SLayer(e.v)
      [] e.k = "locked" -> A("locked")
      [] e.k = "at" -> SAt(e)
      [] e.k = "fp_text" -> SText(e)
      [] e.k = "pad" -> SPad(e)
      [] e.k = "fp_poly" -> SPoly(e)
      [] e.k = "fp_line" -> SLine(e)
      [] e.k = "fp_circle" -> SCircle(e)
      [] e.k = "fp_arc" -> SArc(e)
      [] e.k = "model" -> SModel(e)

Kind(k, p) == IF p.ok THEN Good([k |-> k] @@ p.v) ELSE Bad
KindV(k, p) == IF p.ok THEN Good([k |-> k, v |-> p.v]) ELSE Bad

PItem(n) ==
    IF IsWord(n) THEN IF n.a = "locked" THEN Good([k |-> "locked"]) ELSE Bad
    ELSE IF ~HasName(n) THEN Bad
    ELSE LET k == NameOf(n) IN
         CASE k \in WordItems -> IF SingleS(n, k) THEN Good([k |-> k, v |-> n.l[2].a]) ELSE Bad
           [] k \in FloatItems -> IF SingleF(n, k) THEN Good([k |-> k, v |-> n.l[2].f]) ELSE Bad
           [] k \in StampItems -> IF SingleX(n, k) THEN Good([k |-> k, v |-> n.l[2].x]) ELSE Bad
           [] k = "layer" -> KindV(k, PLayer(n))
           [] k = "at" -> Kind(k, PAt(n))
           [] k = "fp_text" -> Kind(k, PText(n))
           [] k = "pad" -> Kind(k, PPad(n))
           [] k = "fp_poly" -> Kind(k, PPoly(n))
           [] k = "fp_line" -> Kind(k, PLine(n))
           [] k = "fp_circle" -> Kind(k, PCircle(n))
           [] k = "fp_arc" -> Kind(k, PArc(n))
           [] k = "model" -> Kind(k, PModel(n))
           [] OTHER -> Bad

SFootprint(d) == NL("module", <<A(d.name)>> \o [i \in 1..Len(d.el) |-> SItem(d.el[i])])
PFootprint(n) ==
    LET c == ReqS(Cur(n, "module"), "name")
    IN IF ~c.ok THEN Bad
       ELSE LET q == AllOf(c.r, PItem)
            IN IF q.ok THEN Good([name |-> c.v.name, el |-> q.v]) ELSE Bad
==============================================================================
