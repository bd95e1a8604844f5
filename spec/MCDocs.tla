-------------------------------- MODULE MCDocs --------------------------------
(***************************************************************************)
(* Small pools and the documents built from them. Alt(e) is the set of     *)
(* items that differ from e in one field; models walk from a plain item by *)
(* one such change at a time.                                              *)
(***************************************************************************)
EXTENDS KFormat, KLayout

CONSTANTS Words, Nums      \* pools: texts, and non-negative numbers in canonical spelling

Neg(x) == IF Zero(x) THEN x ELSE "-" \o x
SNums == Nums \cup {Neg(x) : x \in Nums}
(* what a pool word means as a number *)
Number(f, i, x) == [f |-> f, i |-> i, x |-> x]
Ints == {"0", "3", "10", "-2", "256", "65536", "4294967296", "9223372036854775807"}
Stamps == {"0", "1F", "FACE", "55A0DB7E", "FFFFFFFF", "123456789A", "7FFFFFFFFFFFFFFF"}

Layers1 == {[s |-> "F", t |-> t] : t \in LayerTypes} \cup {[s |-> s, t |-> "Cu"] : s \in LayerSides}
           \cup {[s |-> "", t |-> "Margin"], [s |-> "B", t |-> "SilkS"], [s |-> "Dwgs", t |-> "User"]}
           \cup {[s |-> "", t |-> t] : t \in {"~Top two", "~Net_A-1", "~cu", "~a.b.c", "~Copper", "~x%(y)"}} \cup {[s |-> "In1", t |-> "~x_y"]}
IntLike == {"0", "1", "2", "7", "10", "25", "90", "100", "270"}
Num == [w \in SNums \cup Ints \cup Stamps \cup {"5", "-1", "0.1524", "0.2032", "0.675", "0.25", "0.508", "0.127", "4"} |->
          IF w \in Stamps \ (SNums \cup IntLike) THEN Number("", "", w)
          ELSE IF w \in Ints \ (SNums \cup IntLike \cup {"3"}) THEN Number("", w, "")
          ELSE IF w \in IntLike \cup {"3", "5", "4"} THEN Number(w, w, w)
          ELSE IF w \in Ints \cap SNums THEN Number(w, w, "")
          ELSE IF w = "-1" THEN Number(w, w, w)
          ELSE Number(w, "", "")]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Some(S) == CHOOSE x \in S : TRUE

AltXy(p) == {[p EXCEPT !.x = x] : x \in SNums} \cup {[p EXCEPT !.y = x] : x \in SNums}
AltAt(a) == {[a EXCEPT !.x = x] : x \in SNums} \cup {[a EXCEPT !.y = x] : x \in SNums} \cup {[a EXCEPT !.rot = x] : x \in SNums}
AltXyz(a) == AltXy(a) \cup {[a EXCEPT !.z = x] : x \in SNums}
PtsOf(n) == [i \in 1..n |-> Xy("xy", IF i = 1 THEN "0" ELSE "1", IF i % 2 = 0 THEN "-1" ELSE "1")]
AltPts == {PtsOf(n) : n \in {0, 1, 3, 4, 5, 6, 8, 9, 10, 11}}

Effects0 == [sx |-> "1", sy |-> "1", thickness |-> "0", italic |-> FALSE, justify |-> "none"]
AltEffects(e) ==
    {[e EXCEPT !.sx = x] : x \in Nums} \cup {[e EXCEPT !.sy = x] : x \in Nums} \cup {[e EXCEPT !.thickness = x] : x \in Nums}
    \cup {[e EXCEPT !.italic = x] : x \in BOOLEAN}
    \cup {[e EXCEPT !.justify = x] : x \in {"none", "mirror", "left", "right"}}
At0 == [x |-> "0", y |-> "1", rot |-> "0"]
F0 == [s |-> "F", t |-> "Cu"]

(* ------------------------------ footprint items --------------------------- *)
Text0 == [k |-> "fp_text", name |-> "reference", value |-> "a", at |-> At0, layer |-> F0, effects |-> Effects0, hide |-> FALSE]
Pad0 == [k |-> "pad", name |-> "1", t |-> "smd", shape |-> "rect", at |-> At0, size |-> Xy("size", "1", "1"),
         rect_delta |-> <<>>, drill |-> <<>>, layers |-> <<F0>>, net |-> <<>>, zone_connect |-> <<>>, spm |-> <<>>,
         smm |-> <<>>, clearance |-> <<>>, thermal_gap |-> <<>>]
Poly0 == [k |-> "fp_poly", pts |-> PtsOf(2), layer |-> F0, width |-> "1"]
Line0 == [k |-> "fp_line", start |-> Xy("start", "0", "1"), end |-> Xy("end", "1", "0"), layer |-> F0, width |-> "1"]
Circle0 == [k |-> "fp_circle", center |-> Xy("center", "0", "1"), end |-> Xy("end", "1", "0"), layer |-> F0, width |-> "1"]
Arc0 == [k |-> "fp_arc", start |-> Xy("start", "0", "1"), end |-> Xy("end", "1", "0"), angle |-> "1", layer |-> F0, width |-> "1"]
Xyz0 == [x |-> "0", y |-> "1", z |-> "0"]
Model0 == [k |-> "model", name |-> "a", at |-> Xyz0, scale |-> Xyz0, rotate |-> Xyz0]
Drill0 == [shape |-> <<>>, width |-> "1", height |-> "1", ox |-> "0", oy |-> "0"]
AltDrill(d) ==
    {[d EXCEPT !.shape = x] : x \in Opt({"oval"})} \cup {[d EXCEPT !.width = x] : x \in Nums} \cup {[d EXCEPT !.height = x] : x \in Nums}
    \cup {[d EXCEPT !.ox = x] : x \in SNums} \cup {[d EXCEPT !.oy = x] : x \in SNums}

FpBases == {Text0, Pad0, Poly0, Line0, Circle0, Arc0, Model0, [k |-> "locked"], [k |-> "at"] @@ At0}
           \cup {[k |-> k, v |-> "a"] : k \in WordItems} \cup {[k |-> k, v |-> "1"] : k \in FloatItems}
           \cup {[k |-> k, v |-> "1F"] : k \in StampItems}
(* apart from the others: TLC cannot compare its value with theirs *)
LayerItem0 == [k |-> "layer", v |-> F0]

Alt(e) ==
    CASE e.k \in WordItems -> {[e EXCEPT !.v = x] : x \in Words}
      [] e.k \in FloatItems -> {[e EXCEPT !.v = x] : x \in SNums}
      [] e.k \in StampItems -> {[e EXCEPT !.v = x] : x \in Stamps}
      [] e.k = "locked" -> {}
      [] e.k = "layer" -> {[e EXCEPT !.v = x] : x \in Layers1}
      [] e.k = "at" -> AltAt(e)
      [] e.k = "fp_text" ->
           {[e EXCEPT !.name = x] : x \in Words \cup {"value", "user"}} \cup {[e EXCEPT !.value = x] : x \in Words}
           \cup {[e EXCEPT !.at = x] : x \in AltAt(e.at)} \cup {[e EXCEPT !.layer = x] : x \in Layers1}
           \cup {[e EXCEPT !.hide = x] : x \in BOOLEAN} \cup {[e EXCEPT !.effects = x] : x \in AltEffects(e.effects)}
      [] e.k = "pad" ->
           {[e EXCEPT !.name = x] : x \in Words} \cup {[e EXCEPT !.t = x] : x \in PadTypes} \cup {[e EXCEPT !.shape = x] : x \in PadShapes}
           \cup {[e EXCEPT !.at = x] : x \in AltAt(e.at)}
           \cup {[e EXCEPT !.size.x = x] : x \in Nums} \cup {[e EXCEPT !.size.y = x] : x \in Nums}
           \cup {[e EXCEPT !.rect_delta = x] : x \in {<<>>} \cup {<<p>> : p \in AltXy(Xy("rect_delta", "0", "1"))}}
           \cup {[e EXCEPT !.drill = x] : x \in {<<>>, <<Drill0>>} \cup (IF e.drill = <<>> THEN {} ELSE {<<p>> : p \in AltDrill(e.drill[1])})}
           \cup {[e EXCEPT !.layers = x] : x \in {<<>>, <<F0, [s |-> "*", t |-> "Mask"]>>} \cup {<<l>> : l \in Layers1}}
           \cup {[e EXCEPT !.net = x] : x \in {<<>>} \cup {<<[num |-> i, name |-> "a"]>> : i \in Ints} \cup {<<[num |-> i, name |-> w]>> : i \in {"0", "3"}, w \in Words}}
           \cup {[e EXCEPT !.zone_connect = x] : x \in Opt(Ints)}
           \cup {[e EXCEPT !.spm = x] : x \in Opt(SNums)} \cup {[e EXCEPT !.smm = x] : x \in Opt(SNums)}
           \cup {[e EXCEPT !.clearance = x] : x \in Opt(Nums)} \cup {[e EXCEPT !.thermal_gap = x] : x \in Opt(Nums)}
      [] e.k = "fp_poly" -> {[e EXCEPT !.pts = x] : x \in AltPts} \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.width = x] : x \in Nums}
      [] e.k \in {"fp_line", "fp_arc"} ->
           {[e EXCEPT !.start = x] : x \in AltXy(e.start)} \cup {[e EXCEPT !.end = x] : x \in AltXy(e.end)}
           \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.width = x] : x \in Nums}
           \cup (IF e.k = "fp_arc" THEN {[e EXCEPT !.angle = x] : x \in SNums} ELSE {})
      [] e.k = "fp_circle" ->
           {[e EXCEPT !.center = x] : x \in AltXy(e.center)} \cup {[e EXCEPT !.end = x] : x \in AltXy(e.end)}
           \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.width = x] : x \in Nums}
      [] e.k = "model" ->
           {[e EXCEPT !.name = x] : x \in Words} \cup {[e EXCEPT !.at = x] : x \in AltXyz(e.at)}
           \cup {[e EXCEPT !.scale = x] : x \in AltXyz(e.scale)} \cup {[e EXCEPT !.rotate = x] : x \in AltXyz(e.rotate)}

FullPad == [Pad0 EXCEPT !.drill = <<[Drill0 EXCEPT !.shape = <<"oval">>, !.ox = "1"]>>, !.net = <<[num |-> "3", name |-> "a"]>>,
                       !.rect_delta = <<Xy("rect_delta", "0", "1")>>, !.clearance = <<"1">>, !.zone_connect = <<"0">>]
FullText == [Text0 EXCEPT !.hide = TRUE, !.effects.italic = TRUE, !.effects.justify = "mirror"]
FpFull == {FullPad, FullText}

FpDoc(items) == [name |-> "m", el |-> items]

(* ------------------------------- board items ------------------------------ *)
Module0 == [k |-> "module", v |-> FpDoc(<<Text0>>)]
Net0 == [k |-> "net", num |-> "3", name |-> "a"]
Class0 == [k |-> "net_class", name |-> "a", desc |-> "b", clearance |-> "1", trace_width |-> "1", via_dia |-> "1", via_drill |-> "1",
           uvia_dia |-> "1", uvia_drill |-> "1", diff_pair_gap |-> <<>>, diff_pair_width |-> <<>>, nets |-> <<"a">>]
GrText0 == [k |-> "gr_text", value |-> "a", at |-> At0, layer |-> F0, effects |-> Effects0, tstamp |-> <<>>]
GrLine0 == [k |-> "gr_line", start |-> Xy("start", "0", "1"), end |-> Xy("end", "1", "0"), angle |-> "1", layer |-> F0, width |-> "1", tstamp |-> <<>>]
GrArc0 == [GrLine0 EXCEPT !.k = "gr_arc"]
GrCircle0 == [k |-> "gr_circle", center |-> Xy("center", "0", "1"), end |-> Xy("end", "1", "0"), layer |-> F0, width |-> "1", tstamp |-> <<>>]
Dim0 == [k |-> "dimension", name |-> "a", width |-> "1", layer |-> F0, tstamp |-> <<>>, text |-> GrText0,
         feature1 |-> PtsOf(2), feature2 |-> PtsOf(2), crossbar |-> PtsOf(2), arrow1a |-> PtsOf(2), arrow1b |-> PtsOf(2),
         arrow2a |-> PtsOf(2), arrow2b |-> PtsOf(2)]
Segment0 == [k |-> "segment", start |-> Xy("start", "0", "1"), end |-> Xy("end", "1", "0"), width |-> "1", layer |-> F0, net |-> "3", tstamp |-> <<>>, status |-> <<>>]
Via0 == [k |-> "via", blind |-> FALSE, micro |-> FALSE, at |-> At0, size |-> "1", drill |-> "0", layers |-> <<F0>>, net |-> "3"]
Fill0 == [filled |-> FALSE, segment |-> FALSE, arc_segments |-> "3", thermal_gap |-> "1", thermal_bridge_width |-> "1", smoothing |-> <<>>, corner_radius |-> "0"]
Zone0 == [k |-> "zone", net |-> "3", net_name |-> "a", layer |-> F0, tstamp |-> "1F", hatch |-> [style |-> "edge", pitch |-> "1"],
          priority |-> "0", connect_pads |-> [connection |-> <<>>, clearance |-> "1"], min_thickness |-> "1", keepout |-> <<>>,
          fill |-> Fill0, polygons |-> <<PtsOf(2)>>, filled_polygons |-> <<>>, fill_segments |-> <<>>, other |-> <<>>]
Other0 == [k |-> "other", v |-> NL("title_block", <<N1("title", "a b")>>)]

BoardBases == {Module0, Net0, Class0, GrText0, GrLine0, GrArc0, GrCircle0, Dim0, Segment0, Via0, Zone0, Other0}
BoardParts == {"module", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "segment", "via", "zone",
               "version", "page", "host", "general", "layers", "setup", ""}
FullZone == [Zone0 EXCEPT !.keepout = <<[tracks |-> TRUE, vias |-> FALSE, copperpour |-> TRUE]>>, !.priority = "10",
                         !.connect_pads.connection = <<"no">>, !.fill.segment = TRUE, !.fill.filled = TRUE, !.fill.smoothing = <<"fillet">>,
                         !.fill.corner_radius = "1", !.filled_polygons = <<PtsOf(1)>>, !.fill_segments = <<PtsOf(1)>>]
FullVia == [Via0 EXCEPT !.blind = TRUE, !.drill = "1"]
FullSegment == [Segment0 EXCEPT !.tstamp = <<"1F">>, !.status = <<"400">>]
FullText2 == [GrText0 EXCEPT !.tstamp = <<"1F">>, !.effects.italic = TRUE, !.effects.justify = "mirror"]
FullLine == [GrLine0 EXCEPT !.tstamp = <<"1F">>]
FullArc == [GrArc0 EXCEPT !.tstamp = <<"1F">>]
FullCircle == [GrCircle0 EXCEPT !.tstamp = <<"1F">>]
FullDim == [Dim0 EXCEPT !.tstamp = <<"1F">>, !.text = FullText2]
FullClass == [Class0 EXCEPT !.diff_pair_gap = <<"1">>, !.diff_pair_width = <<"1">>, !.nets = <<"a", "b">>]
BoardFull == {FullZone, FullVia, FullSegment, FullText2, FullLine, FullArc, FullCircle, FullDim, FullClass}
AltTs(e) == {[e EXCEPT !.tstamp = x] : x \in Opt({"1F", "a b"} \cup Words)}
AltKeepout == {<<>>} \cup {<<[tracks |-> a, vias |-> b, copperpour |-> c]>> : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
AltFill(f) ==
    {[f EXCEPT !.filled = x] : x \in BOOLEAN} \cup {[f EXCEPT !.segment = x] : x \in BOOLEAN} \cup {[f EXCEPT !.arc_segments = x] : x \in Ints}
    \cup {[f EXCEPT !.thermal_gap = x] : x \in Nums} \cup {[f EXCEPT !.thermal_bridge_width = x] : x \in Nums}
    \cup {[f EXCEPT !.smoothing = x] : x \in Opt({"fillet", "a b"} \cup Words)} \cup {[f EXCEPT !.corner_radius = x] : x \in Nums}
PtsLists == {<<>>, <<PtsOf(2)>>, <<PtsOf(0)>>, <<PtsOf(6)>>, <<PtsOf(2), PtsOf(5)>>}

AltB(e) ==
    CASE e.k = "module" -> {[e EXCEPT !.v.name = x] : x \in Words} \cup {[e EXCEPT !.v.el = <<x>>] : x \in FpBases}
      [] e.k = "net" -> {[e EXCEPT !.num = x] : x \in Ints} \cup {[e EXCEPT !.name = x] : x \in Words}
      [] e.k = "net_class" ->
           {[e EXCEPT !.name = x] : x \in Words} \cup {[e EXCEPT !.desc = x] : x \in Words}
           \cup UNION {{[e EXCEPT ![f] = x] : x \in Nums} : f \in {ClassFloats[i] : i \in 1..6}}
           \cup {[e EXCEPT !.diff_pair_gap = x] : x \in Opt(Nums)} \cup {[e EXCEPT !.diff_pair_width = x] : x \in Opt(Nums)}
           \cup {[e EXCEPT !.nets = x] : x \in {<<>>, <<"a", "b">>, <<"b", "a">>} \cup {<<w>> : w \in Words}}
      [] e.k = "gr_text" ->
           {[e EXCEPT !.value = x] : x \in Words} \cup {[e EXCEPT !.at = x] : x \in AltAt(e.at)} \cup {[e EXCEPT !.layer = x] : x \in Layers1}
           \cup {[e EXCEPT !.effects = x] : x \in AltEffects(e.effects)} \cup AltTs(e)
      [] e.k \in {"gr_line", "gr_arc"} ->
           {[e EXCEPT !.start = x] : x \in AltXy(e.start)} \cup {[e EXCEPT !.end = x] : x \in AltXy(e.end)}
           \cup {[e EXCEPT !.angle = x] : x \in SNums} \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.width = x] : x \in Nums} \cup AltTs(e)
      [] e.k = "gr_circle" ->
           {[e EXCEPT !.center = x] : x \in AltXy(e.center)} \cup {[e EXCEPT !.end = x] : x \in AltXy(e.end)}
           \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.width = x] : x \in Nums} \cup AltTs(e)
      [] e.k = "dimension" ->
           {[e EXCEPT !.name = x] : x \in Words} \cup {[e EXCEPT !.width = x] : x \in Nums} \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup AltTs(e)
           \cup {[e EXCEPT !.text.value = x] : x \in Words}
           \cup UNION {{[e EXCEPT ![f] = x] : x \in {PtsOf(0), PtsOf(1), PtsOf(6)}} : f \in {DimParts[i] : i \in 1..7}}
      [] e.k = "segment" ->
           {[e EXCEPT !.start = x] : x \in AltXy(e.start)} \cup {[e EXCEPT !.end = x] : x \in AltXy(e.end)} \cup {[e EXCEPT !.width = x] : x \in Nums}
           \cup {[e EXCEPT !.layer = x] : x \in Layers1} \cup {[e EXCEPT !.net = x] : x \in Ints} \cup AltTs(e) \cup {[e EXCEPT !.status = x] : x \in Opt({"400", "a b"} \cup Words)}
      [] e.k = "via" ->
           {[e EXCEPT !.blind = x] : x \in BOOLEAN} \cup {[e EXCEPT !.micro = x] : x \in BOOLEAN} \cup {[e EXCEPT !.at = x] : x \in AltAt(e.at)}
           \cup {[e EXCEPT !.size = x] : x \in Nums} \cup {[e EXCEPT !.drill = x] : x \in Nums}
           \cup {[e EXCEPT !.layers = x] : x \in {<<>>, <<F0, [s |-> "B", t |-> "Cu"]>>} \cup {<<l>> : l \in Layers1}} \cup {[e EXCEPT !.net = x] : x \in Ints}
      [] e.k = "zone" ->
           {[e EXCEPT !.net = x] : x \in Ints} \cup {[e EXCEPT !.net_name = x] : x \in Words} \cup {[e EXCEPT !.layer = x] : x \in Layers1}
           \cup {[e EXCEPT !.tstamp = x] : x \in Stamps} \cup {[e EXCEPT !.hatch.style = x] : x \in Words} \cup {[e EXCEPT !.hatch.pitch = x] : x \in Nums}
           \cup {[e EXCEPT !.priority = x] : x \in {"0", "1", "10", "256", "65536", "4294967296"}}
           \cup {[e EXCEPT !.connect_pads.connection = x] : x \in Opt({"yes", "no"} \cup Words)} \cup {[e EXCEPT !.connect_pads.clearance = x] : x \in Nums}
           \cup {[e EXCEPT !.min_thickness = x] : x \in Nums} \cup {[e EXCEPT !.keepout = x] : x \in AltKeepout} \cup {[e EXCEPT !.fill = x] : x \in AltFill(e.fill)}
           \cup {[e EXCEPT !.polygons = x] : x \in PtsLists} \cup {[e EXCEPT !.filled_polygons = x] : x \in PtsLists}
           \cup {[e EXCEPT !.fill_segments = x] : x \in Opt({PtsOf(0), PtsOf(2)})}
           \cup {[e EXCEPT !.other = x] : x \in {<<>>, <<N1("smoothing", "a b")>>}}
      [] e.k = "other" -> {[e EXCEPT !.v = NL(w, <<A(x)>>)] : w \in {"title_block", "embedded files"}, x \in Words} \cup {[e EXCEPT !.v = NL(w, <<A("x"), A("")>>)] : w \in Words \ BoardParts}

General0 == [links |-> "3", no_connects |-> "0", area |-> [x1 |-> "0", y1 |-> "0", x2 |-> "1", y2 |-> "1"], thickness |-> "1",
             drawings |-> "0", tracks |-> "0", zones |-> "0", modules |-> "0", nets |-> "3"]
Board0 == [version |-> "4", host |-> [tool |-> "pcbnew", build |-> "(b)"], general |-> General0, page |-> "A4",
           setup |-> <<[name |-> "via_size", v1 |-> "1", v2 |-> <<>>]>>, plot |-> <<>>,
           layers |-> <<[num |-> "0", layer |-> F0, type |-> "signal", hide |-> FALSE]>>, el |-> <<>>]
BoardDoc(items) == [Board0 EXCEPT !.el = items]
Settings == {<<>>} \cup {<<[name |-> "a b", v1 |-> x, v2 |-> y]>> : x \in Words, y \in Opt({"1", "a b"})}
            \cup {<<[name |-> "x", v1 |-> "1", v2 |-> <<>>], [name |-> "x", v1 |-> "2", v2 |-> <<>>]>>}
AltHead(d) ==
    {[d EXCEPT !.version = x] : x \in Ints} \cup {[d EXCEPT !.host.tool = x] : x \in Words} \cup {[d EXCEPT !.host.build = x] : x \in Words}
    \cup UNION {{[d EXCEPT !.general[f] = x] : x \in Ints} : f \in {"links", "no_connects", "drawings", "tracks", "zones", "modules", "nets"}}
    \cup UNION {{[d EXCEPT !.general.area[f] = x] : x \in SNums} : f \in {"x1", "y1", "x2", "y2"}}
    \cup {[d EXCEPT !.general.thickness = x] : x \in Nums} \cup {[d EXCEPT !.page = x] : x \in Words}
    \cup {[d EXCEPT !.setup = x] : x \in Settings} \cup {[d EXCEPT !.plot = x] : x \in Settings}
    \cup {[d EXCEPT !.layers = x] : x \in {<<>>} \cup {<<[num |-> i, layer |-> F0, type |-> t, hide |-> h]>> : i \in Ints, t \in LayerUses, h \in BOOLEAN}
                                          \cup {<<[num |-> "3", layer |-> l, type |-> t, hide |-> h]>> : l \in Layers1, t \in {"signal", "user"}, h \in BOOLEAN}
                                          \cup {<<[num |-> i, layer |-> k, type |-> "user", hide |-> FALSE], [num |-> j, layer |-> l, type |-> "user", hide |-> FALSE]>> :
                                                   i \in {"0", "3"}, j \in {"0", "3"}, k \in {F0, [s |-> "B", t |-> "Cu"]}, l \in {F0, [s |-> "B", t |-> "Cu"]}}}

(* ---------------------------------- tables -------------------------------- *)
Lib0 == [name |-> "a", type |-> "KiCad", uri |-> "u", options |-> "", descr |-> ""]
AltLib(b) == UNION {{[b EXCEPT ![f] = x] : x \in Words} : f \in {LibFields[i] : i \in 1..5}}

Ser(kd, d) == CASE kd = "fp" -> SFootprint(d) [] kd = "lay" -> SBoard(d) [] kd = "tab" -> STable(d)
Parse(kd, n) == CASE kd = "fp" -> PFootprint(n) [] kd = "lay" -> PBoard(n) [] kd = "tab" -> PTable(n)
AfterText(kd) == IF kd = "lay" THEN "\n" ELSE ""

(* tokens of a tree, without any blanks *)
RECURSIVE Tokens(_)
Tokens(n) == IF IsWord(n) THEN <<Token(n.a)>>
             ELSE <<"(">> \o FlattenSeq([i \in 1..Len(n.l) |-> Tokens(n.l[i])]) \o <<")">>
IsBlank(p) == \A i \in 1..Len(p) : Char(p, i) \in {" ", "\n"}
==============================================================================
