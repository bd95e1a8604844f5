-------------------------------- MODULE MCParts --------------------------------
(***************************************************************************)
(* Plain parts from which the bounded models of geometry, edits and        *)
(* conventions build their documents. Numbers are whole units.             *)
(***************************************************************************)
EXTENDS KBoardEdit, KConvention, Json, TLC

U == 12800
Ly(s, t) == [s |-> s, t |-> t]
P(t, x, y) == [t |-> t, x |-> x, y |-> y]
At0(x, y, r) == [x |-> x, y |-> y, rot |-> r]
PlaceItem(x, y, r) == [k |-> "at", x |-> x, y |-> y, rot |-> r]
Fx(j) == [sx |-> U, sy |-> U, thickness |-> 1920, italic |-> FALSE, justify |-> j]
TextItem(n, v, at, ly, j) == [k |-> "fp_text", name |-> n, value |-> v, at |-> at, layer |-> ly, effects |-> Fx(j), hide |-> FALSE]
PadItem(n, t, at, w, h, net) ==
    [k |-> "pad", name |-> n, t |-> t, shape |-> "rect", at |-> at, size |-> P("size", w, h), rect_delta |-> <<>>, drill |-> <<>>,
     layers |-> <<Ly("F", "Cu"), Ly("*", "Mask")>>, net |-> net, zone_connect |-> <<>>, spm |-> <<>>, smm |-> <<>>, clearance |-> <<>>,
     thermal_gap |-> <<>>]
OnNet1(name) == <<[num |-> "1", name |-> name]>>
LineItem(a, b, ly) == [k |-> "fp_line", start |-> a, end |-> b, layer |-> ly, width |-> 1280]
ArcItem(a, b, ly) == [k |-> "fp_arc", start |-> a, end |-> b, angle |-> 90 * U, layer |-> ly, width |-> 1280]
CircleItem(a, b, ly) == [k |-> "fp_circle", center |-> a, end |-> b, layer |-> ly, width |-> 1280]
PolyItem(ps, ly) == [k |-> "fp_poly", pts |-> ps, layer |-> ly, width |-> 1280]
ModelItem(n) == [k |-> "model", name |-> n, at |-> [x |-> 1, y |-> 2, z |-> 3], scale |-> [x |-> U, y |-> U, z |-> U], rotate |-> [x |-> 0, y |-> 90 * U, z |-> 0]]
Fp(n, el) == [name |-> n, el |-> el]

GrTextItem(v, at) == [k |-> "gr_text", value |-> v, at |-> at, layer |-> Ly("F", "SilkS"), effects |-> Fx("none"), tstamp |-> <<>>]
GrLineItem(k, a, b) == [k |-> k, start |-> a, end |-> b, angle |-> 90 * U, layer |-> Ly("Edge", "Cuts"), width |-> 1280, tstamp |-> <<>>]
GrCircleItem(a, b) == [k |-> "gr_circle", center |-> a, end |-> b, layer |-> Ly("F", "SilkS"), width |-> 1280, tstamp |-> <<>>]
SegmentItem(a, b) == [k |-> "segment", start |-> a, end |-> b, width |-> 2560, layer |-> Ly("F", "Cu"), net |-> "1", tstamp |-> <<>>, status |-> <<>>]
ViaItem(at, size) == [k |-> "via", blind |-> FALSE, micro |-> FALSE, at |-> at, size |-> size, drill |-> 0, layers |-> <<Ly("F", "Cu"), Ly("B", "Cu")>>, net |-> "1"]
DimensionItem(at, f, c) ==
    [k |-> "dimension", name |-> "d", width |-> 1280, layer |-> Ly("F", "Fab"), tstamp |-> <<>>, text |-> GrTextItem("t", at),
     feature1 |-> f, feature2 |-> c, crossbar |-> f, arrow1a |-> c, arrow1b |-> <<>>, arrow2a |-> f, arrow2b |-> c]
ZoneItem(net, a, b, c) ==
    [k |-> "zone", net |-> "1", net_name |-> net, layer |-> Ly("F", "Cu"), tstamp |-> "5A", hatch |-> [style |-> "edge", pitch |-> 6400], priority |-> "0",
     connect_pads |-> [connection |-> <<>>, clearance |-> 2560], min_thickness |-> 2560, keepout |-> <<>>,
     fill |-> [filled |-> TRUE, segment |-> FALSE, arc_segments |-> "16", thermal_gap |-> 2560, thermal_bridge_width |-> 2560, smoothing |-> <<>>, corner_radius |-> 0],
     polygons |-> a, filled_polygons |-> b, fill_segments |-> c, other |-> <<>>]
NetItem(n, name) == [k |-> "net", num |-> n, name |-> name]
ClassItem(name, nets) ==
    [k |-> "net_class", name |-> name, desc |-> "d", clearance |-> 2560, trace_width |-> 2560, via_dia |-> 6400, via_drill |-> 2560, uvia_dia |-> 2560,
     uvia_drill |-> 1280, diff_pair_gap |-> <<>>, diff_pair_width |-> <<>>, nets |-> nets]
ModuleItem(m) == [k |-> "module", v |-> m]
OtherItem == [k |-> "other", v |-> [l |-> <<[a |-> "title_block"], [a |-> "GND"], [l |-> <<[a |-> "at"], [a |-> "1"], [a |-> "2"]>>]>>]]
Board(el, setup) ==
    [version |-> "4", host |-> [tool |-> "pcbnew", build |-> "x"],
     general |-> [links |-> "0", no_connects |-> "0", drawings |-> "0", tracks |-> "0", zones |-> "0", modules |-> "0", nets |-> "0",
                  area |-> [x1 |-> 1, y1 |-> 2, x2 |-> 3, y2 |-> 4], thickness |-> 20480],
     page |-> "A4", setup |-> setup, plot |-> <<>>, layers |-> <<>>, el |-> el]
Entry(n, v) == [name |-> n, v1 |-> v, v2 |-> <<>>]
================================================================================
