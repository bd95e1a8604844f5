-------------------------------- MODULE KBuild --------------------------------
(***************************************************************************)
(* Building a footprint or board from nothing with the library's own       *)
(* constructors: what a fresh item holds, and what each step adds to the   *)
(* item made last.                                                         *)
(***************************************************************************)
EXTENDS KLayout

NoXy(t) == [t |-> t, x |-> "0", y |-> "0"]
NoAt == [x |-> "0", y |-> "0", rot |-> "0"]
FrontCopper == [s |-> "F", t |-> "Cu"]
NoEffects == [sx |-> "0", sy |-> "0", thickness |-> "0", italic |-> FALSE, justify |-> "none"]

FreshText(name, value) ==
    [k |-> "fp_text", name |-> name, value |-> value, at |-> NoAt, layer |-> FrontCopper, effects |-> NoEffects, hide |-> FALSE]
FreshPad(name, t, shape) ==
    [k |-> "pad", name |-> name, t |-> t, shape |-> shape, at |-> NoAt, size |-> NoXy("size"), rect_delta |-> <<>>, drill |-> <<>>,
     layers |-> <<>>, net |-> <<>>, zone_connect |-> <<>>, spm |-> <<>>, smm |-> <<>>, clearance |-> <<>>, thermal_gap |-> <<>>]
FreshDrawing(k) ==
    CASE k = "fp_line" -> [k |-> k, start |-> NoXy("start"), end |-> NoXy("end"), layer |-> FrontCopper, width |-> "0"]
      [] k = "fp_circle" -> [k |-> k, center |-> NoXy("center"), end |-> NoXy("end"), layer |-> FrontCopper, width |-> "0"]
      [] k = "fp_arc" -> [k |-> k, start |-> NoXy("start"), end |-> NoXy("end"), angle |-> "0", layer |-> FrontCopper, width |-> "0"]
      [] k = "fp_poly" -> [k |-> k, pts |-> <<>>, layer |-> FrontCopper, width |-> "0"]
FreshFootprint(name) == [name |-> name, el |-> <<>>]
FreshGeneral == [links |-> "0", no_connects |-> "0", area |-> [x1 |-> "0", y1 |-> "0", x2 |-> "0", y2 |-> "0"], thickness |-> "1.6",
                 drawings |-> "0", tracks |-> "0", zones |-> "0", modules |-> "0", nets |-> "0"]
FreshBoard == [version |-> "4", host |-> [tool |-> "pcbnew", build |-> "custom"], general |-> FreshGeneral, page |-> "A4", layers |-> <<>>,
               setup |-> <<>>, plot |-> <<>>, el |-> <<>>]

(* the item made last *)
HasLast(d) == Len(d.el) > 0
Newest(d) == d.el[Len(d.el)]
OnLast(d, e) == [d EXCEPT !.el[Len(d.el)] = e]
Grown(d, e) == [d EXCEPT !.el = Append(@, e)]

(* one step of building; a word that names nothing is refused and changes nothing *)
BuildSteps == {"make_text", "make_pad", "make_drawing", "set_at", "set_size", "set_effects", "set_layer", "add_layer", "set_net", "set_drill"}
Build(d, e) ==
    CASE e.op = "make_text" -> Good(Grown(d, FreshText(e.name, e.value)))
      [] e.op = "make_pad" -> IF e.t \in PadTypes /\ e.shape \in PadShapes THEN Good(Grown(d, FreshPad(e.name, e.t, e.shape))) ELSE Bad
      [] e.op = "make_drawing" -> Good(Grown(d, FreshDrawing(e.k)))
      [] e.op = "set_at" -> Good(OnLast(d, [Newest(d) EXCEPT !.at = e.at]))
      [] e.op = "set_size" -> Good(OnLast(d, [Newest(d) EXCEPT !.size = [t |-> "size", x |-> e.x, y |-> e.y]]))
      [] e.op = "set_effects" -> Good(OnLast(d, [Newest(d) EXCEPT !.effects = e.effects]))
      [] e.op = "set_layer" -> LET l == LayerOf(e.word) IN IF l.ok THEN Good(OnLast(d, [Newest(d) EXCEPT !.layer = l.v])) ELSE Bad
      [] e.op = "add_layer" -> LET l == LayerOf(e.word) IN IF l.ok THEN Good(OnLast(d, [Newest(d) EXCEPT !.layers = Append(@, l.v)])) ELSE Bad
      [] e.op = "set_net" -> Good(OnLast(d, [Newest(d) EXCEPT !.net = <<[num |-> e.num, name |-> e.name]>>]))
      [] e.op = "set_drill" -> Good(OnLast(d, [Newest(d) EXCEPT !.drill = <<e.drill>>]))
(* where a step makes sense *)
Fits(d, op) ==
    CASE op \in {"make_text", "make_pad", "make_drawing"} -> TRUE
      [] ~HasLast(d) -> FALSE
      [] op = "set_at" -> Newest(d).k \in {"fp_text", "pad"}
      [] op \in {"set_size", "add_layer", "set_net", "set_drill"} -> Newest(d).k = "pad"
      [] op = "set_effects" -> Newest(d).k = "fp_text"
      [] op = "set_layer" -> Newest(d).k # "pad"
==============================================================================
