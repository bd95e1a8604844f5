------------------------------- MODULE KLayout -------------------------------
(***************************************************************************)
(* Boards and footprint library tables: documents, their s-expressions and *)
(* the reading of an s-expression as a board or table.                     *)
(***************************************************************************)
EXTENDS KFootprint

(* ------------------------------ general data ----------------------------- *)
IntG == <<"links", "no_connects">>
IntG2 == <<"drawings", "tracks", "zones", "modules", "nets">>
SArea(a) == NL("area", <<A(a.x1), A(a.y1), A(a.x2), A(a.y2)>>)
PArea(n) == Close(ReqF(ReqF(ReqF(ReqF(Cur(n, "area"), "x1"), "y1"), "x2"), "y2"))
SGeneral(g) ==
    NL("general", [i \in 1..2 |-> N1(IntG[i], g[IntG[i]])]
                  \o <<SArea(g.area), N1("thickness", g.thickness)>>
                  \o [i \in 1..5 |-> N1(IntG2[i], g[IntG2[i]])])
PGeneral(n) ==
    LET c1 == ReqIL(ReqIL(Cur(n, "general"), "links", "links"), "no_connects", "no_connects")
        c2 == ReqFL(ReqT(c1, "area", PArea), "thickness", "thickness")
        c3 == FoldLeft(LAMBDA c, f : ReqIL(c, f, f), c2, IntG2)
    IN Close(c3)
NoGeneral == [links |-> "0", no_connects |-> "0", area |-> [x1 |-> "0", y1 |-> "0", x2 |-> "0", y2 |-> "0"],
              thickness |-> "1.6", drawings |-> "0", tracks |-> "0", zones |-> "0", modules |-> "0", nets |-> "0"]

PHost(n) == Close(ReqS(ReqS(Cur(n, "host"), "tool"), "build"))

LayerUses == {"signal", "power", "mixed", "jumper", "user"}
SBoardLayer(y) == L(<<A(y.num), A(LayerName(y.layer)), A(y.type)>> \o (IF y.hide THEN <<A("hide")>> ELSE <<>>))
PBoardLayer(n) ==
    LET p == Close(Lit(ReqS(ReqT(ReqI(CurAny(n), "num"), "layer", PLayerWord), "type"), "hide", "hide"))
    IN IF p.ok THEN IF p.v.type \in LayerUses THEN p ELSE Bad ELSE Bad

SSetting(e) == L(<<A(e.name), A(e.v1)>> \o (IF e.v2 = <<>> THEN <<>> ELSE <<A(e.v2[1])>>))
PSetting(n) == Close(OptS(ReqS(ReqS(CurAny(n), "name"), "v1"), "v2"))
SSetup(elems, plot) ==
    NL("setup", [i \in 1..Len(elems) |-> SSetting(elems[i])]
                \o <<NL("pcbplotparams", [i \in 1..Len(plot) |-> SSetting(plot[i])])>>)
(* settings and plot parameters, each in order *)
PSetup(n) ==
    LET own == SelectSeq(Tail(n.l), LAMBDA m : ~Named(m, "pcbplotparams"))
        plots == SelectSeq(Tail(n.l), LAMBDA m : Named(m, "pcbplotparams"))
        p == AllOf(own, PSetting)
        q == AllOf(FlattenSeq([i \in 1..Len(plots) |-> Tail(plots[i].l)]), PSetting)
    IN IF p.ok /\ q.ok /\ \A i \in 1..Len(own) : HasName(own[i]) THEN Good([setup |-> p.v, plot |-> q.v]) ELSE Bad

(* ---------------------------------- nets --------------------------------- *)
ClassFloats == <<"clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill">>
ClassDefault == [clearance |-> "0.1524", trace_width |-> "0.2032", via_dia |-> "0.675", via_drill |-> "0.25",
                 uvia_dia |-> "0.508", uvia_drill |-> "0.127"]
SClass(e) ==
    NL("net_class", <<A(e.name), A(e.desc)>> \o [i \in 1..6 |-> N1(ClassFloats[i], e[ClassFloats[i]])]
                    \o OptSer("diff_pair_gap", e.diff_pair_gap) \o OptSer("diff_pair_width", e.diff_pair_width)
                    \o [i \in 1..Len(e.nets) |-> N1("add_net", e.nets[i])])
(* parts in any order, the last of a kind counts, missing ones have the usual value *)
PClassPart(n) ==
    IF ~HasName(n) THEN Bad
    ELSE LET k == NameOf(n) IN
         IF k = "add_net" THEN IF SingleS(n, k) THEN Good([f |-> k, x |-> n.l[2].a]) ELSE Bad
         ELSE IF k \in {"clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill",
                        "diff_pair_gap", "diff_pair_width"}
              THEN IF SingleF(n, k) THEN Good([f |-> k, x |-> n.l[2].f]) ELSE Bad
         ELSE Bad
PClass(n) ==
    LET c == ReqS(ReqS(Cur(n, "net_class"), "name"), "desc")
    IN IF ~c.ok THEN Bad
       ELSE LET q == AllOf(c.r, PClassPart)
                Fl(f) == LET o == LastOf(q.v, f) IN IF o = <<>> THEN ClassDefault[f] ELSE o[1]
                adds == SelectSeq(q.v, LAMBDA p : p.f = "add_net")
            IN IF ~q.ok THEN Bad
               ELSE Good([k |-> "net_class", name |-> c.v.name, desc |-> c.v.desc,
                          clearance |-> Fl("clearance"), trace_width |-> Fl("trace_width"),
                          via_dia |-> Fl("via_dia"), via_drill |-> Fl("via_drill"),
                          uvia_dia |-> Fl("uvia_dia"), uvia_drill |-> Fl("uvia_drill"),
                          diff_pair_gap |-> LastOf(q.v, "diff_pair_gap"),
                          diff_pair_width |-> LastOf(q.v, "diff_pair_width"),
                          nets |-> [i \in 1..Len(adds) |-> adds[i].x]])

(* -------------------------------- drawings ------------------------------- *)
SGrText(t) == NL("gr_text", <<A(t.value), SAt(t.at), SLayer(t.layer), SEffects(t.effects)>> \o OptSer("tstamp", t.tstamp))
PGrText(n) ==
    LET c == ReqT(ReqT(ReqT(ReqS(Cur(n, "gr_text"), "value"), "at", PAt), "layer", PLayer), "effects", PEffects)
    IN Kind("gr_text", Close(OptSL(c, "tstamp", "tstamp")))
SGrLine(e) ==
    NL(e.k, <<SXy(e.start), SXy(e.end), N1("angle", e.angle), SLayer(e.layer), N1("width", e.width)>> \o OptSer("tstamp", e.tstamp))
PGrTail(c) == Close(OptSL(OptFL(ReqT(c, "layer", PLayer), "width", "width", "0"), "tstamp", "tstamp"))
PGrLine(n) ==
    Kind("gr_line", PGrTail(OptFL(ReqT(ReqT(Cur(n, "gr_line"), "start", PXyAny), "end", PXyAny), "angle", "angle", "0")))
PGrArc(n) ==
    Kind("gr_arc", PGrTail(ReqFL(ReqT(ReqT(Cur(n, "gr_arc"), "start", PXyAny), "end", PXyAny), "angle", "angle")))
SGrCircle(e) ==
    NL("gr_circle", <<SXy(e.center), SXy(e.end), SLayer(e.layer), N1("width", e.width)>> \o OptSer("tstamp", e.tstamp))
PGrCircle(n) ==
    Kind("gr_circle", PGrTail(ReqT(ReqT(Cur(n, "gr_circle"), "center", PXyAny), "end", PXyAny)))

DimParts == <<"feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b">>
SDimension(e) ==
    NL("dimension", <<A(e.name), N1("width", e.width), SLayer(e.layer)>> \o OptSer("tstamp", e.tstamp)
                    \o <<SGrText(e.text)>>
                    \o [i \in 1..7 |-> NL(DimParts[i], <<SPts(e[DimParts[i]])>>)])
PPtsIn(n, name) == IF Single(n, name) THEN PPts(n.l[2]) ELSE Bad
PDimension(n) ==
    LET c1 == ReqT(ReqFL(ReqS(Cur(n, "dimension"), "name"), "width", "width"), "layer", PLayer)
        c2 == ReqT(OptSL(c1, "tstamp", "tstamp"), "text", PGrText)
    IN Kind("dimension", Close(FoldLeft(LAMBDA c, f : ReqT(c, f, LAMBDA m : PPtsIn(m, f)), c2, DimParts)))

(* --------------------------------- tracks -------------------------------- *)
SSegment(e) ==
    NL("segment", <<SXy(e.start), SXy(e.end), N1("width", e.width), SLayer(e.layer), N1("net", e.net)>>
                  \o OptSer("tstamp", e.tstamp) \o OptSer("status", e.status))
PSegment(n) ==
    LET c == ReqFL(ReqT(ReqT(Cur(n, "segment"), "start", PXyAny), "end", PXyAny), "width", "width")
    IN Kind("segment", Close(OptSL(OptSL(ReqIL(ReqT(c, "layer", PLayer), "net", "net"), "tstamp", "tstamp"), "status", "status")))
SVia(e) ==
    NL("via", (IF e.blind THEN <<A("blind")>> ELSE <<>>) \o (IF e.micro THEN <<A("micro")>> ELSE <<>>)
              \o <<SAt(e.at), N1("size", e.size)>>
              \o (IF Zero(e.drill) THEN <<>> ELSE <<N1("drill", e.drill)>>)
              \o <<SLayers(e.layers), N1("net", e.net)>>)
PVia(n) ==
    LET c == ReqFL(ReqT(Lit(Lit(Cur(n, "via"), "blind", "blind"), "micro", "micro"), "at", PAt), "size", "size")
    IN Kind("via", Close(OptIL(ReqT(OptFL(c, "drill", "drill", "0"), "layers", PLayers), "net", "net", "0")))

(* --------------------------------- zones --------------------------------- *)
SAllowed(name, b) == N1(name, IF b THEN "allowed" ELSE "not_allowed")
PAllowed(n, name) ==
    IF SingleS(n, name) THEN IF n.l[2].a = "allowed" THEN Good(TRUE)
                             ELSE IF n.l[2].a = "not_allowed" THEN Good(FALSE) ELSE Bad
    ELSE Bad
PKeepout(n) ==
    Close(ReqT(ReqT(ReqT(Cur(n, "keepout"), "tracks", LAMBDA m : PAllowed(m, "tracks")),
                    "vias", LAMBDA m : PAllowed(m, "vias")), "copperpour", LAMBDA m : PAllowed(m, "copperpour")))
SFill(f) ==
    NL("fill", (IF f.filled THEN <<A("yes")>> ELSE <<>>) \o (IF f.segment THEN <<N1("mode", "segment")>> ELSE <<>>)
               \o <<N1("arc_segments", f.arc_segments), N1("thermal_gap", f.thermal_gap),
                    N1("thermal_bridge_width", f.thermal_bridge_width)>>
               \o OptSer("smoothing", f.smoothing)
               \o (IF Zero(f.corner_radius) THEN <<>> ELSE <<N1("radius", f.corner_radius)>>))
PMode(n) ==
    IF SingleS(n, "mode") THEN IF n.l[2].a = "segment" THEN Good(TRUE)
                               ELSE IF n.l[2].a = "polygon" THEN Good(FALSE) ELSE Bad
    ELSE Bad
PFill(n) ==
    LET c1 == OptT(Lit(Cur(n, "fill"), "filled", "yes"), "segment", PMode, FALSE)
        c2 == ReqFL(ReqFL(ReqIL(c1, "arc_segments", "arc_segments"), "thermal_gap", "thermal_gap"),
                    "thermal_bridge_width", "thermal_bridge_width")
    IN Close(OptFL(OptSL(c2, "smoothing", "smoothing"), "corner_radius", "radius", "0"))
PHatch(n) == Close(ReqF(ReqS(Cur(n, "hatch"), "style"), "pitch"))
PConnect(n) == Close(ReqFL(OptS(Cur(n, "connect_pads"), "connection"), "clearance", "clearance"))

SZone(z) ==
    NL("zone",
       <<N1("net", z.net), N1("net_name", z.net_name), SLayer(z.layer), N1("tstamp", z.tstamp),
         N2("hatch", z.hatch.style, z.hatch.pitch)>>
       \o (IF z.priority = "0" THEN <<>> ELSE <<N1("priority", z.priority)>>)
       \o <<NL("connect_pads", (IF z.connect_pads.connection = <<>> THEN <<>> ELSE <<A(z.connect_pads.connection[1])>>)
                               \o <<N1("clearance", z.connect_pads.clearance)>>),
            N1("min_thickness", z.min_thickness)>>
       \o (IF z.keepout = <<>> THEN <<>>
           ELSE <<NL("keepout", <<SAllowed("tracks", z.keepout[1].tracks), SAllowed("vias", z.keepout[1].vias),
                                  SAllowed("copperpour", z.keepout[1].copperpour)>>)>>)
       \o <<SFill(z.fill)>>
       \o [i \in 1..Len(z.polygons) |-> NL("polygon", <<SPts(z.polygons[i])>>)]
       \o [i \in 1..Len(z.filled_polygons) |-> NL("filled_polygon", <<SPts(z.filled_polygons[i])>>)]
       \o (IF z.fill_segments = <<>> THEN <<>> ELSE <<NL("fill_segments", <<SPts(z.fill_segments[1])>>)>>)
       \o z.other)

(* outlines, fills and what else a zone holds; a second list of fill segments is kept as it is *)
PZone(n) ==
    LET c1 == ReqT(ReqSL(ReqIL(Cur(n, "zone"), "net", "net"), "net_name", "net_name"), "layer", PLayer)
        c2 == ReqT(ReqSL(c1, "tstamp", "tstamp"), "hatch", PHatch)
        c3 == ReqT(OptIL(c2, "priority", "priority", "0"), "connect_pads", PConnect)
        c4 == ReqT(OptQ(ReqFL(c3, "min_thickness", "min_thickness"), "keepout", PKeepout), "fill", PFill)
    IN IF ~c4.ok THEN Bad
       ELSE IF SubSeq(c4.v.priority, 1, 1) = "-" THEN Bad
       ELSE LET IsPts(m, name) == PPtsIn(m, name).ok
                poly == SelectSeq(c4.r, LAMBDA m : IsPts(m, "polygon"))
                filled == SelectSeq(c4.r, LAMBDA m : IsPts(m, "filled_polygon"))
                segs == SelectSeq(c4.r, LAMBDA m : IsPts(m, "fill_segments"))
                firstSeg == IF segs = <<>> THEN 0
                            ELSE CHOOSE i \in 1..Len(c4.r) :
                                   IsPts(c4.r[i], "fill_segments") /\ \A j \in 1..(i-1) : ~IsPts(c4.r[j], "fill_segments")
                rest == SelectSeq([i \in 1..Len(c4.r) |-> <<i, c4.r[i]>>],
                                  LAMBDA q : ~IsPts(q[2], "polygon") /\ ~IsPts(q[2], "filled_polygon") /\ q[1] # firstSeg)
            IN Good([k |-> "zone", polygons |-> [i \in 1..Len(poly) |-> PPts(poly[i].l[2]).v],
                     filled_polygons |-> [i \in 1..Len(filled) |-> PPts(filled[i].l[2]).v],
                     fill_segments |-> IF segs = <<>> THEN <<>> ELSE <<PPts(segs[1].l[2]).v>>,
                     other |-> [i \in 1..Len(rest) |-> Plain(rest[i][2])]] @@ c4.v)

(* --------------------------------- boards -------------------------------- *)
SElement(e) ==
    CASE e.k = "module" -> SFootprint(e.v)
      [] e.k = "net" -> SNet(e)
      [] e.k = "net_class" -> SClass(e)
      [] e.k = "gr_text" -> SGrText(e)
      [] e.k \in {"gr_line", "gr_arc"} -> SGrLine(e)
      [] e.k = "gr_circle" -> SGrCircle(e)
      [] e.k = "dimension" -> SDimension(e)
      [] e.k = "segment" -> SSegment(e)
      [] e.k = "via" -> SVia(e)
      [] e.k = "zone" -> SZone(e)
      [] e.k = "other" -> e.v

SBoard(d) ==
    NL("kicad_pcb",
       <<N1("version", d.version), N2("host", d.host.tool, d.host.build), SGeneral(d.general), N1("page", d.page),
         NL("layers", [i \in 1..Len(d.layers) |-> SBoardLayer(d.layers[i])]), SSetup(d.setup, d.plot)>>
       \o [i \in 1..Len(d.el) |-> SElement(d.el[i])])

HeadNames == {"version", "host", "general", "page", "layers", "setup"}
PElement(n) ==
    IF ~HasName(n) THEN Bad
    ELSE LET k == NameOf(n) IN
         CASE k = "module" -> KindV(k, PFootprint(n))
           [] k = "net" -> Kind(k, PNet(n))
           [] k = "net_class" -> PClass(n)
           [] k = "gr_text" -> PGrText(n)
           [] k = "gr_line" -> PGrLine(n)
           [] k = "gr_arc" -> PGrArc(n)
           [] k = "gr_circle" -> PGrCircle(n)
           [] k = "dimension" -> PDimension(n)
           [] k = "segment" -> PSegment(n)
           [] k = "via" -> PVia(n)
           [] k = "zone" -> PZone(n)
           [] OTHER -> Good([k |-> "other", v |-> Plain(n)])
PBoardLayers(n) == AllOf(Tail(n.l), PBoardLayer)
PHead(n) ==
    LET k == NameOf(n) IN
    CASE k = "version" -> IF SingleI(n, k) THEN Good(n.l[2].i) ELSE Bad
      [] k = "page" -> IF SingleS(n, k) THEN Good(n.l[2].a) ELSE Bad
      [] k = "host" -> PHost(n)
      [] k = "general" -> PGeneral(n)
      [] k = "layers" -> PBoardLayers(n)
      [] k = "setup" -> PSetup(n)

PBoard(n) ==
    IF ~Named(n, "kicad_pcb") THEN Bad
    ELSE IF \E i \in 2..Len(n.l) : ~HasName(n.l[i]) THEN Bad
    ELSE LET heads == SelectSeq(Tail(n.l), LAMBDA m : NameOf(m) \in HeadNames)
             items == SelectSeq(Tail(n.l), LAMBDA m : NameOf(m) \notin HeadNames)
             hq == [i \in 1..Len(heads) |-> PHead(heads[i])]
             q == AllOf(items, PElement)
             Latest(k, d) == LET at == {i \in 1..Len(heads) : NameOf(heads[i]) = k}
                           IN IF at = {} THEN d ELSE hq[CHOOSE i \in at : \A j \in at : j <= i].v
             su == Latest("setup", [setup |-> <<>>, plot |-> <<>>])
         IN IF ~q.ok \/ \E i \in 1..Len(heads) : ~hq[i].ok THEN Bad
            ELSE Good([version |-> Latest("version", "4"), host |-> Latest("host", [tool |-> "pcbnew", build |-> "custom"]),
                       general |-> Latest("general", NoGeneral), page |-> Latest("page", "A4"),
                       layers |-> Latest("layers", <<>>), setup |-> su.setup, plot |-> su.plot, el |-> q.v])

(* ----------------------------- library tables ---------------------------- *)
LibFields == <<"name", "type", "uri", "options", "descr">>
SLib(b) == NL("lib", [i \in 1..5 |-> N1(LibFields[i], b[LibFields[i]])])
PLib(n) == Close(FoldLeft(LAMBDA c, f : ReqSL(c, f, f), Cur(n, "lib"), LibFields))
STable(d) == NL("fp_lib_table", [i \in 1..Len(d) |-> SLib(d[i])])
PTable(n) == IF Named(n, "fp_lib_table") THEN AllOf(Tail(n.l), PLib) ELSE Bad
==============================================================================
